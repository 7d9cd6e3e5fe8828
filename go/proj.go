package main

// Projections between the implementation's values and the specification's.

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
)

type M = map[string]any

// runeText shows one rune in printable ASCII, without ambiguity.
func runeText(r rune, size int, b byte) string {
	switch {
	case r == utf8.RuneError && size <= 1:
		return fmt.Sprintf("\\x%02x", b)
	case r == '\\' || r < 0x20 || r == 0x7f || (r >= 0x80 && r <= 0xffff):
		return fmt.Sprintf("\\u%04x", r)
	case r > 0xffff:
		return fmt.Sprintf("\\U%08x", r)
	}
	return string(r)
}

func chars(s string) []string {
	out := []string{}
	for len(s) > 0 {
		r, size := utf8.DecodeRuneInString(s)
		out = append(out, runeText(r, size, s[0]))
		s = s[size:]
	}
	return out
}

func ascii(s string) string { return strings.Join(chars(s), "") }

func canonNum(f float64) string {
	if f == 0 {
		return "0"
	}
	if math.IsNaN(f) {
		return "NaN"
	}
	return strconv.FormatFloat(f, 'g', -1, 64)
}

// tsMap maps the timestamps of scripts and traces to those given to the code.
type tsMap struct {
	Base int64 `json:"base"`
	Mult int64 `json:"mult"`
}

const tsTop = 1000000

func (m tsMap) up(t int64) int64 {
	switch {
	case t == tsTop:
		return math.MaxInt64
	case t == -tsTop:
		return math.MinInt64
	case t <= 0 || m.Mult == 0:
		return t
	}
	return m.Base + m.Mult*t
}

func (m tsMap) down(t int64) int64 {
	switch {
	case t == math.MaxInt64:
		return tsTop
	case t == math.MinInt64:
		return -tsTop
	case t <= 0 && t > -tsTop:
		return t
	case m.Mult == 0 && t < tsTop:
		return t
	case m.Mult != 0 && t > m.Base && (t-m.Base)%m.Mult == 0 && (t-m.Base)/m.Mult < tsTop:
		return (t - m.Base) / m.Mult
	}
	return 7777777 // not a timestamp of the script
}

// tsFn turns a timestamp into what the trace shows.
type tsFn func(int64) any

// limbs splits a timestamp into three parts that TLC's integers can hold.
func limbs(t int64) any {
	lo := t & (1<<21 - 1)
	mid := (t >> 21) & (1<<21 - 1)
	hi := t >> 42
	return []int64{hi, mid, lo}
}

func node(v tson.Value, f tsFn) any {
	switch n := v.(type) {
	case nil:
		return M{"k": "Z"}
	case tson.Leaf[string]:
		return M{"k": "S", "v": ascii(n.Value), "t": f(n.Timestamp)}
	case tson.Leaf[float64]:
		return M{"k": "N", "v": canonNum(n.Value), "t": f(n.Timestamp)}
	case tson.Leaf[bool]:
		return M{"k": "B", "v": strconv.FormatBool(n.Value), "t": f(n.Timestamp)}
	case tson.Object:
		if n == nil { // written as null
			return M{"k": "Z"}
		}
		m := M{}
		for k, c := range n {
			m[ascii(k)] = node(c, f)
		}
		return M{"k": "O", "m": m}
	case tson.Array:
		if n == nil {
			return M{"k": "Z"}
		}
		e := []any{}
		for _, c := range n {
			e = append(e, node(c, f))
		}
		return M{"k": "A", "e": e}
	}
	return M{"k": "X", "v": ascii(fmt.Sprintf("%T", v))}
}

func value(v any, f tsFn) any {
	switch n := v.(type) {
	case nil:
		return M{"k": "Z"}
	case string:
		return M{"k": "S", "v": ascii(n)}
	case float64:
		return M{"k": "N", "v": canonNum(n)}
	case int:
		return M{"k": "I", "v": canonNum(float64(n))}
	case bool:
		return M{"k": "B", "v": strconv.FormatBool(n)}
	case tson.Value:
		return M{"k": "L", "n": node(n, f)}
	}
	b, _ := json.Marshal(v)
	return M{"k": "X", "v": ascii(fmt.Sprintf("%T %s", v, b))}
}

// projector collects the path texts it meets.
type projector struct {
	f     tsFn
	paths map[string][]string
}

func newProjector(f tsFn) *projector { return &projector{f, map[string][]string{}} }

func (p *projector) path(s string) string {
	a := ascii(s)
	p.paths[a] = chars(s)
	return a
}

func (p *projector) op(o tsonpatch.Operation) any {
	return M{"op": ascii(string(o.Op)), "path": p.path(o.Path), "val": value(o.Value, p.f), "ts": p.f(o.Timestamp)}
}

func (p *projector) ops(os []tsonpatch.Operation) []any {
	out := []any{}
	for _, o := range os {
		out = append(out, p.op(o))
	}
	return out
}

func (p *projector) node(v tson.Value) any { return node(v, p.f) }

// ---- scripts to implementation values

// N is a document node of a script.
type N struct {
	K string       `json:"k"`
	V string       `json:"v"`
	T int64        `json:"t"`
	M map[string]N `json:"m"`
	E []N          `json:"e"`
}

// V is an operation value of a script.
type V struct {
	K string `json:"k"`
	V string `json:"v"`
}

// O is an operation of a script.
type O struct {
	Op   string `json:"op"`
	Path string `json:"path"`
	Val  V      `json:"val"`
	Ts   int64  `json:"ts"`
}

func num(s string) float64 {
	f, err := strconv.ParseFloat(s, 64)
	if err != nil {
		panic("script number " + s)
	}
	return f
}

func build(n N, m func(int64) int64) tson.Value {
	switch n.K {
	case "S":
		return tson.Leaf[string]{Value: n.V, Timestamp: m(n.T)}
	case "N":
		return tson.Leaf[float64]{Value: num(n.V), Timestamp: m(n.T)}
	case "B":
		return tson.Leaf[bool]{Value: n.V == "true", Timestamp: m(n.T)}
	case "O":
		o := tson.Object{}
		for k, c := range n.M {
			o[k] = build(c, m)
		}
		return o
	case "A":
		a := make(tson.Array, 0, len(n.E)+2)
		for _, c := range n.E {
			a = append(a, build(c, m))
		}
		return a
	}
	return nil
}

func buildVal(v V) any {
	switch v.K {
	case "S":
		return v.V
	case "N":
		return num(v.V)
	case "I":
		i, err := strconv.Atoi(v.V)
		if err != nil {
			panic("script int " + v.V)
		}
		return i
	case "B":
		return v.V == "true"
	case "L":
		return tson.Leaf[string]{Value: v.V, Timestamp: 1}
	case "X":
		return map[string]any{"x": v.V}
	}
	return nil
}

func buildOp(o O, m func(int64) int64) tsonpatch.Operation {
	return tsonpatch.Operation{Op: tsonpatch.OpType(o.Op), Path: o.Path, Value: buildVal(o.Val), Timestamp: m(o.Ts)}
}

func buildOps(os []O, m func(int64) int64) tsonpatch.Patch {
	p := make(tsonpatch.Patch, 0, len(os)+3) // spare room, to make aliasing show
	for _, o := range os {
		p = append(p, buildOp(o, m))
	}
	return p
}

// patchText writes operations as documented patch text.
func patchText(ops tsonpatch.Patch) []byte {
	var list []any
	for _, o := range ops {
		e := M{"op": string(o.Op), "path": o.Path, "timestamp": o.Timestamp}
		if o.Value != nil {
			e["value"] = o.Value
		}
		list = append(list, e)
	}
	if list == nil {
		list = []any{}
	}
	b, err := json.Marshal(list)
	if err != nil {
		panic(err)
	}
	return b
}

// tsonText writes a document as TSON text; a negative timestamp is absent.
func tsonText(v tson.Value) string {
	ts := func(t int64) string {
		if t < 0 {
			return "<>"
		}
		return fmt.Sprintf("<%d>", t)
	}
	var prim func(v tson.Value) (string, int64, bool)
	prim = func(v tson.Value) (string, int64, bool) {
		switch n := v.(type) {
		case tson.Leaf[string]:
			b, _ := json.Marshal(n.Value)
			return string(b), n.Timestamp, true
		case tson.Leaf[float64]:
			b, _ := json.Marshal(n.Value)
			return string(b), n.Timestamp, true
		case tson.Leaf[bool]:
			return strconv.FormatBool(n.Value), n.Timestamp, true
		}
		return "", 0, false
	}
	var write func(v tson.Value) string
	write = func(v tson.Value) string {
		if s, t, ok := prim(v); ok {
			return s + " " + ts(t)
		}
		switch n := v.(type) {
		case tson.Object:
			keys := []string{}
			for k := range n {
				keys = append(keys, k)
			}
			sort.Strings(keys)
			parts := []string{}
			for _, k := range keys {
				kb, _ := json.Marshal(k)
				if s, t, ok := prim(n[k]); ok {
					parts = append(parts, string(kb)+" "+ts(t)+": "+s)
				} else {
					parts = append(parts, string(kb)+": "+write(n[k]))
				}
			}
			return "{" + strings.Join(parts, ", ") + "}"
		case tson.Array:
			parts := []string{}
			for _, c := range n {
				if s, t, ok := prim(c); ok {
					parts = append(parts, ts(t)+" "+s)
				} else {
					parts = append(parts, write(c))
				}
			}
			return "[" + strings.Join(parts, ", ") + "]"
		}
		return "null"
	}
	return write(v)
}

func noNegative(v tson.Value) tson.Value {
	ts := func(t int64) int64 {
		if t < 0 {
			return -1
		}
		return t
	}
	switch n := v.(type) {
	case tson.Leaf[string]:
		n.Timestamp = ts(n.Timestamp)
		return n
	case tson.Leaf[float64]:
		n.Timestamp = ts(n.Timestamp)
		return n
	case tson.Leaf[bool]:
		n.Timestamp = ts(n.Timestamp)
		return n
	case tson.Object:
		o := tson.Object{}
		for k, c := range n {
			o[k] = noNegative(c)
		}
		return o
	case tson.Array:
		a := tson.Array{}
		for _, c := range n {
			a = append(a, noNegative(c))
		}
		return a
	}
	return v
}

func js(v any) string {
	b, err := json.Marshal(v)
	if err != nil {
		panic(err)
	}
	return string(b)
}
