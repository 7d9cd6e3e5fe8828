package main

import (
	"encoding/json"
	"fmt"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
)

// A script of patch operations on a growing list of documents.
type patchScript struct {
	Sid   int         `json:"sid"`
	Ts    tsMap       `json:"tsmap"`
	Calls []patchCall `json:"calls"`
}

type patchCall struct {
	C string `json:"c"`
	I int    `json:"i"` // document: index from 1, or from the end (0 the last, -1 the one before)
	J int    `json:"j"`
	D *N     `json:"d"`
	O *O     `json:"o"`
	P []O    `json:"p"`
}

// strict tells errors from crashes.
func strict(f func() error) (out string, why string) {
	defer func() {
		if r := recover(); r != nil {
			out, why = "panic", ascii(fmt.Sprint(r))
		}
	}()
	if err := f(); err != nil {
		return "error", ascii(err.Error())
	}
	return "ok", ""
}

func init() { modes["patch"] = runPatch }

func runPatch(line []byte) []any {
	var s patchScript
	if err := json.Unmarshal(line, &s); err != nil {
		panic(err)
	}
	p := newProjector(func(t int64) any { return s.Ts.down(t) })
	var docs []tson.Tson
	var before []string // projections of the documents
	type given struct {
		ops  tsonpatch.Patch
		text string
	}
	var inputs []given
	var last tsonpatch.Patch // the patch generated last
	evs := []any{}
	at := func(i int) int {
		if i <= 0 {
			i += len(docs)
		}
		if i < 1 || i > len(docs) {
			i = 1
		}
		return i
	}
	keep := func(ops tsonpatch.Patch) {
		inputs = append(inputs, given{ops, js(p.ops(ops))})
	}
	add := func(d tson.Tson) any {
		n := p.node(d)
		docs = append(docs, d)
		before = append(before, js(n))
		return n
	}
	for _, c := range s.Calls {
		mark(c.C)
		ev := M{"c": c.C}
		i := at(c.I)
		var same tson.Tson // what a second goroutine got
		join := func() {}
		switch c.C {
		case "doc":
			d := build(*c.D, s.Ts.up)
			ev["out"] = "ok"
			ev["res"] = add(d)
		case "apply1":
			op := buildOp(*c.O, s.Ts.up)
			keep(tsonpatch.Patch{op})
			ev["i"], ev["o"] = i, p.op(op)
			var res tson.Tson
			ev["out"], ev["why"] = strict(func() (err error) { res, err = tsonpatch.ApplyOperation(docs[i-1], op); return })
			ev["res"] = p.node(nil)
			if ev["out"] == "ok" {
				ev["res"] = add(res)
			}
		case "apply", "follow":
			ops := buildOps(c.P, s.Ts.up)
			if c.C == "follow" {
				ops = last
			}
			ev["c"] = "apply"
			keep(ops)
			ev["i"], ev["p"] = i, p.ops(ops)
			var res tson.Tson
			on := docs[i-1]
			join = beside(func() { same, _ = tsonpatch.ApplyPatch(on, ops) })
			ev["out"], ev["why"] = strict(func() (err error) { res, err = tsonpatch.ApplyPatch(docs[i-1], ops); return })
			ev["res"] = p.node(nil)
			if ev["out"] == "ok" {
				ev["res"] = add(res)
			}
		case "diff", "difft":
			j := at(c.J)
			gen := tsonpatch.GeneratePatch
			if c.C == "difft" {
				gen = tsonpatch.GeneratePatchWithTimestamp
			}
			var ops tsonpatch.Patch
			from, to := docs[i-1], docs[j-1]
			join = beside(func() { gen(from, to) })
			ev["out"], ev["why"] = strict(func() (err error) { ops, err = gen(docs[i-1], docs[j-1]); return })
			if ev["out"] != "ok" {
				ops = nil
			}
			last = ops
			keep(ops)
			ev["i"], ev["j"], ev["p"] = i, j, p.ops(ops)
		default:
			panic("unknown call " + c.C)
		}
		drift := []any{}
		join()
		if same != nil && ev["out"] == "ok" && ev["res"] != nil && js(p.node(same)) != js(ev["res"]) {
			drift = append(drift, 0)
		}
		for k, d := range docs {
			if now := js(p.node(d)); now != before[k] {
				drift = append(drift, k+1)
				before[k] = now
			}
		}
		for k := range inputs {
			if now := js(p.ops(inputs[k].ops)); now != inputs[k].text {
				drift = append(drift, -k-1)
				inputs[k].text = now
			}
		}
		ev["drift"] = drift
		evs = append(evs, ev)
	}
	return []any{M{"sid": s.Sid, "paths": p.paths, "ev": evs}}
}
