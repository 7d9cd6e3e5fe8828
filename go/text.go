package main

import (
	"encoding/base64"
	"encoding/json"
	"errors"
	"regexp"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
)

// A script of independent calls on texts and documents.
type textScript struct {
	Sid   int        `json:"sid"`
	Calls []textCall `json:"calls"`
}

type textCall struct {
	C      string `json:"c"`
	S      string `json:"s"`
	B64    string `json:"b64"`
	Form   string `json:"form"`
	Prefix string `json:"prefix"`
	Indent string `json:"indent"`
	Path   string `json:"path"`
	D      *N     `json:"d"`
	D2     *N     `json:"d2"`
	P      []O    `json:"p"`
}

// decimal shows a timestamp as sign and digits.
func decimal(t int64) any {
	s := strconv.FormatInt(t, 10)
	out := []int{1}
	if strings.HasPrefix(s, "-") {
		out[0] = -1
		s = s[1:]
	}
	for _, c := range s {
		out = append(out, int(c-'0'))
	}
	return out
}

var numberText = regexp.MustCompile(`[0-9+\-.eE]*[0-9][0-9+\-.eE]*`)

// numberValues gives the canonical value of every number text in s.
func numberValues(s string) M {
	out := M{}
	for _, lex := range numberText.FindAllString(s, -1) {
		f, err := strconv.ParseFloat(lex, 64)
		switch {
		case err == nil:
			out[lex] = canonNum(f)
		case errors.Is(err, strconv.ErrRange):
			out[lex] = "range"
		default:
			out[lex] = "bad"
		}
	}
	return out
}

func jsonNode(v any) any {
	switch n := v.(type) {
	case nil:
		return M{"k": "Z"}
	case string:
		return M{"k": "S", "v": ascii(n)}
	case float64:
		return M{"k": "N", "v": canonNum(n)}
	case bool:
		return M{"k": "B", "v": strconv.FormatBool(n)}
	case map[string]any:
		m := M{}
		for k, c := range n {
			m[ascii(k)] = jsonNode(c)
		}
		return M{"k": "O", "m": m}
	case []any:
		e := []any{}
		for _, c := range n {
			e = append(e, jsonNode(c))
		}
		return M{"k": "A", "e": e}
	}
	return M{"k": "X", "v": ascii(js(v))}
}

func init() { modes["text"] = runText }

func runText(line []byte) []any {
	var s textScript
	if err := json.Unmarshal(line, &s); err != nil {
		panic(err)
	}
	p := newProjector(decimal)
	id := func(t int64) int64 { return t }
	evs := []any{}
	for _, c := range s.Calls {
		mark(c.C)
		ev := M{"c": c.C, "drift": []any{}}
		var d, d2, res tson.Tson
		var before, before2 string
		if c.D != nil {
			d = build(*c.D, id)
			before = js(p.node(d))
		}
		if c.D2 != nil {
			d2 = build(*c.D2, id)
			before2 = js(p.node(d2))
		}
		join := func() {}
		if c.D != nil { // another goroutine reads the document, too
			join = beside(func() {
				tson.Marshal(d)
				tson.GetValue(d, c.Path)
				tson.Equal(d, d2)
				tson.GetLatestTimestamp(d)
				tson.ToCompatibleTsonBytesSorted(d)
				tson.ToJsonBytes(d)
			})
		}
		switch c.C {
		case "parse":
			in := []byte(c.S)
			if c.B64 != "" {
				in, _ = base64.StdEncoding.DecodeString(c.B64)
			}
			text := string(in)
			ev["cs"], ev["nums"] = chars(text), numberValues(text)
			ev["out"], ev["why"] = strict(func() error { return tson.Unmarshal(in, &res) })
			if string(in) != text {
				ev["drift"] = []any{"text"}
			}
		case "round":
			var text []byte
			ev["doc"] = p.node(d)
			ev["out"], ev["why"] = strict(func() (err error) {
				if c.Form == "indent" {
					text, err = tson.MarshalIndent(d, c.Prefix, c.Indent)
				} else if c.Form == "object" {
					var o any
					if err = tson.ToCompatibleTson(d, &o); err == nil {
						text, err = tson.MarshalIndent(o, c.Prefix, c.Indent)
					}
				} else {
					text, err = tson.Marshal(d)
				}
				if err != nil {
					return err
				}
				return tson.Unmarshal(text, &res)
			})
			ev["cs"], ev["nums"] = chars(string(text)), numberValues(string(text))
		case "ptext":
			ops := buildOps(c.P, id)
			was := js(p.ops(ops))
			ev["p"], ev["form"] = p.ops(ops), c.Form
			var back tsonpatch.Patch
			ev["out"], ev["why"] = strict(func() (err error) {
				var b []byte
				each := func(write func(o tsonpatch.Operation) ([]byte, error)) error {
					for _, o := range ops {
						b, err := write(o)
						if err != nil {
							return err
						}
						var r tsonpatch.Operation
						if err := json.Unmarshal(b, &r); err != nil {
							return err
						}
						back = append(back, r)
					}
					return nil
				}
				switch c.Form {
				case "string":
					b = []byte(ops.String())
				case "indent":
					b, err = json.MarshalIndent(ops, "", "  ")
				case "fromjson":
					back, err = tsonpatch.FromJson(ops)
					return err
				case "opstring":
					return each(func(o tsonpatch.Operation) ([]byte, error) { return []byte(o.String()), nil })
				case "opmarshal":
					return each(func(o tsonpatch.Operation) ([]byte, error) { return o.Marshal() })
				case "opjson":
					return each(func(o tsonpatch.Operation) ([]byte, error) { return json.Marshal(o) })
				case "joined": // the operations' own texts, as one patch
					parts := []string{}
					for _, o := range ops {
						t, err := o.Marshal()
						if err != nil {
							return err
						}
						parts = append(parts, string(t))
					}
					b = []byte("[" + strings.Join(parts, ",") + "]")
				default:
					b, err = json.Marshal(ops)
				}
				if err != nil {
					return err
				}
				back, err = tsonpatch.Unmarshal(b)
				return err
			})
			ev["res"] = p.ops(back)
			if js(p.ops(ops)) != was {
				ev["drift"] = []any{"patch"}
			}
		case "stamped":
			ev["doc"], ev["form"] = p.node(d), c.Form
			ev["out"], ev["why"] = strict(func() (err error) {
				var b []byte
				switch c.Form {
				case "sorted":
					b, err = tson.ToCompatibleTsonBytesSorted(d)
				case "string":
					b = []byte(tson.ToCompatibleTsonString(d))
				case "object":
					var o any
					if err = tson.ToCompatibleTson(d, &o); err != nil {
						return err
					}
					b, err = json.Marshal(o)
				default:
					b, err = tson.ToCompatibleTsonBytes(d)
				}
				if err != nil {
					return err
				}
				return tson.FromCompatibleTsonBytes(b, &res)
			})
		case "plain":
			ev["doc"], ev["form"] = p.node(d), c.Form
			var j any
			var was string
			ev["out"], ev["why"] = strict(func() (err error) {
				if c.Form == "any" {
					if err = tson.ToJson(d, &j); err != nil {
						return err
					}
					was = js(jsonNode(j))
					return tson.FromJson(j, &res)
				}
				b, err := tson.ToJsonBytes(d)
				if err != nil {
					return err
				}
				if err = json.Unmarshal(b, &j); err != nil {
					return err
				}
				return tson.FromJsonBytes(b, &res)
			})
			ev["json"] = jsonNode(j)
			if was != "" && js(jsonNode(j)) != was {
				ev["drift"] = []any{"json"}
			}
		case "list":
			ev["doc"] = p.node(d)
			var list []any
			ev["out"], ev["why"] = strict(func() (err error) {
				a, ok := d.(tson.Array)
				if !ok {
					return errors.New("not an array")
				}
				list, err = tson.ToArray(a)
				return err
			})
			ev["json"] = jsonNode(list)
		case "get":
			ev["doc"], ev["path"] = p.node(d), p.path(c.Path)
			ev["out"], ev["why"] = strict(func() (err error) { res, err = tson.GetValue(d, c.Path); return })
		case "eq":
			ev["a"], ev["b"] = p.node(d), p.node(d2)
			var eq, eqv bool
			ev["out"], ev["why"] = strict(func() (err error) {
				if eq, err = tson.Equal(d, d2); err != nil {
					return err
				}
				eqv, err = tson.EqualWithoutTimestamp(d, d2)
				return err
			})
			ev["eq"], ev["eqv"] = eq, eqv
		case "latest":
			ev["doc"] = p.node(d)
			var t int64
			ev["out"], ev["why"] = strict(func() error { t = tson.GetLatestTimestamp(d); return nil })
			ev["t"] = decimal(t)
		default:
			panic("unknown call " + c.C)
		}
		join()
		if _, has := ev["res"]; !has {
			if ev["out"] != "ok" {
				res = nil
			}
			ev["res"] = p.node(res)
		}
		if (c.D != nil && js(p.node(d)) != before) || (c.D2 != nil && js(p.node(d2)) != before2) {
			ev["drift"] = []any{"document"}
		}
		evs = append(evs, ev)
	}
	return []any{M{"sid": s.Sid, "paths": p.paths, "ev": evs}}
}
