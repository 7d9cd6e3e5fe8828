package main

import (
	"encoding/json"
	"fmt"
	"math"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/exp"
)

func init() { modes["tquery"] = tqueryMode }

type tqueryScript struct {
	Sid  int   `json:"sid"`
	Base int64 `json:"base"`
	Init []struct {
		P []string `json:"p"`
		V any      `json:"v"`
	} `json:"init"`
	Ops []struct {
		Op string `json:"op"`
		P  string `json:"p"`
		V  any    `json:"v"`
		T  int64  `json:"t"`
	} `json:"ops"`
	Snaps []int64 `json:"snaps"`
	After []int   `json:"after"`
	Qs    []struct {
		C  string   `json:"c"`
		Ps []string `json:"ps"`
		A  int64    `json:"a"`
		B  int64    `json:"b"`
		Ns []int    `json:"ns"`
	} `json:"qs"`
}

func jsonSize(v any) int {
	b, _ := json.Marshal(v)
	return len(b)
}

func tqueryMode(line []byte) []any {
	var s tqueryScript
	if err := json.Unmarshal(line, &s); err != nil {
		panic(err)
	}
	ops, given := []map[string]any{}, []exp.TsonPatch{}
	doc := map[string]any{}
	for i, o := range s.Init {
		was := o.V
		if was == nil { // read as an empty text
			was = ""
		}
		ops = append(ops, map[string]any{"op": "init", "p": ascii(strings.Join(o.P, ".")), "v": show(was), "t": 0})
		at := doc
		for _, k := range o.P[:len(o.P)-1] {
			if at[k] == nil {
				at[k] = map[string]any{}
			}
			at = at[k].(map[string]any)
		}
		at[o.P[len(o.P)-1]] = map[string]any{"value": o.V, "timestamp": 1795123291603885454 + i}
	}
	for _, o := range s.Ops {
		ops = append(ops, map[string]any{"op": o.Op, "p": ascii(o.P), "v": show(o.V), "t": o.T})
		given = append(given, exp.TsonPatch{Op: o.Op, Path: o.P, Value: o.V, Timestamp: o.T + s.Base})
	}
	copied := append([]exp.TsonPatch{}, given...)
	home, _ := os.Getwd()
	dir, err := os.MkdirTemp(home, "tq")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(dir)
	b, _ := json.MarshalIndent(listed(doc), "", "  ")
	if err := os.WriteFile(filepath.Join(dir, "initial_json.json"), b, 0o644); err != nil {
		panic(err)
	}
	ev := []map[string]any{}
	add := func(e map[string]any) { e["tag"] = "C29"; ev = append(ev, e) }
	var x *exp.TemporalQueryExperiment
	mark("build")
	out, why := guarded(func() (err error) {
		x, err = exp.NewTemporalQueryExperiment(dir, filepath.Join(dir, "out"), "some scenario", given)
		return
	})
	add(map[string]any{"c": "build", "out": out, "why": why, "kept": reflect.DeepEqual(given, copied)})
	if out != "ok" {
		return []any{map[string]any{"sid": s.Sid, "paths": map[string]any{}, "ops": ops, "ev": ev}}
	}
	read := func(file string) any {
		var v any
		readJSON(file, &v, false)
		return v
	}
	sizes := func(r exp.TemporalQueryResult, l, t any) {
		add(map[string]any{"c": "sizes", "out": "ok", "told": []int{r.LogumentResultSize, r.TJSONResultSize}, "measured": []int{jsonSize(l), jsonSize(t)}})
	}
	all := []exp.TemporalQueryResult{}
	mark("snapshot")
	if len(s.Snaps) > 0 {
		var rs []exp.TemporalQueryResult
		ts := []int64{}
		for _, t := range s.Snaps {
			ts = append(ts, t+s.Base)
		}
		out, why = guarded(func() (err error) { rs, err = x.RunTemporalSnapshotExperiment(ts); return })
		if out == "ok" && len(rs) != len(ts) {
			out, why = "refused", "number of answers"
		}
		all = append(all, rs...)
		for i, t := range s.Snaps {
			for _, who := range []string{"logument", "tjson"} {
				e := map[string]any{"c": "snapshot", "who": who, "t": t, "out": out, "why": why, "res": []int{}}
				if out == "ok" {
					e["out"], e["why"] = guarded(func() error {
						if who == "tjson" {
							v := read(rs[i].TJSONResultFile)
							if m, ok := v.(map[string]any); !ok || len(m) > 0 {
								e["res"] = flatSorted(v)
							}
							return nil
						}
						res := []map[string]any{}
						stripped("", read(rs[i].LogumentResultFile), &res)
						sort.Slice(res, func(i, j int) bool { return res[i]["p"].(string) < res[j]["p"].(string) })
						e["res"] = res
						return nil
					})
				}
				add(e)
			}
			if out == "ok" {
				if o, _ := guarded(func() error { sizes(rs[i], read(rs[i].LogumentResultFile), read(rs[i].TJSONResultFile)); return nil }); o != "ok" {
					add(map[string]any{"c": "sizes", "out": o, "told": 0, "measured": 1})
				}
			}
		}
	}
	for _, q := range s.Qs {
		mark(q.C)
		var rs []exp.TemporalQueryResult
		want := len(q.Ps)
		if q.C == "track" {
			out, why = guarded(func() (err error) { rs, err = x.RunTemporalTrackExperiment(q.Ps, q.A+s.Base, q.B+s.Base); return })
		} else {
			th := []float64{}
			for _, n := range q.Ns {
				th = append(th, float64(n)/4)
			}
			want *= len(th)
			out, why = guarded(func() (err error) { rs, err = x.RunEventSearchExperiment(q.Ps, q.A+s.Base, q.B+s.Base, th); return })
		}
		all = append(all, rs...)
		if out == "ok" && len(rs) != want {
			out, why = "refused", fmt.Sprint("number of answers: ", len(rs))
		}
		if out != "ok" {
			add(map[string]any{"c": "optrack", "p": ascii(q.Ps[0]), "a": q.A, "b": q.B, "os": []int{}, "out": out, "why": why})
			continue
		}
		for i, r := range rs {
			e1 := map[string]any{"a": q.A, "b": q.B}
			e2 := map[string]any{"a": q.A, "b": q.B}
			if q.C == "track" {
				p := ascii(q.Ps[i])
				e1["c"], e1["p"], e1["os"] = "optrack", p, []int{}
				e2["c"], e2["p"], e2["ps"] = "track", p, []int{}
				e1["out"], e1["why"] = guarded(func() error {
					os := []map[string]any{}
					vs := read(r.LogumentResultFile).(map[string]any)
					order := []int{}
					for k := range vs {
						n, err := strconv.Atoi(k)
						if err != nil {
							return err
						}
						order = append(order, n)
					}
					sort.Ints(order)
					for _, n := range order {
						for _, o := range vs[strconv.Itoa(n)].([]any) {
							m := o.(map[string]any)
							os = append(os, map[string]any{"op": ascii(fmt.Sprint(m["op"])), "t": int64(m["timestamp"].(float64)) - s.Base, "v": show(m["value"])})
						}
					}
					e1["os"] = os
					return nil
				})
				e2["out"], e2["why"] = guarded(func() error {
					ps := []map[string]any{}
					for _, o := range read(r.TJSONResultFile).([]any) {
						ps = append(ps, o.(map[string]any))
					}
					shown, ok := periods(ps, s.Base)
					if !ok {
						return fmt.Errorf("unreadable period")
					}
					for _, p := range shown { // the initial values are there from time 0, whatever the base
						if p["s"].(int64) == -s.Base {
							p["s"] = int64(0)
						}
					}
					e2["ps"] = shown
					return nil
				})
			} else {
				p, n := ascii(q.Ps[i/len(q.Ns)]), q.Ns[i%len(q.Ns)]
				pred := map[string]any{"k": "over", "n": n, "v": tval{}}
				e1["c"], e1["p"], e1["pred"], e1["ts"] = "optimes", p, pred, []int{}
				e2["c"], e2["p"], e2["pred"], e2["es"] = "eventtimes", p, pred, []int{}
				e1["out"], e1["why"] = guarded(func() error { e1["ts"] = minus(sortedInts(read(r.LogumentResultFile)), s.Base); return nil })
				e2["out"], e2["why"] = guarded(func() error { e2["es"] = minus(sortedInts(read(r.TJSONResultFile)), s.Base); return nil })
			}
			add(e1)
			add(e2)
			if o, _ := guarded(func() error { sizes(r, read(r.LogumentResultFile), read(r.TJSONResultFile)); return nil }); o != "ok" {
				add(map[string]any{"c": "sizes", "out": o, "told": 0, "measured": 1})
			}
		}
	}
	mark("save")
	add(saved(x, all))
	if len(s.After) > 0 {
		mark("after")
		os.Chdir(dir)
		out, why = guarded(func() error { exp.CreateSnapshot("initial_json.json", given); return nil })
		os.Chdir(home)
		files, _ := os.ReadDir(filepath.Join(dir, "results/snapshots"))
		add(map[string]any{"c": "sizes", "out": out, "why": why, "told": len(files), "measured": len(s.Ops) + 1})
		for _, n := range s.After {
			e := map[string]any{"c": "after", "n": len(s.Init) + n, "out": out, "why": why, "res": []int{}}
			if out == "ok" {
				e["out"], e["why"] = guarded(func() error {
					res := []map[string]any{}
					stripped("", read(filepath.Join(dir, "results/snapshots", fmt.Sprintf("snapshot_%d.json", n))), &res)
					e["res"] = res
					return nil
				})
			}
			add(e)
		}
	}
	return []any{map[string]any{"sid": s.Sid, "paths": map[string]any{}, "ops": ops, "ev": ev}}
}

// saved writes the table of the results and reads it again.
func saved(x *exp.TemporalQueryExperiment, all []exp.TemporalQueryResult) map[string]any {
	small := func(n int64) int { return int(max(-2000000000, min(2000000000, n))) }
	want, rs := []map[string]any{}, []map[string]any{}
	for _, r := range all {
		want = append(want, map[string]any{"q": ascii(r.Scenario + "|" + r.QueryType + "|" + r.Parameter),
			"l": small(int64(r.LogumentResultSize)), "t": small(int64(r.TJSONResultSize)), "lt": small(r.LogumentTimeNs), "tt": small(r.TJSONTimeNs)})
	}
	e := map[string]any{"c": "saved", "want": want}
	e["out"], e["why"] = guarded(func() error {
		if err := x.SaveResults(all, "all results.csv"); err != nil {
			return err
		}
		col, lines := rows(filepath.Join(x.OutputDir, "all results.csv"))
		for _, line := range lines {
			num := func(c string, k float64) int {
				f, err := strconv.ParseFloat(line[col[c]], 64)
				if err != nil || f != f {
					return -2000000000
				}
				return small(int64(math.Round(max(-2e9, min(2e9, f*k)))))
			}
			text := func(c string) string { return line[col[c]] }
			rs = append(rs, map[string]any{"q": ascii(text("Scenario") + "|" + text("QueryType") + "|" + text("Parameter")),
				"l": num("LogumentResultSize", 1), "t": num("TJSONResultSize", 1), "lt": num("LogumentTimeNs", 1), "tt": num("TJSONTimeNs", 1),
				"ds": num("SizeDiffPct", 100), "dt": num("TimeDiffPct", 100)})
		}
		return nil
	})
	e["rows"] = rs
	return e
}

// listed makes arrays of the objects with members 0, 1, ...
func listed(v any) any {
	m, ok := v.(map[string]any)
	if !ok {
		return v
	}
	for k, c := range m {
		m[k] = listed(c)
	}
	list := []any{}
	for i := range len(m) {
		c, ok := m[strconv.Itoa(i)]
		if !ok {
			return m
		}
		list = append(list, c)
	}
	if len(list) == 0 {
		return m
	}
	return list
}

func minus(ts []int, base int64) []int {
	for i := range ts {
		ts[i] -= int(base)
		if ts[i] == -int(base) {
			ts[i] = 0
		}
	}
	return ts
}

// stripped lists the values of a document whose leaves have a value and a time.
func stripped(at string, v any, out *[]map[string]any) {
	if l, ok := v.([]any); ok {
		for i, c := range l {
			stripped(at+"."+strconv.Itoa(i), c, out)
		}
		return
	}
	m, ok := v.(map[string]any)
	if !ok {
		*out = append(*out, map[string]any{"p": ascii(at), "v": tval{"odd", ascii(fmt.Sprint(v)), 0}})
		return
	}
	if _, ok := m["timestamp"]; ok && len(m) == 2 {
		if x, ok := m["value"]; ok {
			*out = append(*out, map[string]any{"p": ascii(at), "v": show(x)})
			return
		}
	}
	for k, c := range m {
		p := k
		if at != "" {
			p = at + "." + k
		}
		stripped(p, c, out)
	}
}
