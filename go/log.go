package main

import (
	"encoding/json"
	"maps"
	"reflect"
	"slices"
	"sort"
	"sync"

	"github.com/CAU-CPSS/logument/internal/logument"
	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
)

// A script of calls on logs.
type logScript struct {
	Sid    int       `json:"sid"`
	Ts     tsMap     `json:"tsmap"`
	Repeat int       `json:"repeat"`
	Calls  []logCall `json:"calls"`
	Par    []int     `json:"par"` // from, to: these calls run at the same time, those on one log in order
}

type logCall struct {
	C       string    `json:"c"`
	L       int       `json:"l"`  // slot of the log
	To      int       `json:"to"` // slot of the new log (new, slice, tslice)
	Form    string    `json:"form"`
	Raw     string    `json:"raw"`
	Bad     bool      `json:"bad"`
	D       *N        `json:"d"`
	P       []O       `json:"p"`
	Cut     []int     `json:"cut"` // list form: lengths of the patches
	H       int       `json:"h"`   // reuse form: index of an earlier store
	O       *O        `json:"o"`
	V       int64     `json:"v"`
	Vj      int64     `json:"vj"`
	T       int64     `json:"t"`
	Tj      int64     `json:"tj"`
	Path    string    `json:"path"`
	Rel     []float64 `json:"rel"`     // versions relative to those of the log
	Batches [][]O     `json:"batches"` // bulk: patches, each stored
	Every   int       `json:"every"`   // bulk: appended after this many stores
	Vs      []int64   `json:"vs"`      // sweep: snapshots of these versions, one after the other
}

type held struct {
	what string
	val  any
	get  func() any
}

type logRun struct {
	p      *projector
	ts     tsMap
	logs   []*logument.Logument
	prev   []string // projections, as text
	slot   map[int]int
	held   []held
	inputs []any
	inOps  [][]tsonpatch.Operation
	only   int // the log (from 1) that this run is about, among others running
}

func (r *logRun) state(l *logument.Logument) any {
	pairs := func(n int, keys []uint64, get func(uint64) any) []any {
		sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
		out := []any{}
		for _, k := range keys {
			out = append(out, []any{small(k), get(k)})
		}
		return out
	}
	var sk, pk []uint64
	for k := range l.Snapshots {
		sk = append(sk, k)
	}
	for k := range l.Patches {
		pk = append(pk, k)
	}
	ver := []any{}
	for _, v := range l.Version {
		ver = append(ver, small(v))
	}
	return M{
		"ver":   ver,
		"cur":   r.p.node(l.CurrentState),
		"snaps": pairs(len(sk), sk, func(k uint64) any { return r.p.node(l.Snapshots[k]) }),
		"pat":   pairs(len(pk), pk, func(k uint64) any { return r.p.ops(l.Patches[k]) }),
		"pool":  M{"nil": l.PatchPool == nil, "ops": r.p.ops(l.PatchPool)},
	}
}

func small(v uint64) int64 {
	if v > 900000 {
		return 999999
	}
	return int64(v)
}

func (r *logRun) hold(what string, get func() any) {
	r.held = append(r.held, held{what, js(get()), get})
}

func (r *logRun) trackRes(res map[uint64]tsonpatch.Patch) any {
	var keys []uint64
	for k := range res {
		keys = append(keys, k)
	}
	sort.Slice(keys, func(i, j int) bool { return keys[i] < keys[j] })
	out := []any{}
	for _, k := range keys {
		out = append(out, []any{small(k), r.p.ops(res[k])})
	}
	return out
}

func (r *logRun) histRes(res map[string]tsonpatch.Patch) any {
	out := M{}
	for k, v := range res {
		out[r.p.path(k)] = r.p.ops(v)
	}
	return out
}

// input builds the patch argument of a call: the value to pass, its operations and form.
func (r *logRun) input(c logCall) (arg any, ops []tsonpatch.Operation, form string) {
	switch c.Form {
	case "":
		return nil, nil, ""
	case "text", "bytes":
		if c.Bad || c.Raw != "" {
			arg = c.Raw
			if c.Form == "bytes" {
				b := []byte(c.Raw)
				arg = b
			}
			if !c.Bad {
				json.Unmarshal([]byte(c.Raw), &ops)
			}
			return arg, ops, c.Form
		}
		p := buildOps(c.P, r.ts.up)
		b := patchText(p)
		if c.Form == "text" {
			return string(b), p, c.Form
		}
		r.hold("bytes given", func() any { return ascii(string(b)) })
		return b, p, c.Form
	case "op":
		p := buildOps(c.P[:1], r.ts.up)
		return p[0], p, c.Form
	case "list":
		p := buildOps(c.P, r.ts.up)
		var list []tsonpatch.Patch
		at := 0
		for _, n := range c.Cut {
			if at+n > len(p) {
				n = len(p) - at
			}
			list = append(list, p[at:at+n:at+n])
			at += n
		}
		if at < len(p) {
			list = append(list, p[at:])
		}
		r.hold("patch list given", func() any {
			var out []any
			for _, q := range list {
				out = append(out, r.p.ops(q))
			}
			return out
		})
		return list, p, c.Form
	case "reuse":
		if c.H < len(r.inputs) && r.inputs[c.H] != nil {
			return r.inputs[c.H], r.inOps[c.H], c.Form
		}
		return tsonpatch.Patch{}, nil, c.Form
	case "ops":
		p := []tsonpatch.Operation(buildOps(c.P, r.ts.up))
		r.hold("operations given", func() any { return r.p.ops(p) })
		return p, p, c.Form
	default: // patch
		p := buildOps(c.P, r.ts.up)
		r.hold("patch given", func() any { return r.p.ops(p) })
		return p, p, "patch"
	}
}

func copyOps(ops []tsonpatch.Operation) []tsonpatch.Operation {
	return append([]tsonpatch.Operation{}, ops...)
}

func (r *logRun) run(s logScript) []any {
	if len(s.Par) < 2 {
		return r.exec(s.Calls)
	}
	evs := r.exec(s.Calls[:s.Par[0]])
	var forks []*logRun
	var todo [][]logCall
	at := map[int]int{}
	for _, c := range s.Calls[s.Par[0]:s.Par[1]] {
		idx, ok := r.slot[c.L]
		if !ok || c.C == "new" || c.C == "slice" || c.C == "tslice" {
			continue
		}
		if _, ok := at[idx]; !ok {
			at[idx] = len(forks)
			f := &logRun{p: newProjector(r.p.f), ts: r.ts, only: idx + 1, logs: slices.Clone(r.logs), prev: slices.Clone(r.prev),
				slot: maps.Clone(r.slot), inputs: slices.Clone(r.inputs), inOps: slices.Clone(r.inOps)}
			forks, todo = append(forks, f), append(todo, nil)
		}
		todo[at[idx]] = append(todo[at[idx]], c)
	}
	mark("together")
	results := make([][]any, len(forks))
	var wg sync.WaitGroup
	for i, f := range forks {
		wg.Add(1)
		go func() {
			defer wg.Done()
			results[i] = f.exec(todo[i])
		}()
	}
	wg.Wait()
	for i, f := range forks {
		evs = append(evs, results[i]...)
		r.prev[f.only-1] = f.prev[f.only-1]
		maps.Copy(r.p.paths, f.p.paths)
		r.held = append(r.held, f.held...)
	}
	return append(evs, r.exec(s.Calls[s.Par[1]:])...)
}

func (r *logRun) exec(calls []logCall) []any {
	evs := []any{}
	for _, c := range calls {
		ev := M{"c": c.C}
		var li int
		var lg *logument.Logument
		if c.C != "new" {
			idx, ok := r.slot[c.L]
			if !ok {
				continue
			}
			li, lg = idx, r.logs[idx]
		}
		ev["l"] = li + 1
		if len(c.Rel) == 2 && lg != nil && len(lg.Version) > 0 {
			lo, hi := lg.Version[0], lg.Version[len(lg.Version)-1]
			c.V = int64(lo) + int64(c.Rel[0]*float64(hi-lo+1))
			c.Vj = int64(lo) + int64(c.Rel[1]*float64(hi-lo+1))
		}
		if r.only == 0 {
			mark(c.C)
		}
		var created *logument.Logument
		switch c.C {
		case "new":
			arg, ops, form := r.input(c)
			if arg != nil {
				r.inputs = append(r.inputs, arg)
				r.inOps = append(r.inOps, copyOps(ops))
				if c.Form == "text" || c.Form == "bytes" {
					r.inputs[len(r.inputs)-1] = nil
				}
			}
			var doc any
			var d tson.Value
			if c.D != nil {
				d = build(*c.D, r.ts.up)
				doc = d
			}
			docForm := "tson"
			if c.Raw != "" && form == "" { // text given as it is
				doc = c.Raw
				if c.T == 2 {
					doc = []byte(c.Raw)
				}
				docForm = "raw"
			} else if c.T == 1 || d == nil { // as text
				doc = tsonText(d)
				d = noNegative(d)
			} else if c.T == 2 { // as bytes
				b := []byte(tsonText(d))
				r.hold("document bytes given", func() any { return ascii(string(b)) })
				doc = b
				d = noNegative(d)
			} else {
				r.hold("document given", func() any { return r.p.node(d) })
			}
			_ = docForm
			ev["bad"] = c.Bad
			ev["form"] = form
			ev["p"] = r.p.ops(ops)
			ev["doc"] = r.p.node(d)
			out, why := guarded(func() error { created = logument.NewLogument(doc, arg); return nil })
			ev["out"], ev["why"] = out, why
		case "store":
			arg, ops, form := r.input(c)
			ops = copyOps(ops)
			r.inputs = append(r.inputs, arg)
			r.inOps = append(r.inOps, ops)
			if c.Form == "text" || c.Form == "bytes" {
				r.inputs[len(r.inputs)-1] = nil
			}
			ev["bad"] = c.Bad
			ev["form"] = form
			ev["p"] = r.p.ops(ops)
			ev["out"], ev["why"] = guarded(func() error { lg.Store(arg); return nil })
		case "bulk":
			given := []any{}
			ev["out"], ev["why"] = guarded(func() error {
				for i, b := range c.Batches {
					p := buildOps(b, r.ts.up)
					given = append(given, r.p.ops(p))
					lg.Store(p)
					if (i+1)%c.Every == 0 {
						if err := lg.Append(); err != nil {
							return err
						}
					}
				}
				return nil
			})
			ev["batches"], ev["every"] = given, c.Every
		case "append":
			ev["out"], ev["why"] = guarded(func() error { return lg.Append() })
		case "snapshot":
			ev["v"] = c.V
			var res tson.Tson
			ev["out"], ev["why"] = guarded(func() error { res = lg.Snapshot(uint64(c.V)); return nil })
			ev["res"] = r.p.node(res)
			r.hold("snapshot", func() any { return r.p.node(res) })
		case "sweep":
			ev["vs"], ev["res"] = c.Vs, []any{}
			all := []tson.Tson{}
			ev["out"], ev["why"] = guarded(func() error {
				for _, v := range c.Vs {
					all = append(all, lg.Snapshot(uint64(v)))
				}
				return nil
			})
			res := []any{}
			for _, d := range all {
				res = append(res, r.p.node(d))
			}
			ev["res"] = res
			if len(all) > 0 {
				r.hold("snapshot", func() any { return r.p.node(all[len(all)/2]) })
			}
		case "tsnap":
			ev["t"] = c.T
			var res tson.Tson
			ev["out"], ev["why"] = guarded(func() error { res = lg.TemporalSnapshot(r.ts.up(c.T)); return nil })
			ev["res"] = r.p.node(res)
			r.hold("temporal snapshot", func() any { return r.p.node(res) })
		case "slice":
			ev["vi"], ev["vj"] = c.V, c.Vj
			ev["out"], ev["why"] = guarded(func() error { created = lg.Slice(uint64(c.V), uint64(c.Vj)); return nil })
		case "tslice":
			ev["ti"], ev["tj"] = c.T, c.Tj
			ev["out"], ev["why"] = guarded(func() error { created = lg.TemporalSlice(r.ts.up(c.T), r.ts.up(c.Tj)); return nil })
		case "track", "ttrack":
			var res map[uint64]tsonpatch.Patch
			if c.C == "track" {
				ev["vi"], ev["vj"] = c.V, c.Vj
				ev["out"], ev["why"] = guarded(func() error { res = lg.Track(uint64(c.V), uint64(c.Vj)); return nil })
			} else {
				ev["ti"], ev["tj"] = c.T, c.Tj
				ev["out"], ev["why"] = guarded(func() error { res = lg.TemporalTrack(r.ts.up(c.T), r.ts.up(c.Tj)); return nil })
			}
			ev["res"] = r.trackRes(res)
			r.hold("track", func() any { return r.trackRes(res) })
		case "set", "testset":
			op := buildOp(*c.O, r.ts.up)
			ev["o"] = r.p.op(op)
			ev["out"], ev["why"] = guarded(func() error {
				if c.C == "set" {
					lg.Set(uint64(c.V), op)
				} else {
					lg.TestSet(uint64(c.V), op)
				}
				return nil
			})
		case "compact":
			ev["path"] = r.p.path(c.Path)
			ev["out"], ev["why"] = guarded(func() error { lg.Compact(c.Path); return nil })
		case "history":
			ev["path"] = r.p.path(c.Path)
			var res map[string]tsonpatch.Patch
			ev["out"], ev["why"] = guarded(func() error { res = lg.History(c.Path); return nil })
			ev["res"] = r.histRes(res)
			r.hold("history", func() any { return r.histRes(res) })
		default:
			panic("unknown call " + c.C)
		}

		post := []any{}
		for i, l := range r.logs {
			if r.only != 0 && r.only != i+1 {
				continue
			}
			st := r.state(l)
			if txt := js(st); txt != r.prev[i] {
				r.prev[i] = txt
				post = append(post, []any{i + 1, st})
			}
		}
		ev["post"] = post
		if ev["out"] == "ok" && created != nil {
			r.logs = append(r.logs, created)
			st := r.state(created)
			r.prev = append(r.prev, js(st))
			ev["new"] = st
			r.slot[c.To] = len(r.logs) - 1
		}
		drift := []any{}
		for i, h := range r.held {
			if now := js(h.get()); !reflect.DeepEqual(now, h.val) {
				drift = append(drift, h.what)
				r.held[i].val = now
			}
		}
		ev["drift"] = drift
		evs = append(evs, ev)
	}
	return evs
}

func init() {
	modes["log"] = func(line []byte) []any {
		var s logScript
		if err := json.Unmarshal(line, &s); err != nil {
			panic(err)
		}
		seen := map[string]bool{}
		out := []any{}
		for i := 0; i <= s.Repeat; i++ {
			r := &logRun{p: newProjector(func(t int64) any { return s.Ts.down(t) }), ts: s.Ts, slot: map[int]int{}}
			evs := r.run(s)
			rec := M{"sid": s.Sid, "paths": r.p.paths, "ev": evs}
			if txt := js(rec); !seen[txt] {
				seen[txt] = true
				out = append(out, json.RawMessage(txt))
			}
		}
		return out
	}
}
