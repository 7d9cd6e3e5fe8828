package main

import (
	"encoding/csv"
	"encoding/json"
	"fmt"
	"math"
	"math/rand"
	"os"
	"path/filepath"
	"slices"
	"sort"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/exp"
)

func init() { modes["exprun"] = runMode }

type rval struct {
	K string `json:"k"`
	X string `json:"x"`
	M int    `json:"m"`
	R string `json:"r"`
}

func milli(x float64) int {
	f := math.Floor(x * 1000)
	if math.IsNaN(f) || f > 1e9 {
		return 1000000000
	}
	if f < -1e9 {
		return -1000000000
	}
	return int(f)
}

func rshow(v any) rval {
	switch x := v.(type) {
	case float64:
		return rval{"n", canonNum(x), milli(x), fmt.Sprintf("%.4f", x)}
	case string:
		return rval{"s", ascii(x), 0, ascii(x)}
	case bool:
		return rval{"b", strconv.FormatBool(x), 0, strconv.FormatBool(x)}
	}
	b, _ := json.Marshal(v)
	return rval{"j", ascii(string(b)), 0, ascii(string(b))}
}

// stamp shows a number that should be a time.
func stamp(v any) string {
	switch x := v.(type) {
	case json.Number:
		return x.String()
	case float64:
		return strconv.FormatFloat(x, 'f', -1, 64)
	}
	return ascii(fmt.Sprint(v))
}

type names struct{ id map[string]string }

func (n names) of(path string) string {
	if id, ok := n.id[path]; ok {
		return id
	}
	return "?" + ascii(path)
}

func readJSON(path string, v any, exact bool) {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	d := json.NewDecoder(strings.NewReader(string(b)))
	if exact {
		d.UseNumber()
	}
	if err := d.Decode(v); err != nil {
		panic(fmt.Sprint(path, ": ", err))
	}
}

func number(v any) any {
	if n, ok := v.(json.Number); ok {
		f, _ := n.Float64()
		return f
	}
	return v
}

// leaves lists the sensors of a document whose leaves have a value and a time.
func leaves(at string, v any, ts string, n names, out *[]map[string]any) {
	m, ok := v.(map[string]any)
	if !ok {
		*out = append(*out, map[string]any{"p": "?" + ascii(at), "v": rshow(number(v)), "t": "none"})
		return
	}
	if t, ok := m[ts]; ok && len(m) == 2 {
		if x, ok := m["value"]; ok {
			*out = append(*out, map[string]any{"p": n.of(at), "v": rshow(number(x)), "t": stamp(t)})
			return
		}
	}
	for k, c := range m {
		p := k
		if at != "" {
			p = at + "." + k
		}
		leaves(p, c, ts, n, out)
	}
}

func docOf(path, ts string, n names) []map[string]any {
	var v any
	readJSON(path, &v, true)
	out := []map[string]any{}
	leaves("", v, ts, n, &out)
	sort.Slice(out, func(i, j int) bool { return out[i]["p"].(string) < out[j]["p"].(string) })
	return out
}

func rows(path string) (map[string]int, [][]string) {
	f, err := os.Open(path)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	r := csv.NewReader(f)
	r.FieldsPerRecord = -1
	all, err := r.ReadAll()
	if err != nil {
		panic(err)
	}
	col := map[string]int{}
	if len(all) == 0 {
		panic("no header in " + path)
	}
	for i, h := range all[0] {
		col[h] = i
	}
	return col, all[1:]
}

func atoi(s string) int {
	n, err := strconv.Atoi(s)
	if err != nil {
		panic(err)
	}
	return n
}

// sensorsOf describes how the sensors of a scenario move.
func sensorsOf(scn string) (map[string]any, names) {
	v := exp.InitializeVehicleData(scn)
	paths := []string{}
	by := map[string]*exp.SensorData{}
	for _, g := range groups(v) {
		for p, d := range g {
			paths = append(paths, p)
			by[p] = d
		}
	}
	sort.Strings(paths)
	n := names{map[string]string{}}
	out := map[string]any{}
	up := func(x float64) int { return -milli(-x) }
	for i, p := range paths {
		id := fmt.Sprintf("s%d", i+1)
		n.id[p] = id
		d := by[p]
		c := d.ChangeParams
		kind := d.ChangePattern
		switch d.Type { // a pattern that a type does not know is none
		case "number":
			if kind == "toggle" || kind == "random_selection" {
				kind = "constant"
			}
		case "boolean":
			if kind != "toggle" && kind != "triggered" {
				kind = "constant"
			}
		case "string":
			if kind != "random_selection" {
				kind = "constant"
			}
		}
		g := map[string]any{"name": p, "kind": kind, "interval": d.UpdateInterval, "k": map[string]string{"number": "n", "boolean": "b", "string": "s"}[d.Type],
			"rlo": milli(exp.VSSSensors[p].Min), "rhi": up(exp.VSSSensors[p].Max), "lo": milli(c["min"]), "hi": up(c["max"]),
			"step": 0, "prob": int(math.Round(c["toggle_probability"] * 10000)), "base": milli(c["baseline"]), "amp": up(c["amplitude"]), "period": int(c["period"]), "phase": int(c["phase"])}
		switch kind {
		case "linear":
			g["step"] = int(math.Round(c["slope"] * float64(d.UpdateInterval)))
		case "random_walk":
			g["step"] = up(c["step_size"])
		case "constant_with_noise":
			g["step"] = up(c["noise"])
		}
		out[id] = g
	}
	return out, n
}

type runScript struct {
	Sid   int    `json:"sid"`
	Run   int    `json:"run"`
	Scn   string `json:"scn"`
	Query bool   `json:"query"`
	Alter int    `json:"alter"`
}

// altered changes the definitions: other starting values (also at the
// limits), other intervals and other sensors in the tables; the result
// restores them.
func altered(seed int) func() {
	if seed == 0 {
		return func() {}
	}
	r := rand.New(rand.NewSource(int64(seed)))
	keys, was := exp.KeySensorPaths, map[string]exp.VSSSensor{}
	paths := []string{}
	for p, d := range exp.VSSSensors {
		paths = append(paths, p)
		was[p] = *d
	}
	sort.Strings(paths)
	for _, p := range paths {
		d := exp.VSSSensors[p]
		if r.Intn(5) == 0 { // other patterns
			pats := []string{"constant", "toggle"}
			if d.Type == "number" {
				pats = []string{"linear", "random_walk", "sinusoidal", "constant"}
				edge := (d.Max - d.Min) / 50
				if x := d.DefaultValue.(float64); x > d.Min+edge && x < d.Max-edge && !strings.HasSuffix(p, "StateOfCharge.Current") { // its limit changes below
					pats = append(pats, "constant_with_noise")
				}
			}
			if d.Type != "string" {
				own := d.ChangePatterns
				d.ChangePatterns = map[string]string{}
				for _, scn := range []string{"urban_traffic", "highway_cruising", "battery_charging"} {
					if d.ChangePatterns[scn] = own[scn]; r.Intn(2) == 0 {
						d.ChangePatterns[scn] = pats[r.Intn(len(pats))]
					}
				}
			}
		}
		free := !strings.Contains(p, "Speed") && !strings.Contains(p, "Acceleration")
		moves := false
		for _, k := range d.ChangePatterns {
			free = free && k != "constant_with_noise"
			moves = moves || k == "linear"
		}
		switch x := d.DefaultValue.(type) {
		case float64:
			if strings.HasSuffix(p, "StateOfCharge.Current") && r.Intn(3) > 0 {
				d.Max = 50 + float64(r.Intn(30))
				d.DefaultValue = min(x, d.Max)
				x = d.Max
			}
			near := math.Floor(r.Float64()*64) / 64
			pick := []float64{d.Min, d.Max, d.Min + near, d.Max - near, x, d.Min + r.Float64()*(d.Max-d.Min)}[r.Intn(6)]
			if moves && r.Intn(4) > 0 {
				pick = []float64{d.Min + near, d.Max - near}[r.Intn(2)]
			}
			if free && pick >= d.Min && pick <= d.Max {
				d.DefaultValue = pick
			}
		case bool:
			d.DefaultValue = r.Intn(2) == 0
		case string:
			d.DefaultValue = []string{x, "", "a,b", `"q"`, "two words", "<&>", "007"}[r.Intn(7)]
		}
		if r.Intn(3) == 0 {
			d.UpdateInterval = max(d.UpdateInterval, []int{50, 300, 700, 1000, 2500, 60000}[r.Intn(6)])
		}
	}
	exp.KeySensorPaths = []string{}
	for _, i := range r.Perm(len(paths))[:min(len(paths), 7)] {
		exp.KeySensorPaths = append(exp.KeySensorPaths, paths[i])
	}
	return func() {
		exp.KeySensorPaths = keys
		for p, d := range was {
			*exp.VSSSensors[p] = d
		}
	}
}

var lastRun = map[int]string{}
var runWhy = map[int][2]string{}

func runMode(line []byte) []any {
	var s runScript
	if err := json.Unmarshal(line, &s); err != nil {
		panic(err)
	}
	defer altered(s.Alter)()
	if _, ok := lastRun[s.Run]; !ok {
		home, _ := os.Getwd()
		dir, err := os.MkdirTemp(home, "run")
		if err != nil {
			panic(err)
		}
		os.Chdir(dir)
		if s.Alter != 0 { // the remains of earlier runs
			for i, scn := range []string{"urban_traffic", "urban_traffic", "highway_cruising"} {
				old := filepath.Join("results/patch_experiment", scn, []string{"20231231_235959", "20240101_000000", "20010203_040506"}[i])
				os.MkdirAll(old, 0o755)
				for _, f := range []string{"all_json_patches.json", "all_tson_patches.json"} {
					os.WriteFile(filepath.Join(old, f), []byte("[]"), 0o644)
				}
				for _, f := range []string{"initial_json.json", "initial_tson.json"} {
					os.WriteFile(filepath.Join(old, f), []byte("{}"), 0o644)
				}
			}
		}
		mark("run")
		w := [2]string{}
		out, why := guarded(func() error { exp.RealworldScenario(); return nil })
		w[0] = out + " " + why
		mark("queries")
		out, why = guarded(func() error { exp.RunTemporalQueryExperiments(); return nil })
		w[1] = out + " " + why
		os.Chdir(home)
		lastRun[s.Run], runWhy[s.Run] = dir, w
	}
	mark("read")
	out, why, ok := strings.Cut(runWhy[s.Run][0], " ")
	ev := []map[string]any{{"c": "run", "out": out, "why": why}}
	_ = ok
	sensors, n := sensorsOf(s.Scn)
	if out == "ok" {
		o, w := guarded(func() error {
			ev = append(ev, readRun(lastRun[s.Run], s.Scn, n, s.Query, runWhy[s.Run][1])...)
			return nil
		})
		if o != "ok" {
			ev = append(ev, map[string]any{"c": "run", "out": o, "why": w})
		}
	}
	return []any{map[string]any{"sid": s.Sid, "paths": map[string]any{}, "sensors": sensors, "ev": ev}}
}

func compactLen(path string) int {
	b, err := os.ReadFile(path)
	if err != nil {
		panic(err)
	}
	var l []json.RawMessage
	if err := json.Unmarshal(b, &l); err != nil {
		panic(err)
	}
	c, _ := json.Marshal(l)
	return len(c)
}

func readRun(dir, scn string, n names, query bool, queryOut string) []map[string]any {
	base := filepath.Join(dir, "results/patch_experiment", scn)
	found, _ := filepath.Glob(filepath.Join(base, "[0-9]*_[0-9]*"))
	found = slices.DeleteFunc(found, func(d string) bool { return filepath.Base(d) < "2025" })
	if len(found) != 1 {
		panic(fmt.Sprint("data directories: ", len(found)))
	}
	data := found[0]
	file := func(f string) string { return filepath.Join(data, f) }
	ev := []map[string]any{{"c": "begin", "out": "ok", "tson": docOf(file("initial_tson.json"), "_ts", n), "json": docOf(file("initial_json.json"), "timestamp", n)}}

	var jps []struct {
		Op, Path string
		Value    any
	}
	var tps []struct {
		Op, Path  string
		Value     any
		Timestamp int64
	}
	readJSON(file("all_json_patches.json"), &jps, false)
	readJSON(file("all_tson_patches.json"), &tps, false)
	col, timing := rows(filepath.Join(base, "timing.csv"))
	ccol, cum := rows(filepath.Join(base, "cumulative.csv"))
	tables := map[string][][]string{}
	tcol := map[string]int{}
	keys := []string{}
	for _, p := range exp.KeySensorPaths {
		tcol, tables[p] = rows(filepath.Join(base, "sensor_data", p+".csv"))
		keys = append(keys, p)
	}

	// queries by the step they belong to
	type query1 struct {
		t int
		e map[string]any
	}
	queries := []query1{}
	tail := []map[string]any{}
	if query {
		qs, ts := readQueries(dir, scn, n)
		o, w, _ := strings.Cut(queryOut, " ")
		for _, q := range qs {
			queries = append(queries, query1{q["t"].(int) / 100 * 100, q})
		}
		sort.SliceStable(queries, func(i, j int) bool { return queries[i].t < queries[j].t })
		tail = append(tail, map[string]any{"c": "queries", "out": o, "why": w, "count": min(len(qs), len(ts))})
		tail = append(tail, ts...)
	}

	badOps := 0
	for i := 0; i < len(timing); {
		t := atoi(timing[i][col["TimeMs"]])
		ups, js, ts, rs, cs := []map[string]any{}, []map[string]any{}, []map[string]any{}, []map[string]any{}, []int{}
		type up struct {
			path string
			ch   bool
		}
		these := []up{}
		for ; i < len(timing) && timing[i][col["TimeMs"]] == strconv.Itoa(t); i++ {
			if timing[i][col["UpdateIndex"]] != strconv.Itoa(i+1) {
				badOps++
			}
			these = append(these, up{timing[i][col["SensorPath"]], timing[i][col["ValueChanged"]] == "true"})
		}
		changed := 0
		for _, u := range these {
			if u.ch {
				changed++
			}
		}
		for k := 0; k < len(these)+changed && len(jps) > 0; k++ {
			p := jps[0]
			jps = jps[1:]
			at := strings.LastIndex(p.Path, "/")
			if p.Op != "replace" || at < 0 {
				badOps++
				continue
			}
			e := map[string]any{"p": n.of(p.Path[:at]), "what": p.Path[at+1:], "v": rshow(p.Value)}
			if p.Path[at+1:] == "timestamp" {
				e["v"] = rval{"n", stamp(p.Value), 0, ""}
			}
			js = append(js, e)
		}
		val := map[string]rval{}
		for k := 0; k < changed && len(tps) > 0; k++ {
			p := tps[0]
			tps = tps[1:]
			if p.Op != "replace" {
				badOps++
			}
			val[p.Path] = rshow(p.Value)
			when := -1
			if p.Timestamp >= 0 && p.Timestamp < 2e9 {
				when = int(p.Timestamp)
			}
			ts = append(ts, map[string]any{"p": n.of(p.Path), "v": val[p.Path], "t": when})
		}
		for _, u := range these {
			v, has := val[u.path]
			if !has {
				v = rval{"none", "", 0, ""}
			}
			ups = append(ups, map[string]any{"p": n.of(u.path), "ch": u.ch, "v": v})
		}
		for _, p := range keys {
			l := tables[p]
			if len(l) > 0 && l[0][tcol["SimulationTimeMs"]] == strconv.Itoa(t) {
				rs = append(rs, map[string]any{"p": n.of(p), "r": ascii(l[0][tcol["Value"]])})
				tables[p] = l[1:]
			}
		}
		if len(cum) > 0 && cum[0][ccol["TimeMs"]] == strconv.Itoa(t) {
			cs = []int{atoi(cum[0][ccol["JsonPatchCount"]]), atoi(cum[0][ccol["TsonPatchCount"]])}
			cum = cum[1:]
		}
		ev = append(ev, map[string]any{"c": "step", "out": "ok", "t": t, "ups": ups, "json": js, "tson": ts, "rows": rs, "cum": cs, "keys": len(keys)})
		for len(queries) > 0 && queries[0].t <= t {
			ev = append(ev, queries[0].e)
			queries = queries[1:]
		}
	}
	for _, q := range queries {
		ev = append(ev, q.e)
	}
	left := badOps + len(jps) + len(tps) + len(cum)
	for _, l := range tables {
		left += len(l)
	}
	rcol, res := rows(filepath.Join(base, "results.csv"))
	if len(res) != 1 {
		panic("results.csv")
	}
	num := func(c string) int { return atoi(res[0][rcol[c]]) }
	hundredths := func(c string) int {
		x, err := strconv.ParseFloat(res[0][rcol[c]], 64)
		if err != nil || math.Abs(x) > 1e6 {
			return -2000000000
		}
		return int(math.Round(x * 100))
	}
	fin := map[string]any{"c": "final", "out": "ok", "tson": docOf(file("final_tson.json"), "_ts", n), "json": docOf(file("final_json.json"), "timestamp", n),
		"updates": num("TotalUpdates"), "changes": num("ValueChanges"), "only": num("TimestampOnlyChanges"), "jsoncount": num("JsonPatchCount"),
		"tsoncount": num("TsonPatchCount"), "setcount": num("SetTsonPatchCount"), "duration": num("SimulationTimeMs"), "left": left,
		"usage": []int{hundredths("JsonBandwidthUsage"), hundredths("TsonBandwidthUsage")}, "reduction": hundredths("PatchReduction"),
		"sizes":    []int{num("JsonPatchSize"), num("TsonPatchSize")},
		"measured": []int{compactLen(file("all_json_patches.json")), compactLen(file("all_tson_patches.json"))}}
	ev = append(ev, fin)
	return append(ev, tail...)
}

// readQueries reads the answers of the temporal query experiment.
func readQueries(dir, scn string, n names) (snaps, others []map[string]any) {
	base := filepath.Join(dir, "results/temporal_query_experiment", scn, "temporal_query")
	snaps, others = []map[string]any{}, []map[string]any{}
	ids := map[string]string{}
	for p := range n.id {
		ids[strings.ReplaceAll(p, ".", "_")] = p
	}
	read := func(who, name string) any {
		var v any
		readJSON(filepath.Join(base, who, name), &v, false)
		return v
	}
	found, _ := filepath.Glob(filepath.Join(base, "*", "snapshot_*.json"))
	sort.Strings(found)
	for _, f := range found {
		parts := strings.Split(strings.TrimSuffix(filepath.Base(f), ".json"), "_")
		t := atoi(parts[len(parts)-1])
		e := map[string]any{"c": "snap", "t": t, "vals": []any{}}
		e["out"], e["why"] = guarded(func() error {
			v := read(filepath.Base(filepath.Dir(f)), filepath.Base(f))
			vals := []map[string]any{}
			if parts[1] == "tjson" {
				bare("", v, n, &vals)
			} else {
				all := []map[string]any{}
				leaves("", v, "timestamp", n, &all)
				for _, x := range all {
					vals = append(vals, map[string]any{"p": x["p"], "v": x["v"]})
				}
			}
			e["vals"] = vals
			return nil
		})
		snaps = append(snaps, e)
	}
	found, _ = filepath.Glob(filepath.Join(base, "logument", "*_logument_*.json"))
	sort.Strings(found)
	for _, f := range found {
		name := filepath.Base(f)
		parts := strings.Split(strings.TrimSuffix(name, ".json"), "_")
		k := len(parts)
		if parts[0] != "track" && parts[0] != "event" {
			continue
		}
		e := map[string]any{"a": atoi(parts[k-2]), "b": atoi(parts[k-1]), "lgm": []any{}, "tj": []any{}}
		other := strings.Replace(name, "logument", "tjson", 1)
		e["out"], e["why"] = guarded(func() error {
			l, j := read("logument", name), read("tjson", other)
			if parts[0] == "track" {
				e["c"], e["p"] = "track", n.of(ids[strings.Join(parts[3:k-2], "_")])
				lg := []map[string]any{}
				for _, ops := range l.(map[string]any) {
					for _, o := range ops.([]any) {
						m := o.(map[string]any)
						lg = append(lg, map[string]any{"t": int(m["timestamp"].(float64)), "v": rshow(m["value"])})
					}
				}
				sort.SliceStable(lg, func(a, b int) bool { return lg[a]["t"].(int) < lg[b]["t"].(int) })
				e["lgm"] = lg
				rs := []map[string]any{}
				for _, r := range j.([]any) {
					rs = append(rs, r.(map[string]any))
				}
				ps, ok := periods(rs, 0)
				if !ok {
					return fmt.Errorf("unreadable period")
				}
				for i, r := range rs {
					ps[i]["v"] = rshow(r["data"])
				}
				e["tj"] = ps
				return nil
			}
			th, _ := strconv.ParseFloat(parts[k-3], 64)
			e["c"], e["p"], e["n"], e["x"] = "search", n.of(ids[strings.Join(parts[3:k-3], "_")]), milli(th), canonNum(th)
			e["lgm"], e["tj"] = sortedInts(l), sortedInts(j)
			return nil
		})
		if e["c"] == nil {
			e["c"], e["p"], e["n"], e["x"] = "track", "?", 0, ""
		}
		others = append(others, e)
	}
	return
}

func sortedInts(v any) []int {
	out := []int{}
	for _, x := range v.([]any) {
		out = append(out, int(x.(float64)))
	}
	sort.Ints(out)
	return out
}

// bare lists the sensors of a document whose leaves are plain values.
func bare(at string, v any, n names, out *[]map[string]any) {
	m, ok := v.(map[string]any)
	if !ok {
		*out = append(*out, map[string]any{"p": n.of(at), "v": rshow(v)})
		return
	}
	for k, c := range m {
		p := k
		if at != "" {
			p = at + "." + k
		}
		bare(p, c, n, out)
	}
}
