package main

import (
	"bytes"
	"crypto/sha256"
	"encoding/csv"
	"encoding/json"
	"fmt"
	"io/fs"
	"math"
	"os"
	"path/filepath"
	"strconv"

	"github.com/CAU-CPSS/logument/exp"
)

func init() { modes["recorder"] = recorderMode }

type recorderScript struct {
	Sid  int         `json:"sid"`
	Keys []string    `json:"keys"`
	Stos [][2]string `json:"stos"` // base directory, scenario
	Recs []string    `json:"recs"` // scenarios
	Ev   []struct {
		C    string            `json:"c"`
		S    int               `json:"s"`
		Kind string            `json:"kind"`
		I    int64             `json:"i"`
		V    json.RawMessage   `json:"v"`
		As   string            `json:"as"` // "ops": as operations, "bad": cannot be saved
		R    int               `json:"r"`
		T    int64             `json:"t"`
		Cat  []int             `json:"cat"` // category of each key sensor, -1: not there
		Vals []json.RawMessage `json:"vals"`
	} `json:"ev"`
}

func jsonText(b []byte) string {
	d := json.NewDecoder(bytes.NewReader(b))
	d.UseNumber()
	var v any
	if err := d.Decode(&v); err != nil || d.More() {
		return "not one JSON value"
	}
	c, _ := json.Marshal(v)
	if len(c) > 120 { // told apart by its hash
		return fmt.Sprintf("%d:%x", len(c), sha256.Sum256(c))
	}
	return ascii(string(c))
}

func filesIn(dir string) []any {
	out := []any{}
	filepath.WalkDir(dir, func(p string, e fs.DirEntry, err error) error {
		if err == nil && !e.IsDir() {
			b, _ := os.ReadFile(p)
			n, _ := filepath.Rel(dir, p)
			out = append(out, map[string]any{"f": ascii(n), "v": jsonText(b)})
		}
		return nil
	})
	return out
}

func whole(s string) int {
	if n, err := strconv.Atoi(s); err == nil && n >= 0 && n < 2000000000 {
		return n
	}
	return -1
}

func tableOf(file string) []any {
	out := []any{}
	b, err := os.ReadFile(file)
	if err != nil {
		return out
	}
	b = b[:bytes.LastIndexByte(b, '\n')+1]
	r := csv.NewReader(bytes.NewReader(b))
	r.FieldsPerRecord = -1
	for i := 0; ; i++ {
		row, err := r.Read()
		if err != nil {
			return out
		}
		if i == 0 {
			continue
		}
		at, t, x, m := -1, -1, "", 2000000001
		if len(row) == 3 {
			at, t, x = whole(row[0]), whole(row[1]), ascii(row[2])
			if f, err := strconv.ParseFloat(row[2], 64); err == nil && math.Abs(f) < 200000 {
				m = int(math.Round(f * 10000))
			}
		}
		out = append(out, map[string]any{"at": at, "t": t, "v": map[string]any{"x": x, "m": m}})
	}
}

func recorderMode(line []byte) []any {
	var s recorderScript
	if err := json.Unmarshal(line, &s); err != nil {
		panic(err)
	}
	top, err := os.MkdirTemp("", "verif-recorder")
	if err != nil {
		panic(err)
	}
	defer os.RemoveAll(top)
	was := exp.KeySensorPaths
	exp.KeySensorPaths = s.Keys
	defer func() { exp.KeySensorPaths = was }()

	stos, recs := []*exp.DataStorage{}, make([]*exp.SensorDataRecorder, len(s.Recs))
	ev := []map[string]any{}
	mark("open")
	for _, b := range s.Stos {
		stos = append(stos, exp.NewDataStorage(filepath.Join(top, "sto", b[0]), b[1]))
	}
	open := func(i int) error {
		r, err := exp.NewSensorDataRecorder(filepath.Join(top, "rec"), s.Recs[i])
		recs[i] = r
		return err
	}
	for i := range s.Recs {
		mark("open")
		if out, why := guarded(func() error { return open(i) }); out != "ok" {
			return []any{map[string]any{"sid": s.Sid, "paths": map[string]any{}, "nsto": len(s.Stos), "nrec": len(s.Recs), "keys": []string{},
				"ev": []map[string]any{{"c": "open", "r": i + 1, "out": out, "why": why, "tabs": []any{}}}}}
		}
	}
	tabs := func() []any {
		out := []any{}
		for _, r := range recs {
			ts := []any{}
			for _, p := range s.Keys {
				name := filepath.Join(r.OutputDir, p+".csv")
				if f := r.CSVFiles[p]; f != nil {
					name = f.Name()
				}
				ts = append(ts, tableOf(name))
			}
			out = append(out, ts)
		}
		return out
	}
	for _, c := range s.Ev {
		e := map[string]any{"c": c.C}
		mark(c.C)
		switch c.C {
		case "save":
			var v any
			json.Unmarshal(c.V, &v)
			if c.As == "ops" {
				var ops []exp.TsonPatch
				json.Unmarshal(c.V, &ops)
				v = ops
			} else if c.As == "bad" {
				v = map[string]any{"a": v, "b": math.Inf(1)}
			}
			d := stos[c.S]
			k := c.Kind
			out, why := guarded(func() error {
				switch c.Kind {
				case "initial_json":
					return d.SaveInitialJSON(v)
				case "initial_tson":
					return d.SaveInitialTSON(v)
				case "json_patch":
					k += fmt.Sprint(" ", c.I)
					return d.SaveJSONPatch(int(c.I), v)
				case "tson_patch":
					k += fmt.Sprint(" ", c.I)
					return d.SaveTSONPatch(int(c.I), v)
				case "all_json":
					return d.SaveAllJSONPatches(v)
				case "all_tson":
					return d.SaveAllTSONPatches(v)
				case "final_json":
					return d.SaveFinalJSON(v)
				case "final_tson":
					return d.SaveFinalTSON(v)
				case "json_snapshot":
					k += fmt.Sprint(" ", c.I)
					return d.SaveJSONSnapshot(c.I, v)
				case "tson_snapshot":
					k += fmt.Sprint(" ", c.I)
					return d.SaveTSONSnapshot(c.I, v)
				}
				panic(c.Kind)
			})
			e["s"], e["k"], e["out"], e["why"] = c.S+1, k, out, why
			if b, err := json.Marshal(v); err == nil {
				e["v"] = jsonText(b)
			} else {
				e["v"] = "unsavable"
			}
			ds := []any{}
			for _, b := range s.Stos {
				ds = append(ds, filesIn(filepath.Join(top, "sto", b[0], b[1])))
			}
			e["dirs"] = ds
		case "record":
			v := &exp.VehicleData{
				SensorsHighFreq: map[string]*exp.SensorData{}, SensorsMedFreq: map[string]*exp.SensorData{}, SensorsLowFreq: map[string]*exp.SensorData{},
				ActuatorsHighVar: map[string]*exp.SensorData{}, ActuatorsLowVar: map[string]*exp.SensorData{}, Attributes: map[string]*exp.SensorData{},
			}
			gs := groups(v)
			for i, g := range gs {
				g["Other."+strconv.Itoa(i)] = &exp.SensorData{Path: "Other", Value: float64(i)}
			}
			vals := []any{}
			for i, p := range s.Keys {
				if c.Cat[i] < 0 {
					vals = append(vals, map[string]any{"k": "none", "x": "", "m": 0})
					continue
				}
				var x any
				json.Unmarshal(c.Vals[i], &x)
				gs[c.Cat[i]][p] = &exp.SensorData{Path: p, Value: x}
				if f, ok := x.(float64); ok {
					vals = append(vals, map[string]any{"k": "n", "x": "", "m": int(math.Round(f * 10000))})
				} else {
					vals = append(vals, map[string]any{"k": "s", "x": ascii(fmt.Sprint(x)), "m": 0})
				}
			}
			out, why := guarded(func() error { return recs[c.R].RecordSensorData(c.T, v) })
			e["r"], e["t"], e["vals"], e["out"], e["why"] = c.R+1, c.T, vals, out, why
		case "close":
			out, why := guarded(func() error { recs[c.R].Close(); return nil })
			e["r"], e["out"], e["why"], e["tabs"] = c.R+1, out, why, tabs()
		case "open":
			out, why := guarded(func() error { return open(c.R) })
			e["r"], e["out"], e["why"] = c.R+1, out, why
			if out == "ok" {
				e["tabs"] = tabs()
			} else {
				e["tabs"] = []any{}
			}
		case "look":
			e["out"], e["tabs"] = "ok", tabs()
		}
		ev = append(ev, e)
		if c.C == "open" && e["out"] != "ok" {
			break
		}
	}
	for _, r := range recs {
		if r != nil {
			guarded(func() error { r.Close(); return nil })
		}
	}
	keys := []string{}
	for _, k := range s.Keys {
		keys = append(keys, ascii(k))
	}
	return []any{map[string]any{"sid": s.Sid, "paths": map[string]any{}, "nsto": len(stos), "nrec": len(recs), "keys": keys, "ev": ev}}
}
