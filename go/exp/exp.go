package main

import (
	"encoding/json"
	"fmt"
	"math"
	"reflect"
	"sort"
	"strconv"
	"strings"

	"github.com/CAU-CPSS/logument/exp"
)

func init() {
	modes["scenario"] = scenarioMode
	modes["tjson"] = tjsonMode
}

// ---------------------------------------------------------------- scenario

type scenarioScript struct {
	Sid  int `json:"sid"`
	Init struct {
		Scn   string `json:"scn"`
		Level int    `json:"level"`
	} `json:"init"`
	Full  bool `json:"full"` // a whole vehicle
	Steps []struct {
		R int   `json:"r"` // level, -1: no reading
		T int64 `json:"t"`
		K int   `json:"k"` // how there is no reading
	} `json:"steps"`
}

const soc = "Vehicle.Powertrain.TractionBattery.StateOfCharge.Current"

func groups(v *exp.VehicleData) []map[string]*exp.SensorData {
	return []map[string]*exp.SensorData{v.SensorsHighFreq, v.SensorsMedFreq, v.SensorsLowFreq, v.ActuatorsHighVar, v.ActuatorsLowVar, v.Attributes}
}

// fits lists the scenarios whose change patterns all signals have.
func fits(v *exp.VehicleData) []string {
	out := []string{}
	for _, s := range []string{"urban_traffic", "highway_cruising", "battery_charging"} {
		ok := true
		for _, g := range groups(v) {
			for p, d := range g {
				if want, has := exp.VSSSensors[p].ChangePatterns[s]; has && d.ChangePattern != want {
					ok = false
				}
			}
		}
		if ok {
			out = append(out, s)
		}
	}
	return out
}

func vehicleText(v *exp.VehicleData) string {
	b, _ := json.Marshal(v)
	return string(b)
}

func scenarioMode(line []byte) []any {
	var s scenarioScript
	if err := json.Unmarshal(line, &s); err != nil {
		panic(err)
	}
	ev := []map[string]any{}
	v := &exp.VehicleData{SensorsMedFreq: map[string]*exp.SensorData{}}
	if s.Full {
		v = exp.InitializeVehicleData("mixed_scenario")
	}
	st := exp.NewScenarioState(s.Init.Scn, float64(s.Init.Level)/10000)
	kept := v.SensorsMedFreq[soc]
	if kept == nil {
		kept = &exp.SensorData{Path: soc, Type: "number", UpdateInterval: 200, ChangeParams: map[string]float64{}}
	}
	for _, p := range s.Steps {
		mark("step")
		v.SensorsMedFreq[soc] = kept
		if p.R >= 0 {
			kept.Value = float64(p.R) / 10000
		} else if p.K == 0 {
			delete(v.SensorsMedFreq, soc)
		} else {
			kept.Value = "unknown"
		}
		e := map[string]any{"c": "step", "r": p.R, "t": p.T, "full": s.Full}
		before := vehicleText(v)
		out, why := guarded(func() error {
			e["told"] = st.UpdateScenarioState(v, p.T)
			return nil
		})
		e["out"], e["why"] = out, why
		e["same"] = vehicleText(v) == before
		e["cur"], e["prev"] = ascii(st.CurrentScenario), ascii(st.PreviousScenario)
		e["level"] = int(math.Round(st.BatteryLevel * 10000))
		e["fits"], e["slope"] = []string{}, "none"
		if s.Full && p.R >= 0 {
			e["fits"] = fits(v)
			if d := v.SensorsMedFreq[soc]; d != nil && d.ChangePattern == "linear" {
				if d.ChangeParams["slope"] > 0 {
					e["slope"] = "up"
				} else if d.ChangeParams["slope"] < 0 {
					e["slope"] = "down"
				}
			}
		} else {
			e["full"] = false
		}
		ev = append(ev, e)
	}
	return []any{map[string]any{"sid": s.Sid, "paths": map[string]any{}, "init": s.Init, "ev": ev}}
}

// ---------------------------------------------------------------- tjson

type tval struct {
	K string `json:"k"`
	X string `json:"x"`
	N int    `json:"n"`
}

func show(v any) tval {
	switch x := v.(type) {
	case nil:
		return tval{"null", "", 0}
	case float64:
		n := 0
		if math.Abs(x) < 1e8 {
			n = int(math.Floor(x * 4))
		}
		return tval{"n", canonNum(x), n}
	case string:
		return tval{"s", ascii(x), 0}
	case bool:
		return tval{"b", strconv.FormatBool(x), 0}
	}
	b, _ := json.Marshal(v)
	return tval{"j", ascii(string(b)), 0}
}

type tjsonScript struct {
	Sid  int   `json:"sid"`
	Base int64 `json:"base"`
	Ops  []struct {
		Op string `json:"op"`
		P  string `json:"p"`
		Sp string `json:"sp"`
		V  any    `json:"v"`
		T  int64  `json:"t"`
	} `json:"ops"`
	Items []struct { // the periods to build the document from, instead of the operations
		P string `json:"p"`
		V any    `json:"v"`
		S int64  `json:"s"`
		E int64  `json:"e"` // -1: open
	} `json:"items"`
	Qs []struct {
		C    string `json:"c"`
		P    string `json:"p"`
		T    int64  `json:"t"`
		A    int64  `json:"a"`
		B    int64  `json:"b"`
		Pred string `json:"pred"`
		V    any    `json:"v"`
		N    int    `json:"n"`
	} `json:"qs"`
}

// flat lists the values of a snapshot.  Values which are objects have member names with @, locations do not.
func flat(at string, v any, out *[]map[string]any) {
	if m, ok := v.(map[string]any); ok {
		own, locs := map[string]any{}, 0
		for k, c := range m {
			if strings.HasPrefix(k, "@") {
				own[k] = c
				continue
			}
			locs++
			p := k
			if at != "" {
				p = at + "." + k
			}
			flat(p, c, out)
		}
		if len(own) == 0 && locs > 0 {
			return
		}
		v = own
	}
	*out = append(*out, map[string]any{"p": ascii(at), "v": show(v)})
}

func flatSorted(v any) []map[string]any {
	out := []map[string]any{}
	flat("", v, &out)
	sort.Slice(out, func(i, j int) bool { return out[i]["p"].(string) < out[j]["p"].(string) })
	return out
}

const farEnd = 2000000000

// periods reads the periods of a track; ok: they can be read.
func periods(rs []map[string]any, base int64) (out []map[string]any, ok bool) {
	out = []map[string]any{}
	for _, r := range rs {
		s, _ := r["timestamp"].(string)
		a, b, found := strings.Cut(s, "-")
		x, e1 := strconv.ParseInt(a, 10, 64)
		y, e2 := strconv.ParseInt(b, 10, 64)
		if !found || e1 != nil || e2 != nil {
			return out, false
		}
		end := int64(farEnd)
		if y != math.MaxInt64 {
			end = y - base
		}
		start := x - base
		if start < -farEnd || start > farEnd || end < -farEnd || end > farEnd {
			return out, false
		}
		out = append(out, map[string]any{"s": start, "e": end, "v": show(r["data"])})
	}
	return out, true
}

func tjsonMode(line []byte) []any {
	var s tjsonScript
	if err := json.Unmarshal(line, &s); err != nil {
		panic(err)
	}
	ops, given := []map[string]any{}, []exp.TsonPatch{}
	for _, o := range s.Ops {
		v := show(o.V)
		if o.Op == "remove" {
			v = tval{"none", "", 0}
		}
		ops = append(ops, map[string]any{"op": o.Op, "p": ascii(o.P), "v": v, "t": o.T})
		given = append(given, exp.TsonPatch{Op: o.Op, Path: o.Sp, Value: o.V, Timestamp: o.T + s.Base})
	}
	copied := append([]exp.TsonPatch{}, given...)
	ev := []map[string]any{}
	var doc *exp.TJSONDocument
	mark("build")
	out, why := guarded(func() (err error) {
		if len(s.Items) == 0 {
			doc, err = exp.FromTSONPatches(given)
			return
		}
		doc = exp.NewTJSONDocument()
		for _, i := range s.Items {
			end := i.E + s.Base
			if i.E < 0 {
				end = math.MaxInt64
			}
			if err = doc.AddItem(i.P, i.S+s.Base, end, i.V); err != nil {
				return
			}
		}
		return
	})
	ev = append(ev, map[string]any{"c": "build", "tag": "C25", "out": out, "why": why, "kept": reflect.DeepEqual(given, copied)})
	if out == "ok" {
		for _, q := range s.Qs {
			mark(q.C)
			e := map[string]any{"c": q.C, "tag": "C25"}
			switch q.C {
			case "snapshot":
				e["t"] = q.T
				var res map[string]any
				out, why = guarded(func() (err error) { res, err = doc.TemporalSnapshot(q.T + s.Base); return })
				e["res"] = flatSorted(res)
				if len(res) == 0 {
					e["res"] = []map[string]any{}
				}
			case "track", "events":
				e["p"], e["a"], e["b"] = ascii(q.P), q.A, q.B
				var res []map[string]any
				var es []int64
				e["ps"], e["es"] = []int{}, []int{}
				out, why = guarded(func() (err error) {
					if res, err = doc.TemporalTrack(q.P, q.A+s.Base, q.B+s.Base); err != nil {
						return
					}
					ps, ok := periods(res, s.Base)
					if !ok {
						return fmt.Errorf("unreadable period: %v", res)
					}
					e["ps"] = ps
					if q.C == "events" {
						es, err = doc.FindEvents(q.P, q.A+s.Base, q.B+s.Base, func(v any) bool {
							switch q.Pred {
							case "all":
								return true
							case "over":
								x, ok := v.(float64)
								return ok && x > float64(q.N)/4
							case "is":
								return show(v) == show(q.V)
							}
							return false
						})
						shown := []int64{}
						for _, t := range es {
							shown = append(shown, t-s.Base)
						}
						e["es"] = shown
						e["pred"] = map[string]any{"k": q.Pred, "n": q.N, "v": show(q.V)}
					}
					return
				})
			}
			e["out"], e["why"] = out, why
			ev = append(ev, e)
		}
		ev = append(ev, map[string]any{"c": "build", "tag": "C25", "out": "ok", "why": "", "kept": reflect.DeepEqual(given, copied)})
	}
	return []any{map[string]any{"sid": s.Sid, "paths": map[string]any{}, "ops": ops, "ev": ev}}
}
