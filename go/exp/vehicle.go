package main

import (
	"encoding/json"
	"fmt"
	"math"
	"sort"
	"strconv"

	"github.com/CAU-CPSS/logument/exp"
)

func init() { modes["vehicle"] = vehicleMode }

type vehicleScript struct {
	Sid  int `json:"sid"`
	Defs []struct {
		I     int      `json:"i"`    // signal
		Pats  []string `json:"pats"` // its pattern in each scenario, "" for none
		Bools []string `json:"bools"`
		Lo    int      `json:"lo"` // how much further its limits are
		Hi    int      `json:"hi"`
	} `json:"defs"`
	Ev []struct {
		C    string   `json:"c"`
		Scn  string   `json:"scn"`
		Vals [][2]int `json:"vals"` // signal, where in its range (thousandths)
		Soc  int      `json:"soc"`
		T    int64    `json:"t"`
	} `json:"ev"`
}

func thous(x float64) int {
	if math.IsNaN(x) || math.Abs(x) > 2e6 {
		return 2000000001
	}
	return int(math.Round(x * 1000))
}

func vval(v any) map[string]any {
	switch x := v.(type) {
	case float64:
		return map[string]any{"k": "n", "x": "", "m": thous(x)}
	case string:
		return map[string]any{"k": "s", "x": ascii(x), "m": 0}
	case bool:
		return map[string]any{"k": "b", "x": strconv.FormatBool(x), "m": 0}
	}
	return map[string]any{"k": "other", "x": ascii(fmt.Sprintf("%T", v)), "m": 0}
}

var cats = []string{exp.SensorTypeHigh, exp.SensorTypeMedium, exp.SensorTypeLow, exp.ActuatorTypeHigh, exp.ActuatorTypeLow, exp.AttributeType}

func vehicleList(v *exp.VehicleData) []any {
	out := []any{}
	for i, g := range groups(v) {
		ps := make([]string, 0, len(g))
		for p := range g {
			ps = append(ps, p)
		}
		sort.Strings(ps)
		for _, p := range ps {
			d := g[p]
			params := []any{}
			for k, x := range d.ChangeParams {
				params = append(params, []any{k, thous(x)})
			}
			typ := d.Type
			if d.Path != p {
				typ += " of " + d.Path
			}
			out = append(out, map[string]any{"p": ascii(p), "cat": cats[i], "type": ascii(typ), "interval": d.UpdateInterval,
				"pat": ascii(d.ChangePattern), "params": params, "v": vval(d.Value)})
		}
	}
	return out
}

func definitions() []any {
	ps := []string{}
	for p := range exp.VSSSensors {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	out := []any{}
	for _, p := range ps {
		d := exp.VSSSensors[p]
		pats := []any{}
		for s, x := range d.ChangePatterns {
			pats = append(pats, []any{s, x})
		}
		out = append(out, map[string]any{"p": ascii(p), "cat": d.Category, "type": d.Type, "interval": d.UpdateInterval, "def": vval(d.DefaultValue),
			"min": thous(d.Min), "max": thous(d.Max), "pats": pats})
	}
	return out
}

func vehicleMode(line []byte) []any {
	var s vehicleScript
	if err := json.Unmarshal(line, &s); err != nil {
		panic(err)
	}
	text := func(x any) string { b, _ := json.Marshal(x); return string(b) }
	paths, had := []string{}, map[string]*exp.VSSSensor{}
	for p, d := range exp.VSSSensors {
		paths = append(paths, p)
		had[p] = d
	}
	sort.Strings(paths)
	defer func() {
		for p, d := range had {
			exp.VSSSensors[p] = d
		}
	}()
	for _, c := range s.Defs { // other definitions
		p := paths[c.I%len(paths)]
		d := *exp.VSSSensors[p]
		pats := c.Pats
		if d.Type != "number" {
			pats = c.Bools
		} else {
			d.Min, d.Max = math.Floor(d.Min)-float64(c.Lo), math.Ceil(d.Max)+float64(c.Hi)
		}
		d.ChangePatterns = map[string]string{}
		for i, s := range []string{"urban_traffic", "highway_cruising", "battery_charging"} {
			if pats[i] != "" {
				d.ChangePatterns[s] = pats[i]
			}
		}
		exp.VSSSensors[p] = &d
	}
	mark("init")
	other := exp.InitializeVehicleData("highway_cruising")
	table := definitions()
	was := text(other) + text(exp.VSSSensors)
	var v *exp.VehicleData
	st := exp.NewScenarioState("urban_traffic", 50)
	ev := []any{}
	for _, c := range s.Ev {
		mark(c.C)
		if d := v; c.C == "step" && d != nil && d.SensorsMedFreq[soc] != nil {
			d.SensorsMedFreq[soc].Value = float64(c.Soc) / 1000
			ev = append(ev, map[string]any{"c": "shake", "out": "ok", "why": "", "veh": vehicleList(v), "apart": text(other)+text(exp.VSSSensors) == was})
		}
		e := map[string]any{"c": c.C}
		e["out"], e["why"] = guarded(func() error {
			switch c.C {
			case "init":
				e["scn"] = c.Scn
				v = exp.InitializeVehicleData(c.Scn)
			case "shake":
				all := []*exp.SensorData{}
				for _, g := range groups(v) {
					for _, d := range g {
						all = append(all, d)
					}
				}
				sort.Slice(all, func(i, j int) bool { return all[i].Path < all[j].Path })
				for _, x := range c.Vals {
					d := all[x[0]%len(all)]
					def := exp.VSSSensors[d.Path]
					switch d.Type {
					case "number":
						d.Value = float64(thous(def.Min)+(thous(def.Max)-thous(def.Min))/1000*x[1]) / 1000
					case "boolean":
						d.Value = x[1]%2 == 0
					default:
						d.Value = fmt.Sprint("x", x[1])
					}
				}
			case "step":
				e["from"] = ascii(st.CurrentScenario)
				st.UpdateScenarioState(v, c.T)
				e["to"] = ascii(st.CurrentScenario)
			}
			return nil
		})
		e["veh"] = vehicleList(v)
		e["apart"] = text(other)+text(exp.VSSSensors) == was
		ev = append(ev, e)
	}
	return []any{map[string]any{"sid": s.Sid, "paths": map[string]any{}, "table": table, "ev": ev}}
}
