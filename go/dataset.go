package main

import (
	"crypto/sha256"
	"encoding/hex"
	"encoding/json"
	"flag"
	"fmt"
	"net/http"
	"net/http/httptest"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"

	"github.com/CAU-CPSS/logument/internal/tson"
	"github.com/CAU-CPSS/logument/internal/tsonpatch"
	"github.com/CAU-CPSS/logument/internal/vssgen"
)

// A script of one dataset: how it is generated, and requests to the web demo.
type dataScript struct {
	Sid      int             `json:"sid"`
	Vss      json.RawMessage `json:"vss"`    // the schema file's content; empty: the repository's
	Schema   json.RawMessage `json:"schema"` // what the specification needs of it
	Cars     int             `json:"cars"`
	Files    int             `json:"files"`
	Size     float64         `json:"size"`
	Change   float64         `json:"change"`
	Maintain float64         `json:"maintain"`
	Leaves   int             `json:"leaves"` // documents whose leaves are listed
	Demo     bool            `json:"demo"`   // serve the dataset which the demo made
	Reqs     []dataReq       `json:"reqs"`
	Parallel bool            `json:"parallel"`
	Repeat   int             `json:"repeat"`
	Argv     []string        `json:"argv"`  // a command line
	Given    map[string]any  `json:"given"` // and what it says
}

type dataReq struct {
	C   string `json:"c"` // view, first, patch, home, bad
	Car int    `json:"car"`
	K   int    `json:"k"`
	URL string `json:"url"`
}

func share(f float64) string {
	switch {
	case f <= 0:
		return "zero"
	case f >= 1:
		return "one"
	}
	return "mid"
}

// compat turns the generator's own form of a document into a TSON document.
func compat(v any) tson.Value {
	switch n := v.(type) {
	case map[string]any:
		if t, ok := n["timestamp"]; ok {
			ts, _ := t.(int64)
			switch x := n["value"].(type) {
			case nil:
				return nil
			case string:
				return tson.Leaf[string]{Value: x, Timestamp: ts}
			case bool:
				return tson.Leaf[bool]{Value: x, Timestamp: ts}
			case float64:
				return tson.Leaf[float64]{Value: x, Timestamp: ts}
			case int:
				return tson.Leaf[float64]{Value: float64(x), Timestamp: ts}
			}
			return tson.Leaf[string]{Value: fmt.Sprintf("unexpected %T", n["value"]), Timestamp: -2}
		}
		o := tson.Object{}
		for k, c := range n {
			o[k] = compat(c)
		}
		return o
	case []any:
		a := tson.Array{}
		for _, c := range n {
			a = append(a, compat(c))
		}
		return a
	case nil:
		return nil
	}
	return tson.Leaf[string]{Value: fmt.Sprintf("unexpected %T", v), Timestamp: -2}
}

// ranks numbers the timestamps of a trace in their order.
type ranks struct {
	seen map[int64]int
}

func (r *ranks) see(v tson.Value) {
	switch n := v.(type) {
	case tson.Leaf[string]:
		r.seen[n.Timestamp] = 0
	case tson.Leaf[float64]:
		r.seen[n.Timestamp] = 0
	case tson.Leaf[bool]:
		r.seen[n.Timestamp] = 0
	case tson.Object:
		for _, c := range n {
			r.see(c)
		}
	case tson.Array:
		for _, c := range n {
			r.see(c)
		}
	}
}

func (r *ranks) settle() {
	all := []int64{}
	for t := range r.seen {
		if t > 0 {
			all = append(all, t)
		}
	}
	sort.Slice(all, func(i, j int) bool { return all[i] < all[j] })
	for i, t := range all {
		r.seen[t] = i + 1
	}
	for t := range r.seen {
		if t <= 0 {
			r.seen[t] = -1
		}
	}
}

// scribble changes every value it can reach.
func scribble(v any) {
	switch n := v.(type) {
	case map[string]any:
		for k, c := range n {
			scribble(c)
			if _, ok := c.(map[string]any); !ok {
				n[k] = "overwritten"
			}
		}
		n["one more"] = true
	case []any:
		for i, c := range n {
			scribble(c)
			if i == 0 {
				n[i] = "overwritten"
			}
		}
	}
}

// sorted brings the bytes of a text in order: members are written in any order.
func sorted(b []byte) []byte {
	b = append([]byte{}, b...)
	sort.Slice(b, func(i, j int) bool { return b[i] < b[j] })
	return b
}

func digest(b []byte) string {
	h := sha256.Sum256(b)
	return hex.EncodeToString(h[:])
}

func treeDigest(dir string) string {
	var parts []string
	filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err == nil && !i.IsDir() {
			b, _ := os.ReadFile(p)
			parts = append(parts, p+" "+digest(b))
		}
		return nil
	})
	return digest([]byte(strings.Join(parts, "\n")))
}

func init() { modes["dataset"] = runDataset }

// demoReady is set by the web driver.
var demoReady func() error

func runDataset(line []byte) []any {
	var s dataScript
	if err := json.Unmarshal(line, &s); err != nil {
		panic(err)
	}
	out := []any{}
	for range max(1, s.Repeat) {
		out = append(out, oneDataset(s))
	}
	return out
}

func oneDataset(s dataScript) any {
	stderr := os.Stderr
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stderr = null // progress bars
	defer func() { os.Stderr = stderr; null.Close() }()

	rk := &ranks{map[int64]int{}}
	p := newProjector(func(t int64) any { return rk.seen[t] })
	var later []func() any // events, to be made when all timestamps are known
	add := func(f func() any) { later = append(later, f) }
	fail := func(c string, car int, why string) {
		add(func() any { return M{"c": c, "car": strconv.Itoa(car), "out": "error", "why": ascii(why)} })
	}
	read := func(name string) (d tson.Tson, err error) {
		b, err := os.ReadFile(name)
		if err == nil {
			out, why := guarded(func() error { return tson.Unmarshal(b, &d) })
			if out != "ok" {
				err = fmt.Errorf("%s: %s", filepath.Base(name), why)
			}
		}
		return d, err
	}

	root, _ := os.Getwd()
	if demoReady == nil && !s.Demo { // not in a directory of our own
		root, _ = os.MkdirTemp("", "verif-dataset-")
		defer os.RemoveAll(root)
	}
	dir := filepath.Join(root, "dataset")
	schema := filepath.Join(root, "schema.json")
	change, maintain := s.Change, s.Maintain
	size := s.Size
	opts := map[string]any{"dataset": schema, "cars": s.Cars, "files": s.Files, "change_rate": s.Change, "size": s.Size}
	if s.Maintain >= 0 {
		opts["maintain_rate"] = s.Maintain
	}
	if demoReady != nil || s.Demo {
		mark("view")
		if demoReady == nil {
			panic("no demo in this driver")
		}
		if err := demoReady(); err != nil {
			return M{"sid": s.Sid, "paths": M{}, "opts": M{}, "schema": M{}, "ev": []any{M{"c": "view", "out": "error", "car": "1", "k": 1, "why": ascii(err.Error())}}}
		}
	}
	if !s.Demo {
		vss := s.Vss
		if len(vss) == 0 {
			vss, _ = os.ReadFile(os.Getenv("VERIF_VSS"))
		}
		os.WriteFile(schema, vss, 0o644)
		os.MkdirAll(filepath.Join(dir, "car_1", "tson"), 0o755) // left over from an earlier run
		os.WriteFile(filepath.Join(dir, "car_1", "tson", "1_99.tson"), []byte("{}"), 0o644)
		mark("first")
		out, why := guarded(func() error {
			vssgen.PrepareOutputDir(dir)
			vssgen.SaveMetadata(opts, dir)
			vssgen.Generate(opts, dir)
			return nil
		})
		if out != "ok" {
			fail("first", 1, why)
		}
		mark("meta")
		add(func() any {
			var m map[string]any
			b, err := os.ReadFile(filepath.Join(dir, "metadata.json"))
			if err == nil {
				err = json.Unmarshal(b, &m)
			}
			if err != nil {
				return M{"c": "meta", "out": "error", "why": ascii(err.Error())}
			}
			return M{"c": "meta", "out": "ok", "want": ascii(js(opts)), "have": ascii(js(m))}
		})
		meta := later[len(later)-1]()
		later[len(later)-1] = func() any { return meta }
	}

	if len(s.Argv) > 0 && demoReady == nil {
		mark("args")
		args, set := os.Args, flag.CommandLine
		flag.CommandLine = flag.NewFlagSet("demo", flag.ContinueOnError)
		os.Args = append([]string{"demo"}, s.Argv...)
		var have map[string]any
		out, why := guarded(func() error { have = vssgen.ParseArgs("the usual one"); return nil })
		os.Args, flag.CommandLine = args, set
		add(func() any {
			g, h := M{}, M{}
			for k, v := range s.Given {
				g[k] = ascii(js(v))
			}
			for k, v := range have {
				h[k] = ascii(js(v))
			}
			return M{"c": "args", "out": out, "why": why, "given": g, "have": h}
		})
	}

	for car := 1; car <= s.Cars; car++ {
		tdir := filepath.Join(dir, fmt.Sprintf("car_%d", car), "tson")
		pdir := filepath.Join(dir, fmt.Sprintf("car_%d", car), "patches")
		for k := 1; k <= s.Files; k++ {
			c := "next"
			if k == 1 {
				c = "first"
			}
			car := car
			doc, err := read(filepath.Join(tdir, fmt.Sprintf("%d_%d.tson", car, k)))
			if err != nil {
				fail(c, car, err.Error())
				continue
			}
			rk.see(doc)
			pfile := filepath.Join(pdir, fmt.Sprintf("%d_%d.json", car, k))
			if k == 1 {
				cp, err := read(pfile)
				if err != nil {
					fail(c, car, err.Error())
					continue
				}
				rk.see(cp)
				add(func() any {
					return M{"c": "first", "car": strconv.Itoa(car), "out": "ok", "res": p.node(doc), "copy": p.node(cp)}
				})
				continue
			}
			var ops tsonpatch.Patch
			b, err := os.ReadFile(pfile)
			if err == nil {
				out, why := guarded(func() error { return json.Unmarshal(b, &ops) })
				if out != "ok" {
					err = fmt.Errorf("%s: %s", filepath.Base(pfile), why)
				}
			}
			if err != nil {
				fail(c, car, err.Error())
				continue
			}
			for _, o := range ops {
				rk.seen[o.Timestamp] = 0
			}
			add(func() any {
				return M{"c": "next", "car": strconv.Itoa(car), "out": "ok", "p": p.ops(ops), "res": p.node(doc)}
			})
		}
		nt, _ := os.ReadDir(tdir)
		np, _ := os.ReadDir(pdir)
		want := fmt.Sprintf("%d %d", s.Files, s.Files)
		have := fmt.Sprintf("%d %d", len(nt), len(np))
		add(func() any { return M{"c": "count", "out": "ok", "want": want, "have": have} })
	}

	if !s.Demo {
		pct := func(f float64) int { return int(max(0, f)*100 + .5) }
		add(func() any {
			return M{"c": "rates", "out": "ok", "size": pct(s.Size), "change": pct(s.Change), "maintain": pct(s.Maintain)}
		})
	}

	mark("leaves")
	if s.Leaves > 0 {
		v := vssgen.NewVssJson(schema)
		var d *vssgen.VssJson
		for i := 0; i < s.Leaves; i++ {
			var list []map[string]any
			var built, asmap map[string]any
			var doc tson.Tson
			out, why := guarded(func() error {
				if d == nil {
					d = v.Generate(s.Size, 1)
				} else {
					d, _ = d.GenerateNext(s.Change, max(0, s.Maintain), 1, i+1)
				}
				list = d.LeafNodes()
				var err error
				built, err = d.BuildFromLeafNodes()
				if err != nil {
					return err
				}
				if asmap, err = d.ToMapStringInterface(); err != nil {
					return err
				}
				file := filepath.Join(root, "doc.tson")
				d.Save(file)
				doc, err = read(file)
				return err
			})
			if out != "ok" {
				fail("leaves", 1, why)
				break
			}
			rk.see(doc)
			b := compat(built)
			am := compat(asmap)
			{ // the map is the caller's own
				file := filepath.Join(root, "again.tson")
				first, _ := os.ReadFile(filepath.Join(root, "doc.tson"))
				scribble(asmap)
				d.Save(file)
				then, _ := os.ReadFile(file)
				want, have := digest(sorted(first)), digest(sorted(then))
				add(func() any { return M{"c": "meta", "out": "ok", "want": want, "have": have} })
			}
			rk.see(b)
			rk.see(am)
			type leaf struct {
				path string
				node tson.Value
			}
			var ls []leaf
			for _, m := range list {
				for k, x := range m {
					n := compat(x)
					rk.see(n)
					ls = append(ls, leaf{k, n})
				}
			}
			add(func() any {
				out := []any{}
				for _, l := range ls {
					out = append(out, M{"path": ascii(l.path), "node": p.node(l.node)})
				}
				return M{"c": "leaves", "out": "ok", "doc": p.node(doc), "leaves": out, "rebuilt": p.node(b), "asmap": p.node(am)}
			})
		}
	}

	if len(s.Reqs) > 0 {
		mark("view")
		before := treeDigest(dir)
		evs := make([]func() any, len(s.Reqs))
		var wg sync.WaitGroup
		var mu sync.Mutex
		for i, r := range s.Reqs {
			do := func() {
				f := request(r, dir, rk, p, &mu)
				mu.Lock()
				evs[i] = f
				mu.Unlock()
			}
			if s.Parallel {
				wg.Add(1)
				go func() { defer wg.Done(); do() }()
			} else {
				do()
			}
		}
		wg.Wait()
		for _, f := range evs {
			if f != nil {
				add(f)
			}
		}
		after := treeDigest(dir)
		add(func() any { return M{"c": "stored", "out": "ok", "want": before, "have": after} })
	}
	rk.settle()
	evs := []any{}
	for _, f := range later {
		evs = append(evs, f())
	}
	return M{"sid": s.Sid, "schema": s.Schema, "paths": p.paths, "ev": evs,
		"opts": M{"size": share(size), "change": share(change), "maintain": share(maintain)}}
}

// request makes one request to the web demo.
func request(r dataReq, dir string, rk *ranks, p *projector, mu *sync.Mutex) func() any {
	url, file := r.URL, ""
	switch r.C {
	case "view":
		url = fmt.Sprintf("/patch?car=%d&patch=%d", r.Car, r.K)
	case "first":
		url = fmt.Sprintf("/update?car=%d", r.Car)
		file = filepath.Join(dir, fmt.Sprintf("car_%d/tson/%d_1.tson", r.Car, r.Car))
	case "patch":
		url = fmt.Sprintf("/update?car=%d&patch=%d", r.Car, r.K)
		file = filepath.Join(dir, fmt.Sprintf("car_%d/patches/%d_%d.json", r.Car, r.Car, r.K))
	case "home":
		url, file = "/", "index.html"
	}
	rec := httptest.NewRecorder()
	out, why := guarded(func() error {
		http.DefaultServeMux.ServeHTTP(rec, httptest.NewRequest("GET", url, nil))
		return nil
	})
	switch {
	case r.C == "bad":
		return nil
	case r.C == "view":
		var d tson.Tson
		if out == "ok" {
			out, why = guarded(func() error { return tson.Unmarshal(rec.Body.Bytes(), &d) })
		}
		if out != "ok" {
			return func() any {
				return M{"c": "view", "car": strconv.Itoa(r.Car), "k": r.K, "out": "error", "why": why}
			}
		}
		mu.Lock()
		rk.see(d)
		mu.Unlock()
		return func() any {
			return M{"c": "view", "car": strconv.Itoa(r.Car), "k": r.K, "out": "ok", "res": p.node(d)}
		}
	}
	b, err := os.ReadFile(file)
	if err != nil {
		out, why = "error", err.Error()
	}
	have := digest(rec.Body.Bytes())
	return func() any {
		return M{"c": "raw", "url": url, "out": out, "why": ascii(why), "want": digest(b), "have": have}
	}
}
