package main

// Driver: runs scripts against the real code and records traces for TLC.
//   drv MODE [-step] < scripts.ndjson > trace.ndjson

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"runtime/debug"
	"strconv"
	"sync"
	"sync/atomic"
	"time"
)

var steps = os.Stderr // also while the code under test has another one
var stepping = os.Getenv("VERIF_STEP") != ""

// current call, for the watchdog and for reports about a dead process
var progress atomic.Value
var beat atomic.Int64

func mark(c string) {
	progress.Store(c)
	beat.Store(time.Now().UnixNano())
	if stepping {
		fmt.Fprintln(steps, "STEP", c)
	}
}

// guarded runs f and reports a panic or error as a refusal.
func guarded(f func() error) (out string, why string) {
	defer func() {
		if r := recover(); r != nil {
			out, why = "refused", "panic: "+ascii(fmt.Sprint(r))
		}
	}()
	if err := f(); err != nil {
		return "refused", "error: " + ascii(err.Error())
	}
	return "ok", ""
}

// beside runs f in a second goroutine, if scripts run at the same time: it shares the values that are only read.
func beside(f func()) (join func()) {
	if os.Getenv("VERIF_PAR") == "" {
		return func() {}
	}
	done := make(chan bool)
	go func() {
		defer close(done)
		defer func() { recover() }()
		f()
	}()
	return func() { <-done }
}

var modes = map[string]func(line []byte) []any{}

func main() {
	debug.SetMaxStack(256 << 20)
	if len(os.Args) > 2 && os.Args[1] == "scratch" { // drivers that need a directory of their own
		runScratch(os.Args[2:])
		return
	}
	mode := modes[os.Args[1]]
	if mode == nil {
		fmt.Fprintln(os.Stderr, "unknown mode")
		os.Exit(2)
	}
	realOut := os.Stdout
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stdout = null // the code under test may print
	w := bufio.NewWriterSize(realOut, 1<<20)
	r := bufio.NewReaderSize(os.Stdin, 1<<20)
	beat.Store(time.Now().UnixNano())
	go func() { // a call that takes this long hangs
		for {
			time.Sleep(500 * time.Millisecond)
			if time.Now().UnixNano()-beat.Load() > int64(20*time.Second) {
				fmt.Fprintln(os.Stderr, "HANG", progress.Load())
				os.Exit(3)
			}
		}
	}()
	par, _ := strconv.Atoi(os.Getenv("VERIF_PAR")) // scripts run at the same time
	for {
		lines := [][]byte{}
		var err error
		for len(lines) < max(1, par) && err == nil {
			var line []byte
			if line, err = r.ReadBytes('\n'); len(line) > 1 {
				lines = append(lines, line)
			}
		}
		if len(lines) > 0 {
			mark("start")
		}
		if par > 0 {
			mark("together")
		}
		results := make([][]any, len(lines))
		var wg sync.WaitGroup
		for i, line := range lines {
			if par == 0 {
				results[i] = mode(line)
				continue
			}
			wg.Add(1)
			go func() {
				defer wg.Done()
				results[i] = mode(line)
			}()
		}
		wg.Wait()
		for _, res := range results {
			for _, v := range res {
				b, e := json.Marshal(v)
				if e != nil {
					panic(e)
				}
				w.Write(b)
				w.WriteByte('\n')
			}
		}
		w.Flush()
		if err == io.EOF {
			break
		}
		if err != nil {
			panic(err)
		}
	}
	w.Flush()
}

func runScratch(args []string) {
	fmt.Fprintln(os.Stderr, "unknown scratch mode")
	os.Exit(2)
}
