package main

import (
	"errors"
	"net/http"
	"net/http/httptest"
	"os"
	"time"
)

// The web demo, started as a user starts it, with its requests made directly.

var demoDone = make(chan any, 1)

func startDemo() error {
	stderr := os.Stderr
	null, _ := os.OpenFile("/dev/null", os.O_WRONLY, 0)
	os.Stderr = null
	defer func() { os.Stderr = stderr }()
	go func() {
		defer func() { demoDone <- recover() }()
		WebDemo()
	}()
	for end := time.Now().Add(60 * time.Second); time.Now().Before(end); time.Sleep(2 * time.Millisecond) {
		ready := true
		for _, url := range []string{"/patch", "/update", "/"} {
			_, pattern := http.DefaultServeMux.Handler(httptest.NewRequest("GET", url, nil))
			ready = ready && pattern == url
		}
		if ready {
			return nil
		}
		select {
		case r := <-demoDone:
			if r != nil {
				return errors.New("the demo panics")
			}
		default:
		}
	}
	return errors.New("the demo does not serve")
}

func init() {
	if os.Getenv("VERIF_MODE") != "" {
		var started bool
		var failed error
		demoReady = func() error {
			if !started {
				started, failed = true, startDemo()
			}
			return failed
		}
		verifMain()
		os.Exit(0)
	}
}
