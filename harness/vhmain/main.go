// Command vhmain runs harnesses natively on tapes read from standard input.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sync"
	"time"

	"github.com/clipperhouse/uax29/v2/internal/vh"
	"github.com/clipperhouse/uax29/v2/internal/vsym"
)

type job struct {
	Harness string            `json:"harness"`
	Args    []int             `json:"args"`
	Bytes   map[string][]byte `json:"bytes"`
	Ints    map[string]int    `json:"ints"`
	Race    bool              `json:"race"`
}

// race runs the job in several goroutines, for the race detector.
func race(j job) {
	vsym.Start(vsym.Tape{Bytes: j.Bytes, Ints: j.Ints})
	vsym.Quiet = true
	var wg sync.WaitGroup
	for g := 0; g < 4; g++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 100; k++ {
				func() {
					defer func() { recover() }()
					vh.Run(j.Harness, j.Args)
				}()
			}
		}()
	}
	wg.Wait()
}

type result struct {
	Status  string         `json:"status"` // ok, assume, violation, panic
	Msg     string         `json:"msg"`
	Outs    map[string]int `json:"outs"`
	Reached []string       `json:"reached"`
}

func run(j job) (r result) {
	vsym.Start(vsym.Tape{Bytes: j.Bytes, Ints: j.Ints})
	vsym.Job, _ = json.Marshal(j)
	defer func() {
		if x := recover(); x != nil {
			if s, ok := x.(vsym.Stop); ok {
				if s.Why == "assume" {
					r.Status = "assume"
				} else {
					r.Status, r.Msg = "violation", s.Why
				}
			} else {
				r.Status, r.Msg = "panic", fmt.Sprint(x)
			}
		}
		r.Outs = vsym.Outs
		for k := range vsym.Reached {
			r.Reached = append(r.Reached, k)
		}
	}()
	vh.Run(j.Harness, j.Args)
	if m := vsym.Finish(); m != "" {
		return result{Status: "violation", Msg: m}
	}
	return result{Status: "ok"}
}

func main() {
	if err := vsym.LoadRefs(os.Getenv("VSYM_REF")); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	limit := 10 * time.Second
	d := json.NewDecoder(os.Stdin)
	e := json.NewEncoder(os.Stdout)
	for d.More() {
		var j job
		if err := d.Decode(&j); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		if j.Race {
			race(j)
			return
		}
		ch := make(chan result, 1)
		go func() { ch <- run(j) }()
		select {
		case r := <-ch:
			e.Encode(r)
		case <-time.After(limit):
			e.Encode(result{Status: "hang", Msg: "no answer within 10s"})
			os.Exit(3)
		}
	}
}
