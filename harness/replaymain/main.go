// Package replaymain runs harnesses natively on recorded assignments.
//
//	replay < traces.jsonl > results.jsonl      (one JSON object per line)
package replaymain

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"time"

	"aminoharness/sym"
)

type trace struct {
	Harness string            `json:"harness"`
	Inputs  map[string]uint64 `json:"inputs"`
	Repeat  int               `json:"repeat"`
	Sched   []int             `json:"sched"`
}

type outcome struct {
	Status string   `json:"status"` // ok assumed violation panic hang
	Msg    string   `json:"msg"`
	Obs    []string `json:"obs"`
}

func runOne(table map[string]func(), t trace, tier, rep int) (o outcome) {
	f := table[t.Harness]
	if f == nil {
		return outcome{Status: "missing", Msg: "no harness " + t.Harness}
	}
	r := sym.Start(t.Inputs, tier)
	r.Sched = t.Sched
	r.Spin = rep
	done := make(chan outcome, 1)
	go func() {
		var o outcome
		defer func() {
			if p := recover(); p != nil {
				switch p := p.(type) {
				case sym.Violation:
					o = outcome{Status: "violation", Msg: p.Msg}
				case sym.Assumed:
					o = outcome{Status: "assumed", Msg: p.Msg}
				default:
					o = outcome{Status: "panic", Msg: fmt.Sprint(p)}
					if os.Getenv("REPLAY_STACK") != "" {
						os.Stderr.Write(debug.Stack())
					}
				}
			}
			o.Obs = r.Obs
			done <- o
		}()
		f()
		o.Status = "ok"
	}()
	select {
	case o = <-done:
	case <-time.After(20 * time.Second):
		o = outcome{Status: "hang", Msg: "no result after 20 s"}
	}
	return o
}

// Main is the program.
func Main(table map[string]func()) {
	tier := 0
	if len(os.Args) > 1 {
		tier, _ = strconv.Atoi(os.Args[1])
	}
	in := bufio.NewReaderSize(os.Stdin, 1<<20)
	dec := json.NewDecoder(in)
	// the code under test may print: results go to descriptor 3 when it is open, else stdout
	dst := os.NewFile(3, "results")
	if _, err := dst.Stat(); err != nil {
		dst = os.Stdout
	}
	enc := json.NewEncoder(dst)
	for {
		var t trace
		if err := dec.Decode(&t); err != nil {
			return
		}
		n := t.Repeat
		if n < 1 {
			n = 1
		}
		var o outcome
		for i := 0; i < n; i++ {
			o = runOne(table, t, tier, i)
			if o.Status != "ok" {
				break
			}
		}
		enc.Encode(o)
		if o.Status == "hang" {
			os.Exit(7)
		}
	}
}
