package main

import (
	"fmt"
	"os"
	"time"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gosym check <prop> <tier> | replay <file> | debug <relpkg> <func> <args...>")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "check":
		rc := runCheck(os.Args[2], os.Args[3])
		dumpTrace()
		os.Exit(rc)
	case "replay":
		os.Exit(doReplay(os.Args[2]))
	case "debug":
		os.Args = os.Args[1:]
		debugMain()
	}
}

func debugMain() {
	t0 := time.Now()
	e := &Engine{}
	if err := e.buildOverlay(); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	if err := e.load(os.Args[1:2]); err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	fmt.Println("load", time.Since(t0), e.dropped)
	h := &HarnessRun{Name: os.Args[1] + "." + os.Args[2], Merge: true, MergeSteps: 20000, QueryTimeoutMs: 20000, Samples: 3, MaxViol: 3, MaxDecisions: 5000, MaxConcretize: 300, MaxSteps: 50_000_000}
	for _, a := range os.Args[3:] {
		var x int64
		fmt.Sscan(a, &x)
		h.Args = append(h.Args, x)
	}
	h.fn = e.find(h.Name)
	h.setupFn = e.find(h.Name + "_Setup")
	if h.fn == nil {
		fmt.Println("no such harness", h.Name)
		os.Exit(2)
	}
	pool := &WorkerPool{eng: e, n: 8, ins: make([]*Interp, 8)}
	x := &Explorer{eng: e, h: h, deadline: time.Now().Add(120 * time.Second)}
	x.Run(pool)
	fmt.Println(x.stats.String(), x.stats.Covers)
	for _, v := range x.viol {
		fmt.Printf("VIOL %s %s %s %v\n", v.Kind, v.Label, v.Detail, v.Inputs)
	}
	for _, s := range x.samples {
		fmt.Println("SAMPLE", s)
	}
	fmt.Println(x.stats.Errs)
	dumpTrace()
}
