// replay runs harnesses natively on concrete inputs.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"syscall"
	"time"

	"verif/harness/props"
	"verif/harness/sym"
)

type item struct {
	Prop    string      `json:"property"`
	Tier    int         `json:"tier"`
	Harness string      `json:"harness"`
	Case    int         `json:"case"`
	Inputs  []sym.Input `json:"inputs"`
	Times   int         `json:"times"`
}

type res struct {
	I      int    `json:"i"`
	Result string `json:"result"`
	Msg    string `json:"msg"`
}

func runOnce(h props.H, it item) (r res) {
	defer func() {
		switch x := recover().(type) {
		case nil:
		case sym.Infeasible:
			r = res{Result: "infeasible", Msg: x.Why}
		case sym.Violation:
			r = res{Result: "violation", Msg: x.Msg}
		default:
			r = res{Result: "panic", Msg: fmt.Sprint(x)}
		}
	}()
	sym.SetTier(it.Tier)
	_, run := h.Setup(it.Case)
	sym.Load(it.Inputs)
	run()
	return res{Result: "ok"}
}

func runItem(it item) res {
	var h *props.H
	for i := range props.All {
		if props.All[i].Prop == it.Prop && props.All[i].Name == it.Harness {
			h = &props.All[i]
		}
	}
	if h == nil {
		return res{Result: "none", Msg: "no such harness"}
	}
	if it.Times < 1 {
		it.Times = 1
	}
	last := res{}
	for k := 0; k < it.Times; k++ {
		last = runOnce(*h, it)
		if last.Result != "ok" && last.Result != "infeasible" {
			break
		}
	}
	return last
}

func main() {
	if !race {
		lim := syscall.Rlimit{Cur: 6 << 30, Max: 6 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	debug.SetMaxStack(256 << 20)
	var items []item
	if len(os.Args) == 3 && os.Args[1] == "-batch" {
		b, err := os.ReadFile(os.Args[2])
		if err == nil {
			err = json.Unmarshal(b, &items)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
	} else if len(os.Args) == 2 {
		b, err := os.ReadFile(os.Args[1])
		var it item
		if err == nil {
			err = json.Unmarshal(b, &it)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		it.Times = 200
		items = []item{it}
	} else {
		fmt.Fprintln(os.Stderr, "usage: replay FILE | replay -batch FILE")
		os.Exit(2)
	}
	out := json.NewEncoder(os.Stdout)
	bad := false
	for i, it := range items {
		ch := make(chan res, 1)
		go func() { ch <- runItem(it) }()
		var r res
		select {
		case r = <-ch:
		case <-time.After(10 * time.Second):
			r = res{Result: "hang", Msg: "no result within 10 s"}
		}
		r.I = i
		out.Encode(r)
		if len(os.Args) == 2 {
			for _, n := range sym.Notes() {
				fmt.Println("note:", n)
			}
		}
		bad = bad || r.Result != "ok" && r.Result != "infeasible"
		if r.Result == "hang" {
			os.Exit(1)
		}
	}
	if bad {
		os.Exit(1)
	}
}
