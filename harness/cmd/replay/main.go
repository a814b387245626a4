// Command replay runs a harness natively on recorded inputs.
//
//	replay -list                     registry as JSON lines
//	replay -serve                    JSON requests on stdin, replies on stdout
//	replay FILE                      one recorded counterexample; exit 1 if it reproduces
package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strings"
	"time"

	_ "verif/harness/props"
	"verif/harness/sym"
)

type req struct {
	Harness  string
	Inputs   []uint64
	Thorough bool
}

type resp struct {
	Outcome string // ok, panic, assert, assume, hang
	Msg     string
	Stack   string
	Obs     []string
}

func runOne(q req, limit time.Duration) resp {
	var h *sym.Harness
	for _, x := range sym.All {
		if x.Name == q.Harness {
			h = x
		}
	}
	if h == nil {
		return resp{Outcome: "error", Msg: "no harness " + q.Harness}
	}
	sym.Load(q.Inputs, q.Thorough)
	ch := make(chan resp, 1)
	go func() {
		r := resp{Outcome: "ok"}
		defer func() {
			r.Obs = sym.Obs
			ch <- r
		}()
		defer func() {
			switch x := recover().(type) {
			case nil:
			case sym.Failure:
				r.Outcome, r.Msg = "assert", x.Msg
			case sym.Rejected:
				r.Outcome = "assume"
			default:
				r.Outcome, r.Msg = "panic", fmt.Sprint(x)
				st := strings.Split(string(debug.Stack()), "\n")
				if len(st) > 40 {
					st = st[:40]
				}
				r.Stack = strings.Join(st, "\n")
			}
		}()
		h.Fn()
	}()
	select {
	case r := <-ch:
		return r
	case <-time.After(limit):
		return resp{Outcome: "hang", Msg: fmt.Sprintf("no result after %v", limit)}
	}
}

func main() {
	debug.SetMaxStack(256 << 20)
	debug.SetMemoryLimit(2 << 30)
	if len(os.Args) > 1 && os.Args[1] == "-list" {
		e := json.NewEncoder(os.Stdout)
		for _, h := range sym.All {
			e.Encode(map[string]interface{}{"Prop": h.Prop, "Name": h.Name, "Func": h.Func, "Tier": h.Tier, "Doc": h.Doc})
		}
		return
	}
	if len(os.Args) > 1 && os.Args[1] == "-serve" {
		sc := bufio.NewReaderSize(os.Stdin, 1<<20)
		out := json.NewEncoder(os.Stdout)
		for {
			line, err := sc.ReadBytes('\n')
			if err != nil {
				return
			}
			var q req
			if err := json.Unmarshal(line, &q); err != nil {
				out.Encode(resp{Outcome: "error", Msg: err.Error()})
				continue
			}
			r := runOne(q, 10*time.Second)
			out.Encode(r)
			if r.Outcome == "hang" {
				os.Exit(3)
			}
		}
	}
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: replay -list | -serve | FILE")
		os.Exit(2)
	}
	b, err := os.ReadFile(os.Args[1])
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	var q req
	if err := json.Unmarshal(b, &q); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	r := runOne(q, 30*time.Second)
	fmt.Printf("%s %s\n", r.Outcome, r.Msg)
	if r.Stack != "" {
		fmt.Println(r.Stack)
	}
	for _, o := range r.Obs {
		fmt.Println("  ", o)
	}
	if r.Outcome == "ok" || r.Outcome == "assume" {
		return
	}
	os.Exit(1)
}
