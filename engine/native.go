package main

import (
	"bufio"
	"encoding/json"
	"fmt"
	"io"
	"os/exec"
	"strings"
	"sync"
	"time"
)

// native drives the natively compiled harness (the real code).
type native struct {
	bin  string
	deep bool
	mu   sync.Mutex
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	runs int
	dur  time.Duration
}

type nresp struct {
	Outcome string
	Msg     string
	Stack   string
	Obs     []string
}

func (n *native) start() error {
	n.cmd = exec.Command(n.bin, "-serve")
	in, err := n.cmd.StdinPipe()
	if err != nil {
		return err
	}
	out, err := n.cmd.StdoutPipe()
	if err != nil {
		return err
	}
	if err := n.cmd.Start(); err != nil {
		return err
	}
	n.in, n.out = in, bufio.NewReaderSize(out, 1<<20)
	return nil
}

func (n *native) close() {
	if n.cmd != nil {
		n.in.Close()
		n.cmd.Process.Kill()
		n.cmd.Wait()
		n.cmd = nil
	}
}

func (n *native) run(h string, inputs []uint64) nresp {
	n.mu.Lock()
	defer n.mu.Unlock()
	t0 := time.Now()
	defer func() { n.dur += time.Since(t0); n.runs++ }()
	if n.cmd == nil {
		if err := n.start(); err != nil {
			return nresp{Outcome: "error", Msg: err.Error()}
		}
	}
	if inputs == nil {
		inputs = []uint64{}
	}
	b, _ := json.Marshal(map[string]any{"Harness": h, "Inputs": inputs, "Thorough": n.deep})
	n.in.Write(append(b, '\n'))
	type rr struct {
		b   []byte
		err error
	}
	ch := make(chan rr, 1)
	out := n.out
	go func() {
		l, err := out.ReadBytes('\n')
		ch <- rr{l, err}
	}()
	var r rr
	select {
	case r = <-ch:
	case <-time.After(30 * time.Second):
		n.close()
		return nresp{Outcome: "hang", Msg: "no reply"}
	}
	if r.err != nil {
		n.close()
		return nresp{Outcome: "crash", Msg: "native process died (fatal error)"}
	}
	var q nresp
	if err := json.Unmarshal(r.b, &q); err != nil {
		n.close()
		return nresp{Outcome: "error", Msg: err.Error()}
	}
	if q.Outcome == "hang" {
		n.close()
	}
	return q
}

type harnessInfo struct {
	Prop, Name, Func, Doc string
	Tier                  int
}

func listHarnesses(bin string) ([]harnessInfo, error) {
	b, err := exec.Command(bin, "-list").Output()
	if err != nil {
		return nil, err
	}
	var hs []harnessInfo
	for _, l := range strings.Split(strings.TrimSpace(string(b)), "\n") {
		if l == "" {
			continue
		}
		var h harnessInfo
		if err := json.Unmarshal([]byte(l), &h); err != nil {
			return nil, fmt.Errorf("%v: %s", err, l)
		}
		hs = append(hs, h)
	}
	return hs, nil
}
