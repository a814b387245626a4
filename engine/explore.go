package main

import (
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"
)

const (
	dBranch uint8 = iota
	dChoose
	dConcEq
	dConcNeq
)

type decision struct {
	kind uint8
	val  uint64
	excl []uint64
	h    uint64 // hash of the condition or value decided: replays must agree
}

type workItem struct {
	prefix []decision
	model  []uint64
	depth  int
}

type input struct {
	name string
	kind string // var / choose
	e    *Expr
	val  uint64
}

type obs struct {
	tag  string
	kind string
	v    Value
	isB  bool
	vs   []Value
}

type pathState struct {
	prefix  []decision
	pos     int
	rlen    int // length of the decision prefix being replayed
	taken   []decision
	vars    []*Expr
	pc      []*Expr
	pcSet   map[*Expr]bool
	dom     [][4]uint64
	small   []bool
	multi   []bool
	model   []uint64
	inputs  []input
	obs     []obs
	uf      map[string][]Value
	ufApps  [][2][]Value // applications of SHA-256: argument, result
	asserts int
}

type violation struct {
	Harness   string
	Msg       string
	Inputs    []uint64
	Names     []string
	Trace     string
	Confirmed bool
	NativeOut string
	Key       string
}

type sample struct {
	inputs []uint64
	obs    []string
}

// run aggregates the exploration of one harness.
type run struct {
	name     string
	prop     string
	fn       *ssa.Function
	ex       *explorer
	mu       sync.Mutex
	stack    []*workItem
	active   int
	closed   bool
	deadline time.Time

	paths, complete, pruned, panics, incomplete int
	forks, xchecks                              int
	reach                                       map[string]int
	asserts                                     map[string]int
	assertQ, assertFold                         int
	unsupportedM                                map[string]int
	stops                                       map[string]int
	cands                                       []*violation
	candSeen                                    map[string]int
	viol                                        []*violation
	samples                                     []sample
	leftover                                    int
	maxDepth                                    int
	steps                                       uint64
	queries, qsat, qunsat, qunk                 int
	fast, cached                                int
	solverDur, maxQ                             time.Duration
	wall                                        time.Duration
	stopNow                                     int32
	fns                                         map[string]int
}

type explorer struct {
	P           *Program
	tier        string
	seed        int64
	nworkers    int
	solverBin   []string
	sampleN     int
	maxSteps    uint64
	onCandidate func(r *run, v *violation) bool // returns true to stop
	workers     []*worker
	initDone    bool
}

type worker struct {
	id    int
	ex    *explorer
	in    *Interp
	sol   *Solver
	sol2  *Solver
	r     *run
	cache map[string]cacheEnt
	rng   *rand.Rand

	forks, fast, cached, incomplete int
	xchecks                         int
	fns                             map[string]int
}

type cacheEnt struct {
	r    SatResult
	vals []uint64
}

func (w *worker) noteFn(fi *fnInfo) {
	w.fns[fi.name]++
}

func newWorker(ex *explorer, id int) *worker {
	w := &worker{id: id, ex: ex, cache: map[string]cacheEnt{}, rng: rand.New(rand.NewSource(ex.seed*1000 + int64(id))), fns: map[string]int{}}
	w.sol = NewSolver(20*time.Second, ex.solverBin...)
	w.sol2 = NewSolver(20*time.Second, "cvc5", "--incremental", "--produce-models", "--lang=smt2")
	w.in = &Interp{P: ex.P, cx: NewCtx(), stk: make([]Value, 1<<17), inited: map[*ssa.Package]int{}, initErr: map[string]string{}, W: w}
	w.in.runtimeErrT = ex.P.runtimeErr()
	return w
}

// baseInit runs the module packages' initialisers once.
func (w *worker) baseInit(pkgs []*ssa.Package) {
	in := w.in
	in.ex = newPath(&workItem{})
	in.maxSteps = 1 << 40
	in.pathNo = 0
	for _, p := range pkgs {
		in.ensureInit(p)
	}
}

func newPath(it *workItem) *pathState {
	return &pathState{prefix: it.prefix, rlen: len(it.prefix), model: append([]uint64(nil), it.model...), pcSet: map[*Expr]bool{}}
}

func (in *Interp) newVar(name string, w uint8, lo, hi uint64) Value {
	ex := in.ex
	i := len(ex.vars)
	e := in.cx.Var(i, w, lo, hi)
	ex.vars = append(ex.vars, e)
	for len(ex.model) <= i {
		ex.model = append(ex.model, lo)
	}
	if ex.model[i] < lo || ex.model[i] > hi {
		ex.model[i] = lo
	}
	in.cx.SetModel(ex.model)
	sm := w <= 8
	ex.small = append(ex.small, sm)
	ex.multi = append(ex.multi, false)
	var d [4]uint64
	if sm {
		if w == 0 {
			d[0] = 3
		} else {
			for v := lo; v <= hi; v++ {
				d[v/64] |= 1 << (v % 64)
			}
		}
	}
	ex.dom = append(ex.dom, d)
	if w > 0 && (lo > 0 || hi < mask(w)) {
		// interval facts are part of the path condition; the solver needs them
		if lo > 0 {
			in.rawPC(in.cx.mk(OpUle, 0, in.cx.Const(w, lo), e, nil, 0, 0, 0))
		}
		if hi < mask(w) {
			in.rawPC(in.cx.mk(OpUle, 0, e, in.cx.Const(w, hi), nil, 0, 0, 0))
		}
	}
	ex.inputs = append(ex.inputs, input{name: name, kind: "var", e: e})
	return Value{x: e}
}

func (in *Interp) rawPC(e *Expr) {
	in.ex.pc = append(in.ex.pc, e)
	in.ex.pcSet[e] = true
}

func (in *Interp) addPC(e *Expr) {
	ex := in.ex
	if e.op == OpConst {
		if e.k == 0 {
			panic(engErr{"false path condition"})
		}
		return
	}
	if ex.pcSet[e] {
		return
	}
	if e.op == OpAnd {
		in.addPC(e.a)
		in.addPC(e.b)
		ex.pcSet[e] = true
		return
	}
	if e.op == OpNot && e.a.op == OpOr {
		in.addPC(in.cx.Not(e.a.a))
		in.addPC(in.cx.Not(e.a.b))
		ex.pcSet[e] = true
		return
	}
	ex.pcSet[e] = true
	ex.pc = append(ex.pc, e)
	if e.sv >= 0 && e.svW <= 8 {
		t := in.cx.truth(e)
		for i := range t {
			ex.dom[e.sv][i] &= t[i]
		}
		return
	}
	for i, b := range e.support() {
		for b != 0 {
			k := trailing(b)
			ex.multi[i*64+k] = true
			b &= b - 1
		}
	}
}

func trailing(b uint64) int {
	n := 0
	for b&1 == 0 {
		b >>= 1
		n++
	}
	return n
}

// known reports whether the path condition already decides e (cheap check).
func (in *Interp) known(e *Expr) (bool, bool) {
	if e.op == OpConst {
		return e.k != 0, true
	}
	ex := in.ex
	if ex.pcSet[e] {
		return true, true
	}
	if ex.pcSet[in.cx.Not(e)] {
		return false, true
	}
	if e.sv >= 0 && e.svW <= 8 {
		t := in.cx.truth(e)
		d := &ex.dom[e.sv]
		can, cant := false, false
		for i := range t {
			if d[i]&t[i] != 0 {
				can = true
			}
			if d[i]&^t[i] != 0 {
				cant = true
			}
		}
		if can != cant {
			return can, true
		}
		return false, false
	}
	switch e.op {
	case OpAnd:
		a, ok1 := in.known(e.a)
		if ok1 && !a {
			return false, true
		}
		b, ok2 := in.known(e.b)
		if ok2 && !b {
			return false, true
		}
		if ok1 && ok2 {
			return true, true
		}
	case OpOr:
		a, ok1 := in.known(e.a)
		if ok1 && a {
			return true, true
		}
		b, ok2 := in.known(e.b)
		if ok2 && b {
			return true, true
		}
		if ok1 && ok2 {
			return false, true
		}
	case OpNot:
		a, ok := in.known(e.a)
		return !a, ok
	case OpEq:
		// byte equalities with disjoint domains
		if e.a.w > 0 && e.a.w <= 8 && e.a.op == OpVar && e.b.op == OpVar {
			x, y := ex.dom[e.a.k], ex.dom[e.b.k]
			if x[0]&y[0]|x[1]&y[1]|x[2]&y[2]|x[3]&y[3] == 0 {
				return false, true
			}
		}
	}
	return false, false
}

func (in *Interp) infeasible(e *Expr) bool {
	v, ok := in.known(e)
	return ok && !v
}

func (in *Interp) decideSpec(e *Expr) bool {
	if v, ok := in.known(e); ok {
		return v
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	return in.decide(e)
}

// slice returns the constraints connected with e through shared variables.
func (in *Interp) sliceFor(e *Expr) ([]*Expr, []uint64) {
	ex := in.ex
	sup := append([]uint64(nil), e.support()...)
	used := make([]bool, len(ex.pc))
	var out []*Expr
	for changed := true; changed; {
		changed = false
		for i, c := range ex.pc {
			if used[i] {
				continue
			}
			s := c.support()
			hit := false
			for k := range s {
				if k < len(sup) && s[k]&sup[k] != 0 {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				out = append(out, c)
				for len(sup) < len(s) {
					sup = append(sup, 0)
				}
				for k := range s {
					if s[k]&^sup[k] != 0 {
						sup[k] |= s[k]
						changed = true
					}
				}
			}
		}
	}
	return out, sup
}

// solve decides pc && e; on Sat it returns a full model.
func (in *Interp) solve(e *Expr, noFast bool) (SatResult, []uint64) {
	ex := in.ex
	w := in.W
	if !noFast && e.sv >= 0 && e.svW <= 8 && !ex.multi[e.sv] {
		t := in.cx.truth(e)
		d := ex.dom[e.sv]
		w.fast++
		var vals []uint64
		for i := 0; i < 256; i++ {
			if d[i/64]&t[i/64]&(1<<(i%64)) != 0 {
				vals = append(vals, uint64(i))
			}
		}
		if w.rng.Intn(64) == 0 {
			cs, _ := in.sliceFor(e)
			want := Sat
			if len(vals) == 0 {
				want = Unsat
			}
			w.crossCheck(append(cs, e), want)
		}
		if len(vals) == 0 {
			return Unsat, nil
		}
		m := append([]uint64(nil), ex.model...)
		// prefer printable letters: keeps counterexamples readable
		v := vals[w.rng.Intn(len(vals))]
		m[e.sv] = v
		return Sat, m
	}
	cs, sup := in.sliceFor(e)
	cs = append(cs, e)
	ids := make([]int, len(cs))
	for i, c := range cs {
		ids[i] = c.id
	}
	sort.Ints(ids)
	var sb strings.Builder
	for _, i := range ids {
		sb.WriteString(strconv.Itoa(i))
		sb.WriteByte(',')
	}
	key := sb.String()
	var vars []*Expr
	for i, b := range sup {
		for b != 0 {
			k := i*64 + trailing(b)
			b &= b - 1
			vars = append(vars, ex.vars[k])
		}
	}
	ent, ok := w.cache[key]
	if ok {
		w.cached++
	} else {
		r, vals := w.sol.Check(cs, vars)
		if r == Unknown {
			r, vals = w.sol2.Check(cs, vars)
			if r == Unknown {
				fmt.Fprintf(os.Stderr, "solver: unknown (%d constraints)\n", len(cs))
			}
		}
		ent = cacheEnt{r, vals}
		if len(w.cache) > 300000 {
			w.cache = map[string]cacheEnt{}
		}
		w.cache[key] = ent
	}
	if ent.r != Sat {
		return ent.r, nil
	}
	m := append([]uint64(nil), ex.model...)
	for i, v := range vars {
		m[v.k] = ent.vals[i]
	}
	return Sat, m
}

func (in *Interp) push(d decision, model []uint64) {
	ex := in.ex
	p := make([]decision, len(ex.taken)+1)
	copy(p, ex.taken)
	p[len(ex.taken)] = d
	in.W.forks++
	in.W.r.push(&workItem{prefix: p, model: model, depth: len(p)})
}

// crossCheck puts a verdict of the byte-domain layer to the SMT solver.
func (w *worker) crossCheck(cs []*Expr, want SatResult) {
	r, _ := w.sol.Check(cs, nil)
	w.xchecks++
	if r != want && r != Unknown {
		panic(engErr{fmt.Sprintf("byte-domain verdict %v contradicted by the solver", want)})
	}
}

func (in *Interp) decide(e *Expr) bool {
	if v, ok := in.known(e); ok {
		if e.op != OpConst && in.spec == 0 && in.inInit == 0 && in.W.rng.Intn(1024) == 0 {
			x := e
			if v {
				x = in.cx.Not(e)
			}
			cs, _ := in.sliceFor(x)
			in.W.crossCheck(append(cs, x), Unsat)
		}
		return v
	}
	if in.inInit > 0 {
		panic(unsupported{"symbolic decision during initialisation"})
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	ex := in.ex
	if ex.pos < ex.rlen {
		d := ex.prefix[ex.pos]
		if d.kind != dBranch || d.h != e.h {
			panic(engErr{"replay divergence (branch)"})
		}
		ex.pos++
		ex.taken = append(ex.taken, d)
		if d.val != 0 {
			in.addPC(e)
			return true
		}
		in.addPC(in.cx.Not(e))
		return false
	}
	v := in.cx.Eval(e)
	alt := e
	if v != 0 {
		alt = in.cx.Not(e)
	}
	r, m := in.solve(alt, false)
	switch r {
	case Sat:
		if debugOn {
			in.cx.SetModel(m)
			for _, c := range append(append([]*Expr(nil), ex.pc...), alt) {
				if in.cx.Eval(c) == 0 {
					cs, _ := in.sliceFor(alt)
					fmt.Fprintln(os.Stderr, "push: model violates", c, m, "old", ex.model, "alt", alt, "slice", cs)
				}
			}
			in.cx.SetModel(ex.model)
		}
		in.push(decision{kind: dBranch, val: 1 - v, h: e.h}, m)
	case Unknown:
		in.W.incomplete++
	}
	ex.pos++
	ex.taken = append(ex.taken, decision{kind: dBranch, val: v, h: e.h})
	if v != 0 {
		in.addPC(e)
		return true
	}
	in.addPC(in.cx.Not(e))
	return false
}

func (in *Interp) choose(name string, n int) int {
	ex := in.ex
	if n <= 0 {
		panic(engErr{"choose"})
	}
	var v uint64
	if ex.pos < ex.rlen {
		d := ex.prefix[ex.pos]
		if d.kind != dChoose {
			panic(engErr{"replay divergence (choose)"})
		}
		v = d.val
	} else {
		for i := n - 1; i >= 1; i-- {
			in.push(decision{kind: dChoose, val: uint64(i)}, append([]uint64(nil), ex.model...))
		}
	}
	ex.pos++
	ex.taken = append(ex.taken, decision{kind: dChoose, val: v})
	ex.inputs = append(ex.inputs, input{name: name, kind: "choose", val: v})
	return int(v)
}

const concCap = 600

// concretize forks over the feasible values of v.
func (in *Interp) concretize(v Value, w uint8) uint64 {
	if v.x == nil {
		return v.n
	}
	e, ok := v.x.(*Expr)
	if !ok {
		panic(unsupported{fmt.Sprintf("concretize %T", v.x)})
	}
	if in.inInit > 0 {
		panic(unsupported{"symbolic value during initialisation"})
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	ex := in.ex
	var excl []uint64
	if ex.pos < ex.rlen {
		d := ex.prefix[ex.pos]
		if d.h != e.h {
			panic(engErr{"replay divergence (concretize)"})
		}
		switch d.kind {
		case dConcEq:
			ex.pos++
			ex.taken = append(ex.taken, d)
			in.addPC(in.cx.Eq(e, in.cx.Const(e.w, d.val)))
			return d.val
		case dConcNeq:
			excl = d.excl
		default:
			panic(engErr{"replay divergence (concretize)"})
		}
	}
	for _, x := range excl {
		in.addPC(in.cx.Not(in.cx.Eq(e, in.cx.Const(e.w, x))))
	}
	val := in.cx.Eval(e)
	eq := in.cx.Eq(e, in.cx.Const(e.w, val))
	if k, ok := in.known(eq); !(ok && k) {
		if len(excl)+1 >= concCap {
			in.W.incomplete++
		} else {
			r, m := in.solve(in.cx.Not(eq), false)
			switch r {
			case Sat:
				ne := append(append([]uint64(nil), excl...), val)
				in.push(decision{kind: dConcNeq, excl: ne, h: e.h}, m)
			case Unknown:
				in.W.incomplete++
			}
		}
	}
	ex.pos++
	ex.taken = append(ex.taken, decision{kind: dConcEq, val: val, h: e.h})
	in.addPC(eq)
	return val
}

func (in *Interp) concretizeLen(v Value) uint64 {
	if v.x == nil {
		return v.n
	}
	return in.concretize(v, 64)
}

// assume adds a constraint, changing the model when needed.
func (in *Interp) assume(c Value) {
	if c.x == nil {
		if c.n == 0 {
			panic(pathStop{"assume"})
		}
		return
	}
	e := c.x.(*Expr)
	if v, ok := in.known(e); ok {
		if !v {
			panic(pathStop{"assume"})
		}
		return
	}
	ex := in.ex
	if in.cx.Eval(e) == 0 {
		if ex.pos < ex.rlen {
			panic(engErr{"replay divergence (assume)"})
		}
		r, m := in.solve(e, false)
		if r == Unknown {
			in.W.incomplete++
		}
		if r != Sat {
			panic(pathStop{"assume"})
		}
		ex.model = m
		in.cx.SetModel(m)
	}
	in.addPC(e)
}

func (in *Interp) assert(c Value, msg string) {
	ex := in.ex
	r := in.W.r
	ex.asserts++
	r.mu.Lock()
	r.asserts[msg]++
	r.mu.Unlock()
	if c.x == nil {
		if c.n == 0 {
			in.candidate("assertion failed: "+msg, ex.model)
			panic(pathStop{"assertion failed"})
		}
		r.mu.Lock()
		r.assertFold++
		r.mu.Unlock()
		return
	}
	e := c.x.(*Expr)
	if ex.pcSet[e] {
		return
	}
	if ex.pos < ex.rlen {
		// already examined by the path this one was forked from
		in.addPC(e)
		return
	}
	r.mu.Lock()
	r.assertQ++
	r.mu.Unlock()
	res, m := in.solve(in.cx.Not(e), true)
	switch res {
	case Sat:
		in.candidate("assertion failed: "+msg, m)
		if in.cx.Eval(e) == 0 {
			r2, m2 := in.solve(e, false)
			if r2 != Sat {
				panic(pathStop{"assertion failed"})
			}
			ex.model = m2
			in.cx.SetModel(m2)
		}
	case Unknown:
		in.W.incomplete++
		if in.cx.Eval(e) == 0 {
			panic(pathStop{"assertion undecided"})
		}
	}
	in.addPC(e)
}

func (in *Interp) inputVals(m []uint64) ([]uint64, []string) {
	var vs []uint64
	var ns []string
	for _, i := range in.ex.inputs {
		if i.kind == "choose" {
			vs = append(vs, i.val)
		} else {
			vs = append(vs, m[i.e.k])
		}
		ns = append(ns, i.name)
	}
	return vs, ns
}

func (in *Interp) stackTrace() string {
	var sb strings.Builder
	n := 0
	for f := in.cur; f != nil && n < 25; f = f.caller {
		pos := ""
		if f.block >= 0 && f.fi.fn.Blocks != nil && f.block < len(f.fi.fn.Blocks) {
			for _, ins := range f.fi.fn.Blocks[f.block].Instrs {
				if ins.Pos().IsValid() {
					pos = f.fi.p.prog.Fset.Position(ins.Pos()).String()
				}
			}
		}
		fmt.Fprintf(&sb, "  %s %s\n", f.fi.name, pos)
		n++
	}
	return sb.String()
}

func (in *Interp) candidate(msg string, m []uint64) {
	r := in.W.r
	vs, ns := in.inputVals(m)
	v := &violation{Harness: r.name, Msg: msg, Inputs: vs, Names: ns, Trace: in.stackTrace()}
	r.mu.Lock()
	r.candSeen[msg]++
	n := r.candSeen[msg]
	if n <= 30 {
		r.cands = append(r.cands, v)
	}
	r.mu.Unlock()
	if n <= 30 && r.ex.onCandidate != nil {
		if r.ex.onCandidate(r, v) {
			atomic.StoreInt32(&r.stopNow, 1)
		}
	}
}

// ---- run loop ----

func (r *run) push(it *workItem) {
	r.mu.Lock()
	r.stack = append(r.stack, it)
	if it.depth > r.maxDepth {
		r.maxDepth = it.depth
	}
	r.mu.Unlock()
}

func (r *run) pop(w *worker) *workItem {
	r.mu.Lock()
	defer r.mu.Unlock()
	for {
		if r.closed || atomic.LoadInt32(&r.stopNow) != 0 || time.Now().After(r.deadline) {
			r.closed = true
			return nil
		}
		if n := len(r.stack); n > 0 {
			i := n - 1
			if w.rng.Intn(3) == 0 {
				i = w.rng.Intn(n)
			}
			it := r.stack[i]
			r.stack[i] = r.stack[n-1]
			r.stack[n-1] = nil
			r.stack = r.stack[:n-1]
			r.active++
			return it
		}
		if r.active == 0 {
			r.closed = true
			return nil
		}
		r.mu.Unlock()
		time.Sleep(200 * time.Microsecond)
		r.mu.Lock()
	}
}

func (w *worker) work(r *run) {
	w.r = r
	w.forks, w.fast, w.cached, w.incomplete = 0, 0, 0, 0
	q0, s0, u0, k0, d0 := w.sol.queries, w.sol.sat, w.sol.unsat, w.sol.unknown, w.sol.dur
	w.sol.maxDur = 0
	w.in.steps = 0
	var steps uint64
	fnSeen := map[string]int{}
	w.fns = fnSeen
	for {
		it := r.pop(w)
		if it == nil {
			break
		}
		w.runPath(r, it)
		steps += w.in.steps
		r.mu.Lock()
		r.active--
		r.mu.Unlock()
		if w.in.cx.next > 4_000_000 {
			w.resetCtx()
		}
	}
	r.mu.Lock()
	r.forks += w.forks
	r.fast += w.fast
	r.cached += w.cached
	r.xchecks += w.xchecks
	w.xchecks = 0
	r.incomplete += w.incomplete
	r.steps += steps
	r.queries += w.sol.queries - q0
	r.qsat += w.sol.sat - s0
	r.qunsat += w.sol.unsat - u0
	r.qunk += w.sol.unknown - k0
	r.solverDur += w.sol.dur - d0
	if w.sol.maxDur > r.maxQ {
		r.maxQ = w.sol.maxDur
	}
	for k, v := range fnSeen {
		r.fns[k] += v
	}
	r.mu.Unlock()
}

func (w *worker) resetCtx() {
	w.in.cx = NewCtx()
	w.cache = map[string]cacheEnt{}
	w.sol.Close()
	w.sol2.Close()
}

func (in *Interp) rollback() {
	for i := len(in.undo) - 1; i >= 0; i-- {
		*in.undo[i].p = in.undo[i].old
		in.undo[i] = undoRec{}
	}
	in.undo = in.undo[:0]
	for _, s := range in.mapSaves {
		s.m.ents, s.m.idx, s.m.nsym, s.m.n = s.s.ents, s.s.idx, s.s.nsym, s.s.n
	}
	in.mapSaves = in.mapSaves[:0]
	in.pools = nil
}

var pathCounter int64

func (w *worker) runPath(r *run, it *workItem) {
	in := w.in
	in.ex = newPath(it)
	in.pathNo++
	in.steps = 0
	in.maxSteps = w.ex.maxSteps
	in.cur, in.sp, in.depth, in.spec, in.inInit = nil, 0, 0, 0, 0
	in.cx.SetModel(in.ex.model)
	outcome := "complete"
	detail := ""
	func() {
		defer func() {
			x := recover()
			if x == nil {
				return
			}
			switch p := x.(type) {
			case targetPanic:
				outcome = "panic"
				in.spec = 0
				detail = in.panicText(p.v)
			case pathStop:
				outcome = "stop"
				detail = p.why
				if p.why == "step limit" || strings.HasPrefix(p.why, "stack overflow") {
					outcome = "hang"
				}
			case unsupported:
				outcome = "unsupported"
				detail = p.msg
			case engErr:
				outcome = "unsupported"
				detail = "engine: " + p.msg
			default:
				outcome = "unsupported"
				detail = "engine panic: " + fmt.Sprint(x)
				if debugOn || enginePanics.Add(1) <= 2 {
					fmt.Fprintln(os.Stderr, "engine panic:", x, string(debug.Stack()), in.stackTrace())
				}
			}
		}()
		in.callFn(w.ex.P.fn(r.fn), nil, nil)
	}()
	if outcome == "unsupported" && debugOn {
		fmt.Fprintln(os.Stderr, "unsupported:", detail)
		fmt.Fprintln(os.Stderr, in.stackTrace())
	}
	if in.ex.pos < in.ex.rlen && outcome == "complete" {
		outcome, detail = "unsupported", "engine: path ended before its decision prefix was consumed"
	}
	if outcome == "panic" {
		in.candidate("panic: "+detail, in.ex.model)
	}
	if outcome == "hang" {
		in.candidate("hang: "+detail, in.ex.model)
	}
	r.mu.Lock()
	r.paths++
	n := r.paths
	switch outcome {
	case "complete":
		r.complete++
	case "panic", "hang":
		r.panics++
	case "stop":
		r.stops[detail]++
		if detail == "assume" {
			r.pruned++
		}
	case "unsupported":
		r.unsupportedM[detail]++
	}
	r.mu.Unlock()
	if outcome == "complete" {
		// reservoir of validated samples
		take := -1
		r.mu.Lock()
		if len(r.samples) < w.ex.sampleN {
			r.samples = append(r.samples, sample{})
			take = len(r.samples) - 1
		} else if k := w.rng.Intn(n); k < w.ex.sampleN {
			take = k
		}
		r.mu.Unlock()
		if take >= 0 {
			vs, _ := in.inputVals(in.ex.model)
			s := sample{inputs: vs}
			for _, o := range in.ex.obs {
				s.obs = append(s.obs, o.tag+"="+in.renderObs(o))
			}
			r.mu.Lock()
			r.samples[take] = s
			r.mu.Unlock()
		}
	}
	in.rollback()
}

func (in *Interp) renderObs(o obs) string {
	if o.isB {
		var sb strings.Builder
		for _, v := range o.vs {
			fmt.Fprintf(&sb, "%02x", in.evalV(v))
		}
		return "x" + sb.String()
	}
	return strconv.FormatUint(in.evalV(o.v), 10)
}

func (ex *explorer) explore(name, prop string, fn *ssa.Function, budget time.Duration) *run {
	r := &run{name: name, prop: prop, fn: fn, ex: ex, reach: map[string]int{}, asserts: map[string]int{}, unsupportedM: map[string]int{}, stops: map[string]int{},
		candSeen: map[string]int{}, fns: map[string]int{}}
	t0 := time.Now()
	r.deadline = t0.Add(budget)
	r.stack = []*workItem{{}}
	var wg sync.WaitGroup
	for _, w := range ex.workers {
		wg.Add(1)
		go func(w *worker) {
			defer wg.Done()
			w.work(r)
		}(w)
	}
	wg.Wait()
	r.leftover = len(r.stack)
	r.wall = time.Since(t0)
	return r
}

var enginePanics atomic.Int32

var debugOn = os.Getenv("SYMDEBUG") != ""
