package main

import (
	"fmt"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

type intrinsic func(in *Interp, a []Value) Value

type fnInfo struct {
	fn       *ssa.Function
	name     string
	p        *Program
	once     sync.Once
	intr     intrinsic
	nregs    int
	nparams  int
	blocks   []*blockC
	hasDefer bool
	recov    int
	sig      *types.Signature
	module   bool // code under test / harness
	nosrc    bool
	merge    bool
	seen     bool
}

type phiC struct {
	dst  int
	w    types.Type
	src  []opnd // per predecessor
	name string
}

type blockC struct {
	idx   int
	phis  []phiC
	body  []func(fr *frame)
	pure  bool // whole body may be speculated
	term  func(fr *frame) int
	preds []int
	// If terminator
	isIf   bool
	isJump bool
	cond   opnd
	succ   [2]int
	region *regionC
	regOK  bool
}

type opnd struct {
	kind uint8 // 0 reg, 1 const, 2 global
	idx  int
	v    Value
}

type deferred struct {
	fn   *Closure
	intr func()
	args []Value
}

type frame struct {
	in        *Interp
	fi        *fnInfo
	regs      []Value
	block     int
	prev      int
	defers    []deferred
	result    Value
	panicking bool
	panicV    Value
	done      bool
	caller    *frame
}

type undoRec struct {
	p   *Value
	old Value
}

// Interp is one worker's machine.
type Interp struct {
	P   *Program
	cx  *Ctx
	cur *frame

	stk   []Value
	sp    int
	depth int

	globals  []*Value
	inited   map[*ssa.Package]int // 1 running 2 done 3 failed
	initErr  map[string]string
	pathNo   int
	undo     []undoRec
	mapSaves []mapSave
	pools    map[*Value]*poolV // sync.Pool, per path
	inInit   int

	steps    uint64
	maxSteps uint64
	spec     int

	ex *pathState
	W  *worker

	runtimeErrT *RType
	uniq        map[types.Type]*MapV // unique.Make
}

func (in *Interp) get(fr *frame, o *opnd) Value {
	switch o.kind {
	case 0:
		return fr.regs[o.idx]
	case 1:
		return o.v
	}
	return Value{x: in.global(o.idx)}
}

func (in *Interp) global(i int) *Value {
	for i >= len(in.globals) {
		in.globals = append(in.globals, nil)
	}
	g := in.globals[i]
	if g == nil {
		in.P.mu.Lock()
		gl := in.P.globList[i]
		in.P.mu.Unlock()
		g = new(Value)
		*g = zeroV(gl.Type().(*types.Pointer).Elem())
		in.globals[i] = g
		if gl.Pkg != nil {
			in.ensureInit(gl.Pkg)
			if gl.Pkg.Pkg.Path() == "os" {
				// the initialiser of os is not run: its errors are those of oserror
				if p := gl.Pkg.Prog.ImportedPackage("internal/oserror"); p != nil {
					if og := p.Var(gl.Name()); og != nil {
						*g = *in.global(in.P.globalIndex(og))
					}
				}
			}
		}
	}
	return g
}

// ensureInit runs a package initialiser (lazily, outside of the undo log).
func (in *Interp) ensureInit(pkg *ssa.Package) {
	if in.inited[pkg] != 0 {
		return
	}
	in.inited[pkg] = 1
	path := pkg.Pkg.Path()
	if skipInit(path) {
		in.inited[pkg] = 2
		return
	}
	in.P.build(pkg)
	f := pkg.Func("init")
	if f == nil {
		in.inited[pkg] = 2
		return
	}
	saveCur, saveDepth, saveSp, saveSpec := in.cur, in.depth, in.sp, in.spec
	savePath := in.pathNo
	saveSteps, saveMax := in.steps, in.maxSteps
	in.pathNo = 0
	in.spec = 0
	in.steps, in.maxSteps = 0, 1<<40
	in.inInit++
	defer func() {
		in.inInit--
		in.pathNo = savePath
		in.steps, in.maxSteps = saveSteps, saveMax
		in.spec = saveSpec
		if r := recover(); r != nil {
			in.cur, in.depth, in.sp = saveCur, saveDepth, saveSp
			in.inited[pkg] = 3
			in.initErr[path] = in.describePanic(r)
			return
		}
		in.inited[pkg] = 2
	}()
	in.callFn(in.P.fn(f), nil, nil)
}

func (in *Interp) describePanic(r any) string {
	switch x := r.(type) {
	case targetPanic:
		return "panic: " + in.panicText(x.v)
	case unsupported:
		return "unsupported: " + x.msg
	case engErr:
		return "engine: " + x.msg
	case pathStop:
		return "stop: " + x.why
	}
	return fmt.Sprint(r)
}

func (in *Interp) panicText(v Value) (s string) {
	defer func() {
		if r := recover(); r != nil {
			s = in.debugStr(v, 0)
		}
	}()
	if i, ok := v.x.(iface); ok {
		if m := in.P.method(i.t, nil, "Error"); m != nil {
			r := in.callFn(m, []Value{i.v}, nil)
			if t, ok := concStr(r); ok {
				return t
			}
		}
		return in.debugStr(i.v, 0)
	}
	return in.debugStr(v, 0)
}

func skipInit(path string) bool {
	switch path {
	case "runtime", "os", "syscall", "net", "internal/poll", "internal/godebug", "time", "reflect", "internal/cpu", "testing", "crypto/rand", "crypto/internal/sysrand",
		"crypto/tls", "crypto/x509", "internal/bytealg", "unsafe", "internal/abi", "sync", "sync/atomic":
		return true
	}
	return strings.HasPrefix(path, "runtime/") || strings.HasPrefix(path, "internal/runtime/") || strings.HasPrefix(path, "crypto/internal/") || strings.HasPrefix(path, "vendor/")
}

func (p *Program) build(pkg *ssa.Package) {
	pkg.Build()
}

func (p *Program) fn(f *ssa.Function) *fnInfo {
	if r, ok := p.fns.Load(f); ok {
		return r.(*fnInfo)
	}
	if len(p.replace) > 0 && f.Synthetic == "" {
		if g, ok := p.replace[f.String()]; ok && g != f {
			r := p.fn(g)
			p.fns.Store(f, r)
			return r
		}
	}
	fi := &fnInfo{fn: f, name: f.String(), p: p, sig: f.Signature, recov: -1}
	o := f
	if f.Origin() != nil {
		o = f.Origin()
		if n := o.String(); n != fi.name {
			if it, ok := intrinsics[n]; ok {
				fi.intr = it
			}
		}
	}
	if o.String() == "unique.Make" && f.Origin() != nil {
		fi.intr = uniqueMake(f.TypeArgs()[0])
	}
	if fi.intr == nil {
		fi.intr = intrinsics[fi.name]
	}
	pp := pkgPath(f)
	if pp == "reflect" && fi.intr == nil && f.Signature.Recv() != nil && f.Synthetic == "" {
		switch types.TypeString(f.Signature.Recv().Type(), nil) {
		case "reflect.Value", "*reflect.rtype", "*reflect.MapIter":
			// reflection is modelled as a whole: its own code must not see the model
			name := fi.name
			fi.intr = func(*Interp, []Value) Value { panic(unsupported{name}) }
		}
	}
	for _, m := range p.modPath {
		if pp == m || strings.HasPrefix(pp, m+"/") {
			fi.module = true
		}
	}
	r, _ := p.fns.LoadOrStore(f, fi)
	return r.(*fnInfo)
}

// uniqueMake is the canonical table behind unique.Make: equal values, equal pointers.
func uniqueMake(t types.Type) intrinsic {
	return func(in *Interp, a []Value) Value {
		if in.uniq == nil {
			in.uniq = map[types.Type]*MapV{}
		}
		m := in.uniq[t]
		if m == nil {
			m = in.newMap()
			m.born = 0
			in.uniq[t] = m
		}
		if e := in.mapFind(m, t, a[0]); e != nil {
			return Value{x: structV{e.v}}
		}
		p := new(Value)
		*p = copyV(a[0])
		v := Value{x: p}
		in.mapSet(m, t, copyV(a[0]), v)
		return Value{x: structV{v}}
	}
}

func pkgPath(f *ssa.Function) string {
	for g := f; g != nil; g = g.Parent() {
		if g.Pkg != nil {
			return g.Pkg.Pkg.Path()
		}
		if o := g.Origin(); o != nil && o.Pkg != nil {
			return o.Pkg.Pkg.Path()
		}
		if g.Object() != nil && g.Object().Pkg() != nil {
			return g.Object().Pkg().Path()
		}
	}
	return ""
}

// method finds the concrete method of a dynamic type.
func (p *Program) method(t *RType, pkg *types.Package, name string) *fnInfo {
	key := name
	if pkg != nil && !isExported(name) {
		key = pkg.Path() + "." + name
	}
	if f, ok := t.methods.Load(key); ok {
		if f == nil {
			return nil
		}
		fi, _ := f.(*fnInfo)
		return fi
	}
	p.msMu.Lock()
	sel := p.prog.MethodSets.MethodSet(t.T).Lookup(pkg, name)
	var fi *fnInfo
	if sel != nil {
		if pk := sel.Obj().Pkg(); pk != nil {
			if sp := p.prog.Package(pk); sp != nil {
				sp.Build()
			}
		}
		if m := p.prog.MethodValue(sel); m != nil {
			fi = p.fn(m)
		}
	}
	p.msMu.Unlock()
	t.methods.Store(key, fi)
	return fi
}

func isExported(n string) bool { return n != "" && n[0] >= 'A' && n[0] <= 'Z' }

func (in *Interp) store(p *Value, v Value) {
	if in.pathNo != 0 {
		in.undo = append(in.undo, undoRec{p, *p})
	}
	*p = v
}

// storeT stores a value of any type, keeping aggregate backing in place.
func (in *Interp) storeAgg(p *Value, v Value) {
	switch x := v.x.(type) {
	case structV:
		d, ok := p.x.(structV)
		if !ok {
			panic(engErr{fmt.Sprintf("store struct into %T", p.x)})
		}
		if len(x) > 0 && &x[0] == &d[0] {
			return
		}
		for i := range x {
			in.storeAgg(&d[i], x[i])
		}
		return
	case arrayV:
		d, ok := p.x.(arrayV)
		if !ok {
			panic(engErr{fmt.Sprintf("store array into %T", p.x)})
		}
		if len(x) > 0 && &x[0] == &d[0] {
			return
		}
		for i := range x {
			in.storeAgg(&d[i], x[i])
		}
		return
	}
	in.store(p, v)
}

func (in *Interp) rtPanic(msg string) {
	if in.spec > 0 {
		panic(specAbort{})
	}
	panic(targetPanic{Value{x: iface{in.runtimeErrT, strV(msg)}}})
}

func (in *Interp) deref(v Value) *Value {
	switch p := v.x.(type) {
	case *Value:
		return p
	case nil:
		in.rtPanic("invalid memory address or nil pointer dereference")
	case *symPtr:
		if in.spec > 0 {
			panic(specAbort{})
		}
		i := in.concretize(Value{x: p.idx}, 64)
		return &p.base[i]
	}
	panic(unsupported{fmt.Sprintf("dereference of %T", v.x)})
}

func (in *Interp) load(v Value) Value {
	switch p := v.x.(type) {
	case *Value:
		switch p.x.(type) {
		case structV, arrayV:
			return copyV(*p)
		}
		return *p
	case *symPtr:
		return in.loadSym(p.base, p.idx, width(p.elem))
	}
	return *in.deref(v)
}

// loadSym reads base[idx] for a symbolic in-range index.
func (in *Interp) loadSym(base []Value, idx *Expr, w uint8) Value {
	lo, hi := idx.lo, idx.hi
	if hi >= uint64(len(base)) {
		hi = uint64(len(base)) - 1
	}
	if lo > hi {
		lo = 0
	}
	if hi-lo > 5000 {
		if in.spec > 0 {
			panic(specAbort{})
		}
		return copyV(base[in.concretize(Value{x: idx}, 64)])
	}
	scalar := true
	for i := lo; i <= hi; i++ {
		if x := base[i].x; x != nil {
			if _, ok := x.(*Expr); !ok {
				scalar = false
				break
			}
		}
	}
	iw := idx.w
	if scalar {
		r := in.toExprW(base[hi], w)
		for i := int64(hi) - 1; i >= int64(lo); i-- {
			if identV(base[i], base[i+1]) {
				continue
			}
			// index <= i selects the run ending at i
			r = in.cx.Ite(in.cx.Ule(idx, in.cx.Const(iw, uint64(i))), in.toExprW(base[i], w), r)
		}
		return exprV(r)
	}
	if in.spec > 0 {
		panic(specAbort{})
	}
	// group identical values, fork over groups
	type group struct {
		v Value
		c *Expr
	}
	var gs []group
	i := lo
	for i <= hi {
		j := i
		for j+1 <= hi && identV(base[j+1], base[i]) {
			j++
		}
		c := in.cx.And(in.cx.Ule(in.cx.Const(iw, i), idx), in.cx.Ule(idx, in.cx.Const(iw, j)))
		found := false
		for k := range gs {
			if identV(gs[k].v, base[i]) {
				gs[k].c = in.cx.Or(gs[k].c, c)
				found = true
				break
			}
		}
		if !found {
			gs = append(gs, group{base[i], c})
		}
		i = j + 1
	}
	for k := range gs {
		if k == len(gs)-1 || in.decide(gs[k].c) {
			return copyV(gs[k].v)
		}
	}
	panic(engErr{"loadSym"})
}

func (in *Interp) toExprW(v Value, w uint8) *Expr {
	if e, ok := v.x.(*Expr); ok {
		return e
	}
	return in.toExpr(v, w)
}

// callFn calls a function with evaluated arguments.
func (in *Interp) callFn(fi *fnInfo, args []Value, env []Value) Value {
	if fi.intr != nil {
		if in.inInit == 0 && !fi.seen {
			in.W.noteFn(fi)
		}
		return fi.intr(in, args)
	}
	fi.once.Do(func() { in.P.compile(fi) })
	if fi.nosrc {
		panic(unsupported{"no source for " + fi.name})
	}
	if !fi.seen && in.inInit == 0 {
		in.W.noteFn(fi)
	}
	base := in.sp
	var regs []Value
	if base+fi.nregs <= len(in.stk) {
		regs = in.stk[base : base+fi.nregs : base+fi.nregs]
		in.sp = base + fi.nregs
	} else {
		regs = make([]Value, fi.nregs)
	}
	copy(regs, args)
	copy(regs[len(args):], env)
	fr := &frame{in: in, fi: fi, regs: regs, caller: in.cur, prev: -1}
	in.depth++
	if in.depth > 3000 {
		in.depth = 0
		panic(pathStop{"stack overflow (call depth 3000)"})
	}
	in.cur = fr
	if fi.hasDefer {
		for fr.block >= 0 {
			in.runDeferFrame(fr)
		}
	} else {
		in.run(fr)
	}
	in.cur = fr.caller
	in.depth--
	in.sp = base
	return fr.result
}

func (in *Interp) run(fr *frame) {
	blocks := fr.fi.blocks
	for {
		b := blocks[fr.block]
		if len(b.phis) > 0 && fr.prev >= 0 {
			in.doPhis(fr, b)
		}
		for _, f := range b.body {
			f(fr)
		}
		in.steps += uint64(len(b.body)) + 1
		if in.steps > in.maxSteps {
			panic(pathStop{"step limit"})
		}
		next := b.term(fr)
		if next < 0 {
			fr.block = -1
			return
		}
		if fr.block != -2 {
			fr.prev = fr.block
		}
		fr.block = next
	}
}

func (in *Interp) doPhis(fr *frame, b *blockC) {
	k := -1
	for i, p := range b.preds {
		if p == fr.prev {
			k = i
			break
		}
	}
	if k < 0 {
		panic(engErr{"phi predecessor"})
	}
	if len(b.phis) == 1 {
		fr.regs[b.phis[0].dst] = in.get(fr, &b.phis[0].src[k])
		return
	}
	var tmp [16]Value
	t := tmp[:0]
	for i := range b.phis {
		t = append(t, in.get(fr, &b.phis[i].src[k]))
	}
	for i := range b.phis {
		fr.regs[b.phis[i].dst] = t[i]
	}
}

func (in *Interp) runDeferFrame(fr *frame) {
	sp, depth := in.sp, in.depth
	defer func() {
		if fr.block == -1 {
			return // normal return
		}
		r := recover()
		tp, ok := r.(targetPanic)
		if !ok {
			panic(r)
		}
		in.sp, in.depth = sp, depth
		in.cur = fr
		fr.panicking = true
		fr.panicV = tp.v
		in.runDefers(fr)
		// recovered
		if fr.fi.recov >= 0 {
			fr.block = fr.fi.recov
			fr.prev = -1
		} else {
			fr.result = zeroV(resultType(fr.fi.sig))
			fr.block = -1
		}
	}()
	in.run(fr)
}

func resultType(s *types.Signature) types.Type {
	switch s.Results().Len() {
	case 0:
		return types.NewTuple()
	case 1:
		return s.Results().At(0).Type()
	}
	return s.Results()
}

func (in *Interp) runDefers(fr *frame) {
	for len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		in.runDefer(fr, d)
	}
	if fr.panicking {
		panic(targetPanic{fr.panicV})
	}
}

func (in *Interp) runDefer(fr *frame, d deferred) {
	sp, depth := in.sp, in.depth
	ok := false
	defer func() {
		if !ok {
			r := recover()
			tp, isT := r.(targetPanic)
			if !isT {
				panic(r)
			}
			in.sp, in.depth = sp, depth
			in.cur = fr
			fr.panicking = true
			fr.panicV = tp.v
		}
	}()
	if d.intr != nil {
		d.intr()
	} else {
		in.callFn(d.fn.fn, d.args, d.fn.env)
	}
	ok = true
}

func (in *Interp) callClosure(v Value, args []Value) Value {
	c, ok := v.x.(*Closure)
	if !ok || c == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	return in.callFn(c.fn, args, c.env)
}

// callMethod calls method name on interface value iv.
func (in *Interp) callMethod(iv Value, pkg *types.Package, name string, args ...Value) Value {
	if iv.x == nil {
		in.rtPanic("invalid memory address or nil pointer dereference")
	}
	i := iv.x.(iface)
	m := in.P.method(i.t, pkg, name)
	if m == nil {
		panic(unsupported{"method " + name + " of " + i.t.T.String()})
	}
	return in.callFn(m, append([]Value{i.v}, args...), nil)
}

func (in *Interp) hasMethod(t *RType, name string) bool {
	return in.P.method(t, nil, name) != nil
}

func (in *Interp) implements(t *RType, it *types.Interface) bool {
	for i := 0; i < it.NumMethods(); i++ {
		m := it.Method(i)
		if in.P.method(t, m.Pkg(), m.Name()) == nil {
			return false
		}
	}
	return true
}
