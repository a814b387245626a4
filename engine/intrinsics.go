package main

import (
	"fmt"
	"go/types"
	"math"
	"math/bits"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var intrinsics = map[string]intrinsic{}

func reg(name string, f intrinsic) { intrinsics[name] = f }

func growCap(oldCap, n int, et types.Type) int {
	size := int64(8)
	if et != nil {
		size = sizes.Sizeof(et)
	}
	switch size {
	case 1:
		return cap(append(make([]byte, oldCap), make([]byte, n-oldCap)...))
	case 2:
		return cap(append(make([]uint16, oldCap), make([]uint16, n-oldCap)...))
	case 4:
		return cap(append(make([]uint32, oldCap), make([]uint32, n-oldCap)...))
	case 8:
		return cap(append(make([]uint64, oldCap), make([]uint64, n-oldCap)...))
	case 16:
		return cap(append(make([][2]uint64, oldCap), make([][2]uint64, n-oldCap)...))
	case 24:
		return cap(append(make([][3]uint64, oldCap), make([][3]uint64, n-oldCap)...))
	}
	c := max(oldCap*2, n)
	return c
}

var sizes = types.SizesFor("gc", "amd64")

func (in *Interp) stdFn(pkg, name string) *fnInfo {
	p := in.P.prog.ImportedPackage(pkg)
	if p == nil {
		panic(unsupported{"package not loaded: " + pkg})
	}
	p.Build()
	f := p.Func(name)
	if f == nil {
		panic(unsupported{"no function " + pkg + "." + name})
	}
	return in.P.fn(f)
}

func (in *Interp) decodeRune(s Value) (Value, int) {
	n := strLen(s)
	if n == 0 {
		return Value{n: 0xfffd}, 0
	}
	b0 := strAt(s, 0)
	if b0.x == nil && b0.n < 0x80 {
		return Value{n: b0.n}, 1
	}
	if b0.x != nil && in.decide(in.cx.Ult(b0.x.(*Expr), in.cx.Const(8, 0x80))) {
		return in.convInt(b0, 8, 32, false), 1
	}
	if n > 4 {
		s = strSlice(s, 0, 4)
	}
	if t, ok := concStr(s); ok {
		for _, r := range t {
			_ = r
			break
		}
		r, sz := []rune(t)[0], 1
		if r != 0xfffd {
			sz = len(string(r))
		} else if strings.HasPrefix(t, "\uFFFD") {
			sz = 3
		}
		return Value{n: uint64(uint32(r))}, sz
	}
	r := in.callFn(in.stdFn("unicode/utf8", "DecodeRuneInString"), []Value{s}, nil).x.(tupleV)
	return r[0], int(in.concretize(r[1], 64))
}

func (in *Interp) encodeRune(r Value) Value {
	if r.x == nil {
		return strV(string(rune(int32(r.n))))
	}
	b := in.callFn(in.stdFn("unicode/utf8", "AppendRune"), []Value{{}, r}, nil)
	return mkStr(sliceOf(b))
}

// validUTF8 builds the validity condition of a byte sequence.
func (in *Interp) validUTF8(b []Value) *Expr {
	cx := in.cx
	n := len(b)
	v := make([]*Expr, n+5)
	for i := range v {
		v[i] = cx.False
	}
	v[n] = cx.True
	rng := func(e *Expr, lo, hi uint64) *Expr {
		return cx.And(cx.Ule(cx.Const(8, lo), e), cx.Ule(e, cx.Const(8, hi)))
	}
	at := func(i int) *Expr { return in.toExpr(b[i], 8) }
	for i := n - 1; i >= 0; i-- {
		e := at(i)
		r := cx.And(cx.Ult(e, cx.Const(8, 0x80)), v[i+1])
		if i+1 < n {
			r = cx.Or(r, cx.And(rng(e, 0xC2, 0xDF), cx.And(rng(at(i+1), 0x80, 0xBF), v[i+2])))
		}
		if i+2 < n {
			t := cx.And(rng(at(i+2), 0x80, 0xBF), v[i+3])
			m := at(i + 1)
			c := cx.And(cx.Eq(e, cx.Const(8, 0xE0)), rng(m, 0xA0, 0xBF))
			c = cx.Or(c, cx.And(cx.Or(rng(e, 0xE1, 0xEC), rng(e, 0xEE, 0xEF)), rng(m, 0x80, 0xBF)))
			c = cx.Or(c, cx.And(cx.Eq(e, cx.Const(8, 0xED)), rng(m, 0x80, 0x9F)))
			r = cx.Or(r, cx.And(c, t))
		}
		if i+3 < n {
			t := cx.And(cx.And(rng(at(i+2), 0x80, 0xBF), rng(at(i+3), 0x80, 0xBF)), v[i+4])
			m := at(i + 1)
			c := cx.And(cx.Eq(e, cx.Const(8, 0xF0)), rng(m, 0x90, 0xBF))
			c = cx.Or(c, cx.And(rng(e, 0xF1, 0xF3), rng(m, 0x80, 0xBF)))
			c = cx.Or(c, cx.And(cx.Eq(e, cx.Const(8, 0xF4)), rng(m, 0x80, 0x8F)))
			r = cx.Or(r, cx.And(c, t))
		}
		v[i] = r
	}
	return v[0]
}

func (in *Interp) indexByte(s []Value, c Value, last bool) int {
	ce := in.toExpr(c, 8)
	n := len(s)
	for k := 0; k < n; k++ {
		i := k
		if last {
			i = n - 1 - k
		}
		if s[i].x == nil && c.x == nil {
			if s[i].n == c.n {
				return i
			}
			continue
		}
		if in.decideSpec(in.cx.Eq(in.toExpr(s[i], 8), ce)) {
			return i
		}
	}
	return -1
}

func (in *Interp) indexSub(s, sub []Value, last bool) int {
	if len(sub) == 0 {
		if last {
			return len(s)
		}
		return 0
	}
	m := len(s) - len(sub)
	for k := 0; k <= m; k++ {
		i := k
		if last {
			i = m - k
		}
		e := in.eqBytes(s[i:i+len(sub)], sub)
		if in.decideSpec(e) {
			return i
		}
	}
	return -1
}

func (in *Interp) countByte(s []Value, c Value) int {
	n := 0
	ce := in.toExpr(c, 8)
	for i := range s {
		if in.decideSpec(in.cx.Eq(in.toExpr(s[i], 8), ce)) {
			n++
		}
	}
	return n
}

func (in *Interp) cmpVal(a, b []Value) Value {
	if x, ok := concBytes(a); ok {
		if y, ok := concBytes(b); ok {
			return intV(strings.Compare(string(x), string(y)))
		}
	}
	if in.decide(in.eqBytes(a, b)) {
		return intV(0)
	}
	if in.decide(in.ltBytes(a, b)) {
		return intV(-1)
	}
	return intV(1)
}

func fieldIdx(t types.Type, name string) int {
	s := t.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	panic(engErr{"no field " + name + " in " + t.String()})
}

func (p *Program) typeOf(pkg, name string) types.Type {
	sp := p.prog.ImportedPackage(pkg)
	if sp == nil {
		panic(unsupported{"package not loaded: " + pkg})
	}
	return sp.Pkg.Scope().Lookup(name).Type()
}

func (p *Program) runtimeErr() *RType {
	return p.rt(p.typeOf("runtime", "errorString"))
}

func init() {
	// ----- bytes / strings -----
	ib := func(in *Interp, a []Value) Value { return intV(in.indexByte(sliceOf(a[0]), a[1], false)) }
	ibs := func(in *Interp, a []Value) Value { return intV(in.indexByte(strBytes(a[0]), a[1], false)) }
	reg("bytes.IndexByte", ib)
	reg("strings.IndexByte", ibs)
	reg("internal/bytealg.IndexByte", ib)
	reg("internal/bytealg.IndexByteString", ibs)
	lib := func(in *Interp, a []Value) Value { return intV(in.indexByte(sliceOf(a[0]), a[1], true)) }
	libs := func(in *Interp, a []Value) Value { return intV(in.indexByte(strBytes(a[0]), a[1], true)) }
	reg("bytes.LastIndexByte", lib)
	reg("strings.LastIndexByte", libs)
	reg("internal/bytealg.LastIndexByte", lib)
	reg("internal/bytealg.LastIndexByteString", libs)
	ix := func(in *Interp, a []Value) Value {
		return intV(in.indexSub(sliceOf(a[0]), sliceOf(a[1]), false))
	}
	ixs := func(in *Interp, a []Value) Value { return intV(in.indexSub(strBytes(a[0]), strBytes(a[1]), false)) }
	reg("bytes.Index", ix)
	reg("strings.Index", ixs)
	reg("internal/bytealg.Index", ix)
	reg("internal/bytealg.IndexString", ixs)
	reg("bytes.LastIndex", func(in *Interp, a []Value) Value {
		return intV(in.indexSub(sliceOf(a[0]), sliceOf(a[1]), true))
	})
	reg("strings.LastIndex", func(in *Interp, a []Value) Value {
		return intV(in.indexSub(strBytes(a[0]), strBytes(a[1]), true))
	})
	reg("internal/bytealg.Count", func(in *Interp, a []Value) Value { return intV(in.countByte(sliceOf(a[0]), a[1])) })
	reg("internal/bytealg.CountString", func(in *Interp, a []Value) Value { return intV(in.countByte(strBytes(a[0]), a[1])) })
	eq := func(in *Interp, a []Value) Value { return exprV(in.eqBytes(sliceOf(a[0]), sliceOf(a[1]))) }
	reg("bytes.Equal", eq)
	reg("internal/bytealg.Equal", eq)
	cmp := func(in *Interp, a []Value) Value { return in.cmpVal(sliceOf(a[0]), sliceOf(a[1])) }
	cmps := func(in *Interp, a []Value) Value { return in.cmpVal(strBytes(a[0]), strBytes(a[1])) }
	reg("bytes.Compare", cmp)
	reg("internal/bytealg.Compare", cmp)
	reg("strings.Compare", cmps)
	reg("internal/bytealg.CompareString", cmps)
	reg("internal/bytealg.MakeNoZero", func(in *Interp, a []Value) Value {
		n := in.concretizeLen(a[0])
		if n > 1<<22 {
			panic(unsupported{"allocation of more than 4M elements"})
		}
		return Value{x: make(sliceV, n)}
	})
	reg("unicode/utf8.Valid", func(in *Interp, a []Value) Value { return exprV(in.validUTF8(sliceOf(a[0]))) })
	reg("unicode/utf8.ValidString", func(in *Interp, a []Value) Value { return exprV(in.validUTF8(strBytes(a[0]))) })
	repl := func(in *Interp, r Value, s Value) Value {
		st := in.P.typeOf("strings", "Replacer")
		rv := in.deref(r).x.(structV)
		on := sliceOf(rv[fieldIdx(st, "oldnew")])
		b := strBytes(s)
		var out []Value
		changed := false
		for i := 0; i < len(b); {
			hit := false
			for j := 0; j+1 < len(on); j += 2 {
				old := strBytes(on[j])
				if len(old) == 0 {
					panic(unsupported{"Replacer with empty pattern"})
				}
				if i+len(old) > len(b) {
					continue
				}
				if in.decide(in.eqBytes(b[i:i+len(old)], old)) {
					out = append(out, strBytes(on[j+1])...)
					i += len(old)
					hit = true
					changed = true
					break
				}
			}
			if !hit {
				out = append(out, b[i])
				i++
			}
		}
		if !changed {
			return s
		}
		return mkStr(out)
	}
	reg("(*strings.Replacer).Replace", func(in *Interp, a []Value) Value { return repl(in, a[0], a[1]) })
	reg("(*strings.Replacer).WriteString", func(in *Interp, a []Value) Value {
		s := repl(in, a[0], a[2])
		b := strBytes(s)
		return in.callMethod(a[1], nil, "Write", Value{x: append(sliceV{}, b...)})
	})
	reg("strings.Clone", func(in *Interp, a []Value) Value { return a[0] })

	// ----- unsafe helpers -----
	id := func(in *Interp, a []Value) Value { return a[0] }
	reg("internal/abi.NoEscape", id)
	reg("internal/abi.Escape", id)
	reg("internal/race.Acquire", nop)
	for _, n := range []string{"Acquire", "Release", "ReleaseMerge", "Disable", "Enable", "Read", "Write", "ReadRange", "WriteRange", "Errors"} {
		reg("internal/race."+n, nop)
	}
	reg("runtime.KeepAlive", nop)
	reg("runtime.SetFinalizer", nop)
	reg("runtime.GC", nop)
	reg("runtime.Gosched", nop)
	reg("internal/godebug.New", func(in *Interp, a []Value) Value { return Value{x: new(Value)} })
	reg("(*internal/godebug.Setting).Value", func(in *Interp, a []Value) Value { return Value{} })
	reg("(*internal/godebug.Setting).IncNonDefault", nop)

	// ----- sync -----
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"(*sync.WaitGroup).Add", "(*sync.WaitGroup).Done", "(*sync.WaitGroup).Wait", "(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock",
		"(*sync.Cond).Signal", "(*sync.Cond).Broadcast"} {
		reg(n, nop)
	}
	reg("(*sync.Mutex).TryLock", func(in *Interp, a []Value) Value { return boolV(true) })
	reg("(*sync.Pool).Put", func(in *Interp, a []Value) Value {
		if in.inInit != 0 || a[1].x == nil {
			return Value{}
		}
		if in.pools == nil {
			in.pools = map[*Value]*poolV{}
		}
		pl := in.pools[in.deref(a[0])]
		if pl == nil {
			pl = &poolV{}
			in.pools[in.deref(a[0])] = pl
		}
		if pl.private == nil {
			v := a[1]
			pl.private = &v
		} else {
			pl.shared = append(pl.shared, a[1])
		}
		return Value{}
	})
	reg("(*sync.Pool).Get", func(in *Interp, a []Value) Value {
		if pl := in.pools[in.deref(a[0])]; pl != nil && in.inInit == 0 {
			if v := pl.private; v != nil {
				pl.private = nil
				return *v
			}
			if n := len(pl.shared); n != 0 {
				v := pl.shared[n-1]
				pl.shared = pl.shared[:n-1]
				return v
			}
		}
		t := in.P.typeOf("sync", "Pool")
		nf := in.deref(a[0]).x.(structV)[fieldIdx(t, "New")]
		if nf.x == nil {
			return Value{}
		}
		return in.callClosure(nf, nil)
	})
	for _, ty := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		w := uint8(64)
		if strings.HasSuffix(ty, "32") {
			w = 32
		}
		reg("sync/atomic.Load"+ty, func(in *Interp, a []Value) Value { return *in.deref(a[0]) })
		reg("sync/atomic.Store"+ty, func(in *Interp, a []Value) Value { in.store(in.deref(a[0]), a[1]); return Value{} })
		reg("sync/atomic.Swap"+ty, func(in *Interp, a []Value) Value {
			p := in.deref(a[0])
			o := *p
			in.store(p, a[1])
			return o
		})
		reg("sync/atomic.Add"+ty, func(in *Interp, a []Value) Value {
			p := in.deref(a[0])
			var r Value
			if p.x == nil && a[1].x == nil {
				r = Value{n: (p.n + a[1].n) & mask(w)}
			} else {
				r = exprV(in.cx.Bin(OpAdd, in.toExpr(*p, w), in.toExpr(a[1], w)))
			}
			in.store(p, r)
			return r
		})
		reg("sync/atomic.CompareAndSwap"+ty, func(in *Interp, a []Value) Value {
			p := in.deref(a[0])
			same := false
			if ty == "Pointer" {
				same = p.x == a[1].x
			} else {
				same = in.decide(in.cx.Eq(in.toExpr(*p, w), in.toExpr(a[1], w)))
			}
			if same {
				in.store(p, a[2])
			}
			return boolV(same)
		})
	}
	reg("(*sync/atomic.Value).Load", func(in *Interp, a []Value) Value { return in.deref(a[0]).x.(structV)[0] })
	reg("(*sync/atomic.Value).Store", func(in *Interp, a []Value) Value {
		in.store(&in.deref(a[0]).x.(structV)[0], a[1])
		return Value{}
	})

	// ----- math -----
	reg("math.Float64bits", id)
	reg("math.Float64frombits", func(in *Interp, a []Value) Value { return Value{n: in.concretize(a[0], 64)} })
	reg("math.Float32bits", id)
	reg("math.Float32frombits", func(in *Interp, a []Value) Value { return Value{n: in.concretize(a[0], 32)} })
	m1 := func(f func(float64) float64) intrinsic {
		return func(in *Interp, a []Value) Value { return f64V(f(in.fl64(a[0]))) }
	}
	reg("math.Floor", m1(math.Floor))
	reg("math.Ceil", m1(math.Ceil))
	reg("math.Trunc", m1(math.Trunc))
	reg("math.Sqrt", m1(math.Sqrt))
	reg("math.Abs", m1(math.Abs))
	reg("math.Log", m1(math.Log))
	reg("math.Exp", m1(math.Exp))
	reg("math.floor", m1(math.Floor))
	reg("math.ceil", m1(math.Ceil))
	reg("math.trunc", m1(math.Trunc))
	c64 := func(f func(uint64) int, w uint8) intrinsic {
		return func(in *Interp, a []Value) Value { return intV(f(in.concretize(a[0], w))) }
	}
	reg("math/bits.Len64", c64(bits.Len64, 64))
	reg("math/bits.Len", c64(bits.Len64, 64))
	reg("math/bits.TrailingZeros64", c64(bits.TrailingZeros64, 64))
	reg("math/bits.LeadingZeros64", c64(bits.LeadingZeros64, 64))

	// ----- errors -----
	reg("errors.Is", func(in *Interp, a []Value) Value {
		if a[0].x == nil || a[1].x == nil {
			return boolV(a[0].x == nil && a[1].x == nil)
		}
		return boolV(in.errorsIs(a[0], a[1]))
	})
	reg("errors.As", func(in *Interp, a []Value) Value {
		tgt := a[1].x.(iface)
		et := tgt.t.T.Underlying().(*types.Pointer).Elem()
		ert := in.P.rt(et)
		it, isI := et.Underlying().(*types.Interface)
		err := a[0]
		for err.x != nil {
			i := err.x.(iface)
			if isI && in.implements(i.t, it) {
				in.store(in.deref(tgt.v), err)
				return boolV(true)
			}
			if i.t == ert {
				in.storeAgg(in.deref(tgt.v), i.v)
				return boolV(true)
			}
			if !in.hasMethod(i.t, "Unwrap") {
				break
			}
			err = in.callMethod(err, nil, "Unwrap")
		}
		return boolV(false)
	})

	// ----- sort -----
	sortSlice := func(in *Interp, a []Value) Value {
		if a[0].x == nil {
			return Value{}
		}
		s := sliceOf(a[0].x.(iface).v)
		for i := 1; i < len(s); i++ {
			for j := i; j > 0; j-- {
				r := in.callClosure(a[1], []Value{intV(j), intV(j - 1)})
				lt := r.n != 0
				if r.x != nil {
					lt = in.decide(r.x.(*Expr))
				}
				if !lt {
					break
				}
				x, y := copyV(s[j]), copyV(s[j-1])
				in.storeAgg(&s[j], y)
				in.storeAgg(&s[j-1], x)
			}
		}
		return Value{}
	}
	reg("sort.Slice", sortSlice)
	reg("sort.SliceStable", sortSlice)

	// ----- time, os, misc environment -----
	reg("time.Now", func(in *Interp, a []Value) Value { return zeroV(in.P.typeOf("time", "Time")) })
	reg("time.Sleep", nop)
	reg("os.Getenv", func(in *Interp, a []Value) Value { return Value{} })
	reg("crypto/rand.Read", func(in *Interp, a []Value) Value {
		s := sliceOf(a[0])
		for i := range s {
			in.store(&s[i], in.freshByte())
		}
		return Value{x: tupleV{intV(len(s)), Value{}}}
	})
	reg("math/rand.Intn", func(in *Interp, a []Value) Value { return Value{} })

	regSym()
	regStrconv()
	regFmt()
	regReflect()
	regHash()
}

func nop(in *Interp, a []Value) Value { return Value{} }

func (in *Interp) freshByte() Value {
	v := in.newVar("rand", 8, 0, 255)
	in.ex.inputs = in.ex.inputs[:len(in.ex.inputs)-1] // not an input of the native replay
	return v
}

func (in *Interp) errorsIs(err, target Value) bool {
	t := target.x.(iface)
	cmp := types.Comparable(t.t.T)
	for err.x != nil {
		i := err.x.(iface)
		if cmp && i.t == t.t && in.decide(in.eqV(t.t.T, i.v, t.v)) {
			return true
		}
		if in.hasMethod(i.t, "Is") {
			r := in.callMethod(err, nil, "Is", target)
			if r.x == nil && r.n != 0 {
				return true
			}
		}
		if !in.hasMethod(i.t, "Unwrap") {
			return false
		}
		u := in.callMethod(err, nil, "Unwrap")
		if l, ok := u.x.(sliceV); ok {
			for _, e := range l {
				if e.x != nil && in.errorsIs(e, target) {
					return true
				}
			}
			return false
		}
		err = u
	}
	return false
}

// ----- the sym package -----

func regSym() {
	p := "verif/harness/sym."
	str := func(v Value) string { s, _ := concStr(v); return s }
	reg(p+"Byte", func(in *Interp, a []Value) Value { return in.newVar(str(a[0]), 8, 0, 255) })
	reg(p+"Bool", func(in *Interp, a []Value) Value { return in.newVar(str(a[0]), 0, 0, 1) })
	reg(p+"Uint64", func(in *Interp, a []Value) Value { return in.newVar(str(a[0]), 64, 0, ^uint64(0)) })
	reg(p+"Uint32", func(in *Interp, a []Value) Value { return in.newVar(str(a[0]), 32, 0, 1<<32-1) })
	reg(p+"URange", func(in *Interp, a []Value) Value {
		if a[1].n == a[2].n {
			in.ex.inputs = append(in.ex.inputs, input{name: str(a[0]), kind: "choose", val: a[1].n})
			return a[1]
		}
		return in.newVar(str(a[0]), 64, a[1].n, a[2].n)
	})
	reg(p+"ByteRange", func(in *Interp, a []Value) Value {
		if a[1].n == a[2].n {
			in.ex.inputs = append(in.ex.inputs, input{name: str(a[0]), kind: "choose", val: a[1].n})
			return a[1]
		}
		return in.newVar(str(a[0]), 8, a[1].n, a[2].n)
	})
	reg(p+"Choose", func(in *Interp, a []Value) Value { return intV(in.choose(str(a[0]), int(a[1].n))) })
	reg(p+"Assume", func(in *Interp, a []Value) Value { in.assume(a[0]); return Value{} })
	reg(p+"Assert", func(in *Interp, a []Value) Value { in.assert(a[0], str(a[1])); return Value{} })
	reg(p+"Fork", func(in *Interp, a []Value) Value { return Value{n: in.concretize(a[0], 64)} })
	reg(p+"Known", func(in *Interp, a []Value) Value {
		if a[0].x == nil {
			return boolV(true)
		}
		return boolV(false)
	})
	reg(p+"Or", func(in *Interp, a []Value) Value {
		return exprV(in.cx.Or(in.toExpr(a[0], 0), in.toExpr(a[1], 0)))
	})
	reg(p+"And", func(in *Interp, a []Value) Value {
		return exprV(in.cx.And(in.toExpr(a[0], 0), in.toExpr(a[1], 0)))
	})
	reg(p+"Not", func(in *Interp, a []Value) Value { return exprV(in.cx.Not(in.toExpr(a[0], 0))) })
	reg(p+"Reach", func(in *Interp, a []Value) Value {
		r := in.W.r
		r.mu.Lock()
		r.reach[str(a[0])]++
		r.mu.Unlock()
		return Value{}
	})
	reg(p+"Register", func(in *Interp, a []Value) Value { return Value{} })
	reg(p+"Thorough", func(in *Interp, a []Value) Value { return boolV(in.W.ex.tier == "thorough") })
	reg(p+"SetField", func(in *Interp, a []Value) Value {
		i := a[0].x.(iface)
		st := i.t.T.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		sv := in.deref(i.v).x.(structV)
		for k := 0; k < st.NumFields(); k++ {
			if st.Field(k).Name() == str(a[1]) {
				in.store(&sv[k], a[2].x.(iface).v)
				return Value{}
			}
		}
		panic(engErr{"no field " + str(a[1])})
	})
	reg(p+"Clone", func(in *Interp, a []Value) Value {
		if a[0].x == nil {
			return Value{}
		}
		i := a[0].x.(iface)
		return Value{x: iface{i.t, in.clone(i.t.T, i.v, 0)}}
	})
	reg(p+"Same", func(in *Interp, a []Value) Value {
		if a[0].x == nil || a[1].x == nil {
			return boolV(a[0].x == nil && a[1].x == nil)
		}
		x, y := a[0].x.(iface), a[1].x.(iface)
		if x.t != y.t {
			return boolV(false)
		}
		return exprV(in.deepEq(x.t.T, x.v, y.v, 0))
	})
	reg(p+"Observe", func(in *Interp, a []Value) Value {
		o := obs{tag: str(a[0])}
		if a[1].x != nil {
			i := a[1].x.(iface)
			switch u := i.t.T.Underlying().(type) {
			case *types.Basic:
				if u.Info()&types.IsString != 0 {
					o.isB, o.vs = true, strBytes(i.v)
				} else {
					o.v = i.v
				}
			case *types.Slice:
				o.isB, o.vs = true, append([]Value(nil), sliceOf(i.v)...)
			default:
				o.v = Value{n: 1} // non-nil error etc.
			}
		}
		in.ex.obs = append(in.ex.obs, o)
		return Value{}
	})
}

// clone copies everything v refers to.
func (in *Interp) clone(t types.Type, v Value, depth int) Value {
	if depth > 50 {
		panic(unsupported{"deep recursion in Clone"})
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		n := make(structV, u.NumFields())
		for i, f := range v.x.(structV) {
			n[i] = in.clone(u.Field(i).Type(), f, depth+1)
		}
		return Value{x: n}
	case *types.Array:
		x := v.x.(arrayV)
		n := make(arrayV, len(x))
		for i, f := range x {
			n[i] = in.clone(u.Elem(), f, depth+1)
		}
		return Value{x: n}
	case *types.Slice:
		if v.x == nil {
			return Value{}
		}
		x := v.x.(sliceV)
		n := make(sliceV, len(x))
		for i, f := range x {
			n[i] = in.clone(u.Elem(), f, depth+1)
		}
		return Value{x: n}
	case *types.Pointer:
		if v.x == nil {
			return Value{}
		}
		p := new(Value)
		*p = in.clone(u.Elem(), *in.deref(v), depth+1)
		return Value{x: p}
	case *types.Interface:
		if v.x == nil {
			return Value{}
		}
		i := v.x.(iface)
		return Value{x: iface{i.t, in.clone(i.t.T, i.v, depth+1)}}
	case *types.Map:
		if v.x == nil {
			return Value{}
		}
		m := in.newMap()
		for _, e := range v.x.(*MapV).ents {
			if !e.deleted {
				in.mapSet(m, u.Key(), in.clone(u.Key(), e.k, depth+1), in.clone(u.Elem(), e.v, depth+1))
			}
		}
		return Value{x: m}
	}
	return v
}

// ----- strconv -----

// symDigits renders a symbolic unsigned value in decimal with fresh digit variables.
func (in *Interp) symDigits(e *Expr) []Value {
	e = in.cx.ZExt(e, 64)
	cx := in.cx
	n := 1
	pow := uint64(10)
	for n < 20 {
		if in.decide(cx.Ult(e, cx.Const(64, pow))) {
			break
		}
		n++
		if n < 20 {
			pow *= 10
		}
	}
	if n == 1 {
		return []Value{exprV(cx.Bin(OpAdd, cx.Trunc(e, 8), cx.Const(8, '0')))}
	}
	v := cx.Eval(e)
	ds := make([]uint64, n)
	for i := n - 1; i >= 0; i-- {
		ds[i] = v % 10
		v /= 10
	}
	out := make([]Value, n)
	acc := cx.Const(64, 0)
	for i := 0; i < n; i++ {
		lo := uint64(0)
		if i == 0 {
			lo = 1
		}
		hi := uint64(9)
		if n == 20 && i == 0 {
			hi = 1
		}
		var d *Expr
		if lo == hi {
			d = cx.Const(8, lo)
		} else {
			d = in.defVar(8, lo, hi, ds[i])
		}
		out[i] = exprV(cx.Bin(OpAdd, d, cx.Const(8, '0')))
		acc = cx.Bin(OpAdd, cx.Bin(OpMul, acc, cx.Const(64, 10)), cx.ZExt(d, 64))
		if n == 20 && i == 18 {
			// no overflow when the last digit is appended
			in.addPC(cx.Ule(acc, cx.Const(64, 1844674407370955161)))
		}
	}
	if n == 20 {
		in.addPC(cx.Ule(cx.Const(64, 10000000000000000000), acc))
	}
	in.addPC(cx.Eq(e, acc))
	if debugOn {
		for _, c := range in.ex.pc {
			if cx.Eval(c) == 0 {
				fmt.Fprintln(os.Stderr, "symDigits: model violates", c, "e=", cx.Eval(e), "n=", n, in.ex.pos, in.ex.rlen, in.ex.model, in.ex.prefix, in.ex.pc)
			}
		}
	}
	return out
}

// defVar creates an internal variable whose value is determined by later constraints.
func (in *Interp) defVar(w uint8, lo, hi, val uint64) *Expr {
	ex := in.ex
	i := len(ex.vars)
	// the model fixes the variable only if it existed when the model was found
	fresh := len(ex.model) <= i || ex.pos >= ex.rlen
	v := in.newVar("def", w, lo, hi)
	ex.inputs = ex.inputs[:len(ex.inputs)-1]
	if fresh {
		ex.model[i] = val
		in.cx.SetModel(ex.model)
	}
	return v.x.(*Expr)
}

func (in *Interp) fmtInt(v Value, signed bool) []Value {
	if v.x == nil {
		var s string
		if signed {
			s = fmt.Sprint(int64(v.n))
		} else {
			s = fmt.Sprint(v.n)
		}
		return strBytes(strV(s))
	}
	e := v.x.(*Expr)
	if e.hi-e.lo < 16 {
		// a handful of values: cheaper to enumerate than to relate to digits
		n := in.concretize(v, e.w)
		if signed {
			n = uint64(sext(n, e.w))
		}
		return in.fmtInt(Value{n: n}, signed)
	}
	if signed {
		e = in.cx.SExt(e, 64)
		if in.decide(in.cx.Slt(e, in.cx.Const(64, 0))) {
			n := in.cx.Bin(OpSub, in.cx.Const(64, 0), e)
			return append([]Value{{n: '-'}}, in.symDigits(n)...)
		}
	}
	return in.symDigits(e)
}

func regStrconv() {
	base10 := func(in *Interp, b Value) {
		if b.x != nil || b.n != 10 {
			panic(unsupported{"symbolic integer formatting with base other than 10"})
		}
	}
	fall := func(name string, f intrinsic) {
		reg(name, f)
	}
	fall("strconv.FormatInt", func(in *Interp, a []Value) Value {
		if a[0].x == nil && a[1].n != 10 {
			return strV(fmtBase(int64(a[0].n), true, int(a[1].n)))
		}
		base10(in, a[1])
		return mkStr(in.fmtInt(a[0], true))
	})
	fall("strconv.FormatUint", func(in *Interp, a []Value) Value {
		if a[0].x == nil && a[1].n != 10 {
			return strV(fmtBase(int64(a[0].n), false, int(a[1].n)))
		}
		base10(in, a[1])
		return mkStr(in.fmtInt(a[0], false))
	})
	fall("strconv.Itoa", func(in *Interp, a []Value) Value { return mkStr(in.fmtInt(a[0], true)) })
	fall("strconv.AppendInt", func(in *Interp, a []Value) Value {
		base10(in, a[2])
		return Value{x: in.appendV(sliceOf(a[0]), in.fmtInt(a[1], true), false, types.Typ[types.Uint8])}
	})
	fall("strconv.AppendUint", func(in *Interp, a []Value) Value {
		base10(in, a[2])
		return Value{x: in.appendV(sliceOf(a[0]), in.fmtInt(a[1], false), false, types.Typ[types.Uint8])}
	})
}

func fmtBase(v int64, signed bool, base int) string {
	if signed {
		return bigFmt(v, base)
	}
	return bigFmtU(uint64(v), base)
}

var _ = ssa.InstantiateGenerics

// poolV is a sync.Pool as one processor sees it without garbage collections.
type poolV struct {
	private *Value
	shared  []Value
}
