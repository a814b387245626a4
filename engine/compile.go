package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math"

	"golang.org/x/tools/go/ssa"
)

type compiler struct {
	p    *Program
	fi   *fnInfo
	regs map[ssa.Value]int
	n    int
}

func (p *Program) compile(fi *fnInfo) {
	f := fi.fn
	// building is idempotent and waits for a build under way in another worker
	if f.Pkg != nil {
		p.build(f.Pkg)
	} else if o := f.Origin(); o != nil && o.Pkg != nil {
		p.build(o.Pkg)
	}
	if f.Blocks == nil {
		fi.nosrc = true
		return
	}
	c := &compiler{p: p, fi: fi, regs: map[ssa.Value]int{}}
	for _, q := range f.Params {
		c.reg(q)
	}
	for _, q := range f.FreeVars {
		c.reg(q)
	}
	fi.nparams = len(f.Params)
	if f.Recover != nil {
		fi.recov = f.Recover.Index
	}
	for _, b := range f.Blocks {
		for _, ins := range b.Instrs {
			switch ins.(type) {
			case *ssa.Defer, *ssa.RunDefers:
				fi.hasDefer = true
			}
			if v, ok := ins.(ssa.Value); ok {
				c.reg(v)
			}
		}
	}
	for _, b := range f.Blocks {
		fi.blocks = append(fi.blocks, c.block(b))
	}
	for _, b := range fi.blocks {
		if b.isIf {
			b.region = findRegion(fi, b)
		}
	}
	fi.nregs = c.n
}

func (c *compiler) reg(v ssa.Value) int {
	if i, ok := c.regs[v]; ok {
		return i
	}
	i := c.n
	c.n++
	c.regs[v] = i
	return i
}

func (c *compiler) opnd(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{kind: 1, v: constV(x)}
	case *ssa.Global:
		return opnd{kind: 2, idx: c.p.globalIndex(x)}
	case *ssa.Function:
		return opnd{kind: 1, v: Value{x: &Closure{fn: c.p.fn(x)}}}
	case *ssa.Builtin:
		return opnd{kind: 1}
	}
	return opnd{kind: 0, idx: c.reg(v)}
}

func constV(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return zeroV(t)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return boolV(constant.BoolVal(c.Value))
		case u.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return strV(constant.StringVal(c.Value))
			}
			return strV(string(rune(c.Int64())))
		case u.Info()&types.IsInteger != 0:
			w := width(t)
			v := constant.ToInt(c.Value)
			if i, ok := constant.Int64Val(v); ok {
				return Value{n: uint64(i) & mask(w)}
			}
			n, _ := constant.Uint64Val(v)
			return Value{n: n & mask(w)}
		case u.Info()&types.IsFloat != 0:
			f, _ := constant.Float64Val(c.Value)
			if u.Kind() == types.Float32 {
				return Value{n: uint64(math.Float32bits(float32(f)))}
			}
			return f64V(f)
		case u.Kind() == types.UnsafePointer:
			return Value{}
		}
	}
	return Value{x: unsupported{"constant of type " + t.String()}}
}

func (c *compiler) block(b *ssa.BasicBlock) *blockC {
	bc := &blockC{idx: b.Index, pure: true}
	for _, p := range b.Preds {
		bc.preds = append(bc.preds, p.Index)
	}
	for _, ins := range b.Instrs {
		switch x := ins.(type) {
		case *ssa.Phi:
			ph := phiC{dst: c.reg(x), w: x.Type(), name: x.Comment}
			for _, e := range x.Edges {
				ph.src = append(ph.src, c.opnd(e))
			}
			bc.phis = append(bc.phis, ph)
			continue
		case *ssa.DebugRef:
			continue
		case *ssa.If:
			bc.isIf = true
			bc.cond = c.opnd(x.Cond)
			bc.succ = [2]int{b.Succs[0].Index, b.Succs[1].Index}
			bc.term = c.ifTerm(bc)
			continue
		case *ssa.Jump:
			s := b.Succs[0].Index
			bc.isJump = true
			bc.succ[0] = s
			bc.term = func(fr *frame) int { return s }
			continue
		case *ssa.Return:
			bc.pure = false
			switch len(x.Results) {
			case 0:
				bc.term = func(fr *frame) int { return -1 }
			case 1:
				o := c.opnd(x.Results[0])
				bc.term = func(fr *frame) int { fr.result = fr.in.get(fr, &o); return -1 }
			default:
				os := c.opnds(x.Results)
				bc.term = func(fr *frame) int {
					t := make(tupleV, len(os))
					for i := range os {
						t[i] = fr.in.get(fr, &os[i])
					}
					fr.result = Value{x: t}
					return -1
				}
			}
			continue
		case *ssa.Panic:
			bc.pure = false
			o := c.opnd(x.X)
			bc.term = func(fr *frame) int {
				panic(targetPanic{fr.in.get(fr, &o)})
			}
			continue
		}
		f, pure := c.instr(ins)
		if !pure {
			bc.pure = false
		}
		bc.body = append(bc.body, f)
	}
	if bc.term == nil {
		bc.pure = false
		bc.term = func(fr *frame) int { panic(engErr{"block without terminator"}) }
	}
	return bc
}

func (c *compiler) opnds(vs []ssa.Value) []opnd {
	var r []opnd
	for _, v := range vs {
		r = append(r, c.opnd(v))
	}
	return r
}

func (c *compiler) ifTerm(bc *blockC) func(fr *frame) int {
	cond := &bc.cond
	s0, s1 := bc.succ[0], bc.succ[1]
	return func(fr *frame) int {
		v := fr.in.get(fr, cond)
		if v.x == nil {
			if v.n != 0 {
				return s0
			}
			return s1
		}
		e := v.x.(*Expr)
		if d, ok := fr.in.known(e); ok {
			if d {
				return s0
			}
			return s1
		}
		if bc.region != nil {
			if n, ok := fr.in.tryRegion(fr, bc, e); ok {
				return n
			}
		}
		if fr.in.decide(e) {
			return s0
		}
		return s1
	}
}

func (c *compiler) instr(ins ssa.Instruction) (func(fr *frame), bool) {
	switch x := ins.(type) {
	case *ssa.Alloc:
		d := c.reg(x)
		t := x.Type().(*types.Pointer).Elem()
		if isAgg(t) {
			return func(fr *frame) {
				p := new(Value)
				*p = zeroV(t)
				fr.regs[d] = Value{x: p}
			}, false
		}
		return func(fr *frame) { fr.regs[d] = Value{x: new(Value)} }, false
	case *ssa.BinOp:
		return c.binop(x)
	case *ssa.UnOp:
		return c.unop(x)
	case *ssa.Call:
		return c.call(x)
	case *ssa.ChangeInterface:
		return c.move(x, x.X), true
	case *ssa.ChangeType:
		return c.move(x, x.X), true
	case *ssa.Convert:
		return c.convert(x, x.X, x.Type())
	case *ssa.MultiConvert:
		return c.convert(x, x.X, x.Type())
	case *ssa.Defer:
		return c.deferI(x), false
	case *ssa.RunDefers:
		return func(fr *frame) { fr.in.runDefers(fr) }, false
	case *ssa.Extract:
		d, o, i := c.reg(x), c.opnd(x.Tuple), x.Index
		return func(fr *frame) { fr.regs[d] = fr.in.get(fr, &o).x.(tupleV)[i] }, true
	case *ssa.Field:
		d, o, i := c.reg(x), c.opnd(x.X), x.Field
		return func(fr *frame) { fr.regs[d] = fr.in.get(fr, &o).x.(structV)[i] }, true
	case *ssa.FieldAddr:
		d, o, i := c.reg(x), c.opnd(x.X), x.Field
		return func(fr *frame) {
			p := fr.in.deref(fr.in.get(fr, &o))
			s, ok := p.x.(structV)
			if !ok {
				panic(unsupported{fmt.Sprintf("FieldAddr of %T in %s", p.x, fr.fi.name)})
			}
			fr.regs[d] = Value{x: &s[i]}
		}, true
	case *ssa.Index:
		return c.index(x)
	case *ssa.IndexAddr:
		return c.indexAddr(x)
	case *ssa.Lookup:
		return c.lookup(x)
	case *ssa.MakeClosure:
		d := c.reg(x)
		fi := c.p.fn(x.Fn.(*ssa.Function))
		os := c.opnds(x.Bindings)
		return func(fr *frame) {
			env := make([]Value, len(os))
			for i := range os {
				env[i] = fr.in.get(fr, &os[i])
			}
			fr.regs[d] = Value{x: &Closure{fn: fi, env: env}}
		}, false
	case *ssa.MakeInterface:
		d, o := c.reg(x), c.opnd(x.X)
		rt := c.p.rt(x.X.Type())
		return func(fr *frame) { fr.regs[d] = Value{x: iface{rt, fr.in.get(fr, &o)}} }, true
	case *ssa.MakeMap:
		d := c.reg(x)
		return func(fr *frame) { fr.regs[d] = Value{x: fr.in.newMap()} }, false
	case *ssa.MakeSlice:
		d, l, cp := c.reg(x), c.opnd(x.Len), c.opnd(x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		agg := isAgg(et)
		return func(fr *frame) {
			in := fr.in
			n := int64(in.concretizeLen(in.get(fr, &l)))
			m := int64(in.concretizeLen(in.get(fr, &cp)))
			if n < 0 || n > 1<<40 {
				in.rtPanic("makeslice: len out of range")
			}
			if m < n || m > 1<<40 {
				in.rtPanic("makeslice: cap out of range")
			}
			if m > 1<<22 {
				panic(unsupported{"allocation of more than 4M elements"})
			}
			s := make(sliceV, m)
			if agg {
				for i := range s {
					s[i] = zeroV(et)
				}
			}
			fr.regs[d] = Value{x: s[:n]}
		}, false
	case *ssa.MapUpdate:
		m, k, v := c.opnd(x.Map), c.opnd(x.Key), c.opnd(x.Value)
		kt := x.Map.Type().Underlying().(*types.Map).Key()
		return func(fr *frame) {
			mv := fr.in.get(fr, &m)
			if mv.x == nil {
				fr.in.rtPanic("assignment to entry in nil map")
			}
			fr.in.mapSet(mv.x.(*MapV), kt, fr.in.get(fr, &k), fr.in.get(fr, &v))
		}, false
	case *ssa.Range:
		d, o := c.reg(x), c.opnd(x.X)
		_, isMap := x.X.Type().Underlying().(*types.Map)
		return func(fr *frame) {
			v := fr.in.get(fr, &o)
			if isMap {
				it := &mapIter{}
				if v.x != nil {
					it.ents = append(it.ents, v.x.(*MapV).ents...)
					it.m = v.x.(*MapV)
				}
				fr.regs[d] = Value{x: it}
			} else {
				fr.regs[d] = Value{x: &strIter{s: v}}
			}
		}, false
	case *ssa.Next:
		d, o := c.reg(x), c.opnd(x.Iter)
		if x.IsString {
			return func(fr *frame) {
				it := fr.in.get(fr, &o).x.(*strIter)
				n := strLen(it.s)
				if it.i >= n {
					fr.regs[d] = Value{x: tupleV{Value{}, Value{}, Value{}}}
					return
				}
				r, sz := fr.in.decodeRune(strSlice(it.s, it.i, n))
				fr.regs[d] = Value{x: tupleV{boolV(true), intV(it.i), r}}
				it.i += sz
			}, false
		}
		return func(fr *frame) {
			it := fr.in.get(fr, &o).x.(*mapIter)
			for it.i < len(it.ents) {
				e := it.ents[it.i]
				it.i++
				if e.deleted {
					continue
				}
				fr.regs[d] = Value{x: tupleV{boolV(true), e.k, e.v}}
				return
			}
			fr.regs[d] = Value{x: tupleV{Value{}, Value{}, Value{}}}
		}, false
	case *ssa.Slice:
		return c.slice(x)
	case *ssa.SliceToArrayPointer:
		d, o := c.reg(x), c.opnd(x.X)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		return func(fr *frame) {
			v := fr.in.get(fr, &o)
			s := sliceOf(v)
			if len(s) < n {
				fr.in.rtPanic("cannot convert slice to array pointer")
			}
			if s == nil {
				fr.regs[d] = Value{}
				return
			}
			fr.regs[d] = Value{x: &Value{x: arrayV(s[:n:n])}}
		}, true
	case *ssa.Store:
		a, v := c.opnd(x.Addr), c.opnd(x.Val)
		if isAgg(x.Val.Type()) {
			return func(fr *frame) {
				fr.in.storeAgg(fr.in.deref(fr.in.get(fr, &a)), fr.in.get(fr, &v))
			}, false
		}
		return func(fr *frame) {
			av := fr.in.get(fr, &a)
			if p, ok := av.x.(*Value); ok {
				fr.in.store(p, fr.in.get(fr, &v))
				return
			}
			if sp, ok := av.x.(*symPtr); ok && len(sp.base) <= 64 {
				fr.in.storeSym(sp, fr.in.get(fr, &v))
				return
			}
			fr.in.store(fr.in.deref(av), fr.in.get(fr, &v))
		}, false
	case *ssa.TypeAssert:
		return c.typeAssert(x), false
	}
	msg := fmt.Sprintf("instruction %T (%s) in %s", ins, ins.String(), c.fi.name)
	return func(fr *frame) { panic(unsupported{msg}) }, false
}

type mapIter struct {
	m    *MapV
	ents []*mapEntry
	i    int
}
type strIter struct {
	s Value
	i int
}

func (in *Interp) storeSym(sp *symPtr, v Value) {
	w := width(sp.elem)
	if _, ok := v.x.(*Expr); !ok && v.x != nil {
		in.store(in.deref(Value{x: sp}), v)
		return
	}
	for i := range sp.base {
		if sp.base[i].x != nil {
			if _, ok := sp.base[i].x.(*Expr); !ok {
				in.store(in.deref(Value{x: sp}), v)
				return
			}
		}
	}
	ve := in.toExpr(v, w)
	for i := range sp.base {
		if uint64(i) < sp.idx.lo || uint64(i) > sp.idx.hi {
			continue
		}
		c := in.cx.Eq(sp.idx, in.cx.Const(sp.idx.w, uint64(i)))
		in.store(&sp.base[i], exprV(in.cx.Ite(c, ve, in.toExpr(sp.base[i], w))))
	}
}

func (c *compiler) move(dst ssa.Value, src ssa.Value) func(fr *frame) {
	d, o := c.reg(dst), c.opnd(src)
	return func(fr *frame) { fr.regs[d] = fr.in.get(fr, &o) }
}

func (c *compiler) binop(x *ssa.BinOp) (func(fr *frame), bool) {
	d, a, b := c.reg(x), c.opnd(x.X), c.opnd(x.Y)
	t := x.X.Type()
	op := x.Op
	switch op {
	case token.EQL, token.NEQ:
		neg := op == token.NEQ
		yt := x.Y.Type()
		// comparison of interface with concrete value never reaches SSA un-converted
		_ = yt
		if isInteger(t) || isBool(t) {
			w := width(t)
			return func(fr *frame) {
				p, q := fr.in.get(fr, &a), fr.in.get(fr, &b)
				if p.x == nil && q.x == nil {
					fr.regs[d] = boolV((p.n == q.n) != neg)
					return
				}
				e := fr.in.cx.Eq(fr.in.toExpr(p, w), fr.in.toExpr(q, w))
				if neg {
					e = fr.in.cx.Not(e)
				}
				fr.regs[d] = exprV(e)
			}, true
		}
		return func(fr *frame) {
			e := fr.in.eqV(t, fr.in.get(fr, &a), fr.in.get(fr, &b))
			if neg {
				e = fr.in.cx.Not(e)
			}
			fr.regs[d] = exprV(e)
		}, !isAgg(t)
	}
	if isString(t) {
		switch op {
		case token.ADD:
			return func(fr *frame) { fr.regs[d] = strCat(fr.in.get(fr, &a), fr.in.get(fr, &b)) }, true
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			return func(fr *frame) {
				p, q := fr.in.get(fr, &a), fr.in.get(fr, &b)
				if op == token.GTR || op == token.LEQ {
					p, q = q, p
				}
				e := fr.in.ltStr(p, q) // p<q
				if op == token.LEQ || op == token.GEQ {
					e = fr.in.cx.Not(e)
				}
				fr.regs[d] = exprV(e)
			}, true
		}
	}
	if isFloat(t) {
		f32 := t.Underlying().(*types.Basic).Kind() == types.Float32
		return func(fr *frame) {
			p, q := fr.in.get(fr, &a), fr.in.get(fr, &b)
			var u, v float64
			if f32 {
				u, v = fr.in.fl32(p), fr.in.fl32(q)
			} else {
				u, v = fr.in.fl64(p), fr.in.fl64(q)
			}
			var r float64
			switch op {
			case token.ADD:
				r = u + v
			case token.SUB:
				r = u - v
			case token.MUL:
				r = u * v
			case token.QUO:
				r = u / v
			case token.LSS:
				fr.regs[d] = boolV(u < v)
				return
			case token.LEQ:
				fr.regs[d] = boolV(u <= v)
				return
			case token.GTR:
				fr.regs[d] = boolV(u > v)
				return
			case token.GEQ:
				fr.regs[d] = boolV(u >= v)
				return
			}
			if f32 {
				fr.regs[d] = Value{n: uint64(math.Float32bits(float32(r)))}
			} else {
				fr.regs[d] = f64V(r)
			}
		}, true
	}
	if !isInteger(t) && !isBool(t) {
		msg := "binop " + op.String() + " on " + t.String()
		return func(fr *frame) { panic(unsupported{msg}) }, false
	}
	w := width(t)
	signed := isSigned(t)
	pure := true
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
		return func(fr *frame) {
			p, q := fr.in.get(fr, &a), fr.in.get(fr, &b)
			o := op
			if o == token.GTR {
				p, q = q, p
				o = token.LSS
			} else if o == token.GEQ {
				p, q = q, p
				o = token.LEQ
			}
			if p.x == nil && q.x == nil {
				var r bool
				if signed {
					if o == token.LSS {
						r = sext(p.n, w) < sext(q.n, w)
					} else {
						r = sext(p.n, w) <= sext(q.n, w)
					}
				} else if o == token.LSS {
					r = p.n < q.n
				} else {
					r = p.n <= q.n
				}
				fr.regs[d] = boolV(r)
				return
			}
			e, f := fr.in.toExpr(p, w), fr.in.toExpr(q, w)
			cx := fr.in.cx
			var r *Expr
			switch {
			case signed && o == token.LSS:
				r = cx.Slt(e, f)
			case signed:
				r = cx.Sle(e, f)
			case o == token.LSS:
				r = cx.Ult(e, f)
			default:
				r = cx.Ule(e, f)
			}
			fr.regs[d] = exprV(r)
		}, true
	case token.SHL, token.SHR:
		yt := x.Y.Type()
		yw := width(yt)
		ysigned := isSigned(yt)
		_, yconst := x.Y.(*ssa.Const)
		o := OpShl
		if op == token.SHR {
			o = OpLShr
			if signed {
				o = OpAShr
			}
		}
		return func(fr *frame) {
			p, q := fr.in.get(fr, &a), fr.in.get(fr, &b)
			in := fr.in
			if ysigned && !yconst {
				if q.x == nil {
					if sext(q.n, yw) < 0 {
						in.rtPanic("negative shift amount")
					}
				} else if in.decideSpec(in.cx.Slt(q.x.(*Expr), in.cx.Const(yw, 0))) {
					in.rtPanic("negative shift amount")
				}
			}
			if p.x == nil && q.x == nil {
				s := q.n
				if s > 64 {
					s = 64
				}
				fr.regs[d] = Value{n: evalBin(o, p.n, s, w)}
				return
			}
			pe := in.toExpr(p, w)
			var qe *Expr
			if q.x == nil {
				s := q.n
				if s > 64 {
					s = 64
				}
				if s >= uint64(w) && o != OpAShr {
					fr.regs[d] = Value{}
					return
				}
				if s > mask(w) {
					s = mask(w)
				}
				qe = in.cx.Const(w, s)
			} else {
				qq := q.x.(*Expr)
				if yw <= w {
					qe = in.cx.ZExt(qq, w)
				} else {
					// saturate
					big := in.cx.Ult(in.cx.Const(yw, uint64(w)), qq)
					qe = in.cx.Ite(big, in.cx.Const(w, uint64(w)&mask(w)), in.cx.Trunc(qq, w))
				}
			}
			fr.regs[d] = exprV(in.cx.Bin(o, pe, qe))
		}, true
	}
	var o Op
	switch op {
	case token.ADD:
		o = OpAdd
	case token.SUB:
		o = OpSub
	case token.MUL:
		o = OpMul
	case token.QUO:
		o = OpUDiv
		if signed {
			o = OpSDiv
		}
	case token.REM:
		o = OpURem
		if signed {
			o = OpSRem
		}
	case token.AND:
		o = OpBAnd
	case token.OR:
		o = OpBOr
	case token.XOR:
		o = OpBXor
	case token.AND_NOT:
		return func(fr *frame) {
			p, q := fr.in.get(fr, &a), fr.in.get(fr, &b)
			if p.x == nil && q.x == nil {
				fr.regs[d] = Value{n: p.n &^ q.n}
				return
			}
			in := fr.in
			fr.regs[d] = exprV(in.cx.Bin(OpBAnd, in.toExpr(p, w), in.cx.BNot(in.toExpr(q, w))))
		}, true
	default:
		msg := "binop " + op.String()
		return func(fr *frame) { panic(unsupported{msg}) }, false
	}
	isDiv := op == token.QUO || op == token.REM
	m := mask(w)
	return func(fr *frame) {
		p, q := fr.in.get(fr, &a), fr.in.get(fr, &b)
		if p.x == nil && q.x == nil {
			switch o {
			case OpAdd:
				fr.regs[d] = Value{n: (p.n + q.n) & m}
				return
			case OpSub:
				fr.regs[d] = Value{n: (p.n - q.n) & m}
				return
			}
			if isDiv && q.n == 0 {
				fr.in.rtPanic("integer divide by zero")
			}
			fr.regs[d] = Value{n: evalBin(o, p.n, q.n, w)}
			return
		}
		in := fr.in
		qe := in.toExpr(q, w)
		if isDiv {
			z := in.cx.Eq(qe, in.cx.Const(w, 0))
			if in.decideSpec(z) {
				in.rtPanic("integer divide by zero")
			}
		}
		fr.regs[d] = exprV(in.cx.Bin(o, in.toExpr(p, w), qe))
	}, pure
}

func (in *Interp) ltStr(p, q Value) *Expr {
	a, ok1 := concStr(p)
	b, ok2 := concStr(q)
	if ok1 && ok2 {
		return in.cx.Bool(a < b)
	}
	return in.ltBytes(strBytes(p), strBytes(q))
}

func (c *compiler) unop(x *ssa.UnOp) (func(fr *frame), bool) {
	d, a := c.reg(x), c.opnd(x.X)
	switch x.Op {
	case token.MUL:
		return func(fr *frame) {
			v := fr.in.get(fr, &a)
			if p, ok := v.x.(*Value); ok {
				switch p.x.(type) {
				case structV, arrayV:
					fr.regs[d] = copyV(*p)
				default:
					fr.regs[d] = *p
				}
				return
			}
			fr.regs[d] = fr.in.load(v)
		}, true
	case token.NOT:
		return func(fr *frame) {
			v := fr.in.get(fr, &a)
			if v.x == nil {
				fr.regs[d] = Value{n: 1 - v.n}
				return
			}
			fr.regs[d] = exprV(fr.in.cx.Not(v.x.(*Expr)))
		}, true
	case token.SUB:
		t := x.X.Type()
		if isFloat(t) {
			f32 := t.Underlying().(*types.Basic).Kind() == types.Float32
			return func(fr *frame) {
				v := fr.in.get(fr, &a)
				if f32 {
					fr.regs[d] = Value{n: uint64(math.Float32bits(float32(-fr.in.fl32(v))))}
				} else {
					fr.regs[d] = f64V(-fr.in.fl64(v))
				}
			}, true
		}
		w := width(t)
		return func(fr *frame) {
			v := fr.in.get(fr, &a)
			if v.x == nil {
				fr.regs[d] = Value{n: -v.n & mask(w)}
				return
			}
			fr.regs[d] = exprV(fr.in.cx.Bin(OpSub, fr.in.cx.Const(w, 0), v.x.(*Expr)))
		}, true
	case token.XOR:
		w := width(x.X.Type())
		return func(fr *frame) {
			v := fr.in.get(fr, &a)
			if v.x == nil {
				fr.regs[d] = Value{n: ^v.n & mask(w)}
				return
			}
			fr.regs[d] = exprV(fr.in.cx.BNot(v.x.(*Expr)))
		}, true
	}
	msg := "unop " + x.String()
	return func(fr *frame) { panic(unsupported{msg}) }, false
}

// checkIndex returns a concrete index or a symbolic one known to be in range.
func (in *Interp) checkIndex(v Value, w uint8, signed bool, n int) (int, *Expr) {
	if v.x == nil {
		i := int64(v.n)
		if signed {
			i = sext(v.n, w)
		}
		if i < 0 || i >= int64(n) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", i, n))
		}
		return int(i), nil
	}
	e := v.x.(*Expr)
	if signed {
		e = in.cx.SExt(e, 64)
	} else {
		e = in.cx.ZExt(e, 64)
	}
	ok := in.cx.Ult(e, in.cx.Const(64, uint64(n)))
	if !in.decideSpec(ok) {
		in.rtPanic(fmt.Sprintf("index out of range with length %d", n))
	}
	if e.op == OpConst {
		return int(e.k), nil
	}
	return 0, e
}

func (c *compiler) index(x *ssa.Index) (func(fr *frame), bool) {
	d, a, i := c.reg(x), c.opnd(x.X), c.opnd(x.Index)
	iw, isg := width(x.Index.Type()), isSigned(x.Index.Type())
	if isString(x.X.Type()) {
		return func(fr *frame) {
			in := fr.in
			s := in.get(fr, &a)
			k, e := in.checkIndex(in.get(fr, &i), iw, isg, strLen(s))
			if e == nil {
				fr.regs[d] = strAt(s, k)
				return
			}
			fr.regs[d] = in.loadSym(strBytes(s), e, 8)
		}, true
	}
	ew := width(x.Type())
	return func(fr *frame) {
		in := fr.in
		arr := in.get(fr, &a).x.(arrayV)
		k, e := in.checkIndex(in.get(fr, &i), iw, isg, len(arr))
		if e == nil {
			fr.regs[d] = arr[k]
			return
		}
		fr.regs[d] = in.loadSym(arr, e, ew)
	}, true
}

func (c *compiler) indexAddr(x *ssa.IndexAddr) (func(fr *frame), bool) {
	d, a, i := c.reg(x), c.opnd(x.X), c.opnd(x.Index)
	iw, isg := width(x.Index.Type()), isSigned(x.Index.Type())
	_, isPtr := x.X.Type().Underlying().(*types.Pointer)
	et := x.Type().Underlying().(*types.Pointer).Elem()
	return func(fr *frame) {
		in := fr.in
		v := in.get(fr, &a)
		var s []Value
		if isPtr {
			arr, ok := in.deref(v).x.(arrayV)
			if !ok {
				panic(unsupported{"IndexAddr on non-array in " + fr.fi.name})
			}
			s = arr
		} else if v.x != nil {
			s = v.x.(sliceV)
		}
		k, e := in.checkIndex(in.get(fr, &i), iw, isg, len(s))
		if e == nil {
			fr.regs[d] = Value{x: &s[k]}
			return
		}
		fr.regs[d] = Value{x: &symPtr{s, e, et}}
	}, true
}

func (c *compiler) lookup(x *ssa.Lookup) (func(fr *frame), bool) {
	d, a, i := c.reg(x), c.opnd(x.X), c.opnd(x.Index)
	if isString(x.X.Type()) {
		iw, isg := width(x.Index.Type()), isSigned(x.Index.Type())
		return func(fr *frame) {
			in := fr.in
			s := in.get(fr, &a)
			k, e := in.checkIndex(in.get(fr, &i), iw, isg, strLen(s))
			if e == nil {
				fr.regs[d] = strAt(s, k)
				return
			}
			fr.regs[d] = in.loadSym(strBytes(s), e, 8)
		}, true
	}
	mt := x.X.Type().Underlying().(*types.Map)
	kt, vt := mt.Key(), mt.Elem()
	commaOk := x.CommaOk
	zero := zeroV(vt)
	return func(fr *frame) {
		in := fr.in
		mv := in.get(fr, &a)
		var e *mapEntry
		if mv.x != nil {
			if in.spec > 0 {
				panic(specAbort{})
			}
			e = in.mapFind(mv.x.(*MapV), kt, in.get(fr, &i))
		}
		var v Value
		if e != nil {
			v = e.v
		} else {
			v = zero
		}
		if commaOk {
			fr.regs[d] = Value{x: tupleV{v, boolV(e != nil)}}
		} else {
			fr.regs[d] = v
		}
	}, false
}

func (c *compiler) slice(x *ssa.Slice) (func(fr *frame), bool) {
	d, a := c.reg(x), c.opnd(x.X)
	var lo, hi, mx *opnd
	get := func(v ssa.Value) *opnd {
		if v == nil {
			return nil
		}
		o := c.opnd(v)
		return &o
	}
	lo, hi, mx = get(x.Low), get(x.High), get(x.Max)
	wOf := func(v ssa.Value) (uint8, bool) {
		if v == nil {
			return 64, true
		}
		return width(v.Type()), isSigned(v.Type())
	}
	lw, ls := wOf(x.Low)
	hw, hs := wOf(x.High)
	mw, ms := wOf(x.Max)
	bound := func(in *Interp, v Value, w uint8, signed bool) int64 {
		n := v.n
		if v.x != nil {
			n = in.concretize(v, w)
		}
		if signed {
			return sext(n, w)
		}
		if n > 1<<62 {
			return 1 << 62
		}
		return int64(n)
	}
	isStr := isString(x.X.Type())
	_, isPtr := x.X.Type().Underlying().(*types.Pointer)
	return func(fr *frame) {
		in := fr.in
		v := in.get(fr, &a)
		var ln, cp int64
		var s []Value
		if isStr {
			ln = int64(strLen(v))
			cp = ln
		} else if isPtr {
			arr := in.deref(v).x.(arrayV)
			s = arr
			ln, cp = int64(len(arr)), int64(len(arr))
		} else {
			s = sliceOf(v)
			ln, cp = int64(len(s)), int64(cap(s))
		}
		l, h, m := int64(0), ln, cp
		if lo != nil {
			l = bound(in, in.get(fr, lo), lw, ls)
		}
		if hi != nil {
			h = bound(in, in.get(fr, hi), hw, hs)
		}
		if mx != nil {
			m = bound(in, in.get(fr, mx), mw, ms)
		}
		if m < 0 || m > cp || h < 0 || h > m || l < 0 || l > h {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, m, cp))
		}
		if isStr {
			fr.regs[d] = strSlice(v, int(l), int(h))
			return
		}
		if s == nil {
			fr.regs[d] = Value{}
			return
		}
		fr.regs[d] = Value{x: sliceV(s[l:h:m])}
	}, true
}

func (c *compiler) typeAssert(x *ssa.TypeAssert) func(fr *frame) {
	d, a := c.reg(x), c.opnd(x.X)
	t := x.AssertedType
	it, isI := t.Underlying().(*types.Interface)
	commaOk := x.CommaOk
	rt := c.p.rt(t)
	zero := zeroV(t)
	return func(fr *frame) {
		v := fr.in.get(fr, &a)
		ok := false
		if v.x != nil {
			i := v.x.(iface)
			if isI {
				ok = fr.in.implements(i.t, it)
			} else {
				ok = i.t == rt
				if ok {
					v = i.v
				}
			}
		}
		if commaOk {
			if !ok {
				v = zero
			}
			fr.regs[d] = Value{x: tupleV{v, boolV(ok)}}
			return
		}
		if !ok {
			fr.in.rtPanic("interface conversion: not " + t.String())
		}
		fr.regs[d] = v
	}
}

func (c *compiler) convert(x ssa.Value, src ssa.Value, dst types.Type) (func(fr *frame), bool) {
	d, a := c.reg(x), c.opnd(src)
	st := src.Type()
	su, du := st.Underlying(), dst.Underlying()
	switch {
	case isInteger(st) && isInteger(dst):
		sw, dw, sg := width(st), width(dst), isSigned(st)
		return func(fr *frame) {
			v := fr.in.get(fr, &a)
			fr.regs[d] = fr.in.convInt(v, sw, dw, sg)
		}, true
	case isInteger(st) && isFloat(dst):
		sw, sg := width(st), isSigned(st)
		f32 := du.(*types.Basic).Kind() == types.Float32
		return func(fr *frame) {
			v := fr.in.get(fr, &a)
			n := v.n
			if v.x != nil {
				n = fr.in.concretize(v, sw)
			}
			var f float64
			if sg {
				f = float64(sext(n, sw))
				if f32 {
					fr.regs[d] = Value{n: uint64(math.Float32bits(float32(sext(n, sw))))}
					return
				}
			} else {
				f = float64(n)
			}
			if f32 {
				fr.regs[d] = Value{n: uint64(math.Float32bits(float32(f)))}
				return
			}
			fr.regs[d] = f64V(f)
		}, false
	case isFloat(st) && isFloat(dst):
		s32 := su.(*types.Basic).Kind() == types.Float32
		d32 := du.(*types.Basic).Kind() == types.Float32
		return func(fr *frame) {
			v := fr.in.get(fr, &a)
			var f float64
			if s32 {
				f = fr.in.fl32(v)
			} else {
				f = fr.in.fl64(v)
			}
			if d32 {
				fr.regs[d] = Value{n: uint64(math.Float32bits(float32(f)))}
			} else {
				fr.regs[d] = f64V(f)
			}
		}, true
	case isFloat(st) && isInteger(dst):
		s32 := su.(*types.Basic).Kind() == types.Float32
		dw, sg := width(dst), isSigned(dst)
		return func(fr *frame) {
			v := fr.in.get(fr, &a)
			var f float64
			if s32 {
				f = fr.in.fl32(v)
			} else {
				f = fr.in.fl64(v)
			}
			if sg {
				fr.regs[d] = Value{n: uint64(int64(f)) & mask(dw)}
			} else {
				fr.regs[d] = Value{n: uint64(f) & mask(dw)}
			}
		}, true
	case isString(dst) && isInteger(st):
		return func(fr *frame) {
			v := fr.in.get(fr, &a)
			if v.x == nil {
				fr.regs[d] = strV(string(rune(sext(v.n, width(st)))))
				return
			}
			fr.regs[d] = fr.in.encodeRune(fr.in.convInt(v, width(st), 32, true))
		}, false
	case isString(dst):
		if sl, ok := su.(*types.Slice); ok {
			if width(sl.Elem()) == 8 {
				return func(fr *frame) { fr.regs[d] = mkStr(sliceOf(fr.in.get(fr, &a))) }, true
			}
			return func(fr *frame) {
				r := Value{}
				for _, c := range sliceOf(fr.in.get(fr, &a)) {
					r = strCat(r, fr.in.encodeRune(c))
				}
				fr.regs[d] = r
			}, false
		}
	case isString(st):
		if sl, ok := du.(*types.Slice); ok {
			if width(sl.Elem()) == 8 {
				return func(fr *frame) {
					b := strBytes(fr.in.get(fr, &a))
					s := make(sliceV, len(b))
					copy(s, b)
					fr.regs[d] = Value{x: s}
				}, false
			}
			return func(fr *frame) {
				v := fr.in.get(fr, &a)
				s := make(sliceV, 0)
				for strLen(v) > 0 {
					r, n := fr.in.decodeRune(v)
					s = append(s, r)
					v = strSlice(v, n, strLen(v))
				}
				fr.regs[d] = Value{x: s}
			}, false
		}
	}
	// unsafe.Pointer and identical underlying types: keep the value
	if b, ok := du.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return c.move(x, src), true
	}
	if b, ok := su.(*types.Basic); ok && b.Kind() == types.UnsafePointer {
		return c.move(x, src), true
	}
	if types.Identical(su, du) {
		return c.move(x, src), true
	}
	if _, ok := su.(*types.Slice); ok {
		if at, ok := du.(*types.Array); ok {
			n := int(at.Len())
			return func(fr *frame) {
				s := sliceOf(fr.in.get(fr, &a))
				if len(s) < n {
					fr.in.rtPanic("cannot convert slice to array")
				}
				fr.regs[d] = copyV(Value{x: arrayV(s[:n])})
			}, false
		}
	}
	msg := fmt.Sprintf("conversion %s -> %s in %s", st, dst, c.fi.name)
	return func(fr *frame) { panic(unsupported{msg}) }, false
}

func (in *Interp) convInt(v Value, sw, dw uint8, signed bool) Value {
	if v.x == nil {
		if dw <= sw {
			return Value{n: v.n & mask(dw)}
		}
		if signed {
			return Value{n: uint64(sext(v.n, sw)) & mask(dw)}
		}
		return v
	}
	e, ok := v.x.(*Expr)
	if !ok {
		panic(unsupported{fmt.Sprintf("integer conversion of %T", v.x)})
	}
	if dw <= sw {
		return exprV(in.cx.Trunc(e, dw))
	}
	if signed {
		return exprV(in.cx.SExt(e, dw))
	}
	return exprV(in.cx.ZExt(e, dw))
}

func (c *compiler) deferI(x *ssa.Defer) func(fr *frame) {
	cc := x.Call
	if cc.IsInvoke() {
		o := c.opnd(cc.Value)
		os := c.opnds(cc.Args)
		m := cc.Method
		return func(fr *frame) {
			iv := fr.in.get(fr, &o)
			args := fr.in.evalArgs(fr, os)
			if iv.x == nil {
				fr.in.rtPanic("invalid memory address or nil pointer dereference")
			}
			i := iv.x.(iface)
			mi := fr.in.P.method(i.t, m.Pkg(), m.Name())
			fr.defers = append(fr.defers, deferred{fn: &Closure{fn: mi}, args: append([]Value{i.v}, args...)})
		}
	}
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		f := c.builtin(b, cc.Args, -1, nil)
		os := c.opnds(cc.Args)
		_ = os
		return func(fr *frame) {
			// argument values are re-read at run time of the defer; builtins are
			// only deferred with stable arguments in practice (close, print)
			fr.defers = append(fr.defers, deferred{intr: func() { f(fr) }})
		}
	}
	o := c.opnd(cc.Value)
	os := c.opnds(cc.Args)
	return func(fr *frame) {
		fv := fr.in.get(fr, &o)
		cl, _ := fv.x.(*Closure)
		args := fr.in.evalArgs(fr, os)
		if cl == nil {
			fr.defers = append(fr.defers, deferred{intr: func() { fr.in.rtPanic("invalid memory address or nil pointer dereference") }})
			return
		}
		fr.defers = append(fr.defers, deferred{fn: cl, args: args})
	}
}

func (in *Interp) evalArgs(fr *frame, os []opnd) []Value {
	args := make([]Value, len(os))
	for i := range os {
		args[i] = in.get(fr, &os[i])
	}
	return args
}

func (c *compiler) call(x *ssa.Call) (func(fr *frame), bool) {
	d := c.reg(x)
	cc := x.Call
	if cc.IsInvoke() {
		o := c.opnd(cc.Value)
		os := c.opnds(cc.Args)
		m := cc.Method
		pkg, name := m.Pkg(), m.Name()
		var lastT *RType
		var lastF *fnInfo
		_ = lastT
		_ = lastF
		return func(fr *frame) {
			in := fr.in
			iv := in.get(fr, &o)
			if iv.x == nil {
				in.rtPanic("invalid memory address or nil pointer dereference")
			}
			i := iv.x.(iface)
			mi := in.P.method(i.t, pkg, name)
			if mi == nil {
				panic(unsupported{"method " + name + " of " + i.t.T.String()})
			}
			args := make([]Value, len(os)+1)
			args[0] = i.v
			for k := range os {
				args[k+1] = in.get(fr, &os[k])
			}
			fr.regs[d] = in.callFn(mi, args, nil)
		}, false
	}
	switch f := cc.Value.(type) {
	case *ssa.Builtin:
		fn := c.builtin(f, cc.Args, d, x)
		pure := f.Name() == "len" || f.Name() == "cap" || f.Name() == "min" || f.Name() == "max"
		return fn, pure
	case *ssa.Function:
		fi := c.p.fn(f)
		os := c.opnds(cc.Args)
		if fi.name == "init" || (f.Synthetic == "package initializer") {
			pkg := f.Pkg
			return func(fr *frame) {
				// imported package initialisers run lazily
				if fr.in.P.isModule(pkg.Pkg.Path()) {
					fr.in.ensureInit(pkg)
				}
			}, false
		}
		pure := pureFns[fi.name]
		return func(fr *frame) {
			fr.regs[d] = fr.in.callFn(fi, fr.in.evalArgs(fr, os), nil)
		}, pure
	}
	o := c.opnd(cc.Value)
	os := c.opnds(cc.Args)
	return func(fr *frame) {
		fr.regs[d] = fr.in.callClosure(fr.in.get(fr, &o), fr.in.evalArgs(fr, os))
	}, false
}

var pureFns = map[string]bool{}

func (p *Program) isModule(path string) bool {
	for _, m := range p.modPath {
		if path == m || len(path) > len(m) && path[:len(m)] == m && path[len(m)] == '/' {
			return true
		}
	}
	return false
}

func (c *compiler) builtin(b *ssa.Builtin, args []ssa.Value, d int, x *ssa.Call) func(fr *frame) {
	os := c.opnds(args)
	set := func(fr *frame, v Value) {
		if d >= 0 {
			fr.regs[d] = v
		}
	}
	name := b.Name()
	switch name {
	case "len", "cap":
		t := args[0].Type()
		if isString(t) {
			return func(fr *frame) { set(fr, intV(strLen(fr.in.get(fr, &os[0])))) }
		}
		isCap := name == "cap"
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			n := int(pt.Elem().Underlying().(*types.Array).Len())
			return func(fr *frame) { set(fr, intV(n)) }
		}
		return func(fr *frame) {
			switch v := fr.in.get(fr, &os[0]).x.(type) {
			case nil:
				set(fr, Value{})
			case sliceV:
				if isCap {
					set(fr, intV(cap(v)))
				} else {
					set(fr, intV(len(v)))
				}
			case arrayV:
				set(fr, intV(len(v)))
			case *MapV:
				set(fr, intV(v.n))
			default:
				panic(unsupported{fmt.Sprintf("len of %T", v)})
			}
		}
	case "append":
		et := args[0].Type().Underlying().(*types.Slice).Elem()
		agg := isAgg(et)
		if len(args) == 1 {
			return func(fr *frame) { set(fr, fr.in.get(fr, &os[0])) }
		}
		srcStr := isString(args[1].Type())
		return func(fr *frame) {
			in := fr.in
			v := in.get(fr, &os[0])
			s := sliceOf(v)
			w := in.get(fr, &os[1])
			var t []Value
			if srcStr {
				t = strBytes(w)
			} else {
				t = sliceOf(w)
			}
			if len(t) == 0 {
				set(fr, v)
				return
			}
			set(fr, Value{x: in.appendV(s, t, agg, et)})
		}
	case "copy":
		srcStr := isString(args[1].Type())
		agg := false
		if sl, ok := args[0].Type().Underlying().(*types.Slice); ok {
			agg = isAgg(sl.Elem())
		}
		return func(fr *frame) {
			in := fr.in
			dst := sliceOf(in.get(fr, &os[0]))
			w := in.get(fr, &os[1])
			var src []Value
			if srcStr {
				src = strBytes(w)
			} else {
				src = sliceOf(w)
			}
			n := min(len(dst), len(src))
			in.copySlice(dst[:n], src[:n], agg)
			set(fr, intV(n))
		}
	case "delete":
		kt := args[0].Type().Underlying().(*types.Map).Key()
		return func(fr *frame) {
			m := fr.in.get(fr, &os[0])
			if m.x != nil {
				fr.in.mapDelete(m.x.(*MapV), kt, fr.in.get(fr, &os[1]))
			}
		}
	case "clear":
		return func(fr *frame) {
			switch m := fr.in.get(fr, &os[0]).x.(type) {
			case nil:
			case *MapV:
				fr.in.mapTouch(m)
				for _, e := range m.ents {
					e.deleted = true
				}
				m.ents, m.idx, m.n, m.nsym = nil, map[any]*mapEntry{}, 0, 0
			case sliceV:
				et := args[0].Type().Underlying().(*types.Slice).Elem()
				for i := range m {
					fr.in.storeAgg(&m[i], zeroV(et))
				}
			}
		}
	case "min", "max":
		t := args[0].Type()
		isMin := name == "min"
		if isInteger(t) {
			w, sg := width(t), isSigned(t)
			return func(fr *frame) {
				in := fr.in
				r := in.get(fr, &os[0])
				for i := 1; i < len(os); i++ {
					q := in.get(fr, &os[i])
					if r.x == nil && q.x == nil {
						less := q.n < r.n
						if sg {
							less = sext(q.n, w) < sext(r.n, w)
						}
						if less == isMin && q.n != r.n {
							r = q
						}
						continue
					}
					e, f := in.toExpr(r, w), in.toExpr(q, w)
					var lt *Expr
					if sg {
						lt = in.cx.Slt(f, e)
					} else {
						lt = in.cx.Ult(f, e)
					}
					if isMin {
						r = exprV(in.cx.Ite(lt, f, e))
					} else {
						r = exprV(in.cx.Ite(lt, e, f))
					}
				}
				set(fr, r)
			}
		}
	case "panic":
		return func(fr *frame) { panic(targetPanic{fr.in.get(fr, &os[0])}) }
	case "print", "println":
		return func(fr *frame) {}
	case "recover":
		return func(fr *frame) {
			in := fr.in
			// the frame that runs the deferred call is fr.caller
			c := fr.caller
			if c != nil && c.panicking {
				c.panicking = false
				set(fr, c.panicV)
				return
			}
			set(fr, Value{})
			_ = in
		}
	case "ssa:wrapnilchk":
		return func(fr *frame) {
			v := fr.in.get(fr, &os[0])
			if v.x == nil {
				fr.in.rtPanic("value method called using nil pointer")
			}
			set(fr, v)
		}
	case "String": // unsafe.String
		return func(fr *frame) {
			in := fr.in
			p := in.get(fr, &os[0])
			n := int(in.concretizeLen(in.get(fr, &os[1])))
			if n == 0 || p.x == nil {
				set(fr, Value{})
				return
			}
			set(fr, mkStr(unsafeSlice(in.deref(p), n)))
		}
	case "StringData":
		return func(fr *frame) {
			b := strBytes(fr.in.get(fr, &os[0]))
			if len(b) == 0 {
				set(fr, Value{})
				return
			}
			c := append([]Value(nil), b...)
			set(fr, Value{x: &c[0]})
		}
	case "SliceData":
		return func(fr *frame) {
			s := sliceOf(fr.in.get(fr, &os[0]))
			if cap(s) == 0 {
				if s == nil {
					set(fr, Value{})
				} else {
					set(fr, Value{x: new(Value)})
				}
				return
			}
			set(fr, Value{x: &s[:1][0]})
		}
	case "Slice": // unsafe.Slice
		return func(fr *frame) {
			in := fr.in
			p := in.get(fr, &os[0])
			n := int(in.concretizeLen(in.get(fr, &os[1])))
			if p.x == nil {
				set(fr, Value{})
				return
			}
			set(fr, Value{x: sliceV(unsafeSlice(in.deref(p), n))})
		}
	}
	msg := "builtin " + name + " in " + c.fi.name
	return func(fr *frame) { panic(unsupported{msg}) }
}

func (in *Interp) appendV(s sliceV, t []Value, agg bool, et types.Type) sliceV {
	n := len(s) + len(t)
	if n <= cap(s) {
		r := s[:n]
		in.copySlice(r[len(s):], t, agg)
		return r
	}
	if n > 1<<22 {
		panic(unsupported{"slice of more than 4M elements"})
	}
	// growth policy close to the runtime's (capacity is observable through cap)
	nc := growCap(cap(s), n, et)
	r := make(sliceV, n, nc)
	for i := range s {
		r[i] = copyVif(s[i], agg)
	}
	for i := range t {
		r[len(s)+i] = copyVif(t[i], agg)
	}
	if agg {
		full := r[:nc]
		for i := n; i < nc; i++ {
			full[i] = zeroV(et)
		}
	}
	return r
}

func copyVif(v Value, agg bool) Value {
	if agg {
		return copyV(v)
	}
	return v
}

func (in *Interp) copySlice(dst, src []Value, agg bool) {
	if len(dst) == 0 {
		return
	}
	if agg {
		tmp := make([]Value, len(src))
		for i := range src {
			tmp[i] = copyV(src[i])
		}
		for i := range dst {
			in.storeAgg(&dst[i], tmp[i])
		}
		return
	}
	if in.pathNo != 0 {
		for i := range dst {
			in.undo = append(in.undo, undoRec{&dst[i], dst[i]})
		}
	}
	copy(dst, src)
}
