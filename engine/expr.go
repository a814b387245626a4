package main

import (
	"fmt"
	"math/bits"
	"strconv"
	"strings"
)

// Expressions are hash-consed per worker.  Width 0 is Bool, 1..64 are bit-vectors.

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpNot
	OpAnd
	OpOr
	OpEq
	OpUlt
	OpUle
	OpSlt
	OpSle
	OpIte
	OpAdd
	OpSub
	OpMul
	OpUDiv
	OpURem
	OpSDiv
	OpSRem
	OpBAnd
	OpBOr
	OpBXor
	OpBNot
	OpShl
	OpLShr
	OpAShr
	OpZExt
	OpSExt
	OpTrunc
)

var opSMT = map[Op]string{
	OpNot: "not", OpAnd: "and", OpOr: "or", OpEq: "=", OpUlt: "bvult", OpUle: "bvule", OpSlt: "bvslt", OpSle: "bvsle",
	OpIte: "ite", OpAdd: "bvadd", OpSub: "bvsub", OpMul: "bvmul", OpUDiv: "bvudiv", OpURem: "bvurem",
	OpSDiv: "bvsdiv", OpSRem: "bvsrem", OpBAnd: "bvand", OpBOr: "bvor", OpBXor: "bvxor", OpBNot: "bvnot",
	OpShl: "bvshl", OpLShr: "bvlshr", OpAShr: "bvashr",
}

type Expr struct {
	op      Op
	w       uint8
	a, b, c *Expr
	k       uint64 // constant value / variable index
	lo, hi  uint64 // unsigned interval (bit-vectors)
	id      int
	// support
	sv    int32 // -1: none, >=0: single variable, -2: several
	sup   []uint64
	svW   uint8
	stamp uint32
	val   uint64
	tt    *[4]uint64
	neg   *Expr
	h     uint64 // structural hash, independent of the context's history
}

type exprKey struct {
	op      Op
	w       uint8
	a, b, c int
	k       uint64
	lo, hi  uint64
}

type Ctx struct {
	tab   map[exprKey]*Expr
	next  int
	True  *Expr
	False *Expr
	small [9][256]*Expr

	gen   uint32
	model []uint64
}

func NewCtx() *Ctx {
	c := &Ctx{tab: map[exprKey]*Expr{}, next: 1, gen: 1}
	c.False = c.mk(OpConst, 0, nil, nil, nil, 0, 0, 0)
	c.True = c.mk(OpConst, 0, nil, nil, nil, 1, 0, 0)
	c.True.neg, c.False.neg = c.False, c.True
	return c
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << w) - 1
}

func sext(v uint64, w uint8) int64 {
	if w >= 64 {
		return int64(v)
	}
	s := 64 - w
	return int64(v<<s) >> s
}

func (c *Ctx) mk(op Op, w uint8, a, b, d *Expr, k uint64, lo, hi uint64) *Expr {
	key := exprKey{op: op, w: w, k: k}
	if a != nil {
		key.a = a.id
	}
	if b != nil {
		key.b = b.id
	}
	if d != nil {
		key.c = d.id
	}
	if op == OpVar {
		key.lo, key.hi = lo, hi
	}
	if e := c.tab[key]; e != nil {
		return e
	}
	e := &Expr{op: op, w: w, a: a, b: b, c: d, k: k, lo: lo, hi: hi, id: c.next, sv: -1}
	c.next++
	e.h = (uint64(op)<<8|uint64(w))*0x9e3779b97f4a7c15 + k*0xff51afd7ed558ccd
	if op == OpVar {
		e.h += lo*31 + hi*37
	}
	for _, s := range [3]*Expr{a, b, d} {
		if s != nil {
			e.h += (s.h ^ s.h>>29) * 0xbf58476d1ce4e5b9
		}
	}
	if op == OpVar {
		e.sv = int32(k)
		e.svW = w
	} else {
		for _, s := range [3]*Expr{a, b, d} {
			if s == nil || s.sv == -1 {
				continue
			}
			if e.sv == -1 {
				e.sv, e.svW = s.sv, s.svW
			} else if e.sv != s.sv {
				e.sv = -2
			}
		}
	}
	c.tab[key] = e
	return e
}

// support returns the variable bitset of e.
func (e *Expr) support() []uint64 {
	if e.sv == -1 {
		return nil
	}
	if e.sup != nil {
		return e.sup
	}
	var s []uint64
	if e.sv >= 0 {
		s = make([]uint64, e.sv/64+1)
		s[e.sv/64] |= 1 << (uint(e.sv) % 64)
	} else {
		for _, x := range [3]*Expr{e.a, e.b, e.c} {
			if x == nil {
				continue
			}
			xs := x.support()
			for len(s) < len(xs) {
				s = append(s, 0)
			}
			for i, v := range xs {
				s[i] |= v
			}
		}
	}
	e.sup = s
	return s
}

func (c *Ctx) Const(w uint8, v uint64) *Expr {
	v &= mask(w)
	if w <= 8 && w > 0 {
		if e := c.small[w][v]; e != nil {
			return e
		}
		e := c.mk(OpConst, w, nil, nil, nil, v, v, v)
		c.small[w][v] = e
		return e
	}
	return c.mk(OpConst, w, nil, nil, nil, v, v, v)
}

func (c *Ctx) Bool(b bool) *Expr {
	if b {
		return c.True
	}
	return c.False
}

func (c *Ctx) Var(idx int, w uint8, lo, hi uint64) *Expr {
	return c.mk(OpVar, w, nil, nil, nil, uint64(idx), lo, hi)
}

func (e *Expr) isC() bool { return e.op == OpConst }

func (c *Ctx) Not(e *Expr) *Expr {
	if e.neg != nil {
		return e.neg
	}
	var r *Expr
	switch e.op {
	case OpConst:
		return c.Bool(e.k == 0)
	case OpNot:
		return e.a
	case OpUlt:
		r = c.Ule(e.b, e.a)
	case OpUle:
		r = c.Ult(e.b, e.a)
	case OpSlt:
		r = c.Sle(e.b, e.a)
	case OpSle:
		r = c.Slt(e.b, e.a)
	default:
		r = c.mk(OpNot, 0, e, nil, nil, 0, 0, 0)
	}
	e.neg = r
	if r.neg == nil {
		r.neg = e
	}
	return r
}

func (c *Ctx) And(a, b *Expr) *Expr {
	if a == b {
		return a
	}
	if a.isC() {
		if a.k == 0 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.k == 0 {
			return b
		}
		return a
	}
	if c.Not(a) == b || c.Not(b) == a {
		return c.False
	}
	// absorb: a and (a or x) etc.
	if b.op == OpAnd && (b.a == a || b.b == a) {
		return b
	}
	if a.op == OpAnd && (a.a == b || a.b == b) {
		return a
	}
	if r := c.ttFold(OpAnd, a, b); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpAnd, 0, a, b, nil, 0, 0, 0)
}

// ttFold folds conjunctions/disjunctions of conditions over one byte variable
// that are constant or equal to one operand.
func (c *Ctx) ttFold(op Op, a, b *Expr) *Expr {
	if a.sv < 0 || a.sv != b.sv || a.svW > 8 {
		return nil
	}
	x, y := c.truth(a), c.truth(b)
	var r [4]uint64
	for i := range r {
		if op == OpAnd {
			r[i] = x[i] & y[i]
		} else {
			r[i] = x[i] | y[i]
		}
	}
	if r == *x {
		return a
	}
	if r == *y {
		return b
	}
	if op == OpAnd && r == ([4]uint64{}) {
		return c.False
	}
	if op == OpOr && r == fullTT(a.svW) {
		return c.True
	}
	return nil
}

func fullTT(w uint8) [4]uint64 {
	var r [4]uint64
	n := 1 << w
	if w == 0 {
		n = 2
	}
	for i := 0; i < n; i++ {
		r[i/64] |= 1 << (i % 64)
	}
	return r
}

func (c *Ctx) Or(a, b *Expr) *Expr {
	if a == b {
		return a
	}
	if a.isC() {
		if a.k != 0 {
			return a
		}
		return b
	}
	if b.isC() {
		if b.k != 0 {
			return b
		}
		return a
	}
	if c.Not(a) == b || c.Not(b) == a {
		return c.True
	}
	if b.op == OpOr && (b.a == a || b.b == a) {
		return b
	}
	if a.op == OpOr && (a.a == b || a.b == b) {
		return a
	}
	if r := c.ttFold(OpOr, a, b); r != nil {
		return r
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpOr, 0, a, b, nil, 0, 0, 0)
}

func (c *Ctx) Eq(a, b *Expr) *Expr {
	if a == b {
		return c.True
	}
	if a.w == 0 {
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.k != 0 {
				return a
			}
			return c.Not(a)
		}
		if c.Not(a) == b || c.Not(b) == a {
			return c.False
		}
		if a.id > b.id {
			a, b = b, a
		}
		return c.mk(OpEq, 0, a, b, nil, 0, 0, 0)
	}
	if a.isC() {
		a, b = b, a
	}
	if a.hi < b.lo || b.hi < a.lo {
		return c.False
	}
	if b.isC() {
		if a.isC() {
			return c.Bool(a.k == b.k)
		}
		switch a.op {
		case OpZExt:
			if b.k > mask(a.a.w) {
				return c.False
			}
			return c.Eq(a.a, c.Const(a.a.w, b.k))
		case OpSExt:
			lowv := b.k & mask(a.a.w)
			if uint64(sext(lowv, a.a.w))&mask(a.w) != b.k {
				return c.False
			}
			return c.Eq(a.a, c.Const(a.a.w, lowv))
		case OpAdd:
			if a.b.isC() {
				return c.Eq(a.a, c.Const(a.w, b.k-a.b.k))
			}
		case OpSub:
			if a.b.isC() {
				return c.Eq(a.a, c.Const(a.w, b.k+a.b.k))
			}
			if a.a.isC() {
				return c.Eq(a.b, c.Const(a.w, a.a.k-b.k))
			}
		case OpBXor:
			if a.b.isC() {
				return c.Eq(a.a, c.Const(a.w, b.k^a.b.k))
			}
		case OpIte:
			// push into ITE when a branch is constant
			if a.b.isC() || a.c.isC() {
				x, y := c.Eq(a.b, b), c.Eq(a.c, b)
				return c.IteB(a.a, x, y)
			}
		}
	} else {
		if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
			return c.Eq(a.a, b.a)
		}
		if a.op == OpIte && a.b == b {
			return c.Or(a.a, c.Eq(a.c, b))
		}
		if b.op == OpIte && b.b == a {
			return c.Or(b.a, c.Eq(b.c, a))
		}
	}
	if !b.isC() && a.id > b.id {
		a, b = b, a
	}
	return c.mk(OpEq, 0, a, b, nil, 0, 0, 0)
}

func (c *Ctx) IteB(cond, x, y *Expr) *Expr { // boolean ite
	if cond.isC() {
		if cond.k != 0 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	if x.isC() {
		if x.k != 0 {
			return c.Or(cond, y)
		}
		return c.And(c.Not(cond), y)
	}
	if y.isC() {
		if y.k != 0 {
			return c.Or(c.Not(cond), x)
		}
		return c.And(cond, x)
	}
	if x == cond {
		return c.Or(cond, y)
	}
	if y == cond {
		return c.And(cond, x)
	}
	return c.mk(OpIte, 0, cond, x, y, 0, 0, 0)
}

func (c *Ctx) Ite(cond, x, y *Expr) *Expr {
	if x.w == 0 {
		return c.IteB(cond, x, y)
	}
	if cond.isC() {
		if cond.k != 0 {
			return x
		}
		return y
	}
	if x == y {
		return x
	}
	// ite(x==k, k, x) -> x
	if cond.op == OpEq {
		if (cond.a == y && cond.b == x) || (cond.a == x && cond.b == y) {
			return y
		}
	}
	if y.op == OpIte && y.a == cond {
		y = y.c
	}
	if x.op == OpIte && x.a == cond {
		x = x.b
	}
	if x == y {
		return x
	}
	return c.mk(OpIte, x.w, cond, x, y, 0, min(x.lo, y.lo), max(x.hi, y.hi))
}

func (c *Ctx) Ult(a, b *Expr) *Expr {
	if a == b {
		return c.False
	}
	if a.hi < b.lo {
		return c.True
	}
	if a.lo >= b.hi {
		return c.False
	}
	if b.isC() && a.op == OpZExt {
		return c.Ult(a.a, c.Const(a.a.w, b.k))
	}
	if a.isC() && b.op == OpZExt {
		return c.Ult(c.Const(b.a.w, a.k), b.a)
	}
	if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
		return c.Ult(a.a, b.a)
	}
	// x+y < x without overflow
	if a.op == OpAdd && (a.a == b || a.b == b) {
		if s, carry := bits.Add64(a.a.hi, a.b.hi, 0); carry == 0 && s <= mask(a.w) {
			return c.False
		}
	}
	// x < 1  ->  x == 0
	if b.isC() && b.k == a.lo+1 {
		return c.Eq(a, c.Const(a.w, a.lo))
	}
	if b.isC() && b.k == a.hi {
		return c.Not(c.Eq(a, b))
	}
	if a.isC() && b.hi == a.k+1 {
		return c.Eq(b, c.Const(b.w, b.hi))
	}
	if a.isC() && a.k == b.lo {
		return c.Not(c.Eq(b, a))
	}
	return c.mk(OpUlt, 0, a, b, nil, 0, 0, 0)
}

func (c *Ctx) Ule(a, b *Expr) *Expr {
	if a == b {
		return c.True
	}
	if a.hi <= b.lo {
		return c.True
	}
	if a.lo > b.hi {
		return c.False
	}
	if b.isC() && b.k != mask(b.w) {
		return c.Ult(a, c.Const(b.w, b.k+1))
	}
	if a.isC() && a.k != 0 {
		return c.Ult(c.Const(a.w, a.k-1), b)
	}
	if a.op == OpZExt && b.op == OpZExt && a.a.w == b.a.w {
		return c.Ule(a.a, b.a)
	}
	return c.mk(OpUle, 0, a, b, nil, 0, 0, 0)
}

func (c *Ctx) Slt(a, b *Expr) *Expr {
	if a == b {
		return c.False
	}
	h := uint64(1) << (a.w - 1)
	an, bn := a.hi < h, b.hi < h // non-negative
	ag, bg := a.lo >= h, b.lo >= h
	if (an && bn) || (ag && bg) {
		return c.Ult(a, b)
	}
	if ag && bn {
		return c.True
	}
	if an && bg {
		return c.False
	}
	return c.mk(OpSlt, 0, a, b, nil, 0, 0, 0)
}

func (c *Ctx) Sle(a, b *Expr) *Expr {
	if a == b {
		return c.True
	}
	h := uint64(1) << (a.w - 1)
	an, bn := a.hi < h, b.hi < h
	ag, bg := a.lo >= h, b.lo >= h
	if (an && bn) || (ag && bg) {
		return c.Ule(a, b)
	}
	if ag && bn {
		return c.True
	}
	if an && bg {
		return c.False
	}
	return c.mk(OpSle, 0, a, b, nil, 0, 0, 0)
}

func (c *Ctx) Bin(op Op, a, b *Expr) *Expr {
	w := a.w
	m := mask(w)
	if a.isC() && b.isC() {
		return c.Const(w, evalBin(op, a.k, b.k, w))
	}
	lo, hi := uint64(0), m
	switch op {
	case OpAdd:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.k == 0 {
				return a
			}
			if a.op == OpAdd && a.b.isC() {
				return c.Bin(OpAdd, a.a, c.Const(w, a.b.k+b.k))
			}
			if a.op == OpSub && a.b.isC() {
				return c.Bin(OpAdd, a.a, c.Const(w, b.k-a.b.k))
			}
			if a.op == OpIte && a.b.isC() && a.c.isC() {
				return c.Ite(a.a, c.Bin(op, a.b, b), c.Bin(op, a.c, b))
			}
		} else if a.id > b.id {
			a, b = b, a
		}
		s, carry := bits.Add64(a.hi, b.hi, 0)
		if carry == 0 && s <= m {
			lo, hi = a.lo+b.lo, s
		} else if b.isC() {
			// subtraction of a constant in disguise
			nb := (-b.k) & m
			if a.lo >= nb {
				lo, hi = a.lo-nb, a.hi-nb
			}
		}
	case OpSub:
		if a == b {
			return c.Const(w, 0)
		}
		if b.isC() {
			return c.Bin(OpAdd, a, c.Const(w, -b.k))
		}
		if a.lo >= b.hi {
			lo, hi = a.lo-b.hi, a.hi-b.lo
		}
	case OpMul:
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.k == 0 {
				return b
			}
			if b.k == 1 {
				return a
			}
		} else if a.id > b.id {
			a, b = b, a
		}
		h, l := bits.Mul64(a.hi, b.hi)
		if h == 0 && l <= m {
			lo, hi = a.lo*b.lo, l
		}
	case OpUDiv:
		if b.isC() && b.k != 0 {
			if b.k == 1 {
				return a
			}
			if bits.OnesCount64(b.k) == 1 {
				return c.Bin(OpLShr, a, c.Const(w, uint64(bits.TrailingZeros64(b.k))))
			}
			lo, hi = a.lo/b.k, a.hi/b.k
		}
	case OpURem:
		if b.isC() && b.k != 0 {
			if a.hi < b.k {
				return a
			}
			if bits.OnesCount64(b.k) == 1 {
				return c.Bin(OpBAnd, a, c.Const(w, b.k-1))
			}
			hi = min(a.hi, b.k-1)
		}
	case OpSDiv, OpSRem:
		h := uint64(1) << (w - 1)
		if a.hi < h && b.hi < h {
			if op == OpSDiv {
				return c.Bin(OpUDiv, a, b)
			}
			return c.Bin(OpURem, a, b)
		}
	case OpBAnd:
		if a == b {
			return a
		}
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.k == 0 {
				return b
			}
			if b.k == m {
				return a
			}
			// mask covering all possible bits
			if a.hi <= b.k && b.k&(b.k+1) == 0 {
				return a
			}
			if a.op == OpZExt && b.k&mask(a.a.w) == mask(a.a.w) {
				return a
			}
			if a.op == OpBAnd && a.b.isC() {
				return c.Bin(OpBAnd, a.a, c.Const(w, a.b.k&b.k))
			}
			if a.op == OpZExt {
				return c.ZExt(c.Bin(OpBAnd, a.a, c.Const(a.a.w, b.k)), w)
			}
		} else if a.id > b.id {
			a, b = b, a
		}
		hi = min(a.hi, b.hi)
	case OpBOr, OpBXor:
		if a == b {
			if op == OpBOr {
				return a
			}
			return c.Const(w, 0)
		}
		if a.isC() {
			a, b = b, a
		}
		if b.isC() {
			if b.k == 0 {
				return a
			}
			if op == OpBOr && b.k == m {
				return b
			}
			if op == OpBXor && a.op == OpBXor && a.b.isC() {
				return c.Bin(OpBXor, a.a, c.Const(w, a.b.k^b.k))
			}
			if a.op == OpZExt && b.k <= mask(a.a.w) {
				return c.ZExt(c.Bin(op, a.a, c.Const(a.a.w, b.k)), w)
			}
		} else if a.id > b.id {
			a, b = b, a
		}
		n := bits.Len64(a.hi | b.hi)
		hi = mask(uint8(n))
		if op == OpBOr {
			lo = max(a.lo, b.lo)
		}
	case OpShl:
		if b.isC() {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) {
				return c.Const(w, 0)
			}
			if a.hi<<b.k>>b.k == a.hi && a.hi<<b.k <= m {
				lo, hi = a.lo<<b.k, a.hi<<b.k
			}
		}
		if a.isC() && a.k == 0 {
			return a
		}
	case OpLShr:
		if b.isC() {
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(w) {
				return c.Const(w, 0)
			}
			lo, hi = a.lo>>b.k, a.hi>>b.k
			if hi == 0 {
				return c.Const(w, 0)
			}
			if a.op == OpZExt && b.k < uint64(a.a.w) {
				return c.ZExt(c.Bin(OpLShr, a.a, c.Const(a.a.w, b.k)), w)
			}
		} else {
			hi = a.hi
		}
		if a.isC() && a.k == 0 {
			return a
		}
	case OpAShr:
		if a.hi < uint64(1)<<(w-1) {
			return c.Bin(OpLShr, a, b)
		}
		if b.isC() && b.k >= uint64(w) {
			b = c.Const(w, uint64(w-1))
		}
	}
	return c.mk(op, w, a, b, nil, 0, lo, hi)
}

func evalBin(op Op, a, b uint64, w uint8) uint64 {
	m := mask(w)
	switch op {
	case OpAdd:
		return (a + b) & m
	case OpSub:
		return (a - b) & m
	case OpMul:
		return (a * b) & m
	case OpUDiv:
		if b == 0 {
			return m
		}
		return a / b
	case OpURem:
		if b == 0 {
			return a
		}
		return a % b
	case OpSDiv:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			if x < 0 {
				return 1
			}
			return m
		}
		if y == -1 {
			return uint64(-x) & m
		}
		return uint64(x/y) & m
	case OpSRem:
		x, y := sext(a, w), sext(b, w)
		if y == 0 {
			return a
		}
		if y == -1 {
			return 0
		}
		return uint64(x%y) & m
	case OpBAnd:
		return a & b
	case OpBOr:
		return a | b
	case OpBXor:
		return a ^ b
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return (a << b) & m
	case OpLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & m
	}
	panic("evalBin")
}

func (c *Ctx) BNot(a *Expr) *Expr {
	if a.isC() {
		return c.Const(a.w, ^a.k)
	}
	if a.op == OpBNot {
		return a.a
	}
	return c.mk(OpBNot, a.w, a, nil, nil, 0, mask(a.w)-a.hi, mask(a.w)-a.lo)
}

func (c *Ctx) ZExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isC() {
		return c.Const(w, a.k)
	}
	if a.op == OpZExt {
		return c.ZExt(a.a, w)
	}
	return c.mk(OpZExt, w, a, nil, nil, 0, a.lo, a.hi)
}

func (c *Ctx) SExt(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isC() {
		return c.Const(w, uint64(sext(a.k, a.w)))
	}
	if a.hi < uint64(1)<<(a.w-1) {
		return c.ZExt(a, w)
	}
	return c.mk(OpSExt, w, a, nil, nil, 0, 0, mask(w))
}

func (c *Ctx) Trunc(a *Expr, w uint8) *Expr {
	if a.w == w {
		return a
	}
	if a.isC() {
		return c.Const(w, a.k)
	}
	switch a.op {
	case OpZExt, OpSExt:
		if a.a.w == w {
			return a.a
		}
		if a.a.w > w {
			return c.Trunc(a.a, w)
		}
		if a.op == OpZExt {
			return c.ZExt(a.a, w)
		}
		return c.SExt(a.a, w)
	case OpTrunc:
		return c.Trunc(a.a, w)
	case OpAdd, OpSub, OpMul, OpBAnd, OpBOr, OpBXor:
		if a.b.isC() || a.a.op == OpZExt && a.b.op == OpZExt {
			return c.Bin(a.op, c.Trunc(a.a, w), c.Trunc(a.b, w))
		}
	case OpIte:
		return c.Ite(a.a, c.Trunc(a.b, w), c.Trunc(a.c, w))
	}
	lo, hi := a.lo, a.hi
	if hi > mask(w) {
		lo, hi = 0, mask(w)
	}
	return c.mk(OpTrunc, w, a, nil, nil, 0, lo, hi)
}

// SetModel installs a model for Eval.
func (c *Ctx) SetModel(m []uint64) {
	c.model = m
	c.gen++
	if c.gen == 0 {
		panic("generation overflow")
	}
}

func (c *Ctx) Eval(e *Expr) uint64 {
	if e.op == OpConst {
		return e.k
	}
	if e.stamp == c.gen {
		return e.val
	}
	var r uint64
	switch e.op {
	case OpVar:
		if int(e.k) < len(c.model) {
			r = c.model[e.k]
		}
	case OpNot:
		r = 1 - c.Eval(e.a)
	case OpAnd:
		r = c.Eval(e.a)
		if r != 0 {
			r = c.Eval(e.b)
		}
	case OpOr:
		r = c.Eval(e.a)
		if r == 0 {
			r = c.Eval(e.b)
		}
	case OpIte:
		if c.Eval(e.a) != 0 {
			r = c.Eval(e.b)
		} else {
			r = c.Eval(e.c)
		}
	default:
		r = evalOp(e, c.Eval(e.a), func() uint64 { return c.Eval(e.b) })
	}
	e.stamp, e.val = c.gen, r
	return r
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func evalOp(e *Expr, a uint64, fb func() uint64) uint64 {
	switch e.op {
	case OpEq:
		return b2u(a == fb())
	case OpUlt:
		return b2u(a < fb())
	case OpUle:
		return b2u(a <= fb())
	case OpSlt:
		return b2u(sext(a, e.a.w) < sext(fb(), e.a.w))
	case OpSle:
		return b2u(sext(a, e.a.w) <= sext(fb(), e.a.w))
	case OpBNot:
		return ^a & mask(e.w)
	case OpZExt:
		return a
	case OpSExt:
		return uint64(sext(a, e.a.w)) & mask(e.w)
	case OpTrunc:
		return a & mask(e.w)
	}
	return evalBin(e.op, a, fb(), e.w)
}

// truth returns the truth table of a boolean expression over one variable of width<=8.
func (c *Ctx) truth(e *Expr) *[4]uint64 {
	if e.tt != nil {
		return e.tt
	}
	n := 1 << e.svW
	if e.svW == 0 {
		n = 2
	}
	memo := map[*Expr][]uint64{}
	var ev func(e *Expr) []uint64
	ev = func(e *Expr) []uint64 {
		if r, ok := memo[e]; ok {
			return r
		}
		r := make([]uint64, n)
		switch e.op {
		case OpConst:
			for i := range r {
				r[i] = e.k
			}
		case OpVar:
			for i := range r {
				r[i] = uint64(i)
			}
		case OpNot:
			a := ev(e.a)
			for i := range r {
				r[i] = 1 - a[i]
			}
		case OpAnd:
			a, b := ev(e.a), ev(e.b)
			for i := range r {
				r[i] = a[i] & b[i]
			}
		case OpOr:
			a, b := ev(e.a), ev(e.b)
			for i := range r {
				r[i] = a[i] | b[i]
			}
		case OpIte:
			a, b, d := ev(e.a), ev(e.b), ev(e.c)
			for i := range r {
				if a[i] != 0 {
					r[i] = b[i]
				} else {
					r[i] = d[i]
				}
			}
		default:
			a := ev(e.a)
			var b []uint64
			if e.b != nil {
				b = ev(e.b)
			}
			for i := range r {
				r[i] = evalOp(e, a[i], func() uint64 { return b[i] })
			}
		}
		memo[e] = r
		return r
	}
	r := ev(e)
	var t [4]uint64
	for i, v := range r {
		if v != 0 {
			t[i/64] |= 1 << (i % 64)
		}
	}
	e.tt = &t
	return e.tt
}

func sortSMT(w uint8) string {
	if w == 0 {
		return "Bool"
	}
	return "(_ BitVec " + strconv.Itoa(int(w)) + ")"
}

func constSMT(w uint8, k uint64) string {
	if w == 0 {
		if k != 0 {
			return "true"
		}
		return "false"
	}
	return fmt.Sprintf("(_ bv%d %d)", k, w)
}

func varName(e *Expr) string {
	return fmt.Sprintf("v%d_%d", e.k, e.w)
}

// nodeSMT prints a node with its children referenced by name.
func nodeSMT(e *Expr, ref func(*Expr) string) string {
	switch e.op {
	case OpZExt:
		return fmt.Sprintf("((_ zero_extend %d) %s)", e.w-e.a.w, ref(e.a))
	case OpSExt:
		return fmt.Sprintf("((_ sign_extend %d) %s)", e.w-e.a.w, ref(e.a))
	case OpTrunc:
		return fmt.Sprintf("((_ extract %d 0) %s)", e.w-1, ref(e.a))
	}
	var sb strings.Builder
	sb.WriteByte('(')
	sb.WriteString(opSMT[e.op])
	for _, s := range [3]*Expr{e.a, e.b, e.c} {
		if s != nil {
			sb.WriteByte(' ')
			sb.WriteString(ref(s))
		}
	}
	sb.WriteByte(')')
	return sb.String()
}

func (e *Expr) String() string {
	switch e.op {
	case OpConst:
		return constSMT(e.w, e.k)
	case OpVar:
		return varName(e)
	}
	return nodeSMT(e, func(x *Expr) string { return x.String() })
}
