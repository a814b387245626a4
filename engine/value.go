package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"
)

// Value is one machine value of the interpreted program.
// Integers/bools: n (zero-extended) or x=*Expr.  Floats: n = IEEE bits.
// string: x=nil|string|symStr.  pointer: x=nil|*Value|*symPtr.
// struct: structV, array: arrayV, slice: nil|sliceV, map: nil|*MapV,
// func: nil|*Closure, interface: nil|iface, tuple: tupleV.
type Value struct {
	n uint64
	x any
}

type structV []Value
type arrayV []Value
type sliceV []Value
type tupleV []Value
type symStr []Value
type iface struct {
	t *RType
	v Value
}
type Closure struct {
	fn  *fnInfo
	env []Value
}
type symPtr struct {
	base []Value
	idx  *Expr
	elem types.Type
}

// RType is a canonical type.
type RType struct {
	T       types.Type
	id      int
	methods sync.Map // name(with pkg) -> *fnInfo
	ptrTo   *RType
	zeroOne sync.Once
	zero    Value
}

type mapEntry struct {
	k, v    Value
	deleted bool
}
type MapV struct {
	ents  []*mapEntry
	idx   map[any]*mapEntry // concrete keys
	nsym  int
	n     int
	born  int
	saved int // path number in which contents were saved
}

// Program is shared, read-only after loading (with internal locking).
type Program struct {
	prog     *ssa.Program
	mu       sync.Mutex
	canon    typeutil.Map
	rtCache  sync.Map // types.Type -> *RType
	nrt      int
	fns      sync.Map // *ssa.Function -> *fnInfo
	globals  map[*ssa.Global]int
	globList []*ssa.Global
	zeros    sync.Map
	msMu     sync.Mutex
	modPath  []string
	replace  map[string]*ssa.Function
	builtMu  sync.Mutex
	fnUsed   sync.Map // name -> true : functions actually executed
}

func (p *Program) rt(t types.Type) *RType {
	if r, ok := p.rtCache.Load(t); ok {
		return r.(*RType)
	}
	p.mu.Lock()
	defer p.mu.Unlock()
	t2 := types.Unalias(t)
	if r := p.canon.At(t2); r != nil {
		p.rtCache.Store(t, r)
		return r.(*RType)
	}
	p.nrt++
	r := &RType{T: t2, id: p.nrt}
	p.canon.Set(t2, r)
	p.rtCache.Store(t, r)
	p.rtCache.Store(t2, r)
	return r
}

func (p *Program) globalIndex(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	if i, ok := p.globals[g]; ok {
		return i
	}
	i := len(p.globList)
	p.globals[g] = i
	p.globList = append(p.globList, g)
	return i
}

func width(t types.Type) uint8 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return 64
	}
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0
	case types.Int8, types.Uint8:
		return 8
	case types.Int16, types.Uint16:
		return 16
	case types.Int32, types.Uint32, types.UntypedRune, types.Float32:
		return 32
	}
	return 64
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0 && b.Info()&types.IsInteger != 0
}

func isInteger(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsFloat != 0
}
func isString(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isBool(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}
func isAgg(t types.Type) bool {
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

func zeroV(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		s := make(structV, u.NumFields())
		for i := range s {
			ft := u.Field(i).Type()
			if isAgg(ft) {
				s[i] = zeroV(ft)
			}
		}
		return Value{x: s}
	case *types.Array:
		a := make(arrayV, u.Len())
		if isAgg(u.Elem()) {
			for i := range a {
				a[i] = zeroV(u.Elem())
			}
		}
		return Value{x: a}
	case *types.Tuple:
		tv := make(tupleV, u.Len())
		for i := range tv {
			tv[i] = zeroV(u.At(i).Type())
		}
		return Value{x: tv}
	}
	return Value{}
}

func copyV(v Value) Value {
	switch x := v.x.(type) {
	case structV:
		n := make(structV, len(x))
		for i := range x {
			n[i] = copyV(x[i])
		}
		return Value{x: n}
	case arrayV:
		n := make(arrayV, len(x))
		for i := range x {
			n[i] = copyV(x[i])
		}
		return Value{x: n}
	}
	return v
}

func strV(s string) Value {
	if s == "" {
		return Value{}
	}
	return Value{x: s}
}

func strLen(v Value) int {
	switch s := v.x.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case symStr:
		return len(s)
	}
	panic(engErr{fmt.Sprintf("strLen of %T", v.x)})
}

func strAt(v Value, i int) Value {
	switch s := v.x.(type) {
	case string:
		return Value{n: uint64(s[i])}
	case symStr:
		return s[i]
	}
	panic(engErr{"strAt"})
}

// strBytes returns the bytes of a string as values (must not be modified).
func strBytes(v Value) []Value {
	switch s := v.x.(type) {
	case nil:
		return nil
	case string:
		r := make([]Value, len(s))
		for i := 0; i < len(s); i++ {
			r[i].n = uint64(s[i])
		}
		return r
	case symStr:
		return s
	}
	panic(engErr{fmt.Sprintf("strBytes of %T", v.x)})
}

// mkStr builds a string from byte values (copies).
func mkStr(b []Value) Value {
	if len(b) == 0 {
		return Value{}
	}
	conc := true
	for i := range b {
		if b[i].x != nil {
			conc = false
			break
		}
	}
	if conc {
		s := make([]byte, len(b))
		for i := range b {
			s[i] = byte(b[i].n)
		}
		return Value{x: string(s)}
	}
	s := make(symStr, len(b))
	copy(s, b)
	return Value{x: s}
}

func strSlice(v Value, lo, hi int) Value {
	switch s := v.x.(type) {
	case nil:
		return v
	case string:
		return strV(s[lo:hi])
	case symStr:
		if lo == 0 && hi == len(s) {
			return v
		}
		return mkStr(s[lo:hi])
	}
	panic(engErr{"strSlice"})
}

func strCat(a, b Value) Value {
	if a.x == nil {
		return b
	}
	if b.x == nil {
		return a
	}
	as, ok1 := a.x.(string)
	bs, ok2 := b.x.(string)
	if ok1 && ok2 {
		return Value{x: as + bs}
	}
	ab, bb := strBytes(a), strBytes(b)
	r := make(symStr, 0, len(ab)+len(bb))
	r = append(r, ab...)
	r = append(r, bb...)
	return Value{x: r}
}

func bytesToV(b []byte) Value {
	if b == nil {
		return Value{}
	}
	s := make(sliceV, len(b))
	for i, c := range b {
		s[i].n = uint64(c)
	}
	return Value{x: s}
}

func concBytes(b []Value) ([]byte, bool) {
	r := make([]byte, len(b))
	for i := range b {
		if b[i].x != nil {
			return nil, false
		}
		r[i] = byte(b[i].n)
	}
	return r, true
}

func concStr(v Value) (string, bool) {
	switch s := v.x.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func sliceOf(v Value) sliceV {
	if v.x == nil {
		return nil
	}
	return v.x.(sliceV)
}

// fl64 and fl32 read a floating-point value; a symbolic one is enumerated.
func (in *Interp) fl64(v Value) float64 { return math.Float64frombits(in.concretize(v, 64)) }
func (in *Interp) fl32(v Value) float64 {
	return float64(math.Float32frombits(uint32(in.concretize(v, 32))))
}
func f64V(f float64) Value { return Value{n: math.Float64bits(f)} }

func boolV(b bool) Value {
	if b {
		return Value{n: 1}
	}
	return Value{}
}

func intV(i int) Value { return Value{n: uint64(int64(i))} }

func (in *Interp) toExpr(v Value, w uint8) *Expr {
	if v.x == nil {
		if w == 0 {
			return in.cx.Bool(v.n != 0)
		}
		return in.cx.Const(w, v.n)
	}
	e, ok := v.x.(*Expr)
	if !ok {
		panic(engErr{fmt.Sprintf("toExpr of %T", v.x)})
	}
	return e
}

func exprV(e *Expr) Value {
	if e.op == OpConst {
		return Value{n: e.k}
	}
	return Value{x: e}
}

func identV(a, b Value) bool {
	if a.n != b.n {
		return false
	}
	switch x := a.x.(type) {
	case nil:
		return b.x == nil
	case sliceV:
		y, ok := b.x.(sliceV)
		if !ok || len(x) != len(y) || cap(x) != cap(y) {
			return false
		}
		if cap(x) == 0 {
			return (x == nil) == (y == nil)
		}
		return &x[:1][0] == &y[:1][0]
	case symStr:
		y, ok := b.x.(symStr)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !identV(x[i], y[i]) {
				return false
			}
		}
		return true
	case structV:
		y, ok := b.x.(structV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !identV(x[i], y[i]) {
				return false
			}
		}
		return true
	case arrayV:
		y, ok := b.x.(arrayV)
		if !ok || len(x) != len(y) {
			return false
		}
		for i := range x {
			if !identV(x[i], y[i]) {
				return false
			}
		}
		return true
	case tupleV:
		return false
	case iface:
		y, ok := b.x.(iface)
		return ok && x.t == y.t && identV(x.v, y.v)
	case *symPtr:
		return false
	}
	switch b.x.(type) {
	case nil, sliceV, symStr, structV, arrayV, tupleV, iface:
		return false
	}
	return a.x == b.x
}

// eqV compares two values of type t; the result may be symbolic.
func (in *Interp) eqV(t types.Type, a, b Value) *Expr {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			return in.eqStr(a, b)
		}
		if u.Info()&types.IsFloat != 0 {
			if u.Kind() == types.Float32 {
				return in.cx.Bool(in.fl32(a) == in.fl32(b))
			}
			return in.cx.Bool(in.fl64(a) == in.fl64(b))
		}
		if a.x == nil && b.x == nil {
			return in.cx.Bool(a.n == b.n)
		}
		if u.Kind() == types.UnsafePointer {
			return in.cx.Bool(a.x == b.x && a.n == b.n)
		}
		w := width(t)
		return in.cx.Eq(in.toExpr(a, w), in.toExpr(b, w))
	case *types.Struct:
		as, bs := a.x.(structV), b.x.(structV)
		r := in.cx.True
		for i := range as {
			if u.Field(i).Name() == "_" {
				continue
			}
			r = in.cx.And(r, in.eqV(u.Field(i).Type(), as[i], bs[i]))
		}
		return r
	case *types.Array:
		as, bs := a.x.(arrayV), b.x.(arrayV)
		r := in.cx.True
		for i := range as {
			r = in.cx.And(r, in.eqV(u.Elem(), as[i], bs[i]))
		}
		return r
	case *types.Interface:
		if a.x == nil || b.x == nil {
			return in.cx.Bool(a.x == nil && b.x == nil)
		}
		ai, bi := a.x.(iface), b.x.(iface)
		if ai.t != bi.t {
			return in.cx.False
		}
		if !types.Comparable(ai.t.T) {
			in.rtPanic("comparing uncomparable type " + ai.t.T.String())
		}
		return in.eqV(ai.t.T, ai.v, bi.v)
	case *types.Pointer, *types.Map, *types.Chan, *types.Signature, *types.Slice:
		if pa, ok := a.x.(*symPtr); ok {
			_ = pa
			panic(unsupported{"comparison of symbolic pointer"})
		}
		if a.x == nil || b.x == nil {
			return in.cx.Bool(a.x == nil && b.x == nil)
		}
		return in.cx.Bool(a.x == b.x)
	}
	panic(unsupported{"comparison of " + t.String()})
}

func (in *Interp) eqStr(a, b Value) *Expr {
	if strLen(a) != strLen(b) {
		return in.cx.False
	}
	as, ok1 := concStr(a)
	bs, ok2 := concStr(b)
	if ok1 && ok2 {
		return in.cx.Bool(as == bs)
	}
	return in.eqBytes(strBytes(a), strBytes(b))
}

func (in *Interp) eqBytes(a, b []Value) *Expr {
	if len(a) != len(b) {
		return in.cx.False
	}
	// cheap concrete mismatch first
	for i := range a {
		if a[i].x == nil && b[i].x == nil && a[i].n != b[i].n {
			return in.cx.False
		}
	}
	r := in.cx.True
	for i := range a {
		if a[i].x == nil && b[i].x == nil {
			continue
		}
		r = in.cx.And(r, in.cx.Eq(in.toExpr(a[i], 8), in.toExpr(b[i], 8)))
		if r == in.cx.False {
			return r
		}
	}
	return r
}

// cmpBytes returns (a<b) and (a==b).
func (in *Interp) ltBytes(a, b []Value) *Expr {
	n := min(len(a), len(b))
	r := in.cx.Bool(len(a) < len(b))
	for i := n - 1; i >= 0; i-- {
		x, y := in.toExpr(a[i], 8), in.toExpr(b[i], 8)
		r = in.cx.Or(in.cx.Ult(x, y), in.cx.And(in.cx.Eq(x, y), r))
	}
	return r
}

// hashKey gives a comparable key for a concrete value; ok=false if symbolic.
type kIface struct {
	t *RType
	k any
}

func hashKey(v Value) (any, bool) {
	switch x := v.x.(type) {
	case nil:
		return v.n, true
	case string:
		return x, true
	case symStr, *Expr:
		return nil, false
	case iface:
		k, ok := hashKey(x.v)
		return kIface{x.t, k}, ok
	case structV:
		return hashList([]Value(x))
	case arrayV:
		return hashList([]Value(x))
	case sliceV, tupleV:
		panic(engErr{"hash of slice"})
	}
	return v.x, true
}

func hashList(l []Value) (any, bool) {
	var sb strings.Builder
	for _, e := range l {
		k, ok := hashKey(e)
		if !ok {
			return nil, false
		}
		fmt.Fprintf(&sb, "%T:%v|", k, k)
	}
	return "L" + sb.String(), true
}

// string keys and "" (nil,n=0) must agree: normalise by type
func normKey(t types.Type, v Value) Value {
	return v
}

func (in *Interp) newMap() *MapV {
	return &MapV{idx: map[any]*mapEntry{}, born: in.pathNo}
}

// find looks a key up; decisions may be made for symbolic keys.
func (in *Interp) mapFind(m *MapV, kt types.Type, k Value) *mapEntry {
	if m == nil {
		return nil
	}
	hk, conc := hashKey(k)
	if conc {
		if e := m.idx[hk]; e != nil {
			return e
		}
		if m.nsym == 0 {
			return nil
		}
		for _, e := range m.ents {
			if e.deleted {
				continue
			}
			if _, c := hashKey(e.k); c {
				continue
			}
			if in.decide(in.eqV(kt, e.k, k)) {
				return e
			}
		}
		return nil
	}
	// symbolic key: first decide whether any entry matches, then which
	any := in.cx.False
	type cand struct {
		e *mapEntry
		c *Expr
	}
	var cands []cand
	for _, e := range m.ents {
		if e.deleted {
			continue
		}
		c := in.eqV(kt, e.k, k)
		if c == in.cx.False {
			continue
		}
		if in.infeasible(c) {
			continue
		}
		cands = append(cands, cand{e, c})
		any = in.cx.Or(any, c)
	}
	if len(cands) == 0 {
		return nil
	}
	if !in.decide(any) {
		return nil
	}
	for i, c := range cands {
		if i == len(cands)-1 || in.decide(c.c) {
			return c.e
		}
	}
	return nil
}

func (in *Interp) mapTouch(m *MapV) {
	if m.born == 0 && in.pathNo > 0 && m.saved != in.pathNo {
		m.saved = in.pathNo
		s := &MapV{nsym: m.nsym, n: m.n, idx: make(map[any]*mapEntry, len(m.idx))}
		mm := map[*mapEntry]*mapEntry{}
		for _, e := range m.ents {
			c := *e
			s.ents = append(s.ents, &c)
			mm[e] = &c
		}
		for k, e := range m.idx {
			s.idx[k] = mm[e]
		}
		in.mapSaves = append(in.mapSaves, mapSave{m, s})
	}
}

type mapSave struct{ m, s *MapV }

func (in *Interp) mapSet(m *MapV, kt types.Type, k, v Value) {
	e := in.mapFind(m, kt, k)
	in.mapTouch(m)
	if e != nil {
		// entry pointers survive touching (the copy is the saved one)
		e.v = v
		return
	}
	e = &mapEntry{k: k, v: v}
	m.ents = append(m.ents, e)
	if hk, ok := hashKey(k); ok {
		m.idx[hk] = e
	} else {
		m.nsym++
	}
	m.n++
}

func (in *Interp) mapDelete(m *MapV, kt types.Type, k Value) {
	e := in.mapFind(m, kt, k)
	if e == nil {
		return
	}
	in.mapTouch(m)
	e.deleted = true
	if hk, ok := hashKey(e.k); ok {
		delete(m.idx, hk)
	} else {
		m.nsym--
	}
	m.n--
	for i, x := range m.ents {
		if x == e {
			m.ents = append(m.ents[:i:i], m.ents[i+1:]...)
			break
		}
	}
}

// ----- control flow signals (host panics) -----

type engErr struct{ msg string }      // engine bug
type unsupported struct{ msg string } // construct outside the encoding
type targetPanic struct{ v Value }    // panic of the interpreted program
type pathStop struct{ why string }    // path ends (assumption false, ...)
type specAbort struct{}               // speculation failed

func (in *Interp) debugStr(v Value, depth int) string {
	if depth > 4 {
		return "..."
	}
	switch x := v.x.(type) {
	case nil:
		return fmt.Sprint(v.n)
	case string:
		return fmt.Sprintf("%q", x)
	case symStr:
		b := make([]byte, len(x))
		for i := range x {
			b[i] = byte(in.evalV(x[i]))
		}
		return fmt.Sprintf("sym%q", b)
	case *Expr:
		return fmt.Sprintf("e%d=%d", x.id, in.cx.Eval(x))
	case iface:
		return x.t.T.String() + "(" + in.debugStr(x.v, depth+1) + ")"
	case *Value:
		return "&" + in.debugStr(*x, depth+1)
	case structV:
		return in.debugList([]Value(x), depth, "{", "}")
	case arrayV:
		return in.debugList([]Value(x), depth, "[", "]")
	case sliceV:
		return in.debugList([]Value(x), depth, "[", "]")
	case tupleV:
		return in.debugList([]Value(x), depth, "(", ")")
	}
	return fmt.Sprintf("%T", v.x)
}

func (in *Interp) debugList(l []Value, depth int, o, c string) string {
	var sb strings.Builder
	sb.WriteString(o)
	for i, e := range l {
		if i > 0 {
			sb.WriteByte(' ')
		}
		if i > 64 {
			sb.WriteString("...")
			break
		}
		sb.WriteString(in.debugStr(e, depth+1))
	}
	sb.WriteString(c)
	return sb.String()
}

func (in *Interp) evalV(v Value) uint64 {
	if v.x == nil {
		return v.n
	}
	return in.cx.Eval(v.x.(*Expr))
}
