// Package sym is the vocabulary of the verification harnesses.
//
// The symbolic engine (verif/engine) intercepts the primitives of this package:
// a value returned by Byte, Bool, URange... is a solver variable, Choose is a
// fork, Assume and Assert are queries. Compiled natively, the same primitives
// take their values from a recorded list of inputs, which is how a solver
// counterexample is replayed against the real code.
package sym

import (
	"encoding/hex"
	"fmt"
	"reflect"
	"runtime"
	"strings"
	"unsafe"
)

// ---- native state (never touched by the engine) ----

// Failure is the panic value of a failed native assertion.
type Failure struct{ Msg string }

// Rejected is the panic value of a failed native assumption.
type Rejected struct{}

var (
	in       []uint64
	pos      int
	Obs      []string
	thorough bool
)

// Load installs the inputs of the next native run.
func Load(inputs []uint64, deep bool) {
	in, pos, Obs, thorough = inputs, 0, nil, deep
}

func next() uint64 {
	if pos >= len(in) {
		pos++
		return 0
	}
	v := in[pos]
	pos++
	return v
}

// ---- primitives ----

// Byte returns an arbitrary byte.
func Byte(name string) byte { return byte(next()) }

// Bool returns an arbitrary boolean.
func Bool(name string) bool { return next() != 0 }

// Uint64 returns an arbitrary 64-bit value.
func Uint64(name string) uint64 { return next() }

// Uint32 returns an arbitrary 32-bit value.
func Uint32(name string) uint32 { return uint32(next()) }

// URange returns an arbitrary value in [lo, hi].
func URange(name string, lo, hi uint64) uint64 {
	v := next()
	if v < lo || v > hi {
		v = lo
	}
	return v
}

// ByteRange returns an arbitrary byte in [lo, hi].
func ByteRange(name string, lo, hi byte) byte {
	v := byte(next())
	if v < lo || v > hi {
		v = lo
	}
	return v
}

// Choose forks over the values 0..n-1.
func Choose(name string, n int) int {
	v := int(next())
	if v < 0 || v >= n {
		v = 0
	}
	return v
}

// Assume restricts the inputs considered.
func Assume(c bool) {
	if !c {
		panic(Rejected{})
	}
}

// Assert states the property.
func Assert(c bool, msg string) {
	if !c {
		panic(Failure{msg})
	}
}

// Fork makes v concrete, exploring every feasible value.
func Fork(v int) int { return v }

// Known reports whether v needs no solver (constant).
func Known(v bool) bool { return true }

// Or, And and Not combine conditions without forking.
func Or(a, b bool) bool  { return a || b }
func And(a, b bool) bool { return a && b }
func Not(a bool) bool    { return !a }

// Reach marks a point that the exploration must get to.
func Reach(tag string) {}

// Thorough reports whether the deep tier is running.
func Thorough() bool { return thorough }

// Observe records a value compared between the engine and the native run.
func Observe(tag string, v interface{}) {
	Obs = append(Obs, tag+"="+render(v))
}

func render(v interface{}) string {
	if v == nil {
		return "0"
	}
	rv := reflect.ValueOf(v)
	switch rv.Kind() {
	case reflect.String:
		return "x" + hex.EncodeToString([]byte(rv.String()))
	case reflect.Slice:
		return "x" + hex.EncodeToString(rv.Bytes())
	case reflect.Bool:
		if rv.Bool() {
			return "1"
		}
		return "0"
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return fmt.Sprint(uint64(rv.Int()))
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return fmt.Sprint(rv.Uint())
	}
	return "1"
}

// Clone copies everything v refers to.
func Clone(v interface{}) interface{} {
	if v == nil {
		return nil
	}
	return cloneOf(reflect.ValueOf(v)).Interface()
}

func cloneOf(v reflect.Value) reflect.Value {
	n := reflect.New(v.Type()).Elem()
	n.Set(v)
	switch v.Kind() {
	case reflect.Struct:
		for i := 0; i < n.NumField(); i++ {
			f := n.Field(i)
			f = reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem()
			f.Set(cloneOf(f))
		}
	case reflect.Array:
		for i := 0; i < n.Len(); i++ {
			n.Index(i).Set(cloneOf(n.Index(i)))
		}
	case reflect.Slice:
		if v.IsNil() {
			break
		}
		n.Set(reflect.MakeSlice(v.Type(), v.Len(), v.Len()))
		for i := 0; i < n.Len(); i++ {
			n.Index(i).Set(cloneOf(v.Index(i)))
		}
	case reflect.Ptr:
		if v.IsNil() {
			break
		}
		n.Set(reflect.New(v.Type().Elem()))
		n.Elem().Set(cloneOf(v.Elem()))
	case reflect.Interface:
		if v.IsNil() {
			break
		}
		n.Set(cloneOf(v.Elem()))
	case reflect.Map:
		if v.IsNil() {
			break
		}
		n.Set(reflect.MakeMap(v.Type()))
		for _, k := range v.MapKeys() {
			n.SetMapIndex(cloneOf(k), cloneOf(v.MapIndex(k)))
		}
	}
	return n
}

// Same reports whether a and b are equal in everything they refer to.
func Same(a, b interface{}) bool { return reflect.DeepEqual(a, b) }

// SetField stores v in the (possibly unexported) field of the struct p points to.
func SetField(p interface{}, field string, v interface{}) {
	f := reflect.ValueOf(p).Elem().FieldByName(field)
	reflect.NewAt(f.Type(), unsafe.Pointer(f.UnsafeAddr())).Elem().Set(reflect.ValueOf(v))
}

// ---- derived helpers (executed symbolically like any other code) ----

// Bound picks a bound by tier.
func Bound(quick, deep int) int {
	if Thorough() {
		return deep
	}
	return quick
}

// Bytes returns n arbitrary bytes.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = Byte(name)
	}
	return b
}

// BytesIn returns n arbitrary bytes in [lo, hi].
func BytesIn(name string, n int, lo, hi byte) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = ByteRange(name, lo, hi)
	}
	return b
}

// String returns an arbitrary string of length n.
func String(name string, n int) string { return string(Bytes(name, n)) }

// StringIn returns an arbitrary string of length n over [lo, hi].
func StringIn(name string, n int, lo, hi byte) string { return string(BytesIn(name, n, lo, hi)) }

// Str returns an arbitrary string with any length in 0..max.
func Str(name string, max int) string { return String(name, Choose(name+".len", max+1)) }

// StrN returns an arbitrary string with any length in min..max.
func StrN(name string, min, max int) string {
	return String(name, min+Choose(name+".len", max-min+1))
}

// Ascii returns printable 7-bit text with length in min..max.
func Ascii(name string, min, max int) string {
	return StringIn(name, min+Choose(name+".len", max-min+1), 0x20, 0x7e)
}

// IntRange returns an arbitrary int in [lo, hi].
func IntRange(name string, lo, hi int) int {
	return int(URange(name, 0, uint64(hi)-uint64(lo)) + uint64(lo))
}

// Int64 returns an arbitrary int64.
func Int64(name string) int64 { return int64(Uint64(name)) }

// Implies is the non-forking implication.
func Implies(a, b bool) bool { return Or(Not(a), b) }

// OneOf reports whether c is one of the bytes of set, without forking.
func OneOf(c byte, set string) bool {
	r := false
	for i := 0; i < len(set); i++ {
		r = Or(r, c == set[i])
	}
	return r
}

// Contains reports whether s has the byte c, without forking.
func Contains(s string, c byte) bool {
	r := false
	for i := 0; i < len(s); i++ {
		r = Or(r, s[i] == c)
	}
	return r
}

// None assumes that no byte of s is in set.
func None(s string, set string) {
	for i := 0; i < len(s); i++ {
		Assume(Not(OneOf(s[i], set)))
	}
}

// Eq compares strings without forking.
func Eq(a, b string) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := 0; i < len(a); i++ {
		r = And(r, a[i] == b[i])
	}
	return r
}

// EqB compares byte slices without forking.
func EqB(a, b []byte) bool {
	if len(a) != len(b) {
		return false
	}
	r := true
	for i := 0; i < len(a); i++ {
		r = And(r, a[i] == b[i])
	}
	return r
}

// Ite selects without forking (bytes only).
func IteB(c bool, a, b byte) byte {
	if c {
		return a
	}
	return b
}

// ---- registry (native only) ----

// Tiers in which a harness runs.
const (
	Both = iota
	Quick
	Deep
)

// Harness is a registered entry point.
type Harness struct {
	Prop, Name, Func string
	Tier             int
	Fn               func()
	Doc              string
}

// All lists the registered harnesses.
var All []*Harness

// Register adds a harness; doc states its bounds.
func Register(prop string, tier int, fn func(), doc string) {
	full := runtime.FuncForPC(reflect.ValueOf(fn).Pointer()).Name()
	name := full[strings.LastIndexByte(full, '.')+1:]
	All = append(All, &Harness{Prop: prop, Name: name, Func: full, Tier: tier, Fn: fn, Doc: doc})
}
