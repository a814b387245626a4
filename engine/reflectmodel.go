package main

import (
	"fmt"
	"go/types"
	"reflect"
)

type rvT struct {
	t    *RType
	v    Value
	addr *Value
}

func (p *Program) rtypePtr() *RType {
	return p.rt(types.NewPointer(p.typeOf("reflect", "rtype")))
}

func (in *Interp) typeIface(t *RType) Value {
	if t == nil {
		return Value{}
	}
	return Value{x: iface{in.P.rtypePtr(), Value{x: t}}}
}

func rvOf(v Value) *rvT {
	s, ok := v.x.(structV)
	if !ok {
		panic(unsupported{fmt.Sprintf("reflect.Value as %T", v.x)})
	}
	r, _ := s[1].x.(*rvT)
	return r
}

func mkRV(r *rvT) Value {
	return Value{x: structV{Value{x: r.t}, Value{x: r}, Value{n: 1}}}
}

var zeroRV = Value{x: structV{Value{}, Value{}, Value{}}}

func (r *rvT) get() Value {
	if r.addr != nil {
		return copyV(*r.addr)
	}
	return r.v
}

func rkind(t types.Type) reflect.Kind {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch u.Kind() {
		case types.Bool, types.UntypedBool:
			return reflect.Bool
		case types.Int, types.UntypedInt:
			return reflect.Int
		case types.Int8:
			return reflect.Int8
		case types.Int16:
			return reflect.Int16
		case types.Int32, types.UntypedRune:
			return reflect.Int32
		case types.Int64:
			return reflect.Int64
		case types.Uint:
			return reflect.Uint
		case types.Uint8:
			return reflect.Uint8
		case types.Uint16:
			return reflect.Uint16
		case types.Uint32:
			return reflect.Uint32
		case types.Uint64:
			return reflect.Uint64
		case types.Uintptr:
			return reflect.Uintptr
		case types.Float32:
			return reflect.Float32
		case types.Float64, types.UntypedFloat:
			return reflect.Float64
		case types.String, types.UntypedString:
			return reflect.String
		case types.UnsafePointer:
			return reflect.UnsafePointer
		case types.Complex64:
			return reflect.Complex64
		case types.Complex128:
			return reflect.Complex128
		}
	case *types.Array:
		return reflect.Array
	case *types.Chan:
		return reflect.Chan
	case *types.Signature:
		return reflect.Func
	case *types.Interface:
		return reflect.Interface
	case *types.Map:
		return reflect.Map
	case *types.Pointer:
		return reflect.Ptr
	case *types.Slice:
		return reflect.Slice
	case *types.Struct:
		return reflect.Struct
	}
	panic(unsupported{"kind of " + t.String()})
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func (in *Interp) rtArg(v Value) *RType {
	if v.x == nil {
		in.rtPanic("reflect: nil type")
	}
	switch t := v.x.(type) {
	case iface:
		return t.v.x.(*RType)
	case *RType:
		return t
	}
	panic(unsupported{fmt.Sprintf("reflect type %T", v.x)})
}

func (in *Interp) reflPanic(msg string) {
	in.rtPanic(msg)
}

func (in *Interp) toIface(t *RType, v Value) Value {
	if types.IsInterface(t.T) {
		return v
	}
	return Value{x: iface{t, v}}
}

func (in *Interp) elemT(t types.Type) types.Type {
	switch u := t.Underlying().(type) {
	case *types.Pointer:
		return u.Elem()
	case *types.Slice:
		return u.Elem()
	case *types.Array:
		return u.Elem()
	case *types.Map:
		return u.Elem()
	case *types.Chan:
		return u.Elem()
	}
	in.rtPanic("reflect: Elem of invalid type " + t.String())
	return nil
}

func (in *Interp) structField(st *types.Struct, i int) Value {
	f := st.Field(i)
	pk := Value{}
	if !f.Exported() {
		pk = strV(f.Pkg().Path())
	}
	return Value{x: structV{strV(f.Name()), pk, in.typeIface(in.P.rt(f.Type())), strV(st.Tag(i)), Value{}, Value{x: sliceV{intV(i)}}, boolV(f.Anonymous())}}
}

func regReflect() {
	reg("reflect.TypeOf", func(in *Interp, a []Value) Value {
		if a[0].x == nil {
			return Value{}
		}
		return in.typeIface(a[0].x.(iface).t)
	})
	reg("reflect.ValueOf", func(in *Interp, a []Value) Value {
		if a[0].x == nil {
			return zeroRV
		}
		i := a[0].x.(iface)
		return mkRV(&rvT{t: i.t, v: i.v})
	})
	reg("reflect.New", func(in *Interp, a []Value) Value {
		t := in.rtArg(a[0])
		p := new(Value)
		*p = zeroV(t.T)
		return mkRV(&rvT{t: in.P.rt(types.NewPointer(t.T)), v: Value{x: p}})
	})
	reg("reflect.Zero", func(in *Interp, a []Value) Value {
		t := in.rtArg(a[0])
		return mkRV(&rvT{t: t, v: zeroV(t.T)})
	})
	reg("reflect.MakeSlice", func(in *Interp, a []Value) Value {
		t := in.rtArg(a[0])
		n, c := int(in.concretizeLen(a[1])), int(in.concretizeLen(a[2]))
		et := in.elemT(t.T)
		s := make(sliceV, c)
		for i := range s {
			s[i] = zeroV(et)
		}
		return mkRV(&rvT{t: t, v: Value{x: s[:n]}})
	})
	reg("reflect.Append", func(in *Interp, a []Value) Value {
		r := rvOf(a[0])
		et := in.elemT(r.t.T)
		s := sliceOf(r.get())
		var add []Value
		for _, x := range sliceOf(a[1]) {
			add = append(add, rvOf(x).get())
		}
		return mkRV(&rvT{t: r.t, v: Value{x: in.appendV(s, add, isAgg(et), et)}})
	})
	ptrTo := func(in *Interp, a []Value) Value {
		return in.typeIface(in.P.rt(types.NewPointer(in.rtArg(a[0]).T)))
	}
	reg("reflect.PtrTo", ptrTo)
	reg("reflect.PointerTo", ptrTo)
	reg("reflect.SliceOf", func(in *Interp, a []Value) Value {
		return in.typeIface(in.P.rt(types.NewSlice(in.rtArg(a[0]).T)))
	})
	elem := func(in *Interp, r *rvT) Value {
		v := r.get()
		switch r.t.T.Underlying().(type) {
		case *types.Interface:
			if v.x == nil {
				return zeroRV
			}
			i := v.x.(iface)
			return mkRV(&rvT{t: i.t, v: i.v})
		case *types.Pointer:
			if v.x == nil {
				return zeroRV
			}
			p := in.deref(v)
			return mkRV(&rvT{t: in.P.rt(in.elemT(r.t.T)), addr: p})
		}
		in.rtPanic("reflect: call of reflect.Value.Elem on " + r.t.T.String() + " Value")
		return Value{}
	}
	reg("reflect.Indirect", func(in *Interp, a []Value) Value {
		r := rvOf(a[0])
		if r == nil || rkind(r.t.T) != reflect.Ptr {
			return a[0]
		}
		return elem(in, r)
	})

	m := func(name string, f func(in *Interp, r *rvT, a []Value) Value) {
		reg("(reflect.Value)."+name, func(in *Interp, a []Value) Value {
			r := rvOf(a[0])
			if r == nil {
				in.rtPanic("reflect: call of reflect.Value." + name + " on zero Value")
			}
			return f(in, r, a[1:])
		})
	}
	reg("(reflect.Value).IsValid", func(in *Interp, a []Value) Value { return boolV(rvOf(a[0]) != nil) })
	reg("(reflect.Value).Kind", func(in *Interp, a []Value) Value {
		r := rvOf(a[0])
		if r == nil {
			return Value{}
		}
		return Value{n: uint64(rkind(r.t.T))}
	})
	reg("(reflect.Value).String", func(in *Interp, a []Value) Value {
		r := rvOf(a[0])
		if r == nil {
			return strV("<invalid Value>")
		}
		if rkind(r.t.T) != reflect.String {
			return strV("<" + typeName(r.t.T) + " Value>")
		}
		return r.get()
	})
	m("Type", func(in *Interp, r *rvT, a []Value) Value { return in.typeIface(r.t) })
	m("Elem", func(in *Interp, r *rvT, a []Value) Value { return elem(in, r) })
	m("NumField", func(in *Interp, r *rvT, a []Value) Value {
		return intV(r.t.T.Underlying().(*types.Struct).NumFields())
	})
	m("Field", func(in *Interp, r *rvT, a []Value) Value {
		st, ok := r.t.T.Underlying().(*types.Struct)
		if !ok {
			in.rtPanic("reflect: call of reflect.Value.Field on non-struct")
		}
		i := int(in.concretize(a[0], 64))
		if i < 0 || i >= st.NumFields() {
			in.rtPanic("reflect: Field index out of range")
		}
		ft := in.P.rt(st.Field(i).Type())
		if r.addr != nil {
			return mkRV(&rvT{t: ft, addr: &r.addr.x.(structV)[i]})
		}
		return mkRV(&rvT{t: ft, v: r.v.x.(structV)[i]})
	})
	m("FieldByName", func(in *Interp, r *rvT, a []Value) Value {
		st := r.t.T.Underlying().(*types.Struct)
		n, _ := concStr(a[0])
		for i := 0; i < st.NumFields(); i++ {
			if st.Field(i).Name() == n {
				ft := in.P.rt(st.Field(i).Type())
				if r.addr != nil {
					return mkRV(&rvT{t: ft, addr: &r.addr.x.(structV)[i]})
				}
				return mkRV(&rvT{t: ft, v: r.v.x.(structV)[i]})
			}
		}
		return zeroRV
	})
	m("Interface", func(in *Interp, r *rvT, a []Value) Value { return in.toIface(r.t, r.get()) })
	m("Addr", func(in *Interp, r *rvT, a []Value) Value {
		if r.addr == nil {
			in.rtPanic("reflect.Value.Addr of unaddressable value")
		}
		return mkRV(&rvT{t: in.P.rt(types.NewPointer(r.t.T)), v: Value{x: r.addr}})
	})
	m("CanAddr", func(in *Interp, r *rvT, a []Value) Value { return boolV(r.addr != nil) })
	m("CanSet", func(in *Interp, r *rvT, a []Value) Value { return boolV(r.addr != nil) })
	m("CanInterface", func(in *Interp, r *rvT, a []Value) Value { return boolV(true) })
	m("IsNil", func(in *Interp, r *rvT, a []Value) Value {
		switch rkind(r.t.T) {
		case reflect.Ptr, reflect.Slice, reflect.Map, reflect.Interface, reflect.Func, reflect.Chan, reflect.UnsafePointer:
			return boolV(r.get().x == nil)
		}
		in.rtPanic("reflect: call of reflect.Value.IsNil on " + r.t.T.String() + " Value")
		return Value{}
	})
	m("IsZero", func(in *Interp, r *rvT, a []Value) Value {
		return exprV(in.isZeroV(r.t.T, r.get()))
	})
	set := func(in *Interp, r *rvT, v Value) {
		if r.addr == nil {
			in.rtPanic("reflect: reflect.Value.Set using unaddressable value")
		}
		in.storeAgg(r.addr, v)
	}
	m("Set", func(in *Interp, r *rvT, a []Value) Value {
		s := rvOf(a[0])
		if s == nil {
			in.rtPanic("reflect: Set with zero Value")
		}
		v := s.get()
		if types.IsInterface(r.t.T) {
			if !types.IsInterface(s.t.T) {
				v = Value{x: iface{s.t, v}}
			}
		} else if !types.AssignableTo(s.t.T, r.t.T) {
			in.rtPanic("reflect.Set: value of type " + typeName(s.t.T) + " is not assignable to type " + typeName(r.t.T))
		}
		set(in, r, v)
		return Value{}
	})
	m("SetInt", func(in *Interp, r *rvT, a []Value) Value {
		set(in, r, in.convInt(a[0], 64, width(r.t.T), true))
		return Value{}
	})
	m("SetUint", func(in *Interp, r *rvT, a []Value) Value {
		set(in, r, in.convInt(a[0], 64, width(r.t.T), false))
		return Value{}
	})
	overflow := func(signed bool) func(in *Interp, r *rvT, a []Value) Value {
		return func(in *Interp, r *rvT, a []Value) Value {
			if b, ok := r.t.T.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 || (b.Info()&types.IsUnsigned == 0) != signed {
				in.rtPanic("reflect: call of reflect.Value.Overflow on " + r.t.T.String() + " Value")
			}
			w := width(r.t.T)
			t := in.convInt(in.convInt(a[0], 64, w, signed), w, 64, signed)
			if t.x == nil && a[0].x == nil {
				return boolV(t.n != a[0].n)
			}
			return exprV(in.cx.Not(in.cx.Eq(in.toExpr(t, 64), in.toExpr(a[0], 64))))
		}
	}
	m("OverflowInt", overflow(true))
	m("OverflowUint", overflow(false))
	m("SetString", func(in *Interp, r *rvT, a []Value) Value { set(in, r, a[0]); return Value{} })
	m("SetBool", func(in *Interp, r *rvT, a []Value) Value { set(in, r, a[0]); return Value{} })
	m("SetFloat", func(in *Interp, r *rvT, a []Value) Value { set(in, r, a[0]); return Value{} })
	m("SetBytes", func(in *Interp, r *rvT, a []Value) Value { set(in, r, a[0]); return Value{} })
	m("SetLen", func(in *Interp, r *rvT, a []Value) Value {
		n := int(in.concretizeLen(a[0]))
		s := sliceOf(r.get())
		if n < 0 || n > cap(s) {
			in.rtPanic("reflect: slice length out of range in SetLen")
		}
		set(in, r, Value{x: s[:n]})
		return Value{}
	})
	ints := func(signed bool) func(in *Interp, r *rvT, a []Value) Value {
		return func(in *Interp, r *rvT, a []Value) Value {
			if !isInteger(r.t.T) || isSigned(r.t.T) != signed {
				in.rtPanic("reflect: wrong integer kind " + r.t.T.String())
			}
			return in.convInt(r.get(), width(r.t.T), 64, signed)
		}
	}
	m("Int", ints(true))
	m("Uint", ints(false))
	m("Bool", func(in *Interp, r *rvT, a []Value) Value {
		if !isBool(r.t.T) {
			in.rtPanic("reflect: call of reflect.Value.Bool on " + r.t.T.String() + " Value")
		}
		return r.get()
	})
	m("Float", func(in *Interp, r *rvT, a []Value) Value { return r.get() })
	m("Bytes", func(in *Interp, r *rvT, a []Value) Value {
		if r.addr != nil {
			if arr, ok := r.addr.x.(arrayV); ok {
				return Value{x: sliceV(arr)}
			}
		}
		return r.get()
	})
	m("Len", func(in *Interp, r *rvT, a []Value) Value {
		v := r.get()
		switch rkind(r.t.T) {
		case reflect.String:
			return intV(strLen(v))
		case reflect.Slice:
			return intV(len(sliceOf(v)))
		case reflect.Array:
			return intV(len(v.x.(arrayV)))
		case reflect.Map:
			if v.x == nil {
				return intV(0)
			}
			return intV(v.x.(*MapV).n)
		}
		in.rtPanic("reflect: call of reflect.Value.Len on " + r.t.T.String() + " Value")
		return Value{}
	})
	m("Cap", func(in *Interp, r *rvT, a []Value) Value { return intV(cap(sliceOf(r.get()))) })
	m("Index", func(in *Interp, r *rvT, a []Value) Value {
		i := int(sext(in.concretize(a[0], 64), 64))
		et := in.P.rt(types.Typ[types.Uint8])
		var s []Value
		switch rkind(r.t.T) {
		case reflect.Slice:
			s = sliceOf(r.get())
			et = in.P.rt(in.elemT(r.t.T))
		case reflect.Array:
			if r.addr != nil {
				s = r.addr.x.(arrayV)
			} else {
				s = r.v.x.(arrayV)
			}
			et = in.P.rt(in.elemT(r.t.T))
		case reflect.String:
			v := r.get()
			if i < 0 || i >= strLen(v) {
				in.rtPanic("reflect: string index out of range")
			}
			return mkRV(&rvT{t: et, v: strAt(v, i)})
		default:
			in.rtPanic("reflect: call of reflect.Value.Index on " + r.t.T.String() + " Value")
		}
		if i < 0 || i >= len(s) {
			in.rtPanic("reflect: slice index out of range")
		}
		return mkRV(&rvT{t: et, addr: &s[i]})
	})
	m("Slice", func(in *Interp, r *rvT, a []Value) Value {
		i, j := int(in.concretizeLen(a[0])), int(in.concretizeLen(a[1]))
		if isString(r.t.T) {
			return mkRV(&rvT{t: r.t, v: strSlice(r.get(), i, j)})
		}
		s := sliceOf(r.get())
		if i < 0 || i > j || j > cap(s) {
			in.rtPanic("reflect.Value.Slice: slice index out of bounds")
		}
		return mkRV(&rvT{t: r.t, v: Value{x: s[i:j]}})
	})
	m("Convert", func(in *Interp, r *rvT, a []Value) Value {
		t := in.rtArg(a[0])
		v := r.get()
		if types.IsInterface(t.T) {
			return mkRV(&rvT{t: t, v: in.toIface(r.t, v)})
		}
		if isInteger(t.T) && isInteger(r.t.T) {
			return mkRV(&rvT{t: t, v: in.convInt(v, width(r.t.T), width(t.T), isSigned(r.t.T))})
		}
		if types.Identical(t.T.Underlying(), r.t.T.Underlying()) || isString(t.T) && isString(r.t.T) {
			return mkRV(&rvT{t: t, v: v})
		}
		panic(unsupported{"reflect Convert"})
	})
	m("NumMethod", func(in *Interp, r *rvT, a []Value) Value { return intV(0) })

	tm := func(name string, f func(in *Interp, t *RType, a []Value) Value) {
		reg("(*reflect.rtype)."+name, func(in *Interp, a []Value) Value {
			return f(in, a[0].x.(*RType), a[1:])
		})
	}
	tm("Kind", func(in *Interp, t *RType, a []Value) Value { return Value{n: uint64(rkind(t.T))} })
	tm("Elem", func(in *Interp, t *RType, a []Value) Value { return in.typeIface(in.P.rt(in.elemT(t.T))) })
	tm("String", func(in *Interp, t *RType, a []Value) Value { return strV(typeName(t.T)) })
	tm("Name", func(in *Interp, t *RType, a []Value) Value {
		if n, ok := t.T.(*types.Named); ok {
			return strV(n.Obj().Name())
		}
		if b, ok := t.T.(*types.Basic); ok {
			return strV(b.Name())
		}
		return Value{}
	})
	tm("PkgPath", func(in *Interp, t *RType, a []Value) Value {
		if n, ok := t.T.(*types.Named); ok && n.Obj().Pkg() != nil {
			return strV(n.Obj().Pkg().Path())
		}
		return Value{}
	})
	tm("NumField", func(in *Interp, t *RType, a []Value) Value {
		st, ok := t.T.Underlying().(*types.Struct)
		if !ok {
			in.rtPanic("reflect: NumField of non-struct type " + typeName(t.T))
		}
		return intV(st.NumFields())
	})
	tm("Field", func(in *Interp, t *RType, a []Value) Value {
		st, ok := t.T.Underlying().(*types.Struct)
		if !ok {
			in.rtPanic("reflect: Field of non-struct type " + typeName(t.T))
		}
		i := int(in.concretize(a[0], 64))
		if i < 0 || i >= st.NumFields() {
			in.rtPanic("reflect: Field index out of bounds")
		}
		return in.structField(st, i)
	})
	tm("NumMethod", func(in *Interp, t *RType, a []Value) Value {
		return intV(types.NewMethodSet(t.T).Len())
	})
	tm("Len", func(in *Interp, t *RType, a []Value) Value { return intV(int(t.T.Underlying().(*types.Array).Len())) })
	tm("Size", func(in *Interp, t *RType, a []Value) Value { return intV(int(sizes.Sizeof(t.T))) })
	tm("Bits", func(in *Interp, t *RType, a []Value) Value { return intV(int(sizes.Sizeof(t.T)) * 8) })
	tm("Comparable", func(in *Interp, t *RType, a []Value) Value { return boolV(types.Comparable(t.T)) })
	tm("Implements", func(in *Interp, t *RType, a []Value) Value {
		it := in.rtArg(a[0]).T.Underlying().(*types.Interface)
		return boolV(in.implements(t, it))
	})
	tm("AssignableTo", func(in *Interp, t *RType, a []Value) Value {
		return boolV(types.AssignableTo(t.T, in.rtArg(a[0]).T))
	})
	tm("ConvertibleTo", func(in *Interp, t *RType, a []Value) Value {
		return boolV(types.ConvertibleTo(t.T, in.rtArg(a[0]).T))
	})
	reg("reflect.DeepEqual", func(in *Interp, a []Value) Value {
		if a[0].x == nil || a[1].x == nil {
			return boolV(a[0].x == nil && a[1].x == nil)
		}
		x, y := a[0].x.(iface), a[1].x.(iface)
		if x.t != y.t {
			return boolV(false)
		}
		return exprV(in.deepEq(x.t.T, x.v, y.v, 0))
	})
}

func (in *Interp) isZeroV(t types.Type, v Value) *Expr {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		r := in.cx.True
		for i, f := range v.x.(structV) {
			r = in.cx.And(r, in.isZeroV(u.Field(i).Type(), f))
		}
		return r
	case *types.Array:
		r := in.cx.True
		for _, f := range v.x.(arrayV) {
			r = in.cx.And(r, in.isZeroV(u.Elem(), f))
		}
		return r
	case *types.Basic:
		return in.eqV(t, v, Value{})
	}
	return in.cx.Bool(v.x == nil)
}

func (in *Interp) deepEq(t types.Type, a, b Value, depth int) *Expr {
	if depth > 50 {
		panic(unsupported{"deep recursion in DeepEqual"})
	}
	cx := in.cx
	switch u := t.Underlying().(type) {
	case *types.Struct:
		r := cx.True
		x, y := a.x.(structV), b.x.(structV)
		for i := range x {
			r = cx.And(r, in.deepEq(u.Field(i).Type(), x[i], y[i], depth+1))
		}
		return r
	case *types.Array:
		r := cx.True
		x, y := a.x.(arrayV), b.x.(arrayV)
		for i := range x {
			r = cx.And(r, in.deepEq(u.Elem(), x[i], y[i], depth+1))
		}
		return r
	case *types.Slice:
		if (a.x == nil) != (b.x == nil) {
			return cx.False
		}
		x, y := sliceOf(a), sliceOf(b)
		if len(x) != len(y) {
			return cx.False
		}
		r := cx.True
		for i := range x {
			r = cx.And(r, in.deepEq(u.Elem(), x[i], y[i], depth+1))
		}
		return r
	case *types.Pointer:
		if a.x == nil || b.x == nil {
			return cx.Bool(a.x == nil && b.x == nil)
		}
		if a.x == b.x {
			return cx.True
		}
		return in.deepEq(u.Elem(), copyV(*in.deref(a)), copyV(*in.deref(b)), depth+1)
	case *types.Interface:
		if a.x == nil || b.x == nil {
			return cx.Bool(a.x == nil && b.x == nil)
		}
		x, y := a.x.(iface), b.x.(iface)
		if x.t != y.t {
			return cx.False
		}
		return in.deepEq(x.t.T, x.v, y.v, depth+1)
	case *types.Map:
		if (a.x == nil) != (b.x == nil) {
			return cx.False
		}
		if a.x == nil || a.x == b.x {
			return cx.True
		}
		x, y := a.x.(*MapV), b.x.(*MapV)
		if x.n != y.n {
			return cx.False
		}
		r := cx.True
		for _, e := range x.ents {
			if e.deleted {
				continue
			}
			f := in.mapFind(y, u.Key(), e.k)
			if f == nil {
				return cx.False
			}
			r = cx.And(r, in.deepEq(u.Elem(), e.v, f.v, depth+1))
		}
		return r
	case *types.Signature:
		return cx.Bool(a.x == nil && b.x == nil)
	}
	return in.eqV(t, a, b)
}
