package main

import (
	"fmt"
	"go/types"
	"strconv"
)

func bigFmt(v int64, b int) string   { return strconv.FormatInt(v, b) }
func bigFmtU(v uint64, b int) string { return strconv.FormatUint(v, b) }

// sprintf models fmt.Sprintf for the verbs the code under test uses.
func (in *Interp) sprintf(format string, args []Value) Value {
	out := Value{}
	lit := func(s string) { out = strCat(out, strV(s)) }
	ai := 0
	for i := 0; i < len(format); {
		j := i
		for j < len(format) && format[j] != '%' {
			j++
		}
		lit(format[i:j])
		if j >= len(format) {
			break
		}
		k := j + 1
		flags := ""
		for k < len(format) && (format[k] == '0' || format[k] == '+' || format[k] == '-' || format[k] == '#' || format[k] == ' ') {
			flags += string(format[k])
			k++
		}
		w := -1
		for k < len(format) && format[k] >= '0' && format[k] <= '9' {
			if w < 0 {
				w = 0
			}
			w = w*10 + int(format[k]-'0')
			k++
		}
		if k < len(format) && format[k] == '.' {
			k++
			for k < len(format) && format[k] >= '0' && format[k] <= '9' {
				k++
			}
		}
		if k >= len(format) {
			lit("%!(NOVERB)")
			break
		}
		verb := format[k]
		spec := format[j : k+1]
		i = k + 1
		if verb == '%' {
			lit("%")
			continue
		}
		if ai >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		out = strCat(out, in.fmtArg(spec, flags, w, verb, args[ai]))
		ai++
	}
	return out
}

// hostVal converts a concrete basic value for native formatting.
func (in *Interp) hostVal(t types.Type, v Value) (any, bool) {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			s, ok := concStr(v)
			return s, ok
		}
		if v.x != nil {
			return nil, false
		}
		switch {
		case u.Info()&types.IsBoolean != 0:
			return v.n != 0, true
		case u.Kind() == types.Uint8:
			return uint8(v.n), true
		case u.Kind() == types.Int32:
			return int32(v.n), true
		case u.Info()&types.IsUnsigned != 0:
			return v.n, true
		case u.Info()&types.IsInteger != 0:
			return sext(v.n, width(t)), true
		case u.Info()&types.IsFloat != 0:
			return in.fl64(v), true
		}
	case *types.Slice:
		if width(u.Elem()) == 8 && isInteger(u.Elem()) {
			return concBytes(sliceOf(v))
		}
		if isString(u.Elem()) {
			var r []string
			for _, e := range sliceOf(v) {
				s, ok := concStr(e)
				if !ok {
					return nil, false
				}
				r = append(r, s)
			}
			return r, true
		}
	case *types.Array:
		if width(u.Elem()) == 8 && isInteger(u.Elem()) {
			return concBytes(v.x.(arrayV))
		}
	}
	return nil, false
}

func (in *Interp) fmtArg(spec, flags string, w int, verb byte, a Value) Value {
	if a.x == nil {
		return strV("<nil>")
	}
	i := a.x.(iface)
	if verb == 'T' {
		return strV(types.TypeString(i.t.T, func(p *types.Package) string { return p.Name() }))
	}
	if verb == 'v' || verb == 's' || verb == 'q' || verb == 'w' {
		if in.hasMethod(i.t, "Error") {
			return in.quoteIf(verb, in.callMethodSafe(a, "Error"))
		}
		if in.hasMethod(i.t, "String") {
			return in.quoteIf(verb, in.callMethodSafe(a, "String"))
		}
	}
	if verb == 'w' {
		spec = spec[:len(spec)-1] + "v"
	}
	if h, ok := in.hostVal(i.t.T, i.v); ok {
		return strV(fmt.Sprintf(spec, h))
	}
	switch u := i.t.T.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0 && (verb == 's' || verb == 'v') && w < 0:
			return i.v
		case u.Info()&types.IsInteger != 0 && (verb == 'd' || verb == 'v'):
			b := in.fmtInt(i.v, isSigned(i.t.T))
			if len(flags) > 0 && flags != "0" {
				break
			}
			pad := byte(' ')
			if flags == "0" {
				pad = '0'
				if len(b) > 0 && b[0].x == nil && b[0].n == '-' && len(b) < w {
					break
				}
			}
			for len(b) < w {
				b = append([]Value{{n: uint64(pad)}}, b...)
			}
			return mkStr(b)
		case u.Info()&types.IsBoolean != 0:
			if in.decide(i.v.x.(*Expr)) {
				return strV("true")
			}
			return strV("false")
		case u.Info()&types.IsInteger != 0 && verb == 'c':
			return in.encodeRune(in.convInt(i.v, width(i.t.T), 32, isSigned(i.t.T)))
		}
	case *types.Slice:
		if width(u.Elem()) == 8 && verb == 's' && w < 0 {
			return mkStr(sliceOf(i.v))
		}
	}
	// contents that only appear in diagnostics
	return strV("?")
}

func (in *Interp) quoteIf(verb byte, v Value) Value {
	if verb == 'q' {
		if s, ok := concStr(v); ok {
			return strV(strconv.Quote(s))
		}
		return strV("?")
	}
	return v
}

func (in *Interp) callMethodSafe(a Value, name string) Value {
	i := a.x.(iface)
	if _, isPtr := i.t.T.Underlying().(*types.Pointer); isPtr && i.v.x == nil {
		return strV("<nil>")
	}
	return in.callMethod(a, nil, name)
}

func (in *Interp) sprint(args []Value, ln bool) Value {
	out := Value{}
	for k, a := range args {
		if k > 0 {
			ps, ns := in.isStrArg(args[k-1]), in.isStrArg(a)
			if ln || (!ps && !ns) {
				out = strCat(out, strV(" "))
			}
		}
		out = strCat(out, in.fmtArg("%v", "", -1, 'v', a))
	}
	if ln {
		out = strCat(out, strV("\n"))
	}
	return out
}

func (in *Interp) isStrArg(a Value) bool {
	return a.x != nil && isString(a.x.(iface).t.T)
}

func regFmt() {
	reg("fmt.Sprintf", func(in *Interp, a []Value) Value {
		f, ok := concStr(a[0])
		if !ok {
			panic(unsupported{"symbolic format string"})
		}
		return in.sprintf(f, sliceOf(a[1]))
	})
	reg("fmt.Appendf", func(in *Interp, a []Value) Value {
		f, _ := concStr(a[1])
		return Value{x: in.appendV(sliceOf(a[0]), strBytes(in.sprintf(f, sliceOf(a[2]))), false, types.Typ[types.Uint8])}
	})
	reg("fmt.Sprint", func(in *Interp, a []Value) Value { return in.sprint(sliceOf(a[0]), false) })
	reg("fmt.Sprintln", func(in *Interp, a []Value) Value { return in.sprint(sliceOf(a[0]), true) })
	reg("fmt.Errorf", func(in *Interp, a []Value) Value {
		f, ok := concStr(a[0])
		if !ok {
			panic(unsupported{"symbolic format string"})
		}
		args := sliceOf(a[1])
		msg := in.sprintf(f, args)
		// wrapped error, if any
		ai := 0
		for i := 0; i+1 < len(f); i++ {
			if f[i] == '%' {
				i++
				if f[i] == '%' {
					continue
				}
				for i < len(f) && (f[i] >= '0' && f[i] <= '9' || f[i] == '+' || f[i] == '#' || f[i] == '-' || f[i] == '.') {
					i++
				}
				if i < len(f) && f[i] == 'w' && ai < len(args) && args[ai].x != nil {
					t := in.P.typeOf("fmt", "wrapError")
					p := &Value{x: structV{msg, args[ai]}}
					return Value{x: iface{in.P.rt(types.NewPointer(t)), Value{x: p}}}
				}
				ai++
			}
		}
		t := in.P.typeOf("errors", "errorString")
		p := &Value{x: structV{msg}}
		return Value{x: iface{in.P.rt(types.NewPointer(t)), Value{x: p}}}
	})
	fp := func(f func(in *Interp, a []Value) Value) intrinsic {
		return func(in *Interp, a []Value) Value {
			s := f(in, a[1:])
			return in.callMethod(a[0], nil, "Write", Value{x: append(sliceV{}, strBytes(s)...)})
		}
	}
	reg("fmt.Fprintf", fp(intrinsics["fmt.Sprintf"]))
	reg("fmt.Fprint", fp(intrinsics["fmt.Sprint"]))
	reg("fmt.Fprintln", fp(intrinsics["fmt.Sprintln"]))
	for _, n := range []string{"fmt.Print", "fmt.Println", "fmt.Printf", "log.Println", "log.Printf", "log.Print"} {
		reg(n, func(in *Interp, a []Value) Value { return Value{x: tupleV{Value{}, Value{}}} })
	}
}
