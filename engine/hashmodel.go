package main

import (
	"crypto/sha256"
	"fmt"
	"strings"

	"github.com/cxmcc/tiger"
)

// Hash functions are uninterpreted: equal argument terms give equal results,
// concrete arguments are computed natively.
func regHash() {
	reg("verif/harness/models.uf", func(in *Interp, a []Value) Value {
		name, _ := concStr(a[0])
		data := sliceOf(a[1])
		n := int(a[2].n)
		if b, ok := concBytes(data); ok {
			r := bytesToV(nativeHash(name, b))
			if name == "sha256" {
				in.congruent(data, sliceOf(r))
			}
			return r
		}
		var sb strings.Builder
		sb.WriteString(name)
		for _, d := range data {
			if e, ok := d.x.(*Expr); ok {
				fmt.Fprintf(&sb, ",e%d", e.id)
			} else {
				fmt.Fprintf(&sb, ",%d", d.n)
			}
		}
		key := sb.String()
		if in.ex.uf == nil {
			in.ex.uf = map[string][]Value{}
		}
		r, ok := in.ex.uf[key]
		if !ok {
			mb := make([]byte, len(data))
			for i := range data {
				mb[i] = byte(in.evalV(data[i]))
			}
			h := nativeHash(name, mb)
			for i := 0; i < n; i++ {
				r = append(r, Value{x: in.defVar(8, 0, 255, uint64(h[i]))})
			}
			in.ex.uf[key] = r
			if name == "sha256" {
				in.congruent(data, r)
			}
		}
		return Value{x: append(sliceV{}, r...)}
	})
}

// congruent states that equal arguments have equal results.
func (in *Interp) congruent(data, r []Value) {
	cx := in.cx
	eq := func(a, b []Value) *Expr {
		e := cx.True
		for i := range a {
			e = cx.And(e, cx.Eq(in.toExpr(a[i], 8), in.toExpr(b[i], 8)))
		}
		return e
	}
	for _, p := range in.ex.ufApps {
		if len(p[0]) == len(data) && eq(p[0], data) != cx.False {
			in.assume(exprV(cx.Or(cx.Not(eq(p[0], data)), eq(p[1], r))))
		}
	}
	in.ex.ufApps = append(in.ex.ufApps, [2][]Value{append([]Value{}, data...), r})
}

func nativeHash(name string, b []byte) []byte {
	switch name {
	case "tiger":
		h := tiger.New()
		h.Write(b)
		return h.Sum(nil)
	case "sha256":
		s := sha256.Sum256(b)
		return s[:]
	}
	panic(engErr{"hash " + name})
}
