package main

import (
	"go/types"
	"unsafe"
)

func unsafeSlice(p *Value, n int) []Value { return unsafe.Slice(p, n) }

// A region is an acyclic, side-effect free group of blocks behind a symbolic
// branch with at most two exits; it is evaluated once with guarded values
// instead of forking at every inner branch.
type regionC struct {
	blocks []int
	exits  []int
}

func findRegion(fi *fnInfo, b *blockC) *regionC {
	inR := map[int]bool{b.idx: true}
	var blocks []int
	var best *regionC
	succs := func(x *blockC) []int {
		if x.isIf {
			return x.succ[:]
		}
		return x.succ[:1]
	}
	exits := func() []int {
		var ex []int
		add := func(t int) {
			for _, e := range ex {
				if e == t {
					return
				}
			}
			ex = append(ex, t)
		}
		for _, t := range succs(b) {
			if !inR[t] {
				add(t)
			}
		}
		for _, i := range blocks {
			for _, t := range succs(fi.blocks[i]) {
				if !inR[t] || t == b.idx {
					add(t)
				}
			}
		}
		return ex
	}
	for len(blocks) < 24 {
		found := -1
		for _, t := range exits() {
			x := fi.blocks[t]
			if t == b.idx || !x.pure || !(x.isIf || x.isJump) || len(x.body) > 30 {
				continue
			}
			ok := true
			for _, p := range x.preds {
				if !inR[p] {
					ok = false
				}
			}
			if ok && !inR[t] {
				found = t
				break
			}
		}
		if found < 0 {
			break
		}
		inR[found] = true
		blocks = append(blocks, found)
		ex := exits()
		if len(ex) <= 2 {
			best = &regionC{blocks: append([]int(nil), blocks...), exits: ex}
		}
	}
	return best
}

type edgeG struct {
	from, to int
	g        *Expr
}

func (in *Interp) mergeV(t types.Type, g *Expr, a, b Value) (Value, bool) {
	if identV(a, b) {
		return a, true
	}
	if isBool(t) || isInteger(t) && width(t) <= 32 {
		w := width(t)
		return exprV(in.cx.Ite(g, in.toExpr(a, w), in.toExpr(b, w))), true
	}
	if isString(t) && strLen(a) == strLen(b) {
		x, y := strBytes(a), strBytes(b)
		r := make([]Value, len(x))
		for i := range x {
			r[i] = exprV(in.cx.Ite(g, in.toExpr(x[i], 8), in.toExpr(y[i], 8)))
		}
		return mkStr(r), true
	}
	return Value{}, false
}

// phiVals computes the phi values of block x for the given incoming edges.
func (in *Interp) phiVals(fr *frame, x *blockC, edges []edgeG) ([]Value, bool) {
	out := make([]Value, len(x.phis))
	for i := range x.phis {
		ph := &x.phis[i]
		var acc Value
		have := false
		for k := len(edges) - 1; k >= 0; k-- {
			e := edges[k]
			// the same predecessor may appear twice (both branches to one block)
			for pi, p := range x.preds {
				if p == e.from {
					v := in.get(fr, &ph.src[pi])
					if !have {
						acc, have = v, true
					} else {
						r, ok := in.mergeV(ph.w, e.g, v, acc)
						if !ok {
							return nil, false
						}
						acc = r
					}
					break
				}
			}
		}
		if !have {
			return nil, false
		}
		out[i] = acc
	}
	return out, true
}

func (in *Interp) tryRegion(fr *frame, b *blockC, e *Expr) (next int, ok bool) {
	r := b.region
	cx := in.cx
	var groups [2][]edgeG
	var conds [2]*Expr
	var phis [2][]Value
	func() {
		in.spec++
		cur, sp, depth := in.cur, in.sp, in.depth
		defer func() {
			in.spec--
			if x := recover(); x != nil {
				if _, isAbort := x.(specAbort); !isAbort {
					panic(x)
				}
				in.cur, in.sp, in.depth = cur, sp, depth
				ok = false
			}
		}()
		edges := []edgeG{{b.idx, b.succ[0], e}, {b.idx, b.succ[1], cx.Not(e)}}
		for _, bi := range r.blocks {
			x := fr.fi.blocks[bi]
			var inc []edgeG
			g := cx.False
			for _, ed := range edges {
				if ed.to == bi && ed.g != cx.False {
					inc = append(inc, ed)
					g = cx.Or(g, ed.g)
				}
			}
			if g == cx.False {
				continue
			}
			if k, known := in.known(g); known && !k {
				continue
			}
			if len(x.phis) > 0 {
				vs, good := in.phiVals(fr, x, inc)
				if !good {
					panic(specAbort{})
				}
				for i := range x.phis {
					fr.regs[x.phis[i].dst] = vs[i]
				}
			}
			for _, f := range x.body {
				f(fr)
			}
			in.steps += uint64(len(x.body))
			if x.isJump {
				edges = append(edges, edgeG{bi, x.succ[0], g})
				continue
			}
			c := in.get(fr, &x.cond)
			if c.x == nil {
				t := x.succ[0]
				if c.n == 0 {
					t = x.succ[1]
				}
				edges = append(edges, edgeG{bi, t, g})
				continue
			}
			ce := c.x.(*Expr)
			edges = append(edges, edgeG{bi, x.succ[0], cx.And(g, ce)}, edgeG{bi, x.succ[1], cx.And(g, cx.Not(ce))})
		}
		for i, t := range r.exits {
			g := cx.False
			for _, ed := range edges {
				if ed.to == t && ed.g != cx.False {
					// edges into absorbed blocks have been consumed
					groups[i] = append(groups[i], ed)
					g = cx.Or(g, ed.g)
				}
			}
			conds[i] = g
			if g == cx.False {
				continue
			}
			if x := fr.fi.blocks[t]; len(x.phis) > 0 {
				vs, good := in.phiVals(fr, x, groups[i])
				if !good {
					panic(specAbort{})
				}
				phis[i] = vs
			}
		}
		ok = true
	}()
	if !ok {
		return 0, false
	}
	pick := 0
	if len(r.exits) == 2 {
		switch {
		case conds[0] == cx.False:
			pick = 1
		case conds[1] == cx.False:
			pick = 0
		default:
			if !in.decide(conds[0]) {
				pick = 1
			}
		}
	}
	t := r.exits[pick]
	x := fr.fi.blocks[t]
	for i := range x.phis {
		fr.regs[x.phis[i].dst] = phis[pick][i]
	}
	fr.block = -2
	fr.prev = -1
	return t, true
}
