package exec

import (
	"fmt"
	"go/types"

	"verifengine/term"
)

var symModels map[string]modelFn

// freshVar returns the variable with the given name, recording it as an input.
func (x *Exec) freshVar(name string, w int32) *term.Term {
	if v, ok := x.Vars[name]; ok {
		if v.W != w {
			panic(unsupported("input %s used at two widths", name))
		}
		return v
	}
	v := x.C.Var(name, w)
	x.Vars[name] = v
	x.VarOrder = append(x.VarOrder, name)
	return v
}

func (x *Exec) newWords(c *callCtx, n int, w int32, mk func(i int) *term.Term) Value {
	et := c.fn.Signature.Results().At(0).Type().Underlying().(*types.Slice).Elem()
	o := x.allocArray(c.st, "input", et, int64(n))
	ct := c.st.heap.m[o]
	for i := 0; i < n; i++ {
		t := mk(i)
		if ct.dense != nil {
			ct.dense[i] = t
		} else {
			ct.sparse[int64(i)] = t
		}
	}
	l := x.C.Const(uint64(n), 64)
	return &Slice{P: &Ptr{Obj: o}, Len: l, Cap: l}
}

func (c *callCtx) constInt(i int) int64 {
	t := c.term(i)
	if !t.IsConst() {
		panic(unsupported("symbolic size argument to %s", fnName(c.fn)))
	}
	return int64(t.U64())
}

func (c *callCtx) variadic(i int, w int32) []*term.Term {
	s := c.slice(i)
	return c.x.elemsOf(c.st, s, Leaf{Size: int64(w / 8), Kind: KInt, W: w}, int64(w/8))
}

// Assert records an obligation that cond holds here.
func (x *Exec) assert(c *callCtx, cond *term.Term, msg string, eqs [][2]*term.Term) {
	x.Asserts++
	if cond.IsTrue() {
		x.Trivial++
		if len(eqs) > 0 {
			x.Closed = append(x.Closed, eqs[0])
		}
		return
	}
	x.addObl(&Obligation{Kind: "assert", Msg: msg, PC: c.st.pc.list(), Cond: cond, Eqs: eqs})
}

func initSym() {
	symModels = map[string]modelFn{}
	m := symModels
	for _, k := range []struct {
		n string
		w int32
	}{{"U8", 8}, {"U16", 16}, {"U32", 32}, {"U64", 64}, {"Bool", 0}} {
		k := k
		m[k.n] = func(c *callCtx) Value { return c.x.freshVar(c.str(0), k.w) }
	}
	m["Int"] = func(c *callCtx) Value {
		x := c.x
		lo, hi := c.term(1), c.term(2)
		if lo.IsConst() && hi.IsConst() && lo.S64() >= 0 && hi.S64() >= lo.S64() {
			// a narrow variable keeps ranges visible to the simplifier
			nb := int32(1)
			for (uint64(hi.S64()) >> uint(nb)) != 0 {
				nb++
			}
			if nb < 64 {
				v := x.freshVar(c.str(0), nb)
				z := x.C.ZExt(v, 64)
				c.st.assume(x.C.Ule(lo, z))
				c.st.assume(x.C.Ule(z, hi))
				return z
			}
		}
		v := x.freshVar(c.str(0), 64)
		c.st.assume(x.C.Sle(lo, v))
		c.st.assume(x.C.Sle(v, hi))
		return v
	}
	m["Bytes"] = func(c *callCtx) Value {
		name, n := c.str(0), c.constInt(1)
		return c.x.newWords(c, int(n), 8, func(i int) *term.Term { return c.x.freshVar(fmt.Sprintf("%s[%d]", name, i), 8) })
	}
	m["BytesCap"] = func(c *callCtx) Value {
		name, n, cp := c.str(0), c.constInt(1), c.constInt(2)
		s := c.x.newWords(c, int(cp), 8, func(i int) *term.Term { return c.x.freshVar(fmt.Sprintf("%s[%d]", name, i), 8) }).(*Slice)
		return &Slice{P: s.P, Len: c.x.C.Const(uint64(n), 64), Cap: s.Cap}
	}
	for _, k := range []struct {
		n string
		w int32
	}{{"Words16", 16}, {"Words32", 32}, {"Words64", 64}} {
		k := k
		m[k.n] = func(c *callCtx) Value {
			name, n := c.str(0), c.constInt(1)
			return c.x.newWords(c, int(n), k.w, func(i int) *term.Term { return c.x.freshVar(fmt.Sprintf("%s[%d]", name, i), k.w) })
		}
	}
	for _, k := range []struct {
		n string
		w int32
		t types.Type
	}{{"LazyU32", 32, types.Typ[types.Uint32]}, {"LazyU64", 64, types.Typ[types.Uint64]}, {"LazyBytes", 8, types.Typ[types.Uint8]}} {
		k := k
		m[k.n] = func(c *callCtx) Value {
			x := c.x
			name, n := c.str(0), c.constInt(1)
			x.nobj++
			lay := x.tc.layout(k.t)
			o := &Object{ID: x.nobj, Name: name, Lay: lay, Count: n, Size: n * lay.Unit, Lazy: name, LazyW: k.w, Init: x.inInit, Epoch: x.epoch}
			c.st.heap.m[o] = &Content{owner: c.st.heap}
			x.LazyN[name] = n
			l := x.C.Const(uint64(n), 64)
			return &Slice{P: &Ptr{Obj: o}, Len: l, Cap: l}
		}
	}
	for _, k := range []struct {
		n string
		w int32
	}{{"UF8", 8}, {"UF32", 32}, {"UF64", 64}, {"UFBool", 0}} {
		k := k
		m[k.n] = func(c *callCtx) Value {
			a := c.variadic(1, 64)
			return c.x.C.App("uf:"+c.str(0), k.w, a...)
		}
	}
	m["UFBytes"] = func(c *callCtx) Value {
		x := c.x
		n := c.constInt(1)
		ss := c.slice(2)
		cnt := int(ss.Len.U64())
		bt := types.NewSlice(byteType)
		key := "ufb:" + c.str(0)
		var args []*term.Term
		for i := 0; i < cnt; i++ {
			s := x.sliceOf(x.loadPtr(c.st, x.ptrAdd(ss.P, x.C.Const(uint64(i), 64), 24), bt))
			b := x.bytesOf(c.st, s)
			key += fmt.Sprintf(":%d", len(b))
			args = append(args, b...)
		}
		return x.newBytes(c.st, x.splitBE(x.C.App(key, int32(n*8), args...)))
	}
	m["Assume"] = func(c *callCtx) Value {
		x := c.x
		t := x.boolOf(c.st, c.args[0])
		if t.IsFalse() || x.unlikely(c.st, t) {
			c.dead = true
			return nil
		}
		c.st.assume(t)
		return &Tuple{}
	}
	m["Assert"] = func(c *callCtx) Value {
		c.x.assert(c, c.x.boolOf(c.st, c.args[0]), c.str(1), nil)
		return &Tuple{}
	}
	eqScalar := func(c *callCtx) Value {
		a, b := c.term(0), c.term(1)
		c.x.assert(c, c.x.C.Eq(a, b), c.str(2), [][2]*term.Term{{a, b}})
		return &Tuple{}
	}
	m["AssertEq"], m["AssertEq32"], m["AssertEqInt"] = eqScalar, eqScalar, eqScalar
	eqSlice := func(w int32) modelFn {
		return func(c *callCtx) Value {
			x := c.x
			msg := c.str(2)
			sa, sb := c.slice(0), c.slice(1)
			if !sa.Len.IsConst() || !sb.Len.IsConst() {
				// lengths are symbolic: equal lengths and equal contents within them
				x.assert(c, x.C.Eq(sa.Len, sb.Len), msg+" (length)", [][2]*term.Term{{sa.Len, sb.Len}})
				n := x.concreteBound(c.st, sa.Len)
				if m := x.concreteBound(c.st, sb.Len); m < n {
					n = m
				}
				r := x.C.True
				lf := Leaf{Size: int64(w / 8), Kind: KInt, W: w}
				for i := int64(0); i < n; i++ {
					iv := x.C.Const(uint64(i), 64)
					a := x.loadLeaf(c.st, sa.P, i*int64(w/8), lf).(*term.Term)
					b := x.loadLeaf(c.st, sb.P, i*int64(w/8), lf).(*term.Term)
					r = x.C.BAnd(r, x.C.Implies(x.C.BAnd(x.C.Ult(iv, sa.Len), x.C.Ult(iv, sb.Len)), x.C.Eq(a, b)))
				}
				x.assert(c, r, msg, nil)
				return &Tuple{}
			}
			if sa.Len != sb.Len {
				x.assert(c, x.C.False, fmt.Sprintf("%s (lengths %d and %d)", msg, sa.Len.U64(), sb.Len.U64()), nil)
				return &Tuple{}
			}
			lf := Leaf{Size: int64(w / 8), Kind: KInt, W: w}
			a, b := x.elemsOf(c.st, sa, lf, int64(w/8)), x.elemsOf(c.st, sb, lf, int64(w/8))
			var eqs [][2]*term.Term
			r := x.C.True
			for i := range a {
				e := x.C.Eq(a[i], b[i])
				r = x.C.BAnd(r, e)
				eqs = append(eqs, [2]*term.Term{a[i], b[i]})
			}
			x.assert(c, r, msg, eqs)
			return &Tuple{}
		}
	}
	m["AssertEqBytes"], m["AssertEqWords16"], m["AssertEqWords32"], m["AssertEqWords64"] = eqSlice(8), eqSlice(16), eqSlice(32), eqSlice(64)
	m["Reach"] = func(c *callCtx) Value {
		c.x.Reaches = append(c.x.Reaches, Reach{Label: c.str(0), PC: c.st.pc.list()})
		return &Tuple{}
	}
	m["Tier"] = func(c *callCtx) Value { return c.x.C.Const(uint64(c.x.Tier), 64) }
	m["Native"] = func(c *callCtx) Value { return c.x.C.False }
	m["MapOrder"] = func(c *callCtx) Value { c.x.MapOrder = int(c.constInt(0)); return &Tuple{} }
	m["LoopLimit"] = func(c *callCtx) Value { c.x.LoopLimit = int(c.constInt(0)); return &Tuple{} }
	m["SplitCases"] = func(c *callCtx) Value { c.x.FeasAll = c.constInt(0) != 0; return &Tuple{} }
	m["Freeze"] = func(c *callCtx) Value {
		c.x.epoch++
		c.x.frozenEpoch = c.x.epoch
		return &Tuple{}
	}
	m["Unfreeze"] = func(c *callCtx) Value { c.x.frozenEpoch = 0; return &Tuple{} }
	m["Try"] = func(c *callCtx) Value {
		r, ok := c.x.try(c, c.args[0])
		if !ok {
			c.dead = true
			return nil
		}
		return r
	}
	m["Concurrent"] = func(c *callCtx) Value {
		x := c.x
		save := x.frozenEpoch
		x.epoch++
		x.frozenEpoch = x.epoch
		f := c.args[0].(*Func)
		outer := x.tracking
		if !outer {
			x.tracking, x.reads, x.writes = true, map[accessKey][]access{}, map[accessKey][]access{}
		}
		_, ok := x.callFunction(c.st, f.Fn, nil, f.Binds, c.depth+1)
		if !outer {
			x.sharedReads()
			x.tracking, x.reads, x.writes = false, nil, nil
		}
		x.frozenEpoch = save
		c.dead = !ok
		return &Tuple{}
	}
	m["Choose"] = func(c *callCtx) Value {
		// every value is explored, each in its own run from the start
		x := c.x
		n := int(c.constInt(1))
		k := x.chosen
		x.chosen++
		if k == len(x.trail) {
			x.trail = append(x.trail, choice{0, n})
		}
		ch := x.trail[k]
		v := x.freshVar(fmt.Sprintf("choice %d: %s", k, c.str(0)), 64)
		t := x.C.Const(uint64(ch.v), 64)
		c.st.assume(x.C.Eq(v, t))
		return t
	}
	m["StrictClock"] = func(c *callCtx) Value { c.x.strictClock = true; return &Tuple{} }
	m["Gate"] = func(c *callCtx) Value { return &Tuple{} }
	m["Thread"] = func(c *callCtx) Value {
		f := c.args[0].(*Func)
		ok := c.x.thread(c.st, func() bool {
			_, ok := c.x.callFunction(c.st, f.Fn, nil, f.Binds, c.depth+1)
			return ok
		})
		c.dead = !ok
		return &Tuple{}
	}
	m["RunGoroutines"] = func(c *callCtx) Value {
		x := c.x
		for {
			l, ok := x.native(c.st, x.spawnObj).(*spawnList)
			if !ok {
				panic(unsupported("goroutines spawned under a condition"))
			}
			if len(l.L) == 0 {
				return &Tuple{}
			}
			s := l.L[0]
			x.setNative(c.st, x.spawnObj, &spawnList{L: l.L[1:]})
			fr := &Frame{st: c.st, depth: c.depth}
			ok = x.thread(fr.st, func() bool {
				_, ok := x.callValue(fr, s.fn, s.args, nil, 0)
				return ok
			})
			if !ok {
				c.dead = true
				return nil
			}
		}
	}
	m["Pending"] = func(c *callCtx) Value {
		l, ok := c.x.native(c.st, c.x.spawnObj).(*spawnList)
		if !ok {
			panic(unsupported("goroutines spawned under a condition"))
		}
		return c.x.C.Const(uint64(len(l.L)), 64)
	}
}

// choice is one decision of the current run: value v of n.
type choice struct{ v, n int }

// nextRun moves to the next combination of choices.
func (x *Exec) nextRun() bool {
	for len(x.trail) > 0 {
		l := &x.trail[len(x.trail)-1]
		if l.v+1 < l.n {
			l.v++
			return true
		}
		x.trail = x.trail[:len(x.trail)-1]
	}
	return false
}

// try runs f; the result is true on paths where it returned, false where it panicked.
func (x *Exec) try(c *callCtx, fv Value) (Value, bool) {
	f, ok := fv.(*Func)
	if !ok {
		panic(unsupported("Try of %T", fv))
	}
	save := x.tryPanics
	x.tryPanics = nil
	x.tryDepth++
	held := x.held(c.st)
	s := c.st.fork()
	_, ok = x.callFunction(s, f.Fn, nil, f.Binds, c.depth+1)
	x.tryDepth--
	pan := x.tryPanics
	x.tryPanics = save
	var cur *State
	var val Value
	if ok {
		cur, val = s, x.C.True
	}
	for _, p := range pan {
		if x.infeasible(p, x.C.True) {
			continue
		}
		x.setNative(p, x.lockObj, held)
		if cur == nil {
			cur, val = p, x.C.False
			continue
		}
		g, ns := x.mergeStates(p, cur)
		val = x.merge(g, x.C.False, val)
		cur = ns
	}
	if cur == nil {
		return nil, false
	}
	*c.st = *cur
	return val, true
}

func initOS() {}
