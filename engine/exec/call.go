package exec

import (
	"go/token"
	"go/types"
	"reflect"

	"golang.org/x/tools/go/ssa"

	"verifengine/term"
)

type callCtx struct {
	x     *Exec
	st    *State
	fn    *ssa.Function
	args  []Value
	depth int
	dead  bool
}

type modelFn func(c *callCtx) Value

// bound is a method value resolved from an interface.
type bound struct {
	fn   *ssa.Function
	recv Value
	nilI bool
}

func (x *Exec) resolve(i *Iface, m *types.Func) *bound {
	if i.T == nil {
		return &bound{nilI: true}
	}
	if it, ok := i.V.(*Iface); ok && types.IsInterface(i.T) {
		return x.resolve(it, m)
	}
	f := x.L.method(i.T, m.Pkg(), m.Name())
	if f == nil {
		panic(unsupported("no method %s on %s", m.Name(), i.T))
	}
	return &bound{fn: f, recv: i.V}
}

func (x *Exec) prepCall(fr *Frame, c *ssa.CallCommon) (Value, []Value) {
	var args []Value
	for _, a := range c.Args {
		args = append(args, x.get(fr, a))
	}
	if c.IsInvoke() {
		switch r := x.get(fr, c.Value).(type) {
		case *Iface:
			return x.resolve(r, c.Method), args
		case *Union:
			u := &Union{}
			for _, a := range r.A {
				u.A = append(u.A, Alt{a.G, x.resolve(a.V.(*Iface), c.Method)})
			}
			return u, args
		default:
			panic(unsupported("invoke on %T", r))
		}
	}
	return x.get(fr, c.Value), args
}

func (x *Exec) call(fr *Frame, c *ssa.CallCommon, pos token.Pos) (Value, bool) {
	fn, args := x.prepCall(fr, c)
	return x.callValue(fr, fn, args, c, pos)
}

// forkMerge runs f in one fork per alternative and merges the outcomes.
func (x *Exec) forkMerge(fr *Frame, guards []*term.Term, f func(i int) (Value, bool)) (Value, bool) {
	st := fr.st
	type res struct {
		st *State
		v  Value
	}
	var outs []res
	for i, g := range guards {
		if g.IsFalse() || x.unlikely(st, g) {
			continue
		}
		s := st.fork()
		s.assume(g)
		fr.st = s
		v, ok := f(i)
		if ok {
			outs = append(outs, res{fr.st, v})
		}
	}
	fr.st = st
	if len(outs) == 0 {
		return nil, false
	}
	cur := outs[len(outs)-1]
	for i := len(outs) - 2; i >= 0; i-- {
		g, ns := x.mergeStates(outs[i].st, cur.st)
		cur = res{ns, x.merge(g, outs[i].v, cur.v)}
	}
	*st = *cur.st
	return cur.v, true
}

func (x *Exec) callValue(fr *Frame, fn Value, args []Value, c *ssa.CallCommon, pos token.Pos) (Value, bool) {
	switch f := fn.(type) {
	case *Func:
		if f.Builtin != "" {
			return x.builtin(fr, f.Builtin, args, c, pos)
		}
		if f.Fn == nil {
			return nil, x.require(fr, x.C.False, "call of nil function", pos)
		}
		return x.callFunction2(fr, f.Fn, args, f.Binds)
	case *bound:
		if f.nilI {
			return nil, x.require(fr, x.C.False, "nil interface method call", pos)
		}
		return x.callFunction2(fr, f.fn, append([]Value{f.recv}, args...), nil)
	case *Union:
		var gs []*term.Term
		for _, a := range f.A {
			gs = append(gs, a.G)
		}
		return x.forkMerge(fr, gs, func(i int) (Value, bool) {
			return x.callValue(fr, f.A[i].V, args, c, pos)
		})
	}
	panic(unsupported("call of %T", fn))
}

// callFunction2 splits unions in arguments of modelled functions.
func (x *Exec) callFunction2(fr *Frame, fn *ssa.Function, args []Value, binds []Value) (Value, bool) {
	if _, ok := x.lookupModel(fnName(fn), fn); ok && x.stubs[fnName(fn)] == nil {
		for k, a := range args {
			if u, ok := a.(*Union); ok && !x.unionOK(fnName(fn)) {
				var gs []*term.Term
				for _, e := range u.A {
					gs = append(gs, e.G)
				}
				return x.forkMerge(fr, gs, func(i int) (Value, bool) {
					n := append([]Value(nil), args...)
					n[k] = u.A[i].V
					return x.callFunction2(fr, fn, n, binds)
				})
			}
		}
	}
	return x.callFunction(fr.st, fn, args, binds, fr.depth+1)
}

func (x *Exec) unionOK(string) bool { return false }

// realCap returns the capacity the Go runtime gives when growing.
func realCap(esz int64, oldLen, oldCap, add int) int {
	mk := func(et reflect.Type) int {
		s := reflect.MakeSlice(reflect.SliceOf(et), oldLen, oldCap)
		z := reflect.MakeSlice(reflect.SliceOf(et), add, add)
		return reflect.AppendSlice(s, z).Cap()
	}
	if esz == 0 {
		return oldLen + add
	}
	if (int64(oldCap)+int64(add))*esz > 1<<24 {
		return oldLen + add
	}
	return mk(reflect.ArrayOf(int(esz), reflect.TypeOf(byte(0))))
}

func (x *Exec) builtin(fr *Frame, name string, args []Value, c *ssa.CallCommon, pos token.Pos) (Value, bool) {
	st := fr.st
	switch name {
	case "len":
		if m, ok := args[0].(*MapRef); ok {
			return x.mapLen(st, m), true
		}
		return x.lenOf(args[0]), true
	case "cap":
		switch s := args[0].(type) {
		case *Slice:
			return s.Cap, true
		}
	case "recover":
		return &Iface{}, true
	case "print", "println":
		return &Tuple{}, true
	case "min", "max":
		sg := isSigned(c.Args[0].Type())
		r := args[0]
		for _, a := range args[1:] {
			if f, ok := r.(Float); ok {
				g := a.(Float)
				if (name == "min") == (g < f) {
					r = g
				}
				continue
			}
			p, q := x.intOf(r), x.intOf(a)
			var lt *term.Term
			if sg {
				lt = x.C.Slt(p, q)
			} else {
				lt = x.C.Ult(p, q)
			}
			if name == "min" {
				r = x.C.Ite(lt, p, q)
			} else {
				r = x.C.Ite(lt, q, p)
			}
		}
		return r, true
	}
	// the rest need concrete shapes: split unions
	for k, a := range args {
		if u, ok := a.(*Union); ok {
			var gs []*term.Term
			for _, e := range u.A {
				gs = append(gs, e.G)
			}
			return x.forkMerge(fr, gs, func(i int) (Value, bool) {
				n := append([]Value(nil), args...)
				n[k] = u.A[i].V
				return x.builtin(fr, name, n, c, pos)
			})
		}
	}
	switch name {
	case "copy":
		d := args[0].(*Slice)
		et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
		if s, ok := args[1].(*Str); ok {
			args[1] = x.newBytes(st, x.strBytes(s))
		}
		s := args[1].(*Slice)
		return x.copySlice(st, d, s, et), true
	case "append":
		return x.appendSlice(fr, args, c)
	case "delete":
		x.mapDelete(fr, args[0], args[1])
		return &Tuple{}, true
	case "clear":
		switch p := args[0].(type) {
		case *MapRef:
			if p.Obj != nil {
				x.setNative(st, p.Obj, &mapContent{})
			}
			return &Tuple{}, true
		case *Slice:
			et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			if p.Len.IsConst() {
				z := x.zeroValue(et)
				for i := int64(0); i < int64(p.Len.U64()); i++ {
					x.storeCond(st, x.ptrAdd(p.P, x.C.Const(uint64(i), 64), x.tc.sizes.Sizeof(et)), z, et, nil)
				}
				return &Tuple{}, true
			}
		}
	case "Slice": // unsafe.Slice
		p := args[0].(*Ptr)
		n := x.to64(args[1], c.Args[1].Type())
		if p.Obj == nil {
			return &Slice{P: nilPtr, Len: x.zero64, Cap: x.zero64}, true
		}
		return &Slice{P: p, Len: n, Cap: n}, true
	case "SliceData":
		return args[0].(*Slice).P, true
	case "StringData":
		s := x.newBytes(st, x.strBytes(args[0]))
		return s.P, true
	case "String":
		p := args[0].(*Ptr)
		n := x.to64(args[1], c.Args[1].Type())
		return x.mkStr(x.bytesOf(st, &Slice{P: p, Len: n, Cap: n})), true
	case "Add":
		return x.ptrAdd(args[0].(*Ptr), x.to64(args[1], c.Args[1].Type()), 1), true
	case "ssa:wrapnilchk":
		if !x.checkNil(fr, args[0], pos) {
			return nil, false
		}
		return args[0], true
	case "ssa:deferstack":
		return nilPtr, true
	}
	panic(unsupported("builtin %s", name))
}

func (x *Exec) copySlice(st *State, d, s *Slice, et types.Type) *term.Term {
	C := x.C
	n := C.Ite(C.Ult(d.Len, s.Len), d.Len, s.Len)
	if d.P.Obj == nil || s.P.Obj == nil {
		return n
	}
	esz := x.tc.sizes.Sizeof(et)
	bound := x.concreteBound(st, n)
	l := x.tc.layout(et)
	if esz == 0 || len(l.Leaves) == 0 {
		return n
	}
	// when both sides have the natural element layout copy leaf by leaf
	N := l.N()
	vals := make([]Value, 0, int(bound)*N)
	for i := int64(0); i < bound; i++ {
		p := x.ptrAdd(s.P, C.Const(uint64(i), 64), esz)
		var g *term.Term
		if !n.IsConst() {
			g = C.Ult(C.Const(uint64(i), 64), n)
			if g.IsFalse() {
				break
			}
		}
		for k := 0; k < N; k++ {
			lf, off := l.leaf(k)
			if g != nil && p.Idx == nil && p.Off+off+lf.Size > p.Obj.Size {
				vals = append(vals, nil)
				continue
			}
			vals = append(vals, x.loadLeaf(st, p, off, lf))
		}
	}
	j := 0
	for i := int64(0); i < bound && j < len(vals); i++ {
		p := x.ptrAdd(d.P, C.Const(uint64(i), 64), esz)
		var g *term.Term
		if !n.IsConst() {
			g = C.Ult(C.Const(uint64(i), 64), n)
		}
		for k := 0; k < N; k++ {
			lf, off := l.leaf(k)
			v := vals[j]
			j++
			if v == nil || (g != nil && p.Idx == nil && p.Off+off+lf.Size > p.Obj.Size) {
				continue
			}
			x.storeLeaf(st, p, off, lf, v, g)
		}
	}
	return n
}

func (x *Exec) appendSlice(fr *Frame, args []Value, c *ssa.CallCommon) (Value, bool) {
	st := fr.st
	C := x.C
	s := args[0].(*Slice)
	et := c.Args[0].Type().Underlying().(*types.Slice).Elem()
	if str, ok := args[1].(*Str); ok {
		args[1] = x.newBytes(st, x.strBytes(str))
	}
	t := args[1].(*Slice)
	esz := x.tc.sizes.Sizeof(et)
	if !s.Len.IsConst() || !t.Len.IsConst() || !s.Cap.IsConst() {
		// symbolic lengths: always reallocate (capacity beyond the length is not modelled)
		bs, bt := x.concreteBound(st, s.Len), x.concreteBound(st, t.Len)
		o := x.allocArray(st, "append", et, bs+bt)
		nl := C.Add(s.Len, t.Len)
		r := &Slice{P: &Ptr{Obj: o}, Len: nl, Cap: nl}
		x.copySlice(st, &Slice{P: r.P, Len: s.Len, Cap: s.Len}, s, et)
		tail := &Slice{P: x.ptrAdd(r.P, s.Len, esz), Len: t.Len, Cap: t.Len}
		x.copySlice(st, tail, t, et)
		return r, true
	}
	sl, sc, tl := int(s.Len.U64()), int(s.Cap.U64()), int(t.Len.U64())
	if tl == 0 {
		return s, true
	}
	nl := C.Const(uint64(sl+tl), 64)
	if sl+tl <= sc {
		r := &Slice{P: s.P, Len: nl, Cap: s.Cap}
		x.copySlice(st, &Slice{P: x.ptrAdd(s.P, s.Len, esz), Len: t.Len, Cap: t.Len}, t, et)
		return r, true
	}
	nc := realCap(esz, sl, sc, tl)
	o := x.allocArray(st, "append", et, int64(nc))
	r := &Slice{P: &Ptr{Obj: o}, Len: nl, Cap: C.Const(uint64(nc), 64)}
	// t may alias s: copy both from the old memory
	x.copySlice(st, r, s, et)
	x.copySlice(st, &Slice{P: x.ptrAdd(r.P, s.Len, esz), Len: t.Len, Cap: t.Len}, t, et)
	return r, true
}
