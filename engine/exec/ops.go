package exec

import (
	"go/token"
	"go/types"
	"math"
	"sort"

	"golang.org/x/tools/go/ssa"

	"verifengine/term"
)

// instr executes one non-control instruction; false when the path ends.
func (x *Exec) instr(fr *Frame, in ssa.Instruction) bool {
	set := func(v ssa.Value, r Value) { fr.regs[fr.info.reg[v]] = r }
	st := fr.st
	switch i := in.(type) {
	case *ssa.DebugRef:
		return true
	case *ssa.Alloc:
		name := i.Comment
		o := x.allocType(st, name, i.Type().Underlying().(*types.Pointer).Elem())
		set(i, &Ptr{Obj: o})
	case *ssa.BinOp:
		v, ok := x.binop(fr, i.Op, x.get(fr, i.X), x.get(fr, i.Y), i.X.Type(), i.Y.Type(), i.Pos())
		if !ok {
			return false
		}
		set(i, v)
	case *ssa.UnOp:
		v, ok := x.unop(fr, i)
		if !ok {
			return false
		}
		set(i, v)
	case *ssa.Store:
		p := x.get(fr, i.Addr)
		if !x.checkNil(fr, p, i.Pos()) {
			return false
		}
		x.store(st, p, x.get(fr, i.Val), i.Val.Type())
	case *ssa.FieldAddr:
		p := x.get(fr, i.X)
		if !x.checkNil(fr, p, i.Pos()) {
			return false
		}
		stt := i.X.Type().Underlying().(*types.Pointer).Elem()
		off := x.fieldOff(stt, i.Field)
		set(i, x.mapPtr(p, func(q *Ptr) *Ptr { n := *q; n.Off += off; return &n }))
	case *ssa.Field:
		v := x.get(fr, i.X)
		if u, ok := v.(*Union); ok {
			v = x.flattenAggUnion(u)
		}
		set(i, x.fieldOf(v.(*Agg), i.X.Type(), i.Field))
	case *ssa.IndexAddr:
		v, ok := x.indexAddr(fr, i)
		if !ok {
			return false
		}
		set(i, v)
	case *ssa.Index:
		v, ok := x.index(fr, i)
		if !ok {
			return false
		}
		set(i, v)
	case *ssa.Lookup:
		v, ok := x.lookup(fr, i)
		if !ok {
			return false
		}
		set(i, v)
	case *ssa.Slice:
		v, ok := x.slice(fr, i)
		if !ok {
			return false
		}
		set(i, v)
	case *ssa.SliceToArrayPointer:
		s := x.sliceOf(x.get(fr, i.X))
		n := i.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		if !x.require(fr, x.C.Ule(x.C.Const(uint64(n), 64), s.Len), "slice to array length", i.Pos()) {
			return false
		}
		set(i, s.P)
	case *ssa.MakeSlice:
		v, ok := x.makeSlice(fr, i)
		if !ok {
			return false
		}
		set(i, v)
	case *ssa.MakeInterface:
		set(i, &Iface{T: i.X.Type(), V: x.get(fr, i.X)})
	case *ssa.MakeClosure:
		f := &Func{Fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			f.Binds = append(f.Binds, x.get(fr, b))
		}
		set(i, f)
	case *ssa.MakeMap:
		set(i, &MapRef{Obj: x.allocNative(st, "map", &mapContent{})})
	case *ssa.MapUpdate:
		if !x.mapUpdate(fr, x.get(fr, i.Map), x.get(fr, i.Key), x.get(fr, i.Value), i.Pos()) {
			return false
		}
	case *ssa.Range:
		set(i, x.makeRange(fr, x.get(fr, i.X)))
	case *ssa.Next:
		set(i, x.next(fr, i))
	case *ssa.ChangeType:
		set(i, x.get(fr, i.X))
	case *ssa.ChangeInterface:
		set(i, x.get(fr, i.X))
	case *ssa.Convert:
		set(i, x.convert(fr, x.get(fr, i.X), i.X.Type(), i.Type()))
	case *ssa.MultiConvert:
		set(i, x.convert(fr, x.get(fr, i.X), i.X.Type(), i.Type()))
	case *ssa.Extract:
		t := x.get(fr, i.Tuple)
		if u, ok := t.(*Union); ok {
			set(i, x.mapUnion(st, u, func(v Value) Value { return v.(*Tuple).V[i.Index] }))
			break
		}
		set(i, t.(*Tuple).V[i.Index])
	case *ssa.TypeAssert:
		v, ok := x.typeAssert(fr, i)
		if !ok {
			return false
		}
		set(i, v)
	case *ssa.Call:
		v, ok := x.call(fr, i.Common(), i.Pos())
		if !ok {
			return false
		}
		set(i, v)
	case *ssa.Defer:
		fn, args := x.prepCall(fr, i.Common())
		fr.defers = append(fr.defers, deferred{call: i.Common(), fn: fn, args: args})
	case *ssa.RunDefers:
		for len(fr.defers) > 0 {
			d := fr.defers[len(fr.defers)-1]
			fr.defers = fr.defers[:len(fr.defers)-1]
			if _, ok := x.callValue(fr, d.fn, d.args, d.call, i.Pos()); !ok {
				return false
			}
		}
	case *ssa.Go:
		fn, args := x.prepCall(fr, i.Common())
		x.spawn(st, fn, args)
	case *ssa.MakeChan:
		set(i, x.makeChan(fr, i))
	case *ssa.Send:
		panic(unsupported("channel send"))
	default:
		panic(unsupported("instruction %T", in))
	}
	return true
}

func (x *Exec) fieldOff(t types.Type, f int) int64 {
	s := t.Underlying().(*types.Struct)
	var fs []*types.Var
	for i := 0; i < s.NumFields(); i++ {
		fs = append(fs, s.Field(i))
	}
	return x.tc.sizes.Offsetsof(fs)[f]
}

func (x *Exec) fieldOf(a *Agg, t types.Type, f int) Value {
	s := t.Underlying().(*types.Struct)
	start := 0
	for i := 0; i < f; i++ {
		start += x.tc.layout(s.Field(i).Type()).N()
	}
	ft := s.Field(f).Type()
	n := x.tc.layout(ft).N()
	if isAgg(ft) {
		return &Agg{L: a.L[start : start+n : start+n]}
	}
	return a.L[start]
}

func (x *Exec) mapPtr(p Value, f func(*Ptr) *Ptr) Value {
	switch q := p.(type) {
	case *Ptr:
		return f(q)
	case *Union:
		u := &Union{}
		for _, a := range q.A {
			pp := a.V.(*Ptr)
			if pp.Obj == nil {
				u.A = append(u.A, a)
			} else {
				u.A = append(u.A, Alt{a.G, f(pp)})
			}
		}
		return u
	}
	panic(unsupported("pointer from %T", p))
}

// checkNil requires p to be non-nil.
func (x *Exec) checkNil(fr *Frame, p Value, pos token.Pos) bool {
	switch q := p.(type) {
	case *Ptr:
		if q.Obj == nil {
			return x.require(fr, x.C.False, "nil pointer dereference", pos)
		}
		return true
	case *Union:
		c := x.C.False
		for _, a := range q.A {
			if pp, ok := a.V.(*Ptr); ok && pp.Obj == nil {
				c = x.C.BOr(c, a.G)
			}
		}
		return x.require(fr, x.C.BNot(c), "nil pointer dereference", pos)
	}
	panic(unsupported("nil check of %T", p))
}

func isSigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned == 0
}

// to64 widens an integer value to 64 bits according to its static type.
func (x *Exec) to64(v Value, t types.Type) *term.Term {
	tt := x.intOf(v)
	if tt.W == 64 {
		return tt
	}
	if isSigned(t) {
		return x.C.SExt(tt, 64)
	}
	return x.C.ZExt(tt, 64)
}

func (x *Exec) intOf(v Value) *term.Term {
	switch p := v.(type) {
	case *term.Term:
		return p
	case *Union:
		var res *term.Term
		for i := len(p.A) - 1; i >= 0; i-- {
			t := x.intOf(p.A[i].V)
			if res == nil {
				res = t
			} else {
				res = x.C.Ite(p.A[i].G, t, res)
			}
		}
		return res
	}
	panic(unsupported("integer from %T", v))
}

func (x *Exec) sliceOf(v Value) *Slice {
	switch p := v.(type) {
	case *Slice:
		return p
	case *Union:
		panic(unionSlice{p})
	}
	panic(unsupported("slice from %T", v))
}

type unionSlice struct{ u *Union }

func (x *Exec) indexAddr(fr *Frame, i *ssa.IndexAddr) (Value, bool) {
	idx := x.to64(x.get(fr, i.Index), i.Index.Type())
	base := x.get(fr, i.X)
	switch t := i.X.Type().Underlying().(type) {
	case *types.Slice:
		esz := x.tc.sizes.Sizeof(t.Elem())
		if u, ok := base.(*Union); ok {
			l := x.lenOf(base)
			if !x.require(fr, x.C.Ult(idx, l), "index out of range", i.Pos()) {
				return nil, false
			}
			var alts []Alt
			for _, a := range u.A {
				s := a.V.(*Slice)
				if s.P.Obj == nil {
					alts = append(alts, Alt{a.G, nilPtr})
					continue
				}
				alts = append(alts, Alt{a.G, x.ptrAdd(s.P, idx, esz)})
			}
			return &Union{alts}, true
		}
		s := base.(*Slice)
		if !x.require(fr, x.C.Ult(idx, s.Len), "index out of range", i.Pos()) {
			return nil, false
		}
		return x.ptrAdd(s.P, idx, esz), true
	case *types.Pointer:
		at := t.Elem().Underlying().(*types.Array)
		if !x.checkNil(fr, base, i.Pos()) {
			return nil, false
		}
		if !x.require(fr, x.C.Ult(idx, x.C.Const(uint64(at.Len()), 64)), "index out of range", i.Pos()) {
			return nil, false
		}
		esz := x.tc.sizes.Sizeof(at.Elem())
		return x.mapPtr(base, func(q *Ptr) *Ptr { return x.ptrAdd(q, idx, esz) }), true
	}
	panic(unsupported("IndexAddr on %s", i.X.Type()))
}

func (x *Exec) index(fr *Frame, i *ssa.Index) (Value, bool) {
	idx := x.to64(x.get(fr, i.Index), i.Index.Type())
	switch t := i.X.Type().Underlying().(type) {
	case *types.Array:
		if !x.require(fr, x.C.Ult(idx, x.C.Const(uint64(t.Len()), 64)), "index out of range", i.Pos()) {
			return nil, false
		}
		a := x.get(fr, i.X).(*Agg)
		n := x.tc.layout(t.Elem()).N()
		at := func(k int64) Value {
			if isAgg(t.Elem()) {
				return &Agg{L: a.L[int(k)*n : int(k+1)*n]}
			}
			return a.L[int(k)*n]
		}
		if idx.IsConst() {
			return at(int64(idx.U64())), true
		}
		var res Value
		for k := t.Len() - 1; k >= 0; k-- {
			if res == nil {
				res = at(k)
			} else {
				res = x.merge(x.C.Eq(idx, x.C.Const(uint64(k), 64)), at(k), res)
			}
		}
		return res, true
	case *types.Basic:
		b := x.strBytes(x.get(fr, i.X))
		if !x.require(fr, x.C.Ult(idx, x.C.Const(uint64(len(b)), 64)), "index out of range", i.Pos()) {
			return nil, false
		}
		if idx.IsConst() {
			return b[idx.U64()], true
		}
		return x.selectTree(b, idx, 0), true
	}
	panic(unsupported("Index on %s", i.X.Type()))
}

func (x *Exec) strBytes(v Value) []*term.Term {
	s, ok := v.(*Str)
	if !ok || s.Opq != "" {
		panic(unsupported("bytes of opaque string"))
	}
	if s.Sym != nil {
		return s.Sym
	}
	out := make([]*term.Term, len(s.S))
	for i := range out {
		out[i] = x.C.Const(uint64(s.S[i]), 8)
	}
	return out
}

func (x *Exec) mkStr(b []*term.Term) *Str {
	bs := make([]byte, len(b))
	for i, t := range b {
		if !t.IsConst() {
			return &Str{Sym: b}
		}
		bs[i] = byte(t.U64())
	}
	return &Str{S: string(bs)}
}

func (x *Exec) lenOf(v Value) *term.Term {
	switch p := v.(type) {
	case *Slice:
		return p.Len
	case *Str:
		if p.Opq != "" {
			return x.C.Var("strlen:"+p.Opq, 64)
		}
		if p.Sym != nil {
			return x.C.Const(uint64(len(p.Sym)), 64)
		}
		return x.C.Const(uint64(len(p.S)), 64)
	case *Union:
		var res *term.Term
		for i := len(p.A) - 1; i >= 0; i-- {
			l := x.lenOf(p.A[i].V)
			if res == nil {
				res = l
			} else {
				res = x.C.Ite(p.A[i].G, l, res)
			}
		}
		return res
	}
	panic(unsupported("len of %T", v))
}

func (x *Exec) slice(fr *Frame, i *ssa.Slice) (Value, bool) {
	base := x.get(fr, i.X)
	var lo, hi, max *term.Term
	if i.Low != nil {
		lo = x.to64(x.get(fr, i.Low), i.Low.Type())
	} else {
		lo = x.zero64
	}
	if i.High != nil {
		hi = x.to64(x.get(fr, i.High), i.High.Type())
	}
	if i.Max != nil {
		max = x.to64(x.get(fr, i.Max), i.Max.Type())
	}
	switch t := i.X.Type().Underlying().(type) {
	case *types.Basic: // string
		s, ok := base.(*Str)
		if !ok || s.Opq != "" || !lo.IsConst() || (hi != nil && !hi.IsConst()) {
			panic(unsupported("string slice"))
		}
		b := x.strBytes(s)
		h := uint64(len(b))
		if hi != nil {
			h = hi.U64()
		}
		if h > uint64(len(b)) || lo.U64() > h {
			x.require(fr, x.C.False, "slice bounds out of range", i.Pos())
			return nil, false
		}
		if s.Sym == nil {
			return &Str{S: s.S[lo.U64():h]}, true
		}
		return x.mkStr(b[lo.U64():h]), true
	case *types.Pointer: // array
		at := t.Elem().Underlying().(*types.Array)
		if !x.checkNil(fr, base, i.Pos()) {
			return nil, false
		}
		n := x.C.Const(uint64(at.Len()), 64)
		if hi == nil {
			hi = n
		}
		if max == nil {
			max = n
		}
		if !x.require(fr, x.C.AndN(x.C.Ule(lo, hi), x.C.Ule(hi, max), x.C.Ule(max, n)), "slice bounds out of range", i.Pos()) {
			return nil, false
		}
		esz := x.tc.sizes.Sizeof(at.Elem())
		one := func(p *Ptr) *Slice {
			return &Slice{P: x.ptrAdd(p, lo, esz), Len: x.C.Sub(hi, lo), Cap: x.C.Sub(max, lo)}
		}
		if u, ok := base.(*Union); ok {
			r := &Union{}
			for _, a := range u.A {
				r.A = append(r.A, Alt{a.G, one(a.V.(*Ptr))})
			}
			return r, true
		}
		return one(base.(*Ptr)), true
	case *types.Slice:
		esz := x.tc.sizes.Sizeof(t.Elem())
		do := func(s *Slice, g *term.Term) (*Slice, bool) {
			h, m := hi, max
			if h == nil {
				h = s.Len
			}
			if m == nil {
				m = s.Cap
			}
			cond := x.C.AndN(x.C.Ule(lo, h), x.C.Ule(h, m), x.C.Ule(m, s.Cap))
			if g != nil {
				cond = x.C.Implies(g, cond)
			}
			if !x.require(fr, cond, "slice bounds out of range", i.Pos()) {
				return nil, false
			}
			p := s.P
			if p.Obj != nil {
				p = x.ptrAdd(p, lo, esz)
			}
			return &Slice{P: p, Len: x.C.Sub(h, lo), Cap: x.C.Sub(m, lo)}, true
		}
		if u, ok := base.(*Union); ok {
			r := &Union{}
			for _, a := range u.A {
				s, ok := do(a.V.(*Slice), a.G)
				if !ok {
					return nil, false
				}
				r.A = append(r.A, Alt{a.G, s})
			}
			return r, true
		}
		s, ok := do(base.(*Slice), nil)
		return s, ok
	}
	panic(unsupported("slice of %s", i.X.Type()))
}

// concreteBound returns the largest value t may take (for allocation), using the solver.
func (x *Exec) concreteBound(st *State, t *term.Term) int64 {
	if t.IsConst() {
		return int64(t.U64())
	}
	hi := t.RangeHi()
	for _, k := range []uint64{8, 32, 64, 128, 256, 1024, 4096, 16384} {
		if hi <= k {
			return int64(hi)
		}
		if x.infeasible(st, x.C.Ult(x.C.Const(k, 64), t)) {
			return int64(k)
		}
	}
	panic(unsupported("allocation of unbounded symbolic size"))
}

func (x *Exec) makeSlice(fr *Frame, i *ssa.MakeSlice) (Value, bool) {
	et := i.Type().Underlying().(*types.Slice).Elem()
	n := x.to64(x.get(fr, i.Len), i.Len.Type())
	c := x.to64(x.get(fr, i.Cap), i.Cap.Type())
	lim := x.C.Const(1<<40, 64)
	if !x.require(fr, x.C.BAnd(x.C.Ule(n, c), x.C.Ule(c, lim)), "makeslice: len out of range", i.Pos()) {
		return nil, false
	}
	b := x.concreteBound(fr.st, c)
	o := x.allocArray(fr.st, "make "+et.String(), et, b)
	return &Slice{P: &Ptr{Obj: o}, Len: n, Cap: c}, true
}

// ---- operators ----

func (x *Exec) unop(fr *Frame, i *ssa.UnOp) (Value, bool) {
	v := x.get(fr, i.X)
	switch i.Op {
	case token.MUL:
		if !x.checkNil(fr, v, i.Pos()) {
			return nil, false
		}
		return x.load(fr.st, v, i.Type()), true
	case token.NOT:
		return x.C.BNot(x.boolOf(fr.st, v)), true
	case token.SUB:
		if f, ok := v.(Float); ok {
			return -f, true
		}
		return x.C.Neg(x.intOf(v)), true
	case token.XOR:
		return x.C.Not(x.intOf(v)), true
	case token.ARROW:
		panic(unsupported("channel receive"))
	}
	panic(unsupported("unop %s", i.Op))
}

func (x *Exec) binop(fr *Frame, op token.Token, a, b Value, ta, tb types.Type, pos token.Pos) (Value, bool) {
	C := x.C
	if op == token.EQL || op == token.NEQ {
		e := x.equal(fr, a, b, ta)
		if op == token.NEQ {
			e = C.BNot(e)
		}
		return e, true
	}
	if fa, ok := a.(Float); ok {
		fb, ok := b.(Float)
		if !ok {
			panic(unsupported("mixed float operation"))
		}
		r32 := false
		if bt, ok := ta.Underlying().(*types.Basic); ok && bt.Kind() == types.Float32 {
			r32 = true
		}
		var r Float
		switch op {
		case token.ADD:
			r = fa + fb
		case token.SUB:
			r = fa - fb
		case token.MUL:
			r = fa * fb
		case token.QUO:
			r = fa / fb
		case token.LSS:
			return C.Bool(fa < fb), true
		case token.LEQ:
			return C.Bool(fa <= fb), true
		case token.GTR:
			return C.Bool(fa > fb), true
		case token.GEQ:
			return C.Bool(fa >= fb), true
		default:
			panic(unsupported("float op %s", op))
		}
		if r32 {
			r = Float(float32(r))
		}
		return r, true
	}
	if sa, ok := a.(*Str); ok {
		sb, ok := b.(*Str)
		if !ok {
			panic(unsupported("string op on %T", b))
		}
		return x.strOp(op, sa, sb), true
	}
	// uintptr arithmetic on pointers
	if pa, ok := a.(*Ptr); ok {
		if tbv, ok := b.(*term.Term); ok && (op == token.ADD || op == token.SUB) && pa.Obj != nil {
			if op == token.SUB {
				tbv = C.Neg(tbv)
			}
			return x.ptrAdd(pa, tbv, 1), true
		}
		panic(unsupported("pointer operation %s", op))
	}
	if pb, ok := b.(*Ptr); ok && op == token.ADD && pb.Obj != nil {
		return x.ptrAdd(pb, x.intOf(a), 1), true
	}
	p, q := x.intOf(a), x.intOf(b)
	if p.W == 0 {
		switch op {
		case token.AND, token.LAND:
			return C.BAnd(p, q), true
		case token.OR, token.LOR:
			return C.BOr(p, q), true
		}
		panic(unsupported("bool op %s", op))
	}
	sg := isSigned(ta)
	switch op {
	case token.ADD:
		return C.Add(p, q), true
	case token.SUB:
		return C.Sub(p, q), true
	case token.MUL:
		return C.Mul(p, q), true
	case token.QUO, token.REM:
		if !x.require(fr, C.BNot(C.Eq(q, C.Const(0, q.W))), "integer divide by zero", pos) {
			return nil, false
		}
		switch {
		case op == token.QUO && sg:
			return C.SDiv(p, q), true
		case op == token.QUO:
			return C.UDiv(p, q), true
		case sg:
			return C.SRem(p, q), true
		}
		return C.URem(p, q), true
	case token.AND:
		return C.And(p, q), true
	case token.OR:
		return C.Or(p, q), true
	case token.XOR:
		return C.Xor(p, q), true
	case token.AND_NOT:
		return C.And(p, C.Not(q)), true
	case token.SHL, token.SHR:
		if isSigned(tb) && !q.IsConst() {
			if !x.require(fr, C.Sle(C.Const(0, q.W), q), "negative shift amount", pos) {
				return nil, false
			}
		}
		return x.shift(op, p, q, sg), true
	case token.LSS:
		if sg {
			return C.Slt(p, q), true
		}
		return C.Ult(p, q), true
	case token.LEQ:
		if sg {
			return C.Sle(p, q), true
		}
		return C.Ule(p, q), true
	case token.GTR:
		if sg {
			return C.Slt(q, p), true
		}
		return C.Ult(q, p), true
	case token.GEQ:
		if sg {
			return C.Sle(q, p), true
		}
		return C.Ule(q, p), true
	}
	panic(unsupported("binop %s", op))
}

func (x *Exec) shift(op token.Token, p, q *term.Term, sg bool) *term.Term {
	C := x.C
	w := p.W
	if q.IsConst() {
		k := q.U64()
		if k >= uint64(w) {
			if op == token.SHR && sg {
				return C.Ashr(p, C.Const(uint64(w-1), w))
			}
			return C.Const(0, w)
		}
		kk := C.Const(k, w)
		switch {
		case op == token.SHL:
			return C.Shl(p, kk)
		case sg:
			return C.Ashr(p, kk)
		}
		return C.Lshr(p, kk)
	}
	if q.W <= w {
		qq := C.ZExt(q, w)
		if w == q.W || uint64(1)<<uint(q.W-1) >= 1 {
			switch {
			case op == token.SHL:
				return C.Shl(p, qq)
			case sg:
				return C.Ashr(p, qq)
			}
			return C.Lshr(p, qq)
		}
	}
	// q wider than p
	if q.RangeHi() < uint64(1)<<uint(minw(w, 32)) && q.RangeHi() <= maskOf(w) {
		return x.shift(op, p, C.Extract(q, w-1, 0), sg)
	}
	big := C.Ule(C.Const(uint64(w), q.W), q)
	low := C.Extract(q, w-1, 0)
	r := x.shift(op, p, low, sg)
	def := C.Const(0, w)
	if op == token.SHR && sg {
		def = C.Ashr(p, C.Const(uint64(w-1), w))
	}
	return C.Ite(big, def, r)
}

func maskOf(w int32) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return uint64(1)<<uint(w) - 1
}
func minw(a, b int32) int32 {
	if a < b {
		return a
	}
	return b
}

func (x *Exec) strOp(op token.Token, a, b *Str) Value {
	if op == token.ADD {
		if a.Opq != "" || b.Opq != "" {
			return &Str{Opq: "(" + a.Opq + a.S + "+" + b.Opq + b.S + ")"}
		}
		if a.Sym == nil && b.Sym == nil {
			return &Str{S: a.S + b.S}
		}
		return x.mkStr(append(append([]*term.Term(nil), x.strBytes(a)...), x.strBytes(b)...))
	}
	if a.Opq != "" || b.Opq != "" || a.Sym != nil || b.Sym != nil {
		panic(unsupported("ordering of symbolic strings"))
	}
	switch op {
	case token.LSS:
		return x.C.Bool(a.S < b.S)
	case token.LEQ:
		return x.C.Bool(a.S <= b.S)
	case token.GTR:
		return x.C.Bool(a.S > b.S)
	case token.GEQ:
		return x.C.Bool(a.S >= b.S)
	}
	panic(unsupported("string op %s", op))
}

// equal compares two values of static type t.
func (x *Exec) equal(fr *Frame, a, b Value, t types.Type) *term.Term {
	C := x.C
	if u, ok := a.(*Union); ok {
		var res *term.Term
		for i := len(u.A) - 1; i >= 0; i-- {
			e := x.equal(fr, u.A[i].V, b, t)
			if res == nil {
				res = e
			} else {
				res = C.Ite(u.A[i].G, e, res)
			}
		}
		return res
	}
	if _, ok := b.(*Union); ok {
		return x.equal(fr, b, a, t)
	}
	switch p := a.(type) {
	case *term.Term:
		switch q := b.(type) {
		case *term.Term:
			return C.Eq(p, q)
		case *Ptr:
			if p.IsZero() {
				return C.Bool(q.Obj == nil)
			}
		}
	case Float:
		return C.Bool(p == b.(Float))
	case *Str:
		q := b.(*Str)
		if p.Opq != "" || q.Opq != "" {
			if p.Opq == q.Opq && p.S == q.S {
				return C.True
			}
			return C.Var("streq:"+p.Opq+p.S+"="+q.Opq+q.S, 0)
		}
		if p.Sym == nil && q.Sym == nil {
			return C.Bool(p.S == q.S)
		}
		ba, bb := x.strBytes(p), x.strBytes(q)
		if len(ba) != len(bb) {
			return C.False
		}
		r := C.True
		for i := range ba {
			r = C.BAnd(r, C.Eq(ba[i], bb[i]))
		}
		return r
	case *Ptr:
		q, ok := b.(*Ptr)
		if !ok {
			if tt, ok := b.(*term.Term); ok && tt.IsZero() {
				return C.Bool(p.Obj == nil)
			}
			break
		}
		if p.Obj != q.Obj {
			return C.False
		}
		if p.Obj == nil || *p == *q {
			return C.True
		}
		addr := func(r *Ptr) *term.Term {
			t := C.Const(uint64(r.Off), 64)
			if r.Idx != nil {
				t = C.Add(t, C.Mul(r.Idx, C.Const(uint64(r.Stride), 64)))
			}
			return t
		}
		return C.Eq(addr(p), addr(q))
	case *Slice:
		q := b.(*Slice)
		// only comparison with nil
		if q.P.Obj == nil {
			return C.Bool(p.P.Obj == nil)
		}
		return C.Bool(p.P.Obj == nil && q.P.Obj == nil)
	case *Iface:
		q, ok := b.(*Iface)
		if !ok {
			// comparison of interface with concrete
			break
		}
		if p.T == nil || q.T == nil {
			return C.Bool(p.T == nil && q.T == nil)
		}
		if !types.Identical(p.T, q.T) {
			return C.False
		}
		return x.equal(fr, p.V, q.V, p.T)
	case *Func:
		q := b.(*Func)
		pn, qn := p.Fn == nil && p.Builtin == "", q.Fn == nil && q.Builtin == ""
		return C.Bool(pn && qn || (pn == qn && p == q))
	case *MapRef:
		q := b.(*MapRef)
		return C.Bool(p.Obj == q.Obj)
	case *Agg:
		q := b.(*Agg)
		r := C.True
		l := x.tc.layout(t)
		for i := range p.L {
			lf, _ := l.leaf(i)
			r = C.BAnd(r, x.equal(fr, p.L[i], q.L[i], lf.T))
		}
		return r
	}
	panic(unsupported("comparison of %T and %T", a, b))
}

func (x *Exec) convert(fr *Frame, v Value, from, to types.Type) Value {
	C := x.C
	fu, tu := from.Underlying(), to.Underlying()
	if u, ok := v.(*Union); ok {
		var alts []Alt
		for _, a := range u.A {
			alts = append(alts, Alt{a.G, x.convert(fr, a.V, from, to)})
		}
		return &Union{alts}
	}
	tb, tIsB := tu.(*types.Basic)
	fb, fIsB := fu.(*types.Basic)
	if tIsB && tb.Kind() == types.UnsafePointer {
		return v
	}
	if fIsB && fb.Kind() == types.UnsafePointer {
		return v
	}
	if tIsB && tb.Info()&types.IsString != 0 {
		switch fs := fu.(type) {
		case *types.Slice:
			w := x.tc.layout(fs.Elem()).Leaves[0].W
			if w != 8 {
				panic(unsupported("string from runes"))
			}
			s := v.(*Slice)
			return x.mkStr(x.bytesOf(fr.st, s))
		case *types.Basic:
			if fs.Info()&types.IsString != 0 {
				return v
			}
			t := x.intOf(v)
			if t.IsConst() {
				return &Str{S: string(rune(t.S64()))}
			}
			panic(unsupported("string from symbolic rune"))
		}
	}
	if ts, ok := tu.(*types.Slice); ok && fIsB && fb.Info()&types.IsString != 0 {
		b := x.strBytes(v)
		if x.tc.layout(ts.Elem()).Leaves[0].W != 8 {
			var rs []rune
			s := v.(*Str)
			if s.Sym != nil {
				panic(unsupported("runes of symbolic string"))
			}
			rs = []rune(s.S)
			o := x.allocArray(fr.st, "[]rune", ts.Elem(), int64(len(rs)))
			for i, r := range rs {
				x.setCell(fr.st, o, i, C.Const(uint64(r), 32))
			}
			n := C.Const(uint64(len(rs)), 64)
			return &Slice{P: &Ptr{Obj: o}, Len: n, Cap: n}
		}
		return x.newBytes(fr.st, b)
	}
	if tIsB && fIsB {
		tw, _, tk := basicWidth(tb)
		_, _, fk := basicWidth(fb)
		switch {
		case fk == KInt && tk == KInt:
			if _, isP := v.(*Ptr); isP {
				return v
			}
			t := x.intOf(v)
			switch {
			case t.W == tw:
				return t
			case t.W > tw:
				return C.Extract(t, tw-1, 0)
			case isSigned(from):
				return C.SExt(t, tw)
			}
			return C.ZExt(t, tw)
		case fk == KInt && tk == KFloat:
			t := x.intOf(v)
			if !t.IsConst() {
				panic(unsupported("symbolic integer to float"))
			}
			var f float64
			if isSigned(from) {
				f = float64(t.S64())
			} else {
				f = float64(t.U64())
			}
			if tb.Kind() == types.Float32 {
				f = float64(float32(f))
			}
			return Float(f)
		case fk == KFloat && tk == KInt:
			f := float64(v.(Float))
			if isSigned(to) {
				return C.Const(uint64(int64(f)), tw)
			}
			if f >= math.Pow(2, 63) {
				return C.Const(uint64(f), tw)
			}
			return C.Const(uint64(int64(f)), tw)
		case fk == KFloat && tk == KFloat:
			if tb.Kind() == types.Float32 {
				return Float(float32(v.(Float)))
			}
			return v
		}
	}
	if types.Identical(fu, tu) {
		return v
	}
	switch v.(type) {
	case *Ptr, *Func, *MapRef:
		return v
	}
	panic(unsupported("conversion %s -> %s", from, to))
}

// bytesOf lists the byte terms of a slice with constant length.
func (x *Exec) bytesOf(st *State, s *Slice) []*term.Term {
	return x.elemsOf(st, s, Leaf{Size: 1, Kind: KInt, W: 8}, 1)
}

func (x *Exec) elemsOf(st *State, s *Slice, lf Leaf, esz int64) []*term.Term {
	if !s.Len.IsConst() {
		panic(unsupported("symbolic length where a constant one is needed"))
	}
	n := int64(s.Len.U64())
	out := make([]*term.Term, n)
	for i := range out {
		v := x.loadLeaf(st, s.P, int64(i)*esz, lf)
		t, ok := v.(*term.Term)
		if !ok {
			panic(unsupported("non-integer element"))
		}
		out[i] = t
	}
	return out
}

var byteType = types.Typ[types.Uint8]

func (x *Exec) newBytes(st *State, b []*term.Term) *Slice {
	o := x.allocArray(st, "[]byte", byteType, int64(len(b)))
	c := st.heap.m[o]
	for i, t := range b {
		if c.dense != nil {
			c.dense[i] = t
		} else {
			c.sparse[int64(i)] = t
		}
	}
	n := x.C.Const(uint64(len(b)), 64)
	return &Slice{P: &Ptr{Obj: o}, Len: n, Cap: n}
}

func (x *Exec) putBytes(st *State, s *Slice, off int64, b []*term.Term) {
	for i, t := range b {
		x.storeLeaf(st, s.P, off+int64(i), Leaf{Size: 1, Kind: KInt, W: 8}, t, nil)
	}
}

// ---- interfaces ----

func (x *Exec) typeAssert(fr *Frame, i *ssa.TypeAssert) (Value, bool) {
	v := x.get(fr, i.X)
	match := func(f *Iface) (bool, Value) {
		if f.T == nil {
			return false, nil
		}
		if it, ok := i.AssertedType.Underlying().(*types.Interface); ok {
			if types.Implements(f.T, it) {
				return true, f
			}
			return false, nil
		}
		if types.Identical(f.T, i.AssertedType) {
			return true, f.V
		}
		return false, nil
	}
	var ok *term.Term
	var res Value
	zero := x.zeroValue(i.AssertedType)
	switch p := v.(type) {
	case *Iface:
		m, r := match(p)
		ok = x.C.Bool(m)
		res = r
		if !m {
			res = zero
		}
	case *Union:
		ok = x.C.False
		for k := len(p.A) - 1; k >= 0; k-- {
			m, r := match(p.A[k].V.(*Iface))
			if m {
				ok = x.C.BOr(ok, p.A[k].G)
			} else {
				r = zero
			}
			if res == nil {
				res = r
			} else {
				res = x.merge(p.A[k].G, r, res)
			}
		}
	default:
		panic(unsupported("type assertion on %T", v))
	}
	if i.CommaOk {
		return &Tuple{V: []Value{res, ok}}, true
	}
	if !x.require(fr, ok, "interface conversion", i.Pos()) {
		return nil, false
	}
	return res, true
}

// ---- maps ----

type rangeIter struct {
	entries []mapEntry
	str     []rune
	pos     []int
}
type iterRef struct{ o *Object }

func (x *Exec) mapOf(v Value) *MapRef {
	m, ok := v.(*MapRef)
	if !ok {
		panic(unsupported("map from %T", v))
	}
	return m
}

func (x *Exec) lookup(fr *Frame, i *ssa.Lookup) (Value, bool) {
	m := x.mapOf(x.get(fr, i.X))
	mt := i.X.Type().Underlying().(*types.Map)
	key := x.get(fr, i.Index)
	res := x.zeroValue(mt.Elem())
	ok := x.C.False
	if m.Obj != nil {
		x.noteRead(fr.st, m.Obj, 0)
		c := x.native(fr.st, m.Obj).(*mapContent)
		for _, e := range c.E {
			g := x.C.BAnd(e.Present, x.equal(fr, e.K, key, mt.Key()))
			if g.IsFalse() {
				continue
			}
			res = x.merge(g, e.V, res)
			ok = x.C.BOr(ok, g)
		}
	}
	if i.CommaOk {
		return &Tuple{V: []Value{res, ok}}, true
	}
	return res, true
}

func (x *Exec) mapUpdate(fr *Frame, mv, k, v Value, pos token.Pos) bool {
	m := x.mapOf(mv)
	if m.Obj == nil {
		return x.require(fr, x.C.False, "assignment to entry in nil map", pos)
	}
	c := x.native(fr.st, m.Obj).(*mapContent)
	n := &mapContent{}
	done := x.C.False
	for _, e := range c.E {
		g := x.C.BAnd(e.Present, x.equal(fr, e.K, k, nil))
		if !g.IsFalse() {
			e.V = x.merge(g, v, e.V)
			done = x.C.BOr(done, g)
		}
		if !e.Present.IsFalse() {
			n.E = append(n.E, e)
		}
	}
	if !done.IsTrue() {
		n.E = append(n.E, mapEntry{k, x.C.BNot(done), v})
	}
	x.setNative(fr.st, m.Obj, n)
	return true
}

func (x *Exec) mapDelete(fr *Frame, mv, k Value) {
	m := x.mapOf(mv)
	if m.Obj == nil {
		return
	}
	c := x.native(fr.st, m.Obj).(*mapContent)
	n := &mapContent{}
	for _, e := range c.E {
		e.Present = x.C.BAnd(e.Present, x.C.BNot(x.equal(fr, e.K, k, nil)))
		if !e.Present.IsFalse() {
			n.E = append(n.E, e)
		}
	}
	x.setNative(fr.st, m.Obj, n)
}

func (x *Exec) mapLen(st *State, m *MapRef) *term.Term {
	if m.Obj == nil {
		return x.zero64
	}
	x.noteRead(st, m.Obj, 0)
	c := x.native(st, m.Obj).(*mapContent)
	s := x.zero64
	for _, e := range c.E {
		s = x.C.Add(s, x.C.Ite(e.Present, x.C.Const(1, 64), x.zero64))
	}
	return s
}

func (x *Exec) makeRange(fr *Frame, v Value) Value {
	it := &rangeIter{}
	switch p := v.(type) {
	case *Str:
		if p.Sym != nil || p.Opq != "" {
			panic(unsupported("range over symbolic string"))
		}
		for i, r := range p.S {
			it.pos = append(it.pos, i)
			it.str = append(it.str, r)
		}
	case *MapRef:
		if p.Obj != nil {
			x.noteRead(fr.st, p.Obj, 0)
			c := x.native(fr.st, p.Obj).(*mapContent)
			it.entries = append(it.entries, c.E...)
			for _, e := range it.entries {
				if !e.Present.IsTrue() {
					panic(unsupported("range over map with symbolic membership"))
				}
			}
			// iteration order is unspecified: pick a fixed permutation per run
			if x.MapOrder > 0 && len(it.entries) > 1 {
				sort.SliceStable(it.entries, func(i, j int) bool { return false })
				if x.MapOrder%2 == 1 {
					for i, j := 0, len(it.entries)-1; i < j; i, j = i+1, j-1 {
						it.entries[i], it.entries[j] = it.entries[j], it.entries[i]
					}
				}
			}
		}
	default:
		panic(unsupported("range over %T", v))
	}
	return &iterRef{x.allocNative(fr.st, "iter", it)}
}

func (x *Exec) next(fr *Frame, i *ssa.Next) Value {
	r := x.get(fr, i.Iter).(*iterRef)
	it := x.native(fr.st, r.o).(*rangeIter)
	tt := i.Type().(*types.Tuple)
	if i.IsString {
		if len(it.str) == 0 {
			return &Tuple{V: []Value{x.C.False, x.zero64, x.C.Const(0, 32)}}
		}
		x.setNative(fr.st, r.o, &rangeIter{str: it.str[1:], pos: it.pos[1:]})
		return &Tuple{V: []Value{x.C.True, x.C.Const(uint64(it.pos[0]), 64), x.C.Const(uint64(it.str[0]), 32)}}
	}
	if len(it.entries) == 0 {
		z := func(k int) Value {
			t := tt.At(k).Type()
			if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
				return x.zero64
			}
			return x.zeroValue(t)
		}
		return &Tuple{V: []Value{x.C.False, z(1), z(2)}}
	}
	e := it.entries[0]
	x.setNative(fr.st, r.o, &rangeIter{entries: it.entries[1:]})
	return &Tuple{V: []Value{x.C.True, e.K, e.V}}
}

type spawned struct {
	fn   Value
	args []Value
}
type spawnList struct{ L []spawned }

func (x *Exec) spawn(st *State, fn Value, args []Value) {
	l := x.native(st, x.spawnObj).(*spawnList)
	n := &spawnList{L: append(l.L[:len(l.L):len(l.L)], spawned{fn, args})}
	x.setNative(st, x.spawnObj, n)
}

func (x *Exec) makeChan(fr *Frame, i *ssa.MakeChan) Value { panic(unsupported("channels")) }
