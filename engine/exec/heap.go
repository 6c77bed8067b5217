package exec

import (
	"fmt"
	"go/types"

	"verifengine/term"
)

const sparseLimit = 1 << 16

func (x *Exec) zeroLeaf(lf Leaf) Value {
	switch lf.Kind {
	case KInt:
		return x.C.Const(0, lf.W)
	case KBool:
		return x.C.False
	case KFloat:
		return Float(0)
	case KString:
		return &Str{}
	case KPtr:
		return nilPtr
	case KSlice:
		return &Slice{P: nilPtr, Len: x.zero64, Cap: x.zero64}
	case KIface:
		return &Iface{}
	case KFunc:
		return &Func{}
	case KMap:
		return &MapRef{}
	case KBig:
		return &BigNat{x.C.Const(0, 1)}
	case KChan:
		return nilPtr
	}
	return nil
}

func (x *Exec) zeroValue(t types.Type) Value {
	if tt, ok := t.(*types.Tuple); ok {
		tu := &Tuple{}
		for i := 0; i < tt.Len(); i++ {
			tu.V = append(tu.V, x.zeroValue(tt.At(i).Type()))
		}
		return tu
	}
	l := x.tc.layout(t)
	if isAgg(t) {
		a := &Agg{L: make([]Value, l.N())}
		for i := range a.L {
			lf, _ := l.leaf(i)
			a.L[i] = x.zeroLeaf(lf)
		}
		return a
	}
	return x.zeroLeaf(l.Leaves[0])
}

// alloc creates an object holding count repetitions of layout l's units.
func (x *Exec) alloc(st *State, name string, lay *Layout, count int64) *Object {
	x.nobj++
	o := &Object{ID: x.nobj, Name: name, Lay: lay, Count: count, Size: lay.Unit * count, Init: x.inInit, Epoch: x.epoch}
	c := &Content{owner: st.heap}
	n := count * int64(len(lay.Leaves))
	if n > sparseLimit {
		c.sparse = map[int64]Value{}
	} else {
		c.dense = make([]Value, n)
		if len(lay.Leaves) == 1 {
			if n > 0 {
				z := x.zeroLeaf(lay.Leaves[0])
				for i := range c.dense {
					c.dense[i] = z
				}
			}
		} else {
			zs := make([]Value, len(lay.Leaves))
			for i, lf := range lay.Leaves {
				zs[i] = x.zeroLeaf(lf)
			}
			for i := range c.dense {
				c.dense[i] = zs[i%len(zs)]
			}
		}
	}
	st.heap.m[o] = c
	return o
}

func (x *Exec) allocType(st *State, name string, t types.Type) *Object {
	l := x.tc.layout(t)
	return x.alloc(st, name, l, l.Count)
}

// allocArray makes an array object of n elements of type elem.
func (x *Exec) allocArray(st *State, name string, elem types.Type, n int64) *Object {
	return x.alloc(st, name, x.arrayLayout(elem), n*x.unitsPer(elem))
}

func (x *Exec) arrayLayout(elem types.Type) *Layout {
	e := x.tc.layout(elem)
	if len(e.Leaves) == 0 {
		return e
	}
	if e.Unit*e.Count == e.Size {
		return e
	}
	return &Layout{Unit: e.Size, Leaves: expand(e), Count: 1, Size: e.Size}
}
func (x *Exec) unitsPer(elem types.Type) int64 {
	e := x.tc.layout(elem)
	if e.Unit != 0 && e.Unit*e.Count == e.Size {
		return e.Count
	}
	return 1
}

// allocNative makes a one-cell object holding a model value.
func (x *Exec) allocNative(st *State, name string, v Value) *Object {
	x.nobj++
	o := &Object{ID: x.nobj, Name: name, Lay: &Layout{Unit: 8, Leaves: []Leaf{{Size: 8, Kind: KOpaque}}, Count: 1, Size: 8}, Count: 1, Size: 8, Init: x.inInit, Epoch: x.epoch}
	st.heap.m[o] = &Content{owner: st.heap, dense: []Value{v}}
	return o
}

func (x *Exec) native(st *State, o *Object) Value {
	c := st.heap.get(o)
	if c == nil {
		panic(unsupported("no content for %s", o.Name))
	}
	return c.dense[0]
}
func (x *Exec) setNative(st *State, o *Object, v Value) {
	x.noteWrite(st, o, 0)
	st.heap.wr(o).dense[0] = v
}

func (x *Exec) cell(st *State, o *Object, i int) Value {
	c := st.heap.get(o)
	if c == nil {
		panic(unsupported("no content for %s", o.Name))
	}
	if o.Lazy != "" {
		return x.lazyCell(c, o, x.C.Const(uint64(i), 64))
	}
	if c.dense != nil {
		return c.dense[i]
	}
	if v, ok := c.sparse[int64(i)]; ok {
		return v
	}
	lf, _ := o.Lay.leaf(i)
	return x.zeroLeaf(lf)
}

func (x *Exec) lazyCell(c *Content, o *Object, idx *term.Term) Value {
	v := x.C.App("mem:"+o.Lazy, o.LazyW, idx)
	for _, ov := range c.over {
		v = x.C.Ite(x.C.Eq(ov.idx, idx), ov.val, v)
	}
	return v
}

func (x *Exec) setCell(st *State, o *Object, i int, v Value) {
	x.noteWrite(st, o, i)
	c := st.heap.wr(o)
	if o.Lazy != "" {
		c.over = append(c.over, overlay{x.C.Const(uint64(i), 64), v.(*term.Term)})
		return
	}
	if c.dense != nil {
		c.dense[i] = v
		return
	}
	c.sparse[int64(i)] = v
}

func (x *Exec) noteWrite(st *State, o *Object, cell int) {
	if x.inInit {
		return
	}
	if o.Frozen || (x.frozenEpoch > 0 && o.Epoch < x.frozenEpoch) {
		x.frozenWrite(st, o, cell)
	}
}

// ---- reading ----

func (x *Exec) load(st *State, p Value, t types.Type) Value {
	switch q := p.(type) {
	case *Union:
		return x.mapUnion(st, q, func(v Value) Value { return x.load(st, v, t) })
	case *Ptr:
		return x.loadPtr(st, q, t)
	}
	panic(unsupported("load through %T", p))
}

func (x *Exec) loadPtr(st *State, p *Ptr, t types.Type) Value {
	if p.Obj == nil {
		panic(unsupported("load through nil"))
	}
	l := x.tc.layout(t)
	if isAgg(t) {
		a := &Agg{L: make([]Value, l.N())}
		for i := range a.L {
			lf, off := l.leaf(i)
			a.L[i] = x.loadLeaf(st, p, off, lf)
		}
		return a
	}
	return x.loadLeaf(st, p, 0, l.Leaves[0])
}

func (x *Exec) loadLeaf(st *State, p *Ptr, off int64, lf Leaf) Value {
	if p.Idx == nil {
		return x.loadAt(st, p.Obj, p.Off+off, lf)
	}
	o := p.Obj
	if o.Lazy != "" {
		return x.loadLazy(st, p, off, lf)
	}
	lo, hi := x.idxRange(p, off, lf.Size)
	if hi < lo {
		panic(unsupported("symbolic load with empty range in %s", o.Name))
	}
	if hi-lo > 70000 {
		panic(unsupported("symbolic load range %d in %s", hi-lo, o.Name))
	}
	vals := make([]Value, hi-lo+1)
	terms := true
	for i := lo; i <= hi; i++ {
		v := x.loadAtMaybe(st, o, p.Off+off+int64(i)*p.Stride, lf)
		vals[i-lo] = v
		if v != nil {
			if _, ok := v.(*term.Term); !ok {
				terms = false
			}
		}
	}
	if terms {
		ts := make([]*term.Term, len(vals))
		var def *term.Term
		for i, v := range vals {
			if v != nil {
				ts[i] = v.(*term.Term)
				def = ts[i]
			}
		}
		if def == nil {
			panic(unsupported("symbolic load without candidates"))
		}
		return x.selectTree(ts, p.Idx, lo)
	}
	var res Value
	for i := len(vals) - 1; i >= 0; i-- {
		if vals[i] == nil {
			continue
		}
		if res == nil {
			res = vals[i]
			continue
		}
		res = x.merge(x.C.Eq(p.Idx, x.C.Const(lo+uint64(i), 64)), vals[i], res)
	}
	return res
}

// idxRange bounds the symbolic index so that the access stays inside the object.
func (x *Exec) idxRange(p *Ptr, off, size int64) (lo, hi uint64) {
	lo, hi = p.Idx.RangeLo(), p.Idx.RangeHi()
	base := p.Off + off
	max := (p.Obj.Size - size - base)
	if max < 0 {
		return 1, 0
	}
	m := uint64(max / p.Stride)
	if hi > m {
		hi = m
	}
	if base < 0 {
		l := uint64((-base + p.Stride - 1) / p.Stride)
		if lo < l {
			lo = l
		}
	}
	return
}

// selectTree builds an ite tree over the bits of idx for values at lo..lo+len-1 (nil = don't care).
func (x *Exec) selectTree(vals []*term.Term, idx *term.Term, lo uint64) *term.Term {
	n := uint64(len(vals))
	hi := lo + n - 1
	nb := int32(0)
	for (hi >> uint(nb)) != 0 {
		nb++
	}
	var rec func(b int32, base uint64) *term.Term
	memo := map[[2]uint64]*term.Term{}
	rec = func(b int32, base uint64) *term.Term {
		// covers indices base .. base+2^b-1
		if base > hi || base+(uint64(1)<<uint(b))-1 < lo {
			return nil
		}
		if b == 0 {
			return vals[base-lo]
		}
		k := [2]uint64{uint64(b), base}
		if r, ok := memo[k]; ok {
			return r
		}
		l := rec(b-1, base)
		r := rec(b-1, base+(uint64(1)<<uint(b-1)))
		var res *term.Term
		switch {
		case l == nil:
			res = r
		case r == nil || l == r:
			res = l
		default:
			bit := x.C.Extract(idx, b-1, b-1)
			res = x.C.Ite(x.C.Eq(bit, x.C.Const(1, 1)), r, l)
		}
		memo[k] = res
		return res
	}
	return rec(nb, 0)
}

func (x *Exec) loadLazy(st *State, p *Ptr, off int64, lf Leaf) Value {
	o := p.Obj
	cs := o.Lay.Unit
	base := p.Off + off
	if lf.Kind != KInt {
		panic(unsupported("lazy load of kind %d", lf.Kind))
	}
	// cell index of the access
	var ci *term.Term
	within := int64(0)
	switch {
	case p.Stride%cs == 0:
		k := p.Stride / cs
		ci = x.C.Mul(p.Idx, x.C.Const(uint64(k), 64))
		ci = x.C.Add(ci, x.C.Const(uint64(base/cs), 64))
		within = base % cs
	default:
		addr := x.C.Add(x.C.Mul(p.Idx, x.C.Const(uint64(p.Stride), 64)), x.C.Const(uint64(base), 64))
		rem := x.C.URem(addr, x.C.Const(uint64(cs), 64))
		if !rem.IsConst() {
			// byte-granular: choose among positions
			ci = x.C.UDiv(addr, x.C.Const(uint64(cs), 64))
			c := st.heap.get(o)
			wide := x.lazyCell(c, o, ci).(*term.Term)
			nxt := x.lazyCell(c, o, x.C.Add(ci, x.C.Const(1, 64))).(*term.Term)
			both := x.C.Concat(nxt, wide)
			sh := x.C.Mul(rem, x.C.Const(8, 64))
			r := x.C.Lshr(both, x.C.Extract(x.C.ZExt(sh, maxw(64, both.W)), both.W-1, 0))
			return x.C.Extract(r, int32(lf.Size*8)-1, 0)
		}
		ci = x.C.UDiv(addr, x.C.Const(uint64(cs), 64))
		within = int64(rem.U64())
	}
	c := st.heap.get(o)
	var out *term.Term
	remain := lf.Size
	for remain > 0 {
		v := x.lazyCell(c, o, ci).(*term.Term)
		n := cs - within
		if n > remain {
			n = remain
		}
		piece := x.C.Extract(v, int32((within+n)*8-1), int32(within*8))
		if out == nil {
			out = piece
		} else {
			out = x.C.Concat(piece, out)
		}
		remain -= n
		within = 0
		ci = x.C.Add(ci, x.C.Const(1, 64))
	}
	return out
}

func maxw(a, b int32) int32 {
	if a > b {
		return a
	}
	return b
}

func (x *Exec) loadAtMaybe(st *State, o *Object, off int64, lf Leaf) Value {
	i, ok := o.Lay.find(off, o.Count)
	if !ok {
		return nil
	}
	clf, coff := o.Lay.leaf(i)
	if coff == off && clf.Size == lf.Size {
		return x.cell(st, o, i)
	}
	if clf.Kind == KInt && lf.Kind == KInt {
		return x.loadAt(st, o, off, lf)
	}
	return nil
}

func (x *Exec) loadAt(st *State, o *Object, off int64, lf Leaf) Value {
	i, ok := o.Lay.find(off, o.Count)
	if !ok {
		panic(unsupported("load at offset %d outside %s (size %d)", off, o.Name, o.Size))
	}
	clf, coff := o.Lay.leaf(i)
	x.noteRead(st, o, i)
	if coff == off && clf.Size == lf.Size {
		return x.cell(st, o, i)
	}
	v := x.cell(st, o, i)
	// reflect.SliceHeader view of a slice
	if clf.Kind == KSlice {
		s, ok := v.(*Slice)
		if !ok {
			panic(unsupported("slice header view of %T", v))
		}
		switch off - coff {
		case 0:
			return s.P
		case 8:
			return s.Len
		case 16:
			return s.Cap
		}
	}
	if lf.Kind == KSlice {
		l, ok1 := o.Lay.find(off+8, o.Count)
		c, ok2 := o.Lay.find(off+16, o.Count)
		if ok1 && ok2 {
			p, okp := v.(*Ptr)
			lt, okl := x.cell(st, o, l).(*term.Term)
			ct, okc := x.cell(st, o, c).(*term.Term)
			if !okp {
				if z, isT := v.(*term.Term); isT && z.IsZero() {
					p, okp = nilPtr, true
				}
			}
			if okp && okl && okc {
				return &Slice{P: p, Len: lt, Cap: ct}
			}
		}
	}
	if lf.Kind != KInt {
		panic(unsupported("reinterpreting load of kind %d from kind %d in %s", lf.Kind, clf.Kind, o.Name))
	}
	var out *term.Term
	remain := lf.Size
	for remain > 0 {
		i, ok := o.Lay.find(off, o.Count)
		if !ok {
			panic(unsupported("load at offset %d outside %s", off, o.Name))
		}
		clf, coff := o.Lay.leaf(i)
		v, okv := x.cell(st, o, i).(*term.Term)
		if !okv || clf.Kind != KInt {
			panic(unsupported("byte view of non-integer in %s", o.Name))
		}
		n := coff + clf.Size - off
		if n > remain {
			n = remain
		}
		piece := x.C.Extract(v, int32((off-coff+n)*8-1), int32((off-coff)*8))
		if out == nil {
			out = piece
		} else {
			out = x.C.Concat(piece, out)
		}
		off += n
		remain -= n
	}
	return out
}

// ---- writing ----

func (x *Exec) store(st *State, p Value, v Value, t types.Type) {
	switch q := p.(type) {
	case *Union:
		for _, a := range q.A {
			if pp, ok := a.V.(*Ptr); ok && pp.Obj == nil {
				continue
			}
			x.storeCond(st, a.V.(*Ptr), v, t, a.G)
		}
		return
	case *Ptr:
		x.storeCond(st, q, v, t, nil)
		return
	}
	panic(unsupported("store through %T", p))
}

func (x *Exec) storeCond(st *State, p *Ptr, v Value, t types.Type, g *term.Term) {
	if p.Obj == nil {
		panic(unsupported("store through nil"))
	}
	l := x.tc.layout(t)
	if isAgg(t) {
		a, ok := v.(*Agg)
		if !ok {
			if u, isU := v.(*Union); isU {
				a = x.flattenAggUnion(u)
			} else {
				panic(unsupported("store aggregate from %T", v))
			}
		}
		for i := range a.L {
			lf, off := l.leaf(i)
			x.storeLeaf(st, p, off, lf, a.L[i], g)
		}
		return
	}
	x.storeLeaf(st, p, 0, l.Leaves[0], v, g)
}

func (x *Exec) flattenAggUnion(u *Union) *Agg {
	res := u.A[len(u.A)-1].V.(*Agg)
	for i := len(u.A) - 2; i >= 0; i-- {
		res = x.merge(u.A[i].G, u.A[i].V, res).(*Agg)
	}
	return res
}

func (x *Exec) storeLeaf(st *State, p *Ptr, off int64, lf Leaf, v Value, g *term.Term) {
	o := p.Obj
	if p.Idx == nil {
		x.storeAt(st, o, p.Off+off, lf, v, g)
		return
	}
	if o.Lazy != "" {
		cs := o.Lay.Unit
		if p.Stride%cs == 0 && (p.Off+off)%cs == 0 && lf.Size == cs {
			ci := x.C.Add(x.C.Mul(p.Idx, x.C.Const(uint64(p.Stride/cs), 64)), x.C.Const(uint64((p.Off+off)/cs), 64))
			x.noteWrite(st, o, -1)
			c := st.heap.wr(o)
			nv := v.(*term.Term)
			if g != nil {
				nv = x.C.Ite(g, nv, x.lazyCell(c, o, ci).(*term.Term))
			}
			c.over = append(c.over, overlay{ci, nv})
			return
		}
		panic(unsupported("lazy symbolic store"))
	}
	lo, hi := x.idxRange(p, off, lf.Size)
	if hi-lo > 5000 && hi >= lo {
		panic(unsupported("symbolic store range %d in %s", hi-lo, o.Name))
	}
	for i := lo; i <= hi; i++ {
		cond := x.C.Eq(p.Idx, x.C.Const(i, 64))
		if cond.IsFalse() {
			continue
		}
		if g != nil {
			cond = x.C.BAnd(cond, g)
		}
		a := p.Off + off + int64(i)*p.Stride
		if j, ok := o.Lay.find(a, o.Count); ok {
			clf, coff := o.Lay.leaf(j)
			if (coff == a && clf.Size == lf.Size) || (clf.Kind == KInt && lf.Kind == KInt) {
				x.storeAt(st, o, a, lf, v, cond)
			}
		}
	}
}

func (x *Exec) storeAt(st *State, o *Object, off int64, lf Leaf, v Value, g *term.Term) {
	if g != nil {
		if g.IsFalse() {
			return
		}
		if g.IsTrue() {
			g = nil
		}
	}
	i, ok := o.Lay.find(off, o.Count)
	if !ok {
		panic(unsupported("store at offset %d outside %s (size %d)", off, o.Name, o.Size))
	}
	clf, coff := o.Lay.leaf(i)
	if coff == off && clf.Size == lf.Size {
		if g != nil {
			v = x.merge(g, v, x.cell(st, o, i))
		}
		x.setCell(st, o, i, v)
		return
	}
	if clf.Kind == KSlice && g == nil {
		s, ok := x.cell(st, o, i).(*Slice)
		if ok {
			n := *s
			switch off - coff {
			case 0:
				if q, ok := v.(*Ptr); ok {
					n.P = q
				} else {
					panic(unsupported("slice header data from %T", v))
				}
			case 8:
				n.Len = v.(*term.Term)
			case 16:
				n.Cap = v.(*term.Term)
			}
			x.setCell(st, o, i, &n)
			return
		}
	}
	if lf.Kind != KInt {
		panic(unsupported("reinterpreting store of kind %d in %s", lf.Kind, o.Name))
	}
	tv, ok := v.(*term.Term)
	if !ok {
		panic(unsupported("byte view store of %T", v))
	}
	remain := lf.Size
	pos := int64(0)
	for remain > 0 {
		i, ok := o.Lay.find(off, o.Count)
		if !ok {
			panic(unsupported("store at offset %d outside %s", off, o.Name))
		}
		clf, coff := o.Lay.leaf(i)
		old, okv := x.cell(st, o, i).(*term.Term)
		if !okv || clf.Kind != KInt {
			panic(unsupported("byte view store into non-integer in %s", o.Name))
		}
		n := coff + clf.Size - off
		if n > remain {
			n = remain
		}
		piece := x.C.Extract(tv, int32((pos+n)*8-1), int32(pos*8))
		s, e := int32((off-coff)*8), int32((off-coff+n)*8)
		var parts []*term.Term
		if e < old.W {
			parts = append(parts, x.C.Extract(old, old.W-1, e))
		}
		parts = append(parts, piece)
		if s > 0 {
			parts = append(parts, x.C.Extract(old, s-1, 0))
		}
		nv := x.C.ConcatN(parts)
		if g != nil {
			nv = x.C.Ite(g, nv, old)
		}
		x.setCell(st, o, i, nv)
		off += n
		pos += n
		remain -= n
	}
}

// ---- pointer arithmetic ----

func (x *Exec) ptrAdd(p *Ptr, idx *term.Term, esz int64) *Ptr {
	if idx.IsConst() {
		if idx.IsZero() {
			return p
		}
		q := *p
		q.Off += int64(idx.U64()) * esz
		return &q
	}
	// pull a constant addend out of idx
	q := *p
	if idx.Op == term.OAdd {
		for _, a := range idx.Args {
			if a.IsConst() && int64(a.C) > -(1<<40) && int64(a.C) < 1<<40 {
				rest := x.C.Sub(idx, a)
				// only when no wraparound can confuse the range reasoning
				_ = rest
			}
		}
	}
	if q.Idx == nil {
		q.Idx, q.Stride = idx, esz
		return &q
	}
	switch {
	case q.Stride == esz:
		q.Idx = x.C.Add(q.Idx, idx)
	case esz != 0 && q.Stride%esz == 0:
		q.Idx = x.C.Add(x.C.Mul(q.Idx, x.C.Const(uint64(q.Stride/esz), 64)), idx)
		q.Stride = esz
	case q.Stride != 0 && esz%q.Stride == 0:
		q.Idx = x.C.Add(q.Idx, x.C.Mul(idx, x.C.Const(uint64(esz/q.Stride), 64)))
	default:
		q.Idx = x.C.Add(x.C.Mul(q.Idx, x.C.Const(uint64(q.Stride), 64)), x.C.Mul(idx, x.C.Const(uint64(esz), 64)))
		q.Stride = 1
	}
	if q.Idx.IsConst() {
		q.Off += int64(q.Idx.U64()) * q.Stride
		q.Idx = nil
		q.Stride = 0
	}
	return &q
}

func gcd(a, b int64) int64 {
	if a < 0 {
		a = -a
	}
	if b < 0 {
		b = -b
	}
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// ---- merging ----

func (x *Exec) merge(g *term.Term, a, b Value) Value {
	if a == b {
		return a
	}
	if g.IsTrue() {
		return a
	}
	if g.IsFalse() {
		return b
	}
	if a == nil || b == nil {
		return nil
	}
	switch p := a.(type) {
	case *term.Term:
		if q, ok := b.(*term.Term); ok && p.W == q.W {
			return x.C.Ite(g, p, q)
		}
	case Float:
		if q, ok := b.(Float); ok && p == q {
			return a
		}
	case *Str:
		if q, ok := b.(*Str); ok && p.Sym == nil && q.Sym == nil && p.S == q.S && p.Opq == q.Opq {
			return a
		}
	case *Ptr:
		if q, ok := b.(*Ptr); ok && p.Obj == q.Obj {
			if r := x.mergePtr(g, p, q); r != nil {
				return r
			}
		}
	case *Slice:
		if q, ok := b.(*Slice); ok && p.P.Obj == q.P.Obj {
			if r := x.mergePtr(g, p.P, q.P); r != nil {
				return &Slice{P: r, Len: x.C.Ite(g, p.Len, q.Len), Cap: x.C.Ite(g, p.Cap, q.Cap)}
			}
		}
	case *Agg:
		if q, ok := b.(*Agg); ok && len(p.L) == len(q.L) {
			r := &Agg{L: make([]Value, len(p.L))}
			for i := range p.L {
				r.L[i] = x.merge(g, p.L[i], q.L[i])
			}
			return r
		}
	case *Tuple:
		if q, ok := b.(*Tuple); ok && len(p.V) == len(q.V) {
			r := &Tuple{V: make([]Value, len(p.V))}
			for i := range p.V {
				r.V[i] = x.merge(g, p.V[i], q.V[i])
			}
			return r
		}
	case *Iface:
		if q, ok := b.(*Iface); ok && p.T != nil && q.T != nil && types.Identical(p.T, q.T) {
			if v := x.merge(g, p.V, q.V); v != nil {
				return &Iface{T: p.T, V: v}
			}
		} else if ok && p.T == nil && q.T == nil {
			return a
		}
	case *Func:
		if q, ok := b.(*Func); ok && p.Fn == q.Fn && p.Builtin == q.Builtin && len(p.Binds) == len(q.Binds) {
			r := &Func{Fn: p.Fn, Builtin: p.Builtin}
			for i := range p.Binds {
				r.Binds = append(r.Binds, x.merge(g, p.Binds[i], q.Binds[i]))
			}
			return r
		}
	case *MapRef:
		if q, ok := b.(*MapRef); ok && p.Obj == q.Obj {
			return a
		}
	case *BigNat:
		if q, ok := b.(*BigNat); ok {
			w := maxw(p.T.W, q.T.W)
			return &BigNat{x.C.Ite(g, x.C.ZExt(p.T, w), x.C.ZExt(q.T, w))}
		}
	case *mapContent:
		if q, ok := b.(*mapContent); ok {
			return x.mergeMap(g, p, q)
		}
	case mergeable:
		if r := p.mergeWith(x, g, b); r != nil {
			return r
		}
	}
	return x.unionOf(g, a, b)
}

type mergeable interface {
	mergeWith(x *Exec, g *term.Term, o Value) Value
}

func (x *Exec) unionOf(g *term.Term, a, b Value) Value {
	u := &Union{}
	add := func(g *term.Term, v Value) {
		if g.IsFalse() {
			return
		}
		for i, e := range u.A {
			if e.V == v || x.sameVal(e.V, v) {
				u.A[i].G = x.C.BOr(e.G, g)
				return
			}
		}
		u.A = append(u.A, Alt{g, v})
	}
	each := func(g *term.Term, v Value) {
		if q, ok := v.(*Union); ok {
			for _, e := range q.A {
				add(x.C.BAnd(g, e.G), e.V)
			}
			return
		}
		add(g, v)
	}
	each(g, a)
	each(x.C.BNot(g), b)
	if len(u.A) == 1 {
		return u.A[0].V
	}
	// try merging compatible alternatives (same object) to keep unions small
	for i := 0; i < len(u.A); i++ {
		for j := i + 1; j < len(u.A); j++ {
			if x.canMerge(u.A[i].V, u.A[j].V) {
				m := x.merge(u.A[i].G, u.A[i].V, u.A[j].V)
				if _, isU := m.(*Union); !isU {
					u.A[i] = Alt{x.C.BOr(u.A[i].G, u.A[j].G), m}
					u.A = append(u.A[:j], u.A[j+1:]...)
					j--
				}
			}
		}
	}
	if len(u.A) == 1 {
		return u.A[0].V
	}
	return u
}

func (x *Exec) canMerge(a, b Value) bool {
	switch p := a.(type) {
	case *Ptr:
		q, ok := b.(*Ptr)
		return ok && p.Obj == q.Obj
	case *Slice:
		q, ok := b.(*Slice)
		return ok && p.P.Obj == q.P.Obj
	case *Iface:
		q, ok := b.(*Iface)
		return ok && p.T != nil && q.T != nil && types.Identical(p.T, q.T) && (p.V == q.V || x.canMerge(p.V, q.V))
	case *term.Term:
		_, ok := b.(*term.Term)
		return ok
	}
	return false
}

func (x *Exec) sameVal(a, b Value) bool {
	switch p := a.(type) {
	case *Ptr:
		q, ok := b.(*Ptr)
		return ok && *p == *q
	case *Slice:
		q, ok := b.(*Slice)
		return ok && *p.P == *q.P && p.Len == q.Len && p.Cap == q.Cap
	case *Iface:
		q, ok := b.(*Iface)
		if !ok || (p.T == nil) != (q.T == nil) {
			return false
		}
		if p.T == nil {
			return true
		}
		return types.Identical(p.T, q.T) && (p.V == q.V || x.sameVal(p.V, q.V))
	case *Str:
		q, ok := b.(*Str)
		return ok && p.Sym == nil && q.Sym == nil && p.S == q.S && p.Opq == q.Opq
	case *Func:
		q, ok := b.(*Func)
		return ok && p.Fn == q.Fn && len(p.Binds) == 0 && len(q.Binds) == 0 && p.Builtin == q.Builtin
	case *MapRef:
		q, ok := b.(*MapRef)
		return ok && p.Obj == q.Obj
	}
	return false
}

func (x *Exec) mergePtr(g *term.Term, p, q *Ptr) *Ptr {
	if *p == *q {
		return p
	}
	if p.Obj == nil {
		return p
	}
	s := gcd(gcd(p.Stride, q.Stride), p.Off-q.Off)
	if s == 0 {
		s = 1
	}
	base := p.Off
	if q.Off < base {
		base = q.Off
	}
	idx := func(r *Ptr) *term.Term {
		t := x.C.Const(uint64((r.Off-base)/s), 64)
		if r.Idx != nil {
			t = x.C.Add(t, x.C.Mul(r.Idx, x.C.Const(uint64(r.Stride/s), 64)))
		}
		return t
	}
	i := x.C.Ite(g, idx(p), idx(q))
	return &Ptr{Obj: p.Obj, Off: base, Idx: i, Stride: s}
}

func (x *Exec) mergeMap(g *term.Term, p, q *mapContent) Value {
	r := &mapContent{}
	n := len(p.E)
	if len(q.E) < n {
		n = len(q.E)
	}
	common := 0
	for common < n && x.sameKey(p.E[common].K, q.E[common].K) {
		common++
	}
	for i := 0; i < common; i++ {
		r.E = append(r.E, mapEntry{p.E[i].K, x.C.Ite(g, p.E[i].Present, q.E[i].Present), x.merge(g, p.E[i].V, q.E[i].V)})
	}
	for _, e := range p.E[common:] {
		// same constant key on the other side?
		found := false
		for _, f := range q.E[common:] {
			if x.sameKey(e.K, f.K) {
				r.E = append(r.E, mapEntry{e.K, x.C.Ite(g, e.Present, f.Present), x.merge(g, e.V, f.V)})
				found = true
				break
			}
		}
		if !found {
			r.E = append(r.E, mapEntry{e.K, x.C.BAnd(g, e.Present), e.V})
		}
	}
	for _, f := range q.E[common:] {
		found := false
		for _, e := range p.E[common:] {
			if x.sameKey(e.K, f.K) {
				found = true
				break
			}
		}
		if !found {
			r.E = append(r.E, mapEntry{f.K, x.C.BAnd(x.C.BNot(g), f.Present), f.V})
		}
	}
	return r
}

func (x *Exec) sameKey(a, b Value) bool { return a == b || x.sameVal(a, b) || x.sameAgg(a, b) }
func (x *Exec) sameAgg(a, b Value) bool {
	p, ok := a.(*Agg)
	q, ok2 := b.(*Agg)
	if !ok || !ok2 || len(p.L) != len(q.L) {
		return false
	}
	for i := range p.L {
		if !x.sameKey(p.L[i], q.L[i]) {
			return false
		}
	}
	return true
}

// mapUnion applies f to each alternative and merges the results.
func (x *Exec) mapUnion(st *State, u *Union, f func(Value) Value) Value {
	var res Value
	for i := len(u.A) - 1; i >= 0; i-- {
		a := u.A[i]
		if p, ok := a.V.(*Ptr); ok && p.Obj == nil {
			continue
		}
		v := f(a.V)
		if res == nil {
			res = v
		} else {
			res = x.merge(a.G, v, res)
		}
	}
	if res == nil {
		panic(unsupported("union without usable alternative"))
	}
	return res
}

// ---- state merging ----

func commonPC(a, b *PC) *PC {
	da, db := 0, 0
	if a != nil {
		da = a.depth
	}
	if b != nil {
		db = b.depth
	}
	for da > db {
		a = a.parent
		da--
	}
	for db > da {
		b = b.parent
		db--
	}
	for a != b {
		a, b = a.parent, b.parent
	}
	return a
}

func (x *Exec) delta(p, base *PC) []*term.Term {
	var out []*term.Term
	for ; p != base; p = p.parent {
		out = append(out, p.cond)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

func commonHeap(a, b *Heap) *Heap {
	for a.depth > b.depth {
		a = a.parent
	}
	for b.depth > a.depth {
		b = b.parent
	}
	for a != b {
		a, b = a.parent, b.parent
		if a == nil {
			panic("heaps without common root")
		}
	}
	return a
}

func collect(h, base *Heap) map[*Object]*Content {
	out := map[*Object]*Content{}
	for ; h != base; h = h.parent {
		for o, c := range h.m {
			if _, ok := out[o]; !ok {
				out[o] = c
			}
		}
	}
	return out
}

// mergeStates merges two states that diverged; returns guard (true → a) and merged state.
func (x *Exec) mergeStates(a, b *State) (*term.Term, *State) {
	base := commonPC(a.pc, b.pc)
	da, db := x.delta(a.pc, base), x.delta(b.pc, base)
	ca, cb := x.C.AndN(da...), x.C.AndN(db...)
	g := ca
	if len(da) > 0 && len(db) > 0 && da[0] == x.C.BNot(db[0]) {
		g = da[0]
	}
	st := &State{pc: base}
	st.assume(x.C.BOr(ca, cb))
	hb := commonHeap(a.heap, b.heap)
	h := newHeap(hb)
	ma, mb := collect(a.heap, hb), collect(b.heap, hb)
	for o, c := range ma {
		d, ok := mb[o]
		if !ok {
			d = hb.get(o)
		}
		h.m[o] = x.mergeContent(g, o, c, d, h)
	}
	for o, d := range mb {
		if _, ok := ma[o]; ok {
			continue
		}
		h.m[o] = x.mergeContent(g, o, hb.get(o), d, h)
	}
	st.heap = h
	if h.depth-x.root.depth > 24 {
		st.heap = x.compact(h)
	}
	return g, st
}

func (x *Exec) compact(h *Heap) *Heap {
	n := newHeap(x.root)
	for o, c := range collect(h, x.root) {
		n.m[o] = c
	}
	return n
}

func (x *Exec) mergeContent(g *term.Term, o *Object, a, b *Content, h *Heap) *Content {
	if a == nil {
		return b
	}
	if b == nil || a == b {
		return a
	}
	if o.Lazy != "" {
		r := &Content{owner: h}
		n := 0
		for n < len(a.over) && n < len(b.over) && a.over[n] == b.over[n] {
			n++
		}
		r.over = append(r.over, a.over[:n]...)
		if len(a.over) == n {
			a, b, g = b, a, x.C.BNot(g)
		}
		if len(b.over) > n {
			panic(unsupported("merging divergent stores to %s", o.Name))
		}
		for _, ov := range a.over[n:] {
			old := x.lazyCell(r, o, ov.idx).(*term.Term)
			r.over = append(r.over, overlay{ov.idx, x.C.Ite(g, ov.val, old)})
		}
		return r
	}
	r := &Content{owner: h}
	if a.dense != nil {
		r.dense = make([]Value, len(a.dense))
		for i := range a.dense {
			if a.dense[i] == b.dense[i] {
				r.dense[i] = a.dense[i]
			} else {
				r.dense[i] = x.merge(g, a.dense[i], b.dense[i])
			}
		}
		return r
	}
	r.sparse = map[int64]Value{}
	zero := func(i int64) Value { lf, _ := o.Lay.leaf(int(i)); return x.zeroLeaf(lf) }
	for i, v := range a.sparse {
		w, ok := b.sparse[i]
		if !ok {
			w = zero(i)
		}
		r.sparse[i] = x.merge(g, v, w)
	}
	for i, w := range b.sparse {
		if _, ok := a.sparse[i]; !ok {
			r.sparse[i] = x.merge(g, zero(i), w)
		}
	}
	return r
}

func describe(v Value) string {
	switch p := v.(type) {
	case *term.Term:
		return p.String()
	case *Ptr:
		if p.Obj == nil {
			return "nil"
		}
		return fmt.Sprintf("&%s+%d", p.Obj.Name, p.Off)
	case *Slice:
		return fmt.Sprintf("slice(%s,len=%s)", describe(p.P), p.Len)
	case *Str:
		return fmt.Sprintf("%q", p.S)
	case *Iface:
		return fmt.Sprintf("iface(%v)", p.T)
	}
	return fmt.Sprintf("%T", v)
}
