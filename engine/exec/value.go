// Package exec is a symbolic executor for Go SSA.
package exec

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/types/typeutil"

	"verifengine/term"
)

// Value is a symbolic runtime value. Dynamic types:
//
//	*term.Term  integers and booleans
//	Float       concrete floating point
//	*Str        string
//	*Ptr        pointer (Obj==nil: nil pointer)
//	*Slice      slice
//	*Agg        struct or array, flattened into leaves
//	*Iface      interface
//	*Func       function value (nil Fn: nil func)
//	*MapRef     map
//	*Tuple      multiple results
//	*Union      guarded alternatives (guards exclusive and exhaustive under the pc)
//	*BigNat     content of a math/big.Int (natural number)
//	others      opaque model state (immutable)
type Value interface{}

type Float float64

type Str struct {
	S   string
	Sym []*term.Term // when non-nil the string is these bytes
	Opq string       // when non-empty an opaque string with this identity
}

type Ptr struct {
	Obj    *Object
	Off    int64
	Idx    *term.Term // optional symbolic index (64 bit), address = Off + Idx*Stride
	Stride int64
}

type Slice struct {
	P        *Ptr
	Len, Cap *term.Term
}

type Agg struct{ L []Value }

type Iface struct {
	T types.Type // nil for the nil interface
	V Value
}

type Func struct {
	Fn      *ssa.Function
	Binds   []Value
	Builtin string
}

type MapRef struct{ Obj *Object }
type Tuple struct{ V []Value }

type Alt struct {
	G *term.Term
	V Value
}
type Union struct{ A []Alt }

type BigNat struct{ T *term.Term } // width = T.W, value natural

type mapEntry struct {
	K       Value
	Present *term.Term
	V       Value
}
type mapContent struct{ E []mapEntry }

var nilPtr = &Ptr{}

// Object is the identity of an allocation.
type Object struct {
	ID     int
	Name   string
	Lay    *Layout
	Size   int64
	Count  int64
	Lazy   string // contents are an uninterpreted function of the cell index
	LazyW  int32
	Init   bool // allocated during package initialisation
	Frozen bool
	Global bool
	Epoch  int
}

// Layout describes a repeated unit of leaves.
type Layout struct {
	Unit   int64
	Leaves []Leaf
	Count  int64
	Size   int64
}
type LeafKind uint8

const (
	KInt LeafKind = iota
	KBool
	KFloat
	KString
	KPtr
	KSlice
	KIface
	KFunc
	KMap
	KBig
	KChan
	KOpaque
)

type Leaf struct {
	Off, Size int64
	Kind      LeafKind
	W         int32
	Signed    bool
	T         types.Type
}

func (l *Layout) N() int { return int(l.Count) * len(l.Leaves) }

func (l *Layout) leaf(i int) (Leaf, int64) {
	n := len(l.Leaves)
	if n == 0 {
		panic(unsupported("empty layout"))
	}
	lf := l.Leaves[i%n]
	return lf, int64(i/n)*l.Unit + lf.Off
}

// find returns the leaf index covering byte offset off.
func (l *Layout) find(off int64, count int64) (int, bool) {
	if off < 0 || l.Unit == 0 {
		return 0, false
	}
	u := off / l.Unit
	if u >= count {
		return 0, false
	}
	r := off % l.Unit
	n := len(l.Leaves)
	if n == 1 {
		lf := l.Leaves[0]
		if r >= lf.Off && r < lf.Off+lf.Size {
			return int(u), true
		}
		return 0, false
	}
	lo, hi := 0, n-1
	for lo < hi {
		m := (lo + hi + 1) / 2
		if l.Leaves[m].Off <= r {
			lo = m
		} else {
			hi = m - 1
		}
	}
	lf := l.Leaves[lo]
	if r >= lf.Off && r < lf.Off+lf.Size {
		return int(u)*n + lo, true
	}
	return 0, false
}

type typeCache struct {
	lay   typeutil.Map
	sizes types.Sizes
}

func isNamed(t types.Type, pkg, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	return n.Obj().Pkg().Path() == pkg && n.Obj().Name() == name
}

func basicWidth(b *types.Basic) (w int32, signed bool, kind LeafKind) {
	switch b.Kind() {
	case types.Bool, types.UntypedBool:
		return 0, false, KBool
	case types.Int8:
		return 8, true, KInt
	case types.Uint8:
		return 8, false, KInt
	case types.Int16:
		return 16, true, KInt
	case types.Uint16:
		return 16, false, KInt
	case types.Int32, types.UntypedRune:
		return 32, true, KInt
	case types.Uint32:
		return 32, false, KInt
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, KInt
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, KInt
	case types.Float32, types.Float64, types.UntypedFloat:
		return 64, true, KFloat
	case types.String, types.UntypedString:
		return 0, false, KString
	case types.UnsafePointer:
		return 64, false, KPtr
	case types.UntypedNil:
		return 0, false, KPtr
	}
	panic(unsupported("basic type " + b.String()))
}

func (tc *typeCache) layout(t types.Type) *Layout {
	if l := tc.lay.At(t); l != nil {
		return l.(*Layout)
	}
	l := tc.mk(t)
	tc.lay.Set(t, l)
	return l
}

func one(lf Leaf) *Layout {
	return &Layout{Unit: lf.Size, Leaves: []Leaf{lf}, Count: 1, Size: lf.Size}
}

func (tc *typeCache) mk(t types.Type) *Layout {
	if isNamed(t, "math/big", "Int") {
		return one(Leaf{Size: 32, Kind: KBig, T: t})
	}
	if isNamed(t, "sync", "Mutex") || isNamed(t, "sync", "RWMutex") || isNamed(t, "sync", "Once") {
		return one(Leaf{Size: tc.sizes.Sizeof(t), Kind: KInt, W: 64, T: t})
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		w, s, k := basicWidth(u)
		return one(Leaf{Size: tc.sizes.Sizeof(t), Kind: k, W: w, Signed: s, T: t})
	case *types.Pointer:
		return one(Leaf{Size: 8, Kind: KPtr, T: t})
	case *types.Slice:
		return one(Leaf{Size: 24, Kind: KSlice, T: t})
	case *types.Interface:
		return one(Leaf{Size: 16, Kind: KIface, T: t})
	case *types.Signature:
		return one(Leaf{Size: 8, Kind: KFunc, T: t})
	case *types.Map:
		return one(Leaf{Size: 8, Kind: KMap, T: t})
	case *types.Chan:
		return one(Leaf{Size: 8, Kind: KChan, T: t})
	case *types.Array:
		e := tc.layout(u.Elem())
		n := u.Len()
		if n == 0 || len(e.Leaves) == 0 {
			return &Layout{Unit: 0, Count: 0, Size: tc.sizes.Sizeof(t)}
		}
		if e.Unit*e.Count == e.Size {
			return &Layout{Unit: e.Unit, Leaves: e.Leaves, Count: e.Count * n, Size: tc.sizes.Sizeof(t)}
		}
		x := expand(e)
		return &Layout{Unit: e.Size, Leaves: x, Count: n, Size: tc.sizes.Sizeof(t)}
	case *types.Struct:
		var fs []*types.Var
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, u.Field(i))
		}
		offs := tc.sizes.Offsetsof(fs)
		var leaves []Leaf
		for i, f := range fs {
			for _, lf := range expand(tc.layout(f.Type())) {
				lf.Off += offs[i]
				leaves = append(leaves, lf)
			}
		}
		sz := tc.sizes.Sizeof(t)
		// a struct made of a single homogeneous array keeps that shape
		return &Layout{Unit: sz, Leaves: leaves, Count: 1, Size: sz}
	case *types.Tuple:
		return &Layout{}
	}
	panic(unsupported("type " + t.String()))
}

func expand(l *Layout) []Leaf {
	var out []Leaf
	for i := 0; i < l.N(); i++ {
		lf, off := l.leaf(i)
		lf.Off = off
		out = append(out, lf)
	}
	return out
}

func isAgg(t types.Type) bool {
	if isNamed(t, "math/big", "Int") || isNamed(t, "sync", "Mutex") || isNamed(t, "sync", "RWMutex") || isNamed(t, "sync", "Once") {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Struct, *types.Array:
		return true
	}
	return false
}

// Unsupported marks a construct outside the executor's reach.
type Unsupported struct{ Msg string }

func (u Unsupported) Error() string { return u.Msg }
func unsupported(f string, a ...interface{}) Unsupported {
	return Unsupported{fmt.Sprintf(f, a...)}
}

// Content is the mutable contents of an object in one heap layer.
type Content struct {
	owner  *Heap
	dense  []Value
	sparse map[int64]Value
	// symbolic stores into a lazy object, newest last
	over []overlay
}
type overlay struct {
	idx *term.Term
	val *term.Term
}

type Heap struct {
	parent *Heap
	depth  int
	m      map[*Object]*Content
}

func newHeap(p *Heap) *Heap {
	h := &Heap{parent: p, m: map[*Object]*Content{}}
	if p != nil {
		h.depth = p.depth + 1
	}
	return h
}

func (h *Heap) get(o *Object) *Content {
	for x := h; x != nil; x = x.parent {
		if c, ok := x.m[o]; ok {
			return c
		}
	}
	return nil
}

func (c *Content) clone(owner *Heap) *Content {
	n := &Content{owner: owner}
	if c.dense != nil {
		n.dense = append([]Value(nil), c.dense...)
	}
	if c.sparse != nil {
		n.sparse = make(map[int64]Value, len(c.sparse))
		for k, v := range c.sparse {
			n.sparse[k] = v
		}
	}
	n.over = c.over[:len(c.over):len(c.over)]
	return n
}

// wr returns a content writable in the top layer.
func (h *Heap) wr(o *Object) *Content {
	c := h.get(o)
	if c == nil {
		panic(unsupported("write to object without content: %s", o.Name))
	}
	if c.owner == h {
		return c
	}
	n := c.clone(h)
	h.m[o] = n
	return n
}

// PC is a persistent conjunction.
type PC struct {
	parent *PC
	cond   *term.Term
	depth  int
}

func (p *PC) list() []*term.Term {
	var out []*term.Term
	for x := p; x != nil; x = x.parent {
		if x.cond != nil {
			out = append(out, x.cond)
		}
	}
	return out
}

type State struct {
	heap *Heap
	pc   *PC
}

func (s *State) fork() *State {
	return &State{heap: newHeap(s.heap), pc: s.pc}
}

func (s *State) assume(t *term.Term) {
	if t.IsTrue() {
		return
	}
	d := 1
	if s.pc != nil {
		d = s.pc.depth + 1
	}
	s.pc = &PC{s.pc, t, d}
}

func fnName(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	s := f.String()
	return s
}

func shortName(s string) string {
	if i := strings.LastIndexByte(s, '/'); i >= 0 {
		return s[i+1:]
	}
	return s
}
