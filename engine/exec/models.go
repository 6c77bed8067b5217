package exec

import (
	"fmt"
	"go/types"
	"math"
	"math/big"
	"path"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"

	"verifengine/term"
)

const symPkg = "github.com/sencha-dev/powkit/internal/verifsym"

func (x *Exec) lookupModel(name string, fn *ssa.Function) (modelFn, bool) {
	if m, ok := models[name]; ok {
		return m, true
	}
	if fn.Synthetic == "package initializer" {
		return func(c *callCtx) Value { return &Tuple{} }, true
	}
	if strings.HasPrefix(name, symPkg+".") {
		if m, ok := symModels[name[len(symPkg)+1:]]; ok {
			return m, true
		}
	}
	if isAsm(fn) {
		return modelAsm, true
	}
	return nil, false
}

var models map[string]modelFn

func (c *callCtx) term(i int) *term.Term { return c.x.intOf(c.args[i]) }
func (c *callCtx) str(i int) string {
	s, ok := c.args[i].(*Str)
	if !ok || s.Sym != nil || s.Opq != "" {
		panic(unsupported("symbolic string argument to %s", fnName(c.fn)))
	}
	return s.S
}
func (c *callCtx) slice(i int) *Slice { return c.x.sliceOf(c.args[i]) }
func (c *callCtx) bytes(i int) []*term.Term {
	return c.x.bytesOf(c.st, c.slice(i))
}
func (c *callCtx) require(cond *term.Term, msg string) bool {
	fr := &Frame{st: c.st}
	if !c.x.require(fr, cond, msg+" in "+fnName(c.fn), 0) {
		c.dead = true
		return false
	}
	return true
}

func tuple(v ...Value) *Tuple { return &Tuple{V: v} }

func init() {
	models = map[string]modelFn{}
	bits := "math/bits."
	for _, w := range []struct {
		s string
		w int32
	}{{"8", 8}, {"16", 16}, {"32", 32}, {"64", 64}, {"", 64}} {
		models[bits+"LeadingZeros"+w.s] = func(c *callCtx) Value {
			return c.x.C.Sub(c.x.C.Const(uint64(c.term(0).W), 64), c.x.bitLen(c.term(0)))
		}
		models[bits+"Len"+w.s] = func(c *callCtx) Value { return c.x.bitLen(c.term(0)) }
		models[bits+"TrailingZeros"+w.s] = func(c *callCtx) Value { return c.x.tz(c.term(0)) }
		models[bits+"OnesCount"+w.s] = func(c *callCtx) Value { return c.x.popcount(c.term(0)) }
	}
	models[bits+"Mul64"] = func(c *callCtx) Value {
		p := c.x.C.Mul(c.x.C.ZExt(c.term(0), 128), c.x.C.ZExt(c.term(1), 128))
		return tuple(c.x.C.Extract(p, 127, 64), c.x.C.Extract(p, 63, 0))
	}
	models[bits+"Mul32"] = func(c *callCtx) Value {
		p := c.x.C.Mul(c.x.C.ZExt(c.term(0), 64), c.x.C.ZExt(c.term(1), 64))
		return tuple(c.x.C.Extract(p, 63, 32), c.x.C.Extract(p, 31, 0))
	}
	add := func(w int32, sub bool) modelFn {
		return func(c *callCtx) Value {
			C := c.x.C
			a, b, ci := C.ZExt(c.term(0), w+2), C.ZExt(c.term(1), w+2), C.ZExt(c.term(2), w+2)
			var s *term.Term
			if sub {
				s = C.Sub(C.Sub(a, b), ci)
			} else {
				s = C.Add(C.Add(a, b), ci)
			}
			return tuple(C.Extract(s, w-1, 0), C.ZExt(C.Extract(s, w, w), w))
		}
	}
	models[bits+"Add64"], models[bits+"Sub64"] = add(64, false), add(64, true)
	models[bits+"Add"], models[bits+"Sub"] = add(64, false), add(64, true)
	models[bits+"Add32"], models[bits+"Sub32"] = add(32, false), add(32, true)

	models["bytes.Equal"] = func(c *callCtx) Value { return c.x.bytesEq(c.st, c.slice(0), c.slice(1)) }
	models["crypto/subtle.ConstantTimeCompare"] = func(c *callCtx) Value {
		return c.x.C.Ite(c.x.bytesEq(c.st, c.slice(0), c.slice(1)), c.x.C.Const(1, 64), c.x.zero64)
	}
	cmp := func(c *callCtx) Value {
		C := c.x.C
		a, b := c.bytes(0), c.bytes(1)
		n := len(a)
		if len(b) < n {
			n = len(b)
		}
		var tail *term.Term
		switch {
		case len(a) < len(b):
			tail = C.Const(^uint64(0), 64)
		case len(a) > len(b):
			tail = C.Const(1, 64)
		default:
			tail = c.x.zero64
		}
		if n == 0 {
			return tail
		}
		x, y := C.ConcatN(a[:n]), C.ConcatN(b[:n])
		return C.Ite(C.Ult(x, y), C.Const(^uint64(0), 64), C.Ite(C.Ult(y, x), C.Const(1, 64), tail))
	}
	models["bytes.Compare"] = cmp
	models["internal/bytealg.Compare"] = cmp

	models["errors.New"] = func(c *callCtx) Value { return c.x.newError(c.st, c.args[0].(*Str)) }
	models["fmt.Errorf"] = func(c *callCtx) Value { return c.x.newError(c.st, c.x.sprintf(c)) }
	models["fmt.Sprintf"] = func(c *callCtx) Value { return c.x.sprintf(c) }
	models["fmt.Sprint"] = func(c *callCtx) Value { return &Str{Opq: "sprint"} }
	for _, n := range []string{"fmt.Println", "fmt.Printf", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "log.Printf", "log.Println", "log.Print"} {
		models[n] = func(c *callCtx) Value {
			if c.fn.Signature.Results().Len() == 0 {
				return &Tuple{}
			}
			return tuple(c.x.zero64, &Iface{})
		}
	}
	models["runtime.SetFinalizer"] = func(c *callCtx) Value { return &Tuple{} }
	models["runtime.KeepAlive"] = func(c *callCtx) Value { return &Tuple{} }
	models["runtime.GC"] = func(c *callCtx) Value { return &Tuple{} }
	models["runtime.Gosched"] = func(c *callCtx) Value { return &Tuple{} }

	f1 := func(f func(float64) float64) modelFn {
		return func(c *callCtx) Value {
			v, ok := c.args[0].(Float)
			if !ok {
				panic(unsupported("symbolic float"))
			}
			return Float(f(float64(v)))
		}
	}
	for n, f := range map[string]func(float64) float64{"Abs": math.Abs, "Floor": math.Floor, "Ceil": math.Ceil, "Sqrt": math.Sqrt, "Log2": math.Log2, "Log": math.Log, "Trunc": math.Trunc, "Round": math.Round} {
		models["math."+n] = f1(f)
	}
	models["math.Pow"] = func(c *callCtx) Value { return Float(math.Pow(float64(c.args[0].(Float)), float64(c.args[1].(Float)))) }
	models["math.Float64bits"] = func(c *callCtx) Value { return c.x.C.Const(math.Float64bits(float64(c.args[0].(Float))), 64) }

	models["sort.Slice"] = modelSortSlice
	models["sort.SliceStable"] = modelSortSlice

	// sync
	models["(*sync.Mutex).Lock"] = func(c *callCtx) Value { return modelLock(c, lockWrite) }
	models["(*sync.Mutex).Unlock"] = func(c *callCtx) Value { return modelLock(c, unlockWrite) }
	models["(*sync.RWMutex).Lock"] = models["(*sync.Mutex).Lock"]
	models["(*sync.RWMutex).Unlock"] = models["(*sync.Mutex).Unlock"]
	models["(*sync.RWMutex).RLock"] = func(c *callCtx) Value { return modelLock(c, lockRead) }
	models["(*sync.RWMutex).RUnlock"] = func(c *callCtx) Value { return modelLock(c, unlockRead) }
	models["(*sync.Once).Do"] = modelOnceDo
	models["(*sync.Pool).Get"] = func(c *callCtx) Value {
		x := c.x
		p := c.args[0].(*Ptr)
		t := c.fn.Signature.Recv().Type().(*types.Pointer).Elem()
		stt := t.Underlying().(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			if stt.Field(i).Name() == "New" {
				q := *p
				q.Off += x.fieldOff(t, i)
				f := x.loadPtr(c.st, &q, stt.Field(i).Type()).(*Func)
				if f.Fn == nil {
					return &Iface{}
				}
				v, ok := x.callFunction(c.st, f.Fn, nil, f.Binds, c.depth+1)
				c.dead = !ok
				return v
			}
		}
		return &Iface{}
	}
	models["(*sync.Pool).Put"] = func(c *callCtx) Value { return &Tuple{} }
	models["time.Now"] = modelNow
	initAtomic()
	initPaths()
	models["runtime/debug.SetGCPercent"] = func(c *callCtx) Value { return c.x.C.Const(100, 64) }
	models["internal/abi.NoEscape"] = func(c *callCtx) Value { return c.args[0] }

	initText()
	initByteAlg()
	initBig()
	initHash()
	initSym()
	initOS()
}

func (c *callCtx) requireKind(cond *term.Term, kind, msg string) bool {
	x := c.x
	if cond.IsTrue() {
		return true
	}
	x.addObl(&Obligation{Kind: kind, Msg: msg, PC: c.st.pc.list(), Cond: cond})
	if cond.IsFalse() {
		c.dead = true
		return false
	}
	c.st.assume(cond)
	return true
}

const (
	lockWrite = iota
	unlockWrite
	lockRead
	unlockRead
)

// Synchronisation held by the running thread, packed into lockObj: mutexes in
// bits 0-15, read locks in 16-31, once sections in 32-47.
const (
	heldMutex = 1
	heldRead  = 1 << 16
	heldOnce  = 1 << 32
)

func (x *Exec) held(st *State) *term.Term { return x.native(st, x.lockObj).(*term.Term) }
func (x *Exec) addHeld(st *State, d int64) {
	x.setNative(st, x.lockObj, x.C.Add(x.held(st), x.C.Const(uint64(d), 64)))
}

// syncCell finds the word that carries the state of a mutex or once at p.
func (x *Exec) syncCell(p *Ptr) int {
	if p.Idx != nil {
		panic(unsupported("lock at a symbolic position"))
	}
	i, ok := p.Obj.Lay.find(p.Off, p.Obj.Count)
	if !ok {
		panic(unsupported("layout of a synchronisation object"))
	}
	return i
}

// threadWord is the state of a lock held by the running thread; readers count from readerBase.
const readerBase = 1 << 20

func (x *Exec) threadWord() uint64 { return uint64(1 + x.tid) }

// modelLock: a lock another thread holds ends the path (that thread is suspended, so
// this schedule cannot continue); one the same thread holds is a deadlock.
func modelLock(c *callCtx, op int) Value {
	x := c.x
	p, okp := c.args[0].(*Ptr)
	if !okp {
		panic(unsupported("lock of %T", c.args[0]))
	}
	if p.Obj == nil {
		c.require(x.C.False, "nil mutex")
		return nil
	}
	i := x.syncCell(p)
	cur, ok := x.cell(c.st, p.Obj, i).(*term.Term)
	if !ok || !cur.IsConst() {
		panic(unsupported("mutex locked under a condition"))
	}
	v := cur.U64()
	set := func(n uint64) { c.st.heap.wr(p.Obj).dense[i] = x.C.Const(n, cur.W) }
	if c.st.heap.wr(p.Obj).dense == nil {
		panic(unsupported("mutex in a large array"))
	}
	switch op {
	case lockWrite, lockRead:
		if op == lockRead && (v == 0 || v >= readerBase) {
			if v == 0 {
				v = readerBase
			}
			set(v + 1)
			x.addHeld(c.st, heldRead)
			break
		}
		if v != 0 && (v >= readerBase || v != x.threadWord()) && x.tid > 0 {
			c.dead = true // blocked on a suspended thread
			return nil
		}
		if v != 0 {
			c.requireKind(x.C.False, "deadlock", "mutex locked twice on one path")
			return nil
		}
		set(x.threadWord())
		x.addHeld(c.st, heldMutex)
	case unlockWrite:
		if v == 0 || v >= readerBase {
			c.require(x.C.False, "unlock of unlocked mutex")
			return nil
		}
		set(0)
		x.addHeld(c.st, -heldMutex)
	case unlockRead:
		if v <= readerBase {
			c.require(x.C.False, "unlock of unlocked mutex")
			return nil
		}
		if v == readerBase+1 {
			v = 1
		}
		set(v - 1)
		x.addHeld(c.st, -heldRead)
	}
	return &Tuple{}
}

// thread runs f as another thread, started here and run until it ends.
func (x *Exec) thread(st *State, f func() bool) bool {
	save, held := x.tid, x.held(st)
	x.threads++
	x.tid = x.threads
	x.setNative(st, x.lockObj, x.zero64)
	ok := f()
	x.tid = save
	if ok {
		x.setNative(st, x.lockObj, held)
	}
	return ok
}

const onceDone = 1 << 20

func modelOnceDo(c *callCtx) Value {
	x := c.x
	p := c.args[0].(*Ptr)
	if p.Obj == nil {
		c.require(x.C.False, "nil once")
		return nil
	}
	i := x.syncCell(p)
	cur := x.cell(c.st, p.Obj, i).(*term.Term)
	f, okf := c.args[1].(*Func)
	if !okf {
		panic(unsupported("once function"))
	}
	if cur.IsConst() {
		switch v := cur.U64(); {
		case v == onceDone:
			return &Tuple{}
		case v == x.threadWord():
			c.requireKind(x.C.False, "deadlock", "once entered from its own function")
			return nil
		case v != 0:
			c.dead = true // another thread is in it: blocked
			return nil
		}
		// inside Do accesses are ordered by the Once
		c.st.heap.wr(p.Obj).dense[i] = x.C.Const(x.threadWord(), cur.W)
		x.addHeld(c.st, heldOnce)
		x.onceStart = append(x.onceStart, x.steps)
		_, ok := x.callFunction(c.st, f.Fn, nil, f.Binds, c.depth+1)
		x.onceStart = x.onceStart[:len(x.onceStart)-1]
		if !ok {
			c.dead = true
			return nil
		}
		x.addHeld(c.st, -heldOnce)
		c.st.heap.wr(p.Obj).dense[i] = x.C.Const(onceDone, cur.W)
		return &Tuple{}
	}
	fr := &Frame{st: c.st}
	isz := x.C.Eq(cur, x.C.Const(0, cur.W))
	_, ok := x.forkMerge(fr, []*term.Term{isz, x.C.BNot(isz)}, func(k int) (Value, bool) {
		n := uint64(onceDone)
		if k == 0 {
			n = 0
		}
		fr.st.heap.wr(p.Obj).dense[i] = x.C.Const(n, cur.W)
		cc := &callCtx{x: x, st: fr.st, fn: c.fn, args: c.args, depth: c.depth}
		v := modelOnceDo(cc)
		return v, !cc.dead
	})
	c.dead = !ok
	return &Tuple{}
}

func modelNow(c *callCtx) Value {
	x := c.x
	// a fresh instant, not earlier than the previous one
	x.timeN++
	n := fmt.Sprintf("time.Now#%d", x.timeN)
	t := x.freshVar(n, 64)
	c.st.assume(x.C.Ult(t, x.C.Const(1<<40, 64)))
	prev := x.native(c.st, x.clockObj).(*term.Term)
	if x.strictClock {
		c.st.assume(x.C.Ult(prev, t))
	} else {
		c.st.assume(x.C.Ule(prev, t))
	}
	x.setNative(c.st, x.clockObj, t)
	tt := c.fn.Signature.Results().At(0).Type()
	z := x.zeroValue(tt).(*Agg)
	r := &Agg{L: append([]Value(nil), z.L...)}
	// wall, ext, loc: without a monotonic reading ext is seconds since year 1
	r.L[1] = t
	return r
}

func (x *Exec) bitLen(t *term.Term) *term.Term {
	C := x.C
	r := x.zero64
	for i := int32(0); i < t.W; i++ {
		r = C.Ite(C.Eq(C.Extract(t, i, i), C.Const(1, 1)), C.Const(uint64(i+1), 64), r)
	}
	return r
}
func (x *Exec) tz(t *term.Term) *term.Term {
	C := x.C
	r := C.Const(uint64(t.W), 64)
	for i := t.W - 1; i >= 0; i-- {
		r = C.Ite(C.Eq(C.Extract(t, i, i), C.Const(1, 1)), C.Const(uint64(i), 64), r)
	}
	return r
}
func (x *Exec) popcount(t *term.Term) *term.Term {
	C := x.C
	var rec func(lo, hi int32) *term.Term
	rec = func(lo, hi int32) *term.Term {
		if lo == hi {
			return C.ZExt(C.Extract(t, lo, lo), 8)
		}
		m := (lo + hi) / 2
		return C.Add(rec(lo, m), rec(m+1, hi))
	}
	return C.ZExt(rec(0, t.W-1), 64)
}

func (x *Exec) bytesEq(st *State, a, b *Slice) *term.Term {
	C := x.C
	if !a.Len.IsConst() || !b.Len.IsConst() {
		panic(unsupported("bytes.Equal with symbolic length"))
	}
	if a.Len != b.Len {
		return C.False
	}
	p, q := x.bytesOf(st, a), x.bytesOf(st, b)
	r := C.True
	for i := range p {
		r = C.BAnd(r, C.Eq(p[i], q[i]))
	}
	return r
}

func (x *Exec) newError(st *State, s *Str) Value {
	p := x.L.Pkgs["errors"]
	if p == nil {
		panic(unsupported("errors package not loaded"))
	}
	t := p.Pkg.Scope().Lookup("errorString").Type()
	o := x.allocType(st, "error", t)
	st.heap.wr(o).dense[0] = s
	return &Iface{T: types.NewPointer(t), V: &Ptr{Obj: o}}
}

// sprintf formats when every argument is concrete.
func (x *Exec) sprintf(c *callCtx) *Str {
	f, ok := c.args[0].(*Str)
	if !ok || f.Sym != nil || f.Opq != "" {
		return &Str{Opq: "fmt?"}
	}
	s := x.sliceOf(c.args[1])
	if !s.Len.IsConst() {
		return &Str{Opq: "fmt:" + f.S}
	}
	n := int64(s.Len.U64())
	var args []interface{}
	var vals []Value
	id := "fmt:" + f.S
	conc := true
	et := c.fn.Signature.Params().At(1).Type().Underlying().(*types.Slice).Elem()
	for i := int64(0); i < n; i++ {
		v := x.load(c.st, x.ptrAdd(s.P, x.C.Const(uint64(i), 64), 16), et)
		h, ok, key := x.hostValue(c.st, v)
		if !ok {
			conc = false
		}
		id += "," + key
		args = append(args, h)
		vals = append(vals, v)
	}
	if !conc {
		if r, ok := x.symSprintf(c.st, f.S, vals); ok {
			return r
		}
		return &Str{Opq: id}
	}
	return &Str{S: fmt.Sprintf(strings.ReplaceAll(f.S, "%w", "%v"), args...)}
}

func (x *Exec) hostValue(st *State, v Value) (interface{}, bool, string) {
	i, ok := v.(*Iface)
	if !ok || i.T == nil {
		return nil, ok, fmt.Sprintf("%T", v)
	}
	switch p := i.V.(type) {
	case *term.Term:
		if !p.IsConst() {
			return nil, false, fmt.Sprintf("t%d", p.ID)
		}
		if p.W == 0 {
			return p.C == 1, true, p.String()
		}
		if isSigned(i.T) {
			return p.S64(), true, p.String()
		}
		return p.U64(), true, p.String()
	case *Str:
		if p.Sym == nil && p.Opq == "" {
			return p.S, true, p.S
		}
		return nil, false, "str:" + p.Opq
	case Float:
		return float64(p), true, ""
	case *Slice:
		if sl, ok := i.T.Underlying().(*types.Slice); ok && p.Len.IsConst() {
			if b, ok := sl.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				var out []byte
				key := ""
				all := true
				for _, t := range x.bytesOf(st, p) {
					if !t.IsConst() {
						all = false
						key += fmt.Sprintf("t%d.", t.ID)
						continue
					}
					key += fmt.Sprintf("%02x.", t.U64())
					out = append(out, byte(t.U64()))
				}
				return out, all, key
			}
		}
	case *Ptr:
		// errors: format their text when concrete
		if p.Obj != nil && p.Obj.Name == "error" {
			if s, ok := x.native(st, p.Obj).(*Str); ok && s.Sym == nil && s.Opq == "" {
				return s.S, true, s.S
			}
		}
	}
	return nil, false, fmt.Sprintf("%T", i.V)
}

func modelSortSlice(c *callCtx) Value {
	x := c.x
	ifc := c.args[0].(*Iface)
	s := x.sliceOf(ifc.V)
	et := ifc.T.Underlying().(*types.Slice).Elem()
	if !s.Len.IsConst() {
		panic(unsupported("sort of symbolic length"))
	}
	n := int(s.Len.U64())
	less := c.args[1].(*Func)
	esz := x.tc.sizes.Sizeof(et)
	at := func(i int) *Ptr { return x.ptrAdd(s.P, x.C.Const(uint64(i), 64), esz) }
	for i := 1; i < n; i++ {
		for j := i; j > 0; j-- {
			v, ok := x.callFunction(c.st, less.Fn, []Value{x.C.Const(uint64(j), 64), x.C.Const(uint64(j-1), 64)}, less.Binds, c.depth+1)
			if !ok {
				c.dead = true
				return nil
			}
			g := x.boolOf(c.st, v)
			if g.IsFalse() {
				break
			}
			a, b := x.loadPtr(c.st, at(j), et), x.loadPtr(c.st, at(j-1), et)
			x.storeCond(c.st, at(j-1), x.merge(g, a, b), et, nil)
			x.storeCond(c.st, at(j), x.merge(g, b, a), et, nil)
		}
	}
	return &Tuple{}
}

// ---- math/big (natural numbers) ----

func (c *callCtx) big(i int) *term.Term {
	p, ok := c.args[i].(*Ptr)
	if !ok || p.Obj == nil {
		panic(unsupported("big.Int argument"))
	}
	v := c.x.loadLeaf(c.st, p, 0, Leaf{Size: 32, Kind: KBig})
	b, ok := v.(*BigNat)
	if !ok {
		panic(unsupported("big.Int value"))
	}
	return c.x.trimBig(b.T)
}

// trimBig drops structural leading zeros.
func (x *Exec) trimBig(t *term.Term) *term.Term {
	if t.IsConst() {
		n := int32(t.Big().BitLen())
		if n == 0 {
			n = 1
		}
		return x.C.Extract(t, n-1, 0)
	}
	if t.Op == term.OConcat && t.Args[0].IsConst() {
		lead := t.Args[0].W - int32(t.Args[0].Big().BitLen())
		if lead > 0 {
			return x.C.Extract(t, t.W-1-lead, 0)
		}
	}
	return t
}

func (c *callCtx) setBig(i int, t *term.Term) Value {
	p := c.args[i].(*Ptr)
	if p.Obj == nil {
		panic(unsupported("nil big.Int receiver"))
	}
	c.x.storeLeaf(c.st, p, 0, Leaf{Size: 32, Kind: KBig}, &BigNat{c.x.trimBig(t)}, nil)
	return p
}

func (c *callCtx) bigPair(i, j int) (*term.Term, *term.Term) {
	a, b := c.big(i), c.big(j)
	w := maxw(a.W, b.W)
	return c.x.C.ZExt(a, w), c.x.C.ZExt(b, w)
}

func initBig() {
	B := "(*math/big.Int)."
	newBig := func(c *callCtx, t *term.Term) Value {
		bt := c.fn.Signature.Results().At(0).Type().(*types.Pointer).Elem()
		o := c.x.allocType(c.st, "big.Int", bt)
		c.st.heap.wr(o).dense[0] = &BigNat{c.x.trimBig(t)}
		return &Ptr{Obj: o}
	}
	nonneg := func(c *callCtx, t *term.Term) {
		cond := c.x.C.Sle(c.x.C.Const(0, t.W), t)
		if !cond.IsTrue() && !c.x.infeasible(c.st, c.x.C.BNot(cond)) {
			panic(unsupported("negative big.Int"))
		}
	}
	models["math/big.NewInt"] = func(c *callCtx) Value { nonneg(c, c.term(0)); return newBig(c, c.term(0)) }
	models[B+"SetUint64"] = func(c *callCtx) Value { return c.setBig(0, c.term(1)) }
	models[B+"SetInt64"] = func(c *callCtx) Value { nonneg(c, c.term(1)); return c.setBig(0, c.term(1)) }
	models[B+"Set"] = func(c *callCtx) Value { return c.setBig(0, c.big(1)) }
	models[B+"SetBytes"] = func(c *callCtx) Value {
		b := c.bytes(1)
		if len(b) == 0 {
			return c.setBig(0, c.x.C.Const(0, 1))
		}
		return c.setBig(0, c.x.C.ConcatN(b))
	}
	models[B+"SetString"] = func(c *callCtx) Value {
		v, ok := new(big.Int).SetString(c.str(1), int(c.term(2).U64()))
		if !ok || v.Sign() < 0 {
			panic(unsupported("big.Int.SetString"))
		}
		n := int32(v.BitLen())
		if n == 0 {
			n = 1
		}
		return tuple(c.setBig(0, c.x.C.ConstBig(v, n)), c.x.C.True)
	}
	models[B+"Add"] = func(c *callCtx) Value {
		a, b := c.bigPair(1, 2)
		w := a.W + 1
		if a.IsZero() {
			return c.setBig(0, b)
		}
		if b.IsZero() {
			return c.setBig(0, a)
		}
		return c.setBig(0, c.x.C.Add(c.x.C.ZExt(a, w), c.x.C.ZExt(b, w)))
	}
	models[B+"Sub"] = func(c *callCtx) Value {
		a, b := c.bigPair(1, 2)
		cond := c.x.C.Ule(b, a)
		if !cond.IsTrue() && !c.x.infeasible(c.st, c.x.C.BNot(cond)) {
			panic(unsupported("big.Int.Sub may be negative"))
		}
		return c.setBig(0, c.x.C.Sub(a, b))
	}
	models[B+"Mul"] = func(c *callCtx) Value {
		a, b := c.big(1), c.big(2)
		w := a.W + b.W
		return c.setBig(0, c.x.C.Mul(c.x.C.ZExt(a, w), c.x.C.ZExt(b, w)))
	}
	div := func(rem bool) modelFn {
		return func(c *callCtx) Value {
			a, b := c.bigPair(1, 2)
			if !c.require(c.x.C.BNot(c.x.C.Eq(b, c.x.C.Const(0, b.W))), "division by zero") {
				return nil
			}
			if rem {
				return c.setBig(0, c.x.C.URem(a, b))
			}
			return c.setBig(0, c.x.C.UDiv(a, b))
		}
	}
	models[B+"Mod"], models[B+"Rem"] = div(true), div(true)
	models[B+"Div"], models[B+"Quo"] = div(false), div(false)
	bin := func(f func(c *term.Ctx, a, b *term.Term) *term.Term) modelFn {
		return func(c *callCtx) Value {
			a, b := c.bigPair(1, 2)
			return c.setBig(0, f(c.x.C, a, b))
		}
	}
	models[B+"And"] = bin(func(C *term.Ctx, a, b *term.Term) *term.Term { return C.And(a, b) })
	models[B+"Or"] = bin(func(C *term.Ctx, a, b *term.Term) *term.Term { return C.Or(a, b) })
	models[B+"Xor"] = bin(func(C *term.Ctx, a, b *term.Term) *term.Term { return C.Xor(a, b) })
	models[B+"AndNot"] = bin(func(C *term.Ctx, a, b *term.Term) *term.Term { return C.And(a, C.Not(b)) })
	models[B+"Lsh"] = func(c *callCtx) Value {
		n := c.term(2)
		if !n.IsConst() {
			panic(unsupported("big shift by symbolic amount"))
		}
		a := c.big(1)
		if n.IsZero() {
			return c.setBig(0, a)
		}
		return c.setBig(0, c.x.C.Concat(a, c.x.C.Const(0, int32(n.U64()))))
	}
	models[B+"Rsh"] = func(c *callCtx) Value {
		n := c.term(2)
		if !n.IsConst() {
			panic(unsupported("big shift by symbolic amount"))
		}
		a := c.big(1)
		k := int64(n.U64())
		if k >= int64(a.W) {
			return c.setBig(0, c.x.C.Const(0, 1))
		}
		return c.setBig(0, c.x.C.Extract(a, a.W-1, int32(k)))
	}
	models[B+"Cmp"] = func(c *callCtx) Value {
		C := c.x.C
		a, b := c.bigPair(0, 1)
		return C.Ite(C.Eq(a, b), c.x.zero64, C.Ite(C.Ult(a, b), C.Const(^uint64(0), 64), C.Const(1, 64)))
	}
	models[B+"CmpAbs"] = models[B+"Cmp"]
	models[B+"Sign"] = func(c *callCtx) Value {
		a := c.big(0)
		return c.x.C.Ite(c.x.C.Eq(a, c.x.C.Const(0, a.W)), c.x.zero64, c.x.C.Const(1, 64))
	}
	lo64 := func(c *callCtx) Value {
		a := c.big(0)
		if a.W >= 64 {
			return c.x.C.Extract(a, 63, 0)
		}
		return c.x.C.ZExt(a, 64)
	}
	models[B+"Uint64"], models[B+"Int64"] = lo64, lo64
	models[B+"IsUint64"] = func(c *callCtx) Value {
		a := c.big(0)
		if a.W <= 64 {
			return c.x.C.True
		}
		return c.x.C.Eq(c.x.C.Extract(a, a.W-1, 64), c.x.C.Const(0, a.W-64))
	}
	models[B+"BitLen"] = func(c *callCtx) Value { return c.x.bitLen(c.big(0)) }
	models[B+"Bit"] = func(c *callCtx) Value {
		a := c.big(0)
		i := c.term(1)
		if !i.IsConst() {
			panic(unsupported("big.Bit symbolic"))
		}
		if i.U64() >= uint64(a.W) {
			return c.x.zero64
		}
		return c.x.C.ZExt(c.x.C.Extract(a, int32(i.U64()), int32(i.U64())), 64)
	}
	models[B+"FillBytes"] = func(c *callCtx) Value {
		a := c.big(0)
		s := c.slice(1)
		if !s.Len.IsConst() {
			panic(unsupported("FillBytes symbolic"))
		}
		n := int32(s.Len.U64()) * 8
		if a.W > n {
			hi := c.x.C.Extract(a, a.W-1, n)
			if !c.require(c.x.C.Eq(hi, c.x.C.Const(0, hi.W)), "FillBytes: buffer too small") {
				return nil
			}
			a = c.x.C.Extract(a, n-1, 0)
		} else {
			a = c.x.C.ZExt(a, n)
		}
		c.x.putBytes(c.st, s, 0, c.x.splitBE(a))
		return s
	}
	models[B+"Bytes"] = func(c *callCtx) Value {
		// minimal big-endian encoding: the length is symbolic
		x := c.x
		C := x.C
		a := c.big(0)
		w := (a.W + 7) / 8 * 8
		a = C.ZExt(a, w)
		b := x.splitBE(a)
		n := len(b)
		if a.IsConst() {
			k := 0
			for k < n && b[k].IsZero() {
				k++
			}
			return x.newBytes(c.st, b[k:])
		}
		s := x.newBytes(c.st, b)
		// skip = number of leading zero bytes
		skip := C.Const(uint64(n), 64)
		for k := n - 1; k >= 0; k-- {
			skip = C.Ite(C.BNot(C.Eq(b[k], C.Const(0, 8))), C.Const(uint64(k), 64), skip)
		}
		l := C.Sub(C.Const(uint64(n), 64), skip)
		return &Slice{P: x.ptrAdd(s.P, skip, 1), Len: l, Cap: l}
	}
	models[B+"ProbablyPrime"] = func(c *callCtx) Value {
		x := c.x
		a := c.big(0)
		if a.IsConst() {
			return x.C.Bool(a.Big().ProbablyPrime(20))
		}
		if a.W < 64 {
			a = x.C.ZExt(a, 64)
		}
		return x.C.App("isprime", 0, a)
	}
}

func (x *Exec) splitBE(t *term.Term) []*term.Term {
	n := t.W / 8
	out := make([]*term.Term, n)
	for i := int32(0); i < n; i++ {
		out[i] = x.C.Extract(t, t.W-1-8*i, t.W-8-8*i)
	}
	return out
}

// initAtomic: atomic operations access memory without counting as unsynchronised.
func initAtomic() {
	quiet := func(x *Exec, f func()) {
		tr, fe := x.tracking, x.frozenEpoch
		x.tracking, x.frozenEpoch = false, 0
		f()
		x.tracking, x.frozenEpoch = tr, fe
	}
	for _, t := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		t := t
		op := func(name string, f func(c *callCtx, old Value, put func(Value)) Value) {
			models["sync/atomic."+name+t] = func(c *callCtx) Value {
				x := c.x
				p, ok := c.args[0].(*Ptr)
				if !ok {
					panic(unsupported("atomic access through %T", c.args[0]))
				}
				if p.Obj == nil {
					c.require(x.C.False, "atomic access through nil")
					return nil
				}
				el := c.fn.Signature.Params().At(0).Type().Underlying().(*types.Pointer).Elem()
				var r Value
				quiet(x, func() {
					r = f(c, x.loadPtr(c.st, p, el), func(v Value) { x.storeCond(c.st, p, v, el, nil) })
				})
				return r
			}
		}
		op("Load", func(c *callCtx, old Value, put func(Value)) Value { return old })
		op("Store", func(c *callCtx, old Value, put func(Value)) Value { put(c.args[1]); return &Tuple{} })
		op("Swap", func(c *callCtx, old Value, put func(Value)) Value { put(c.args[1]); return old })
		op("CompareAndSwap", func(c *callCtx, old Value, put func(Value)) Value {
			var eq *term.Term
			if a, ok := old.(*term.Term); ok {
				eq = c.x.C.Eq(a, c.args[1].(*term.Term))
			} else if c.x.sameVal(old, c.args[1]) {
				eq = c.x.C.True
			} else {
				a, ok1 := old.(*Ptr)
				b, ok2 := c.args[1].(*Ptr)
				if !ok1 || !ok2 || (a.Obj != nil && a.Obj == b.Obj) {
					panic(unsupported("pointer comparison in CompareAndSwap"))
				}
				eq = c.x.C.False
			}
			put(c.x.merge(eq, c.args[2], old))
			return eq
		})
		if t != "Pointer" {
			op("Add", func(c *callCtx, old Value, put func(Value)) Value {
				n := c.x.C.Add(old.(*term.Term), c.args[1].(*term.Term))
				put(n)
				return n
			})
		}
	}
}

// initPaths evaluates path functions on concrete strings.
func initPaths() {
	for n, f := range map[string]func(string) string{
		"path/filepath.Dir": filepath.Dir, "path/filepath.Base": filepath.Base, "path/filepath.Ext": filepath.Ext, "path/filepath.Clean": filepath.Clean,
		"path.Dir": path.Dir, "path.Base": path.Base, "path.Ext": path.Ext, "path.Clean": path.Clean,
	} {
		f := f
		models[n] = func(c *callCtx) Value { return &Str{S: f(c.str(0))} }
	}
	for n, f := range map[string]func(...string) string{"path/filepath.Join": filepath.Join, "path.Join": path.Join} {
		f := f
		models[n] = func(c *callCtx) Value {
			s := c.slice(0)
			if !s.Len.IsConst() {
				panic(unsupported("symbolic number of path elements"))
			}
			var l []string
			for i := int64(0); i < int64(s.Len.U64()); i++ {
				q := c.x.ptrAdd(s.P, c.x.C.Const(uint64(i), 64), 16)
				e, ok := c.x.loadPtr(c.st, q, types.Typ[types.String]).(*Str)
				if !ok || e.Sym != nil || e.Opq != "" {
					panic(unsupported("symbolic path"))
				}
				l = append(l, e.S)
			}
			return &Str{S: f(l...)}
		}
	}
	models["internal/bytealg.MakeNoZero"] = func(c *callCtx) Value {
		n := c.constInt(0)
		b := make([]*term.Term, n)
		for i := range b {
			b[i] = c.x.C.Const(0, 8)
		}
		return c.x.newBytes(c.st, b)
	}
}
