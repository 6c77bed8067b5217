package exec

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"

	"verifengine/smt"
	"verifengine/term"
)

type fnInfo struct {
	fn    *ssa.Function
	reg   map[ssa.Value]int
	n     int
	ipdom map[*ssa.BasicBlock]*ssa.BasicBlock
	dead  map[*ssa.BasicBlock]bool // cannot reach a return (panics)
	defs  []*ssa.BasicBlock        // defining block per register (nil: parameter)
	loops []*loopInfo
}

// loopInfo is a natural loop and the branches that may leave it.
type loopInfo struct {
	body  map[*ssa.BasicBlock]bool
	exits []*ssa.BasicBlock
}

func (i *fnInfo) computeLoops() {
	byHead := map[*ssa.BasicBlock]*loopInfo{}
	for _, u := range i.fn.Blocks {
		for _, h := range u.Succs {
			if !h.Dominates(u) {
				continue
			}
			l := byHead[h]
			if l == nil {
				l = &loopInfo{body: map[*ssa.BasicBlock]bool{h: true}}
				byHead[h] = l
				i.loops = append(i.loops, l)
			}
			stack := []*ssa.BasicBlock{u}
			for len(stack) > 0 {
				b := stack[len(stack)-1]
				stack = stack[:len(stack)-1]
				if l.body[b] {
					continue
				}
				l.body[b] = true
				stack = append(stack, b.Preds...)
			}
		}
	}
	for h, l := range byHead {
		for b := range l.body {
			if len(b.Succs) == 2 && (!l.body[b.Succs[0]] || !l.body[b.Succs[1]]) && counts(h, b) {
				l.exits = append(l.exits, b)
			}
		}
	}
}

// counts reports that b's branch is an ordered comparison of an induction variable of the
// loop headed by h.
func counts(h, b *ssa.BasicBlock) bool {
	f, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	c, ok := f.Cond.(*ssa.BinOp)
	if !ok {
		return false
	}
	switch c.Op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ:
	default:
		return false
	}
	if b == h {
		return true // a while condition
	}
	step := func(v ssa.Value) (ssa.Value, bool) {
		o, ok := v.(*ssa.BinOp)
		if !ok || o.Op != token.ADD && o.Op != token.SUB {
			return nil, false
		}
		if _, ok := o.Y.(*ssa.Const); ok {
			return o.X, true
		}
		return nil, false
	}
	induction := func(v ssa.Value) bool {
		if o, ok := step(v); ok {
			v = o
		}
		p, ok := v.(*ssa.Phi)
		if !ok || p.Block() != h {
			return false
		}
		for _, e := range p.Edges {
			if o, ok := step(e); ok && o == ssa.Value(p) {
				return true
			}
		}
		return false
	}
	return induction(c.X) || induction(c.Y)
}

// bounded reports that every loop around blk is currently controlled by another branch
// that was last decided concretely.
func (f *Frame) bounded(blk *ssa.BasicBlock) bool {
	for _, l := range f.info.loops {
		if !l.body[blk] {
			continue
		}
		ok := false
		for _, e := range l.exits {
			if e != blk && f.concrete[e] {
				ok = true
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

type deferred struct {
	call *ssa.CallCommon
	args []Value
	fn   Value
}

type Frame struct {
	info    *fnInfo
	regs    []Value
	st      *State
	blk     *ssa.BasicBlock
	prev    *ssa.BasicBlock
	phiDone bool
	defers  []deferred
	visits  map[*ssa.BasicBlock]int
	// concrete records whether a block's branch was last decided by a constant
	concrete map[*ssa.BasicBlock]bool
	ret      []Value
	binds    []Value
	depth    int
}

func (f *Frame) fork() *Frame {
	n := *f
	n.regs = append([]Value(nil), f.regs...)
	n.st = f.st.fork()
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	return &n
}

func (x *Exec) info(fn *ssa.Function) *fnInfo {
	if i, ok := x.infos[fn]; ok {
		return i
	}
	i := &fnInfo{fn: fn, reg: map[ssa.Value]int{}}
	add := func(v ssa.Value, b *ssa.BasicBlock) {
		i.reg[v] = i.n
		i.n++
		i.defs = append(i.defs, b)
	}
	for _, p := range fn.Params {
		add(p, nil)
	}
	for _, p := range fn.FreeVars {
		add(p, nil)
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				add(v, b)
			}
		}
	}
	i.computeIPDom()
	i.computeLoops()
	x.infos[fn] = i
	return i
}

// computeIPDom computes immediate post-dominators, ignoring blocks that only panic.
func (i *fnInfo) computeIPDom() {
	blocks := i.fn.Blocks
	n := len(blocks)
	// reach[b]: b can reach a return
	reach := make([]bool, n)
	var work []*ssa.BasicBlock
	isRet := make([]bool, n)
	for _, b := range blocks {
		if len(b.Instrs) == 0 {
			continue
		}
		if _, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok {
			reach[b.Index] = true
			isRet[b.Index] = true
			work = append(work, b)
		}
	}
	for len(work) > 0 {
		b := work[len(work)-1]
		work = work[:len(work)-1]
		for _, p := range b.Preds {
			if !reach[p.Index] {
				reach[p.Index] = true
				work = append(work, p)
			}
		}
	}
	i.dead = map[*ssa.BasicBlock]bool{}
	for _, b := range blocks {
		if !reach[b.Index] {
			i.dead[b] = true
		}
	}
	// iterative post-dominator sets as bitsets; virtual exit = index n
	words := (n + 1 + 63) / 64
	full := make([]uint64, words)
	for k := 0; k <= n; k++ {
		full[k/64] |= 1 << uint(k%64)
	}
	pd := make([][]uint64, n)
	for _, b := range blocks {
		pd[b.Index] = append([]uint64(nil), full...)
	}
	changed := true
	for changed {
		changed = false
		for k := n - 1; k >= 0; k-- {
			b := blocks[k]
			if !reach[k] {
				continue
			}
			cur := append([]uint64(nil), full...)
			if isRet[k] {
				for w := range cur {
					cur[w] = 0
				}
				cur[n/64] |= 1 << uint(n%64)
			}
			for _, s := range b.Succs {
				if !reach[s.Index] {
					continue
				}
				for w := range cur {
					cur[w] &= pd[s.Index][w]
				}
			}
			cur[k/64] |= 1 << uint(k%64)
			for w := range cur {
				if cur[w] != pd[k][w] {
					pd[k] = cur
					changed = true
					break
				}
			}
		}
	}
	has := func(s []uint64, k int) bool { return s[k/64]>>uint(k%64)&1 == 1 }
	i.ipdom = map[*ssa.BasicBlock]*ssa.BasicBlock{}
	for _, b := range blocks {
		if !reach[b.Index] {
			continue
		}
		// the immediate one: a strict post-dominator whose own set contains all others
		var best *ssa.BasicBlock
		bestN := -1
		for _, c := range blocks {
			if c == b || !has(pd[b.Index], c.Index) || !reach[c.Index] {
				continue
			}
			cnt := 0
			for k := 0; k <= n; k++ {
				if has(pd[c.Index], k) {
					cnt++
				}
			}
			if cnt > bestN {
				bestN, best = cnt, c
			}
		}
		i.ipdom[b] = best
	}
}

// callFunction runs fn; ok=false when no path returns.
func (x *Exec) callFunction(st *State, fn *ssa.Function, args []Value, binds []Value, depth int) (ret Value, ok bool) {
	if depth > 3000 {
		panic(unsupported("call depth"))
	}
	name := fnName(fn)
	if s, ok := x.stubs[name]; ok && s != fn {
		x.stubUsed[name] = true
		return x.callFunction(st, s, args, nil, depth+1)
	}
	if m, ok := x.lookupModel(name, fn); ok {
		x.modelUsed[name] = true
		cc := &callCtx{x: x, st: st, fn: fn, args: args, depth: depth}
		v := m(cc)
		if cc.dead {
			return nil, false
		}
		return v, true
	}
	x.L.build(fn)
	if fn.Blocks == nil {
		panic(unsupported("no body for %s", name))
	}
	if !x.encoded[name] {
		x.encoded[name] = true
		if strings.Contains(x.L.Prog.Fset.Position(fn.Pos()).Filename, "zz_verif_") {
			x.harnessFn[name] = true
		}
	}
	if depth < len(x.trace) {
		x.trace = x.trace[:depth]
	}
	x.trace = append(x.trace, name)
	info := x.info(fn)
	fr := &Frame{info: info, regs: make([]Value, info.n), st: st, blk: fn.Blocks[0], visits: map[*ssa.BasicBlock]int{}, concrete: map[*ssa.BasicBlock]bool{}, depth: depth}
	for i, p := range fn.Params {
		fr.regs[info.reg[p]] = args[i]
	}
	for i, p := range fn.FreeVars {
		fr.regs[info.reg[p]] = binds[i]
	}
	fr.binds = binds
	_, rets := x.run(fr, nil)
	if len(rets) == 0 {
		return nil, false
	}
	// merge returned paths
	cur := rets[len(rets)-1]
	for i := len(rets) - 2; i >= 0; i-- {
		o := rets[i]
		g, ns := x.mergeStates(o.st, cur.st)
		vals := make([]Value, len(cur.ret))
		for k := range vals {
			vals[k] = x.merge(g, o.ret[k], cur.ret[k])
		}
		cur = &Frame{st: ns, ret: vals}
	}
	*st = *cur.st
	switch len(cur.ret) {
	case 0:
		return &Tuple{}, true
	case 1:
		return cur.ret[0], true
	}
	return &Tuple{V: cur.ret}, true
}

func (x *Exec) evalPhis(fr *Frame, blk *ssa.BasicBlock) {
	pi := -1
	for i, p := range blk.Preds {
		if p == fr.prev {
			pi = i
			break
		}
	}
	var vals []Value
	var phis []*ssa.Phi
	for _, in := range blk.Instrs {
		ph, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		phis = append(phis, ph)
		vals = append(vals, x.get(fr, ph.Edges[pi]))
	}
	for i, ph := range phis {
		fr.regs[fr.info.reg[ph]] = vals[i]
	}
}

func (x *Exec) mergeFrames(fs []*Frame, join *ssa.BasicBlock) *Frame {
	if len(fs) == 0 {
		return nil
	}
	cur := fs[len(fs)-1]
	for i := len(fs) - 2; i >= 0; i-- {
		o := fs[i]
		g, ns := x.mergeStates(o.st, cur.st)
		n := *cur
		n.st = ns
		n.regs = make([]Value, len(cur.regs))
		for k := range cur.regs {
			a, b := o.regs[k], cur.regs[k]
			if a == b {
				n.regs[k] = a
				continue
			}
			if a == nil || b == nil {
				continue
			}
			if d := cur.info.defs[k]; d != nil && d != join && !d.Dominates(join) {
				continue // not live at the join
			}
			n.regs[k] = x.merge(g, a, b)
		}
		if len(o.defers) != len(cur.defers) {
			panic(unsupported("conditional defer"))
		}
		cur = &n
	}
	return cur
}

// run executes fr until stop (exclusive) or return.
func (x *Exec) run(fr *Frame, stop *ssa.BasicBlock) (reached, returned []*Frame) {
	for {
		if fr.blk == stop && stop != nil && !fr.phiDone {
			x.evalPhis(fr, stop)
			fr.phiDone = true
			return []*Frame{fr}, returned
		}
		if !fr.phiDone {
			if fr.prev != nil {
				x.evalPhis(fr, fr.blk)
			}
		}
		fr.phiDone = false
		blk := fr.blk
		var next *ssa.BasicBlock
		for _, in := range blk.Instrs {
			x.steps++
			if x.steps > x.MaxSteps {
				panic(unsupported("step budget exhausted"))
			}
			if x.steps&0x3ff == 0 && LowMem.Load() {
				panic(unsupported("memory budget exhausted during symbolic execution"))
			}
			if x.steps&0xffff == 0 && !x.Deadline.IsZero() && time.Now().After(x.Deadline) {
				panic(unsupported("time budget exhausted during symbolic execution"))
			}
			switch i := in.(type) {
			case *ssa.Phi:
				continue
			case *ssa.Jump:
				next = blk.Succs[0]
			case *ssa.Return:
				for _, r := range i.Results {
					fr.ret = append(fr.ret, x.get(fr, r))
				}
				return nil, append(returned, fr)
			case *ssa.If:
				c := x.boolOf(fr.st, x.get(fr, i.Cond))
				fr.concrete[blk] = c.IsConst()
				if c.IsConst() {
					if c.IsTrue() {
						next = blk.Succs[0]
					} else {
						next = blk.Succs[1]
					}
					break
				}
				nx, rch, ret, cont := x.branch(fr, blk, c, stop)
				returned = append(returned, ret...)
				if !cont {
					return rch, returned
				}
				fr = nx
				next = nil
			case *ssa.Panic:
				x.panicPath(fr.st, "panic: "+describe(x.get(fr, i.X)), i.Pos(), fr)
				return nil, returned
			default:
				if !x.instr(fr, in) {
					return nil, returned
				}
			}
		}
		if next != nil {
			fr.prev = blk
			fr.blk = next
		}
	}
}

func (x *Exec) branch(fr *Frame, blk *ssa.BasicBlock, c *term.Term, stop *ssa.BasicBlock) (next *Frame, reached, returned []*Frame, cont bool) {
	n := fr.visits[blk]
	fr.visits[blk] = n + 1
	if n > x.MaxUnwind {
		panic(unsupported("unwinding limit in %s", fnName(fr.info.fn)))
	}
	if x.LoopLimit > 0 && n > x.LoopLimit {
		x.addObl(&Obligation{Kind: "hang", Msg: fmt.Sprintf("more than %d rounds of a loop in %s", x.LoopLimit, fnName(fr.info.fn)), PC: fr.st.pc.list(), Cond: x.C.False})
		return nil, nil, nil, false
	}
	tDead, fDead := fr.info.dead[blk.Succs[0]], fr.info.dead[blk.Succs[1]]
	nc := x.C.BNot(c)
	if n >= 1 && (n > 5000 || !fr.bounded(blk)) || x.FeasAll || tDead || fDead || x.tryDepth > 0 {
		full := 1
		if n > 40 || x.FeasAll {
			full = 2
		}
		if x.infeas(fr.st, c, full) {
			fr.st.assume(nc)
			fr.prev, fr.blk = blk, blk.Succs[1]
			return fr, nil, nil, true
		}
		if x.infeas(fr.st, nc, full) {
			fr.st.assume(c)
			fr.prev, fr.blk = blk, blk.Succs[0]
			return fr, nil, nil, true
		}
	}
	j := fr.info.ipdom[blk]
	js := j
	if js == nil {
		js = stop
	}
	x.forks++
	t, f := fr.fork(), fr.fork()
	t.st.assume(c)
	f.st.assume(nc)
	t.prev, t.blk = blk, blk.Succs[0]
	f.prev, f.blk = blk, blk.Succs[1]
	rt, et := x.run(t, js)
	if len(rt) == 0 && js == stop {
		// this side is over: carry on with the other one in place
		if f.st.heap.depth-x.root.depth > 48 {
			f.st.heap = x.compact(f.st.heap)
		}
		return f, nil, et, true
	}
	rf, ef := x.run(f, js)
	returned = append(et, ef...)
	all := append(rt, rf...)
	if len(all) == 0 {
		return nil, nil, returned, false
	}
	m := x.mergeFrames(all, js)
	m.blk = js
	m.phiDone = true
	if js == stop {
		return nil, []*Frame{m}, returned, false
	}
	return m, nil, returned, true
}

var slowQ = os.Getenv("VERIF_SLOWQ") != ""

// infeasible reports that pc ∧ c is unsatisfiable (proved).
func (x *Exec) infeasible(st *State, c *term.Term) bool { return x.infeas(st, c, 2) }

// unlikely is infeasible using only the small conjuncts of pc, for pruning that is optional.
func (x *Exec) unlikely(st *State, c *term.Term) bool { return x.infeas(st, c, 0) }

// light reports that t is small and free of uninterpreted functions.
func (x *Exec) light(t *term.Term) bool {
	if r, ok := x.lightCache[t]; ok {
		return r
	}
	n := 0
	seen := map[*term.Term]bool{}
	var f func(t *term.Term) bool
	f = func(t *term.Term) bool {
		if seen[t] {
			return true
		}
		seen[t] = true
		n++
		if n > 500 || t.Op == term.OUF {
			return false
		}
		for _, a := range t.Args {
			if !f(a) {
				return false
			}
		}
		return true
	}
	r := f(t)
	x.lightCache[t] = r
	return r
}

func (x *Exec) infeas(st *State, c *term.Term, full int) bool {
	if c.IsFalse() {
		return true
	}
	if c.IsTrue() && st.pc == nil {
		return false
	}
	key := feasKey{st.pc, c, full}
	if r, ok := x.feasCache[key]; ok {
		return r
	}
	l := st.pc.list()
	for _, p := range l {
		if p == c {
			// implied; only infeasible if pc itself is, ignore
			x.feasCache[key] = false
			return false
		}
		if p == x.C.BNot(c) {
			x.feasCache[key] = true
			return true
		}
	}
	if s := x.C.AndN(append([]*term.Term{c}, l...)...); s.IsFalse() {
		x.feasCache[key] = true
		return true
	}
	var ls []*term.Term
	for _, p := range l {
		if x.light(p) {
			ls = append(ls, p)
			continue
		}
		if p.Op == term.OBAnd {
			for _, a := range p.Args {
				if x.light(a) {
					ls = append(ls, a)
				}
			}
		}
	}
	t0 := time.Now()
	if !x.Deadline.IsZero() && t0.After(x.Deadline) {
		panic(unsupported("time budget exhausted during symbolic execution"))
	}
	if LowMem.Load() {
		panic(unsupported("memory budget exhausted during symbolic execution"))
	}
	r := smt.Unknown
	ms := 0
	if x.light(c) {
		ms = 1000
		r = x.inc.CheckT(append(ls, c), ms)
	} else {
		ls = nil
	}
	if r != smt.Unsat && (full == 2 || full == 1 && r != smt.Sat) && len(ls) < len(l) {
		ms = 3000
		if x.feasLost > 20*time.Second {
			ms = 500
		}
		t1 := time.Now()
		r = x.inc.CheckT(append(l, c), ms)
		if r == smt.Unknown {
			x.feasLost += time.Since(t1)
		}
	}
	x.feasCache[key] = r == smt.Unsat
	if slowQ {
		fmt.Fprintf(os.Stderr, "feas %.2fs %v full=%d pc=%d/%d at %v cond %s\n", time.Since(t0).Seconds(), r, full, len(ls), len(l), x.trace[len(x.trace)-1], short(c.String(), 200))
	}
	return r == smt.Unsat
}

func short(s string, n int) string {
	if len(s) > n {
		return s[:n]
	}
	return s
}

// panicPath ends the current path with a panic.
func (x *Exec) panicPath(st *State, msg string, pos token.Pos, fr *Frame) {
	if x.tryDepth > 0 {
		x.tryPanics = append(x.tryPanics, &State{heap: st.heap, pc: st.pc})
		return
	}
	x.addObl(&Obligation{Kind: "panic", Msg: msg + " at " + x.posOf(pos, fr), PC: st.pc.list(), Cond: x.C.False})
}

// require emits a runtime check; returns false if the path cannot continue.
func (x *Exec) require(fr *Frame, cond *term.Term, msg string, pos token.Pos) bool {
	if cond.IsTrue() {
		return true
	}
	st := fr.st
	if cond.IsFalse() {
		x.panicPath(st, msg, pos, fr)
		return false
	}
	if x.infeasible(st, x.C.BNot(cond)) {
		return true
	}
	fst := st.fork()
	fst.assume(x.C.BNot(cond))
	x.panicPath(fst, msg, pos, fr)
	if x.unlikely(st, cond) {
		return false
	}
	st.assume(cond)
	return true
}

func (x *Exec) posOf(pos token.Pos, fr *Frame) string {
	s := ""
	if pos.IsValid() {
		p := x.L.Prog.Fset.Position(pos)
		s = fmt.Sprintf("%s:%d", p.Filename, p.Line)
	}
	if fr != nil && fr.info != nil {
		s += " (" + fnName(fr.info.fn) + ")"
	}
	return s
}

func (x *Exec) boolOf(st *State, v Value) *term.Term {
	switch p := v.(type) {
	case *term.Term:
		return p
	case *Union:
		return x.boolOf(st, x.mapUnion(st, p, func(v Value) Value { return v }))
	}
	panic(unsupported("boolean from %T", v))
}

func (x *Exec) get(fr *Frame, v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constant(c)
	case *ssa.Global:
		return x.global(c)
	case *ssa.Function:
		return &Func{Fn: c}
	case *ssa.Builtin:
		return &Func{Builtin: c.Name()}
	}
	r := fr.regs[fr.info.reg[v]]
	if r == nil {
		panic(unsupported("undefined register %s in %s", v.Name(), fnName(fr.info.fn)))
	}
	return r
}

func (x *Exec) constant(c *ssa.Const) Value {
	if v, ok := x.consts[c]; ok {
		return v
	}
	v := x.mkConst(c)
	x.consts[c] = v
	return v
}

func (x *Exec) mkConst(c *ssa.Const) Value {
	if c.Value == nil {
		return x.zeroValue(c.Type())
	}
	b, ok := c.Type().Underlying().(*types.Basic)
	if !ok {
		panic(unsupported("constant of type %s", c.Type()))
	}
	w, _, k := basicWidth(b)
	switch k {
	case KBool:
		return x.C.Bool(constant.BoolVal(c.Value))
	case KInt:
		v := constant.ToInt(c.Value)
		if u, ok := constant.Uint64Val(v); ok {
			return x.C.Const(u, w)
		}
		i, _ := constant.Int64Val(v)
		return x.C.Const(uint64(i), w)
	case KFloat:
		f, _ := constant.Float64Val(c.Value)
		if b.Kind() == types.Float32 {
			f = float64(float32(f))
		}
		return Float(f)
	case KString:
		return &Str{S: constant.StringVal(c.Value)}
	case KPtr:
		if u, ok := constant.Uint64Val(constant.ToInt(c.Value)); ok && u == 0 {
			return nilPtr
		}
	}
	panic(unsupported("constant %s", c))
}

func (x *Exec) global(g *ssa.Global) Value {
	if p, ok := x.globals[g]; ok {
		return p
	}
	t := g.Type().(*types.Pointer).Elem()
	save, saveE := x.inInit, x.epoch
	x.inInit, x.epoch = true, 0
	o := x.allocType(&State{heap: x.root}, "global "+g.String(), t)
	o.Global = true
	p := &Ptr{Obj: o}
	x.globals[g] = p
	x.inInit, x.epoch = save, saveE
	x.ensureInit(g.Pkg)
	return p
}

// ensureInit runs the variable initialisers of pkg once, on the root heap.
func (x *Exec) ensureInit(pkg *ssa.Package) {
	if pkg == nil || x.inited[pkg] {
		return
	}
	x.inited[pkg] = true
	if skipInit(pkg.Pkg.Path()) {
		return
	}
	f := pkg.Func("init")
	if f == nil {
		return
	}
	x.L.buildPkg(pkg)
	save, saveE, saveT := x.inInit, x.epoch, x.tryDepth
	saveTr := append([]string(nil), x.trace...)
	x.inInit, x.epoch, x.tryDepth = true, 0, 0
	st := &State{heap: x.root}
	x.initPkg = append(x.initPkg, pkg)
	info := x.info(f)
	fr := &Frame{info: info, regs: make([]Value, info.n), st: st, blk: f.Blocks[0], visits: map[*ssa.BasicBlock]int{}, concrete: map[*ssa.BasicBlock]bool{}}
	x.run(fr, nil)
	x.initPkg = x.initPkg[:len(x.initPkg)-1]
	x.inInit, x.epoch, x.tryDepth = save, saveE, saveT
	x.trace = saveTr
}

func skipInit(path string) bool {
	switch path {
	case "os", "runtime", "syscall", "time", "reflect", "fmt", "internal/cpu", "golang.org/x/sys/cpu", "golang.org/x/sys/unix", "os/user", "math/rand", "crypto/rand", "sync", "internal/poll", "golang.org/x/crypto/sha3", "github.com/dchest/blake2b":
		return true
	}
	return strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "crypto/") || strings.HasPrefix(path, "testing")
}

var debugTrace = os.Getenv("VRUN_TRACE") != ""

type feasKey struct {
	pc   *PC
	c    *term.Term
	full int
}
