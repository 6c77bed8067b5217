package exec

import (
	"fmt"
	"go/ast"
	"go/build"
	"go/types"
	"os"
	"os/exec"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"

	"verifengine/term"
)

// Functions of the module written in amd64 assembly: the package's .s files are assembled
// with the Go assembler, the object code is disassembled and its instructions interpreted
// over symbolic bytes. Addresses and counters must come out concrete.

type asmInst struct {
	addr uint64
	text string
}

var (
	asmMu    sync.Mutex
	asmCache = map[string]map[string][]asmInst{} // dir -> function -> code
)

const modulePath = "github.com/sencha-dev/powkit"

func isAsm(fn *ssa.Function) bool {
	if fn.Pkg == nil || !strings.HasPrefix(fn.Pkg.Pkg.Path(), modulePath) {
		return false
	}
	d, ok := fn.Syntax().(*ast.FuncDecl)
	return ok && d.Body == nil
}

func asmCode(dir, name string) ([]asmInst, error) {
	asmMu.Lock()
	defer asmMu.Unlock()
	if asmCache[dir] == nil {
		fns := map[string][]asmInst{}
		tmp, err := os.MkdirTemp("", "vrun-asm")
		if err != nil {
			return nil, err
		}
		defer os.RemoveAll(tmp)
		files, _ := filepath.Glob(filepath.Join(dir, "*.s"))
		root, err := exec.Command("go", "env", "GOROOT").Output()
		if err != nil {
			return nil, err
		}
		for i, f := range files {
			if ok, _ := build.Default.MatchFile(dir, filepath.Base(f)); !ok {
				continue
			}
			obj := filepath.Join(tmp, strconv.Itoa(i)+".o")
			cmd := exec.Command("go", "tool", "asm", "-p", "p", "-I", filepath.Join(strings.TrimSpace(string(root)), "pkg", "include"), "-o", obj, f)
			cmd.Dir = dir
			if out, err := cmd.CombinedOutput(); err != nil {
				return nil, unsupported("assembler: %s", out)
			}
			out, err := exec.Command("go", "tool", "objdump", "-gnu", obj).Output()
			if err != nil {
				return nil, err
			}
			cur := ""
			for _, l := range strings.Split(string(out), "\n") {
				if strings.HasPrefix(l, "TEXT ") {
					cur = strings.TrimPrefix(strings.Fields(l)[1], "p.")
					cur = strings.TrimSuffix(cur, "(SB)")
					continue
				}
				k := strings.Index(l, "// ")
				w := strings.Fields(l)
				if k < 0 || len(w) < 3 || cur == "" {
					continue
				}
				a, err := strconv.ParseUint(strings.TrimPrefix(w[1], "0x"), 16, 64)
				if err != nil {
					continue
				}
				t := l[k+3:]
				if r := strings.IndexByte(t, '['); r >= 0 { // relocation
					t = t[:r] + " reloc"
				}
				fns[cur] = append(fns[cur], asmInst{a, strings.Join(strings.Fields(t), " ")})
			}
		}
		asmCache[dir] = fns
	}
	return asmCache[dir][name], nil
}

// areg is a register or stack value: a pointer plus offset, or little-endian bytes.
type areg struct {
	p   *Ptr
	sp  bool // stack pointer relative
	off int64
	b   []*term.Term
}

type amach struct {
	x     *Exec
	c     *callCtx
	r     map[string]*areg // rax.. r15, x0..x15
	stack map[int64]*areg  // byte offset -> 8-byte slot
	// flags of the last operation, when concrete
	zf, sf, cf, of, fok bool
}

var gprNames = map[string][2]string{} // register -> canonical, width code

func init() {
	add := func(can string, names [4]string) {
		for i, n := range names {
			gprNames[n] = [2]string{can, []string{"8", "4", "2", "1"}[i]}
		}
	}
	for _, s := range []string{"a", "b", "c", "d"} {
		add("r"+s+"x", [4]string{"r" + s + "x", "e" + s + "x", s + "x", s + "l"})
	}
	for _, s := range []string{"si", "di", "sp", "bp"} {
		add("r"+s, [4]string{"r" + s, "e" + s, s, s + "l"})
	}
	for i := 8; i < 16; i++ {
		n := "r" + strconv.Itoa(i)
		add(n, [4]string{n, n + "d", n + "w", n + "b"})
		gprNames[n+"l"] = [2]string{n, "1"}
	}
}

func (m *amach) constBytes(v uint64, n int) *areg {
	r := &areg{}
	for i := 0; i < n; i++ {
		r.b = append(r.b, m.x.C.Const(v>>(8*uint(i))&255, 8))
	}
	return r
}

func (r *areg) konst() (uint64, bool) {
	if r.p != nil || r.sp {
		return 0, false
	}
	v := uint64(0)
	for i := len(r.b) - 1; i >= 0; i-- {
		if !r.b[i].IsConst() {
			return 0, false
		}
		if i < 8 {
			v |= r.b[i].U64() << (8 * uint(i))
		}
	}
	return v, true
}

func (m *amach) ofTerm(t *term.Term) *areg {
	r := &areg{}
	for i := int32(0); i < t.W/8; i++ {
		r.b = append(r.b, m.x.C.Extract(t, 8*i+7, 8*i))
	}
	return r
}

func (m *amach) toTerm(r *areg) *term.Term {
	if r.p != nil || r.sp {
		panic(unsupported("assembly: pointer used as data"))
	}
	var ts []*term.Term
	for i := len(r.b) - 1; i >= 0; i-- {
		ts = append(ts, r.b[i])
	}
	return m.x.C.ConcatN(ts)
}

// operand
type aop struct {
	imm   uint64
	isImm bool
	reg   string
	w     int // register width
	vec   bool
	mem   bool
	disp  int64
	base  string
	index string
	scale int64
}

func splitOps(s string) []string {
	var out []string
	depth, at := 0, 0
	for i, c := range s {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ',':
			if depth == 0 {
				out = append(out, s[at:i])
				at = i + 1
			}
		}
	}
	if strings.TrimSpace(s[at:]) != "" {
		out = append(out, s[at:])
	}
	for i := range out {
		out[i] = strings.TrimSpace(out[i])
	}
	return out
}

func parseNum(s string) int64 {
	neg := strings.HasPrefix(s, "-")
	v, err := strconv.ParseUint(strings.TrimPrefix(s, "-"), 0, 64)
	if err != nil {
		panic(unsupported("assembly: number %q", s))
	}
	if neg {
		return -int64(v)
	}
	return int64(v)
}

func parseOp(s string) aop {
	if strings.HasPrefix(s, "$") {
		return aop{isImm: true, imm: uint64(parseNum(s[1:]))}
	}
	reg := func(n string) (string, int, bool) {
		n = strings.TrimPrefix(n, "%")
		if g, ok := gprNames[n]; ok {
			w, _ := strconv.Atoi(g[1])
			return g[0], w, false
		}
		if strings.HasPrefix(n, "xmm") {
			return "x" + n[3:], 16, true
		}
		panic(unsupported("assembly: register %s", n))
	}
	if strings.HasPrefix(s, "%") && !strings.Contains(s, ":") {
		n, w, v := reg(s)
		return aop{reg: n, w: w, vec: v}
	}
	i := strings.IndexByte(s, '(')
	if i < 0 || !strings.HasSuffix(s, ")") || strings.Contains(s, ":") {
		panic(unsupported("assembly: operand %s", s))
	}
	o := aop{mem: true, scale: 1}
	if i > 0 {
		o.disp = parseNum(s[:i])
	}
	p := strings.Split(s[i+1:len(s)-1], ",")
	if p[0] != "" {
		o.base, _, _ = reg(p[0])
	}
	if len(p) > 1 && p[1] != "" {
		o.index, _, _ = reg(p[1])
	}
	if len(p) > 2 {
		o.scale = parseNum(p[2])
	}
	return o
}

func (m *amach) get(n string) *areg {
	if r := m.r[n]; r != nil {
		return r
	}
	panic(unsupported("assembly: read of unset register %s", n))
}

// addr is the address an operand names.
func (m *amach) addr(o aop) *areg {
	r := &areg{off: o.disp}
	add := func(v *areg, scale int64) {
		if v.p != nil || v.sp {
			if r.p != nil || r.sp || scale != 1 {
				panic(unsupported("assembly: address of two pointers"))
			}
			r.p, r.sp = v.p, v.sp
			r.off += v.off
			return
		}
		k, ok := v.konst()
		if !ok {
			panic(unsupported("assembly: symbolic address"))
		}
		r.off += int64(k) * scale
	}
	if o.base != "" {
		add(m.get(o.base), 1)
	}
	if o.index != "" {
		add(m.get(o.index), o.scale)
	}
	return r
}

func (m *amach) load(o aop, w int) *areg {
	switch {
	case o.isImm:
		return m.constBytes(o.imm, w)
	case o.reg != "":
		r := m.get(o.reg)
		if r.p != nil || r.sp {
			if w != 8 {
				panic(unsupported("assembly: part of a pointer"))
			}
			return r
		}
		return &areg{b: r.b[:w]}
	}
	a := m.addr(o)
	if a.sp {
		s := m.stack[a.off&^7]
		if s == nil {
			panic(unsupported("assembly: read of unset stack slot"))
		}
		if s.p != nil || s.sp {
			if w != 8 || a.off%8 != 0 {
				panic(unsupported("assembly: part of a pointer"))
			}
			return s
		}
		k := int(a.off & 7)
		if k+w > 8 {
			panic(unsupported("assembly: wide stack access"))
		}
		return &areg{b: s.b[k : k+w]}
	}
	if a.p == nil {
		panic(unsupported("assembly: load from a constant address"))
	}
	out := &areg{}
	for i := 0; i < w; i++ {
		if a.p.Idx == nil && (a.pos()+int64(i) < 0 || a.pos()+int64(i) >= a.p.Obj.Size) {
			// whatever lies next to the object
			out.b = append(out.b, m.x.C.Var(fmt.Sprintf("outside.%d.%d", a.p.Obj.ID, a.pos()+int64(i)), 8))
			continue
		}
		out.b = append(out.b, m.x.intOf(m.x.loadLeaf(m.c.st, a.p, a.off+int64(i), Leaf{Size: 1, Kind: KInt, W: 8})))
	}
	return out
}

func (m *amach) store(o aop, v *areg, w int) {
	if o.reg != "" {
		if v.p != nil || v.sp {
			m.r[o.reg] = v
			return
		}
		old := m.r[o.reg]
		nb := append([]*term.Term{}, v.b[:w]...)
		if o.vec {
			for len(nb) < 16 {
				nb = append(nb, m.x.C.Const(0, 8))
			}
		} else if w == 4 {
			for len(nb) < 8 {
				nb = append(nb, m.x.C.Const(0, 8))
			}
		} else if w < 8 {
			if old == nil || old.p != nil || old.sp {
				old = m.constBytes(0, 8) // the upper part is not used by sensible code
			}
			nb = append(nb, old.b[w:]...)
		}
		m.r[o.reg] = &areg{b: nb}
		return
	}
	a := m.addr(o)
	if a.sp {
		if w == 8 && a.off%8 == 0 {
			m.stack[a.off] = v
			return
		}
		panic(unsupported("assembly: partial stack store"))
	}
	if a.p == nil {
		panic(unsupported("assembly: store to a constant address"))
	}
	if v.p != nil || v.sp {
		panic(unsupported("assembly: pointer stored to memory"))
	}
	if a.p.Idx == nil && (a.pos() < 0 || a.pos()+int64(w) > a.p.Obj.Size) {
		m.c.require(m.x.C.Bool(false), "store outside the destination's memory")
		return
	}
	for i := 0; i < w; i++ {
		m.x.storeLeaf(m.c.st, a.p, a.off+int64(i), Leaf{Size: 1, Kind: KInt, W: 8}, v.b[i], nil)
	}
}

func sgn(v uint64, w int) int64 { return int64(v<<(64-8*uint(w))) >> (64 - 8*uint(w)) }

func (m *amach) logicFlags(v uint64, w int) {
	v &= ^uint64(0) >> (64 - 8*uint(w))
	m.zf, m.sf, m.cf, m.of, m.fok = v == 0, sgn(v, w) < 0, false, false, true
}

// arith sets the flags of a-b or a+b and returns the result.
func (m *amach) arith(a, b uint64, w int, sub bool) uint64 {
	mask := ^uint64(0) >> (64 - 8*uint(w))
	a, b = a&mask, b&mask
	var v uint64
	if sub {
		v = (a - b) & mask
		m.cf = a < b
		m.of = (sgn(a, w) < 0) != (sgn(b, w) < 0) && (sgn(v, w) < 0) != (sgn(a, w) < 0)
	} else {
		v = (a + b) & mask
		m.cf = v < a
		m.of = (sgn(a, w) < 0) == (sgn(b, w) < 0) && (sgn(v, w) < 0) != (sgn(a, w) < 0)
	}
	m.zf, m.sf, m.fok = v == 0, sgn(v, w) < 0, true
	return v
}

func same(a, b *areg) bool {
	if a.sp || b.sp {
		return a.sp && b.sp
	}
	return a.p != nil && b.p != nil && a.p.Obj == b.p.Obj && a.p.Idx == b.p.Idx && a.p.Stride == b.p.Stride
}

func (a *areg) pos() int64 {
	if a.p != nil {
		return a.off + a.p.Off
	}
	return a.off
}

func (m *amach) cond(cc string) bool {
	if !m.fok {
		panic(unsupported("assembly: branch on symbolic data"))
	}
	switch cc {
	case "e", "z":
		return m.zf
	case "ne", "nz":
		return !m.zf
	case "l", "nge":
		return m.sf != m.of
	case "ge", "nl":
		return m.sf == m.of
	case "le", "ng":
		return m.zf || m.sf != m.of
	case "g", "nle":
		return !m.zf && m.sf == m.of
	case "b", "c", "nae":
		return m.cf
	case "ae", "nc", "nb":
		return !m.cf
	case "be", "na":
		return m.cf || m.zf
	case "a", "nbe":
		return !m.cf && !m.zf
	case "s":
		return m.sf
	case "ns":
		return !m.sf
	}
	panic(unsupported("assembly: condition %s", cc))
}

var sufW = map[byte]int{'b': 1, 'w': 2, 'l': 4, 'q': 8}

// width decides the operation width from a register operand or the mnemonic's suffix.
func width(op, stem string, ops []aop) int {
	for i := len(ops) - 1; i >= 0; i-- {
		if ops[i].reg != "" {
			return ops[i].w
		}
	}
	if len(op) == len(stem)+1 {
		return sufW[op[len(op)-1]]
	}
	panic(unsupported("assembly: width of %s", op))
}

func modelAsm(c *callCtx) Value {
	x := c.x
	dir := filepath.Dir(x.L.Prog.Fset.Position(c.fn.Pos()).Filename)
	code, err := asmCode(dir, c.fn.Name())
	if err != nil {
		if u, ok := err.(interface{ Error() string }); ok {
			panic(unsupported("assembly of %s: %s", fnName(c.fn), u.Error()))
		}
	}
	if len(code) == 0 {
		panic(unsupported("no body for %s", fnName(c.fn)))
	}
	m := &amach{x: x, c: c, r: map[string]*areg{}, stack: map[int64]*areg{}}
	m.r["rsp"] = &areg{sp: true}
	m.r["rbp"] = m.constBytes(0, 8)
	off := int64(8)
	put := func(r *areg, w int64) {
		off = (off + w - 1) / w * w
		if w == 8 {
			m.stack[off] = r
		} else {
			s := m.stack[off&^7]
			if s == nil {
				s = m.constBytes(0, 8)
				m.stack[off&^7] = s
			}
			copy(s.b[off&7:], r.b)
		}
		off += w
	}
	ptr := func(p *Ptr) *areg {
		if p == nil || p.Obj == nil {
			return m.constBytes(0, 8)
		}
		return &areg{p: p}
	}
	for _, a := range c.args {
		switch v := a.(type) {
		case *Ptr:
			put(ptr(v), 8)
		case *Slice:
			put(ptr(v.P), 8)
			put(m.ofTerm(v.Len), 8)
			put(m.ofTerm(v.Cap), 8)
		case *term.Term:
			if v.W%8 != 0 {
				panic(unsupported("assembly: argument of %d bits", v.W))
			}
			put(m.ofTerm(v), int64(v.W/8))
		default:
			panic(unsupported("assembly: argument %T", a))
		}
	}
	off = (off + 7) &^ 7
	res := c.fn.Signature.Results()
	resAt := off
	at := map[uint64]int{}
	for i, in := range code {
		at[in.addr] = i
	}
	for pc, steps := 0, 0; ; steps++ {
		if steps > 200000 {
			panic(unsupported("assembly: more than 200000 instructions"))
		}
		if pc >= len(code) {
			panic(unsupported("assembly: ran off the end"))
		}
		x.steps++
		next, ret := m.step(code[pc].text, at)
		if c.dead {
			return nil
		}
		if ret {
			break
		}
		if next >= 0 {
			pc = next
		} else {
			pc++
		}
	}
	out := &Tuple{}
	for i := 0; i < res.Len(); i++ {
		b, ok := res.At(i).Type().Underlying().(*types.Basic)
		if !ok || b.Info()&types.IsInteger == 0 {
			panic(unsupported("assembly: result type"))
		}
		w := int64(types.SizesFor("gc", "amd64").Sizeof(b))
		resAt = (resAt + w - 1) / w * w
		r := m.load(aop{mem: true, base: "rsp", scale: 1, disp: resAt - m.r["rsp"].off}, int(w))
		out.V = append(out.V, m.toTerm(r))
		resAt += w
	}
	if res.Len() == 1 {
		return out.V[0]
	}
	return out
}

func (m *amach) step(text string, at map[uint64]int) (next int, ret bool) {
	next = -1
	op, rest := text, ""
	if i := strings.IndexByte(text, ' '); i > 0 {
		op, rest = text[:i], text[i+1:]
	}
	x := m.x
	jump := func() int {
		a, err := strconv.ParseUint(strings.TrimPrefix(rest, "0x"), 16, 64)
		k, ok := at[a]
		if err != nil || !ok {
			panic(unsupported("assembly: jump %s", text))
		}
		return k
	}
	switch {
	case strings.HasSuffix(text, " reloc"):
		panic(unsupported("assembly: relocation in %s", text))
	case op == "ret" || op == "retq":
		return -1, true
	case op == "nop" || op == "nopl" || op == "nopw" || op == "data16" || op == "prefetcht0" || op == "prefetchnta" || op == "sfence" || op == "mfence" || op == "lfence":
		return
	case op == "jmp" || op == "jmpq":
		return jump(), false
	case op[0] == 'j':
		if m.cond(op[1:]) {
			return jump(), false
		}
		return
	}
	var ops []aop
	for _, s := range splitOps(rest) {
		ops = append(ops, parseOp(s))
	}
	last := len(ops) - 1
	if last < 0 {
		panic(unsupported("assembly: %s", text))
	}
	is := func(stem string) bool {
		return op == stem || len(op) == len(stem)+1 && strings.HasPrefix(op, stem) && sufW[op[len(op)-1]] != 0
	}
	anyVec := false
	for _, o := range ops {
		anyVec = anyVec || o.vec
	}
	aligned := func(o aop) bool {
		if !o.mem {
			return true
		}
		a := m.addr(o)
		if a.p == nil {
			return true
		}
		return m.c.require(x.C.Bool(a.pos()%16 == 0), "misaligned 16-byte access")
	}
	switch op {
	case "movdqu", "movups", "movupd", "lddqu", "movdqa", "movaps", "movapd", "movntdq", "movntps":
		if (strings.HasSuffix(op, "a") || op == "movaps" || op == "movapd" || strings.HasPrefix(op, "movnt")) && !(aligned(ops[0]) && aligned(ops[1])) {
			return
		}
		m.store(ops[1], m.load(ops[0], 16), 16)
		return
	case "pxor", "xorps", "xorpd", "por", "orps", "pand", "andps":
		if ops[0].reg == ops[1].reg && !ops[0].mem && strings.Contains(op, "xor") {
			m.r[ops[1].reg] = m.constBytes(0, 16)
			return
		}
		if !aligned(ops[0]) {
			return
		}
		a, b := m.load(ops[0], 16), m.load(ops[1], 16)
		out := &areg{}
		for i := range a.b {
			switch {
			case strings.Contains(op, "xor"):
				out.b = append(out.b, x.C.Xor(a.b[i], b.b[i]))
			case strings.Contains(op, "and"):
				out.b = append(out.b, x.C.And(a.b[i], b.b[i]))
			default:
				out.b = append(out.b, x.C.Or(a.b[i], b.b[i]))
			}
		}
		m.store(ops[1], out, 16)
		return
	case "movq", "movd":
		if anyVec {
			w := 8
			if op == "movd" {
				w = 4
				if ops[0].w == 8 || ops[1].w == 8 {
					w = 8
				}
			}
			m.store(ops[1], m.load(ops[0], w), w)
			return
		}
	case "push", "pushq":
		m.r["rsp"] = &areg{sp: true, off: m.get("rsp").off - 8}
		m.stack[m.get("rsp").off] = m.get(ops[0].reg)
		return
	case "pop", "popq":
		m.r[ops[0].reg] = m.stack[m.get("rsp").off]
		m.r["rsp"] = &areg{sp: true, off: m.get("rsp").off + 8}
		return
	case "movzbl", "movzbq", "movzwl", "movzwq", "movzbw":
		w := sufW[op[4]]
		v := m.load(ops[0], w)
		out := &areg{b: append([]*term.Term{}, v.b...)}
		for len(out.b) < 8 {
			out.b = append(out.b, x.C.Const(0, 8))
		}
		m.store(ops[1], out, ops[1].w)
		return
	}
	if anyVec {
		panic(unsupported("assembly: %s", text))
	}
	if strings.HasPrefix(op, "lea") {
		a := m.addr(ops[0])
		if a.p == nil && !a.sp {
			m.store(ops[1], m.constBytes(uint64(a.off), 8), ops[1].w)
		} else {
			m.r[ops[1].reg] = a
		}
		return
	}
	if is("mov") || op == "movabs" || op == "movabsq" {
		w := width(op, "mov", ops)
		m.store(ops[1], m.load(ops[0], w), w)
		return
	}
	if is("inc") || is("dec") || is("neg") || is("not") {
		w := width(op, op[:3], ops)
		a := m.load(ops[0], w)
		if a.p != nil || a.sp {
			d := int64(1)
			if op[:3] == "dec" {
				d = -1
			}
			m.store(ops[0], &areg{p: a.p, sp: a.sp, off: a.off + d}, w)
			m.fok = false
			return
		}
		k, ok := a.konst()
		if !ok {
			panic(unsupported("assembly: %s on symbolic data", op))
		}
		cf := m.cf
		switch op[:3] {
		case "inc":
			k = m.arith(k, 1, w, false)
			m.cf = cf
		case "dec":
			k = m.arith(k, 1, w, true)
			m.cf = cf
		case "neg":
			k = m.arith(0, k, w, true)
		case "not":
			k = ^k
		}
		m.store(ops[0], m.constBytes(k, 8), w)
		return
	}
	for _, stem := range []string{"add", "sub", "cmp", "test", "and", "or", "xor", "shl", "shr", "sar", "sal"} {
		if !is(stem) {
			continue
		}
		if len(ops) == 1 { // shift by one
			ops = []aop{{isImm: true, imm: 1}, ops[0]}
		}
		w := width(op, stem, ops[1:])
		if len(ops) == 2 && ops[1].mem {
			w = width(op, stem, ops)
		}
		if stem == "xor" && ops[0].reg != "" && ops[0].reg == ops[1].reg && !ops[0].mem && !ops[1].mem {
			m.logicFlags(0, w)
			m.store(ops[1], m.constBytes(0, 8), w)
			return
		}
		var b *areg
		if strings.HasPrefix(stem, "sh") || strings.HasPrefix(stem, "sa") {
			b = m.load(ops[0], 1)
		} else {
			b = m.load(ops[0], w)
		}
		a := m.load(ops[1], w)
		kb, okb := b.konst()
		ka, oka := a.konst()
		switch {
		case oka && okb:
			var v uint64
			switch stem {
			case "add":
				v = m.arith(ka, kb, w, false)
			case "sub", "cmp":
				v = m.arith(ka, kb, w, true)
			case "and", "test":
				v = ka & kb
				m.logicFlags(v, w)
			case "or":
				v = ka | kb
				m.logicFlags(v, w)
			case "xor":
				v = ka ^ kb
				m.logicFlags(v, w)
			case "shl", "sal":
				v = ka << (kb & 63)
				m.logicFlags(v, w)
			case "shr":
				v = ka >> (kb & 63)
				m.logicFlags(v, w)
			case "sar":
				v = uint64(sgn(ka, w) >> (kb & 63))
				m.logicFlags(v, w)
			}
			if stem != "cmp" && stem != "test" {
				m.store(ops[1], m.constBytes(v, 8), w)
			}
		case (a.p != nil || a.sp) && okb && (stem == "add" || stem == "sub"):
			d := int64(kb)
			if ops[0].isImm {
				d = sgn(kb, w)
			}
			if stem == "sub" {
				d = -d
			}
			m.store(ops[1], &areg{p: a.p, sp: a.sp, off: a.off + d}, w)
			m.fok = false
		case oka && (b.p != nil || b.sp) && stem == "add":
			m.store(ops[1], &areg{p: b.p, sp: b.sp, off: b.off + int64(ka)}, w)
			m.fok = false
		case (stem == "sub" || stem == "cmp") && same(a, b):
			v := m.arith(uint64(a.pos())+1<<40, uint64(b.pos())+1<<40, w, true)
			if stem == "sub" {
				m.store(ops[1], m.constBytes(v, 8), w)
			}
		case (stem == "and" || stem == "test") && (a.p != nil && okb || b.p != nil && oka):
			// the low bits of an address: objects are 16-byte aligned
			p, k := a, kb
			if a.p == nil {
				p, k = b, ka
			}
			if k >= 16 || p.p.Idx != nil && p.p.Stride%16 != 0 {
				panic(unsupported("assembly: bits of an address"))
			}
			v := uint64(p.pos()) & k
			m.logicFlags(v, w)
			if stem == "and" {
				m.store(ops[1], m.constBytes(v, 8), w)
			}
		case a.p == nil && b.p == nil && !a.sp && !b.sp && (stem == "xor" || stem == "or" || stem == "and"):
			out := &areg{}
			for i := range a.b {
				switch stem {
				case "xor":
					out.b = append(out.b, x.C.Xor(a.b[i], b.b[i]))
				case "or":
					out.b = append(out.b, x.C.Or(a.b[i], b.b[i]))
				default:
					out.b = append(out.b, x.C.And(a.b[i], b.b[i]))
				}
			}
			m.fok = false
			m.store(ops[1], out, w)
		case a.p == nil && b.p == nil && !a.sp && !b.sp && stem == "add":
			m.fok = false
			m.store(ops[1], m.ofTerm(x.C.Add(m.toTerm(a), m.toTerm(b))), w)
		case a.p == nil && b.p == nil && !a.sp && !b.sp && (stem == "cmp" || stem == "test"):
			m.fok = false
		default:
			panic(unsupported("assembly: %s", text))
		}
		return
	}
	panic(unsupported("assembly: %s", text))
}
