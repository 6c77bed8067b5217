// Package term implements hash-consed bit-vector / boolean terms with an eager
// simplifier, a concrete evaluator and an SMT-LIB2 printer.
package term

import (
	"fmt"
	"math/big"
	"math/bits"
	"sort"
	"sync"
)

type Op uint8

const (
	OConst Op = iota
	OVar
	OUF
	OAdd // n-ary, args sorted; coefficients as OMul(const, t)
	OMul
	OUDiv
	OURem
	OSDiv
	OSRem
	OAnd
	OOr
	OXor
	OShl
	OLshr
	OAshr
	OConcat // args[0] is most significant
	OExtract
	OSext
	OIte
	OEq
	OUlt
	OUle
	OSlt
	OSle
	OBAnd
	OBOr
	OBNot
)

var opNames = map[Op]string{OConst: "const", OVar: "var", OUF: "uf", OAdd: "bvadd", OMul: "bvmul", OUDiv: "bvudiv", OURem: "bvurem", OSDiv: "bvsdiv", OSRem: "bvsrem", OAnd: "bvand", OOr: "bvor", OXor: "bvxor", OShl: "bvshl", OLshr: "bvlshr", OAshr: "bvashr", OConcat: "concat", OExtract: "extract", OSext: "sext", OIte: "ite", OEq: "=", OUlt: "bvult", OUle: "bvule", OSlt: "bvslt", OSle: "bvsle", OBAnd: "and", OBOr: "or", OBNot: "not"}

// Term is an immutable hash-consed node. W==0 means Bool.
type Term struct {
	Op     Op
	W      int32
	ID     int32
	Hi, Lo int32 // extract bounds
	C      uint64
	B      *big.Int // const value when W>64
	Name   string
	Args   []*Term
	rlo    uint64
	rhi    uint64 // unsigned range, valid when W in 1..64
}

// UFEval evaluates an uninterpreted application on constants; ok=false keeps it symbolic.
type UFEval func(name string, outW int32, args []*Term) (*Term, bool)

type Ctx struct {
	mu     sync.Mutex
	tab    map[uint64][]*Term
	n      int32
	True   *Term
	False  *Term
	UF     UFEval
	Rewrit uint64
}

func NewCtx() *Ctx {
	c := &Ctx{tab: make(map[uint64][]*Term, 1<<16)}
	c.True = c.intern(&Term{Op: OConst, W: 0, C: 1})
	c.False = c.intern(&Term{Op: OConst, W: 0, C: 0})
	return c
}

func (c *Ctx) NumTerms() int { return int(c.n) }

func mix(h, v uint64) uint64 {
	h ^= v + 0x9e3779b97f4a7c15 + (h << 6) + (h >> 2)
	h *= 0xff51afd7ed558ccd
	h ^= h >> 32
	return h
}

func (c *Ctx) intern(t *Term) *Term {
	h := mix(uint64(t.Op)<<32|uint64(uint32(t.W)), uint64(uint32(t.Hi))<<32|uint64(uint32(t.Lo)))
	h = mix(h, t.C)
	if t.B != nil {
		for _, w := range t.B.Bits() {
			h = mix(h, uint64(w))
		}
	}
	for i := 0; i < len(t.Name); i++ {
		h = h*1099511628211 ^ uint64(t.Name[i])
	}
	for _, a := range t.Args {
		h = mix(h, uint64(a.ID))
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, o := range c.tab[h] {
		if o.Op == t.Op && o.W == t.W && o.Hi == t.Hi && o.Lo == t.Lo && o.C == t.C && o.Name == t.Name && len(o.Args) == len(t.Args) {
			if (o.B == nil) != (t.B == nil) || (o.B != nil && o.B.Cmp(t.B) != 0) {
				continue
			}
			same := true
			for i := range o.Args {
				if o.Args[i] != t.Args[i] {
					same = false
					break
				}
			}
			if same {
				return o
			}
		}
	}
	t.ID = c.n
	c.n++
	c.setRange(t)
	c.tab[h] = append(c.tab[h], t)
	return t
}

func maskW(w int32) uint64 {
	if w >= 64 {
		return ^uint64(0)
	}
	return (uint64(1) << uint(w)) - 1
}

func (t *Term) IsConst() bool { return t.Op == OConst }
func (t *Term) IsTrue() bool  { return t.Op == OConst && t.W == 0 && t.C == 1 }
func (t *Term) IsFalse() bool { return t.Op == OConst && t.W == 0 && t.C == 0 }

// U64 returns the constant value (low 64 bits).
func (t *Term) U64() uint64 {
	if t.B != nil {
		return new(big.Int).And(t.B, new(big.Int).SetUint64(^uint64(0))).Uint64()
	}
	return t.C
}
func (t *Term) Big() *big.Int {
	if t.B != nil {
		return t.B
	}
	return new(big.Int).SetUint64(t.C)
}
func (t *Term) S64() int64 {
	if t.W >= 64 {
		return int64(t.C)
	}
	s := uint(64 - t.W)
	return int64(t.C<<s) >> s
}
func (t *Term) RangeHi() uint64 {
	if t.W > 64 || t.W == 0 {
		return ^uint64(0)
	}
	return t.rhi
}
func (t *Term) RangeLo() uint64 { return t.rlo }

func (c *Ctx) Const(v uint64, w int32) *Term {
	if w > 64 {
		return c.intern(&Term{Op: OConst, W: w, B: new(big.Int).SetUint64(v)})
	}
	return c.intern(&Term{Op: OConst, W: w, C: v & maskW(w)})
}
func (c *Ctx) ConstBig(v *big.Int, w int32) *Term {
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	x := new(big.Int).Mod(v, m)
	if w <= 64 {
		return c.Const(x.Uint64(), w)
	}
	return c.intern(&Term{Op: OConst, W: w, B: x})
}
func (c *Ctx) Bool(b bool) *Term {
	if b {
		return c.True
	}
	return c.False
}
func (c *Ctx) Var(name string, w int32) *Term {
	return c.intern(&Term{Op: OVar, W: w, Name: name})
}
func (c *Ctx) App(name string, w int32, args ...*Term) *Term {
	if c.UF != nil {
		all := true
		for _, a := range args {
			if !a.IsConst() {
				all = false
				break
			}
		}
		if all {
			if r, ok := c.UF(name, w, args); ok {
				return r
			}
		}
	}
	return c.intern(&Term{Op: OUF, W: w, Name: name, Args: append([]*Term(nil), args...)})
}

func (c *Ctx) setRange(t *Term) {
	if t.W == 0 || t.W > 64 {
		return
	}
	full := maskW(t.W)
	t.rlo, t.rhi = 0, full
	switch t.Op {
	case OConst:
		t.rlo, t.rhi = t.C, t.C
	case OConcat:
		// value = sum of pieces
		var lo, hi uint64
		ok := true
		for _, a := range t.Args {
			if a.W > 64 {
				ok = false
				break
			}
			lo = lo<<uint(a.W) | a.rlo
			hi = hi<<uint(a.W) | a.rhi
			if a.W == 64 {
				lo, hi = a.rlo, a.rhi
			}
		}
		if ok {
			t.rlo, t.rhi = lo, hi
		}
	case OExtract:
		a := t.Args[0]
		if t.Lo == 0 && a.W <= 64 && a.rhi <= full {
			t.rlo, t.rhi = a.rlo, a.rhi
		} else if a.W <= 64 && int32(bits.Len64(a.rhi)) <= t.Hi+1 {
			t.rlo, t.rhi = a.rlo>>uint(t.Lo), a.rhi>>uint(t.Lo)
		}
	case OAdd:
		var lo, hi uint64
		for _, a := range t.Args {
			nh, carry := bits.Add64(hi, a.rhi, 0)
			if carry != 0 || nh > full {
				signedSum(t)
				return
			}
			hi = nh
			lo += a.rlo
		}
		t.rlo, t.rhi = lo, hi
	case OMul:
		lo, hi := uint64(1), uint64(1)
		for _, a := range t.Args {
			h, l := bits.Mul64(hi, a.rhi)
			if h != 0 || l > full {
				return
			}
			hi = l
			lo *= a.rlo
		}
		t.rlo, t.rhi = lo, hi
	case OURem:
		a, b := t.Args[0], t.Args[1]
		if b.rlo > 0 {
			t.rhi = b.rhi - 1
		}
		if a.rhi < t.rhi {
			t.rhi = a.rhi
		}
	case OUDiv:
		a, b := t.Args[0], t.Args[1]
		if b.rlo > 0 {
			t.rhi = a.rhi / b.rlo
			if b.rhi > 0 {
				t.rlo = a.rlo / b.rhi
			}
		}
	case OAnd:
		for _, a := range t.Args {
			if a.rhi < t.rhi {
				t.rhi = a.rhi
			}
		}
	case OOr, OXor:
		var m uint64
		for _, a := range t.Args {
			m |= a.rhi
		}
		t.rhi = maskW(int32(bits.Len64(m)))
		if t.Op == OOr {
			for _, a := range t.Args {
				if a.rlo > t.rlo {
					t.rlo = a.rlo
				}
			}
		}
	case OLshr:
		t.rhi = t.Args[0].rhi
		if t.Args[1].IsConst() {
			t.rhi >>= t.Args[1].C
		}
	case OIte:
		a, b := t.Args[1], t.Args[2]
		t.rlo, t.rhi = a.rlo, a.rhi
		if b.rlo < t.rlo {
			t.rlo = b.rlo
		}
		if b.rhi > t.rhi {
			t.rhi = b.rhi
		}
	}
}

// signedSum sets the range of a sum of constants and multiples read as signed
// numbers, when it stays non-negative and within the width.
func signedSum(t *Term) {
	const big = 1 << 61
	var lo, hi int64
	for _, a := range t.Args {
		var l, h int64
		switch {
		case a.rhi < big:
			l, h = int64(a.rlo), int64(a.rhi)
		case a.IsConst():
			l = a.S64()
			h = l
		case a.Op == OMul && len(a.Args) == 2:
			k, y := a.Args[0], a.Args[1]
			if !k.IsConst() {
				k, y = y, k
			}
			if !k.IsConst() || y.rhi >= big {
				return
			}
			f := k.S64()
			if f >= 0 || f < -(1<<20) || y.rhi > 1<<40 {
				return
			}
			l, h = f*int64(y.rhi), f*int64(y.rlo)
		default:
			return
		}
		if l <= -big || h >= big {
			return
		}
		lo, hi = lo+l, hi+h
		if lo <= -big || hi >= big {
			return
		}
	}
	if lo >= 0 && uint64(hi) <= maskW(t.W) {
		t.rlo, t.rhi = uint64(lo), uint64(hi)
	}
}

func sortTerms(a []*Term) {
	if len(a) == 2 {
		if a[0].ID > a[1].ID {
			a[0], a[1] = a[1], a[0]
		}
		return
	}
	sort.Slice(a, func(i, j int) bool { return a[i].ID < a[j].ID })
}

func (c *Ctx) isAllOnes(t *Term) bool {
	if !t.IsConst() || t.W == 0 {
		return false
	}
	if t.W <= 64 {
		return t.C == maskW(t.W)
	}
	return t.B.BitLen() == int(t.W) && new(big.Int).Add(t.B, big.NewInt(1)).BitLen() == int(t.W)+1
}
func isZero(t *Term) bool {
	if !t.IsConst() {
		return false
	}
	if t.B != nil {
		return t.B.Sign() == 0
	}
	return t.C == 0
}
func (t *Term) IsZero() bool { return isZero(t) }
func isOne(t *Term) bool {
	if !t.IsConst() {
		return false
	}
	if t.B != nil {
		return t.B.IsUint64() && t.B.Uint64() == 1
	}
	return t.C == 1
}
func (c *Ctx) AllOnes(w int32) *Term {
	if w <= 64 {
		return c.Const(^uint64(0), w)
	}
	m := new(big.Int).Lsh(big.NewInt(1), uint(w))
	return c.ConstBig(m.Sub(m, big.NewInt(1)), w)
}

func chk(a, b *Term) {
	if a.W != b.W {
		panic(fmt.Sprintf("width mismatch %d vs %d", a.W, b.W))
	}
}

// ---------- linear arithmetic ----------

// asScaled returns (coeff, base) such that t = coeff*base (mod 2^W).
func (c *Ctx) asScaled(t *Term) (*big.Int, *Term) {
	if t.Op == OMul && len(t.Args) >= 2 && t.Args[0].IsConst() {
		if len(t.Args) == 2 {
			return t.Args[0].Big(), t.Args[1]
		}
		return t.Args[0].Big(), c.intern(&Term{Op: OMul, W: t.W, Args: t.Args[1:]})
	}
	// concat(x[w-1-k:0], 0_k) == x << k
	if t.Op == OConcat && len(t.Args) == 2 && isZero(t.Args[1]) {
		k := t.Args[1].W
		p := t.Args[0]
		if p.Op == OExtract && p.Lo == 0 && p.Args[0].W == t.W {
			return new(big.Int).Lsh(big.NewInt(1), uint(k)), p.Args[0]
		}
	}
	return nil, t
}

type linAcc struct {
	c     *Ctx
	w     int32
	k     *big.Int
	k64   uint64
	order []*Term
	co    map[*Term]*big.Int
}

func (c *Ctx) Add(a, b *Term) *Term {
	chk(a, b)
	if a.IsConst() && b.IsConst() {
		if a.W <= 64 {
			return c.Const(a.C+b.C, a.W)
		}
		return c.ConstBig(new(big.Int).Add(a.B, b.B), a.W)
	}
	if isZero(a) {
		return b
	}
	if isZero(b) {
		return a
	}
	if r := c.disjoint(a, b); r != nil {
		return r
	}
	return c.sum(a.W, []*Term{a, b}, nil)
}

func (c *Ctx) sum(w int32, ts []*Term, coef []*big.Int) *Term {
	acc := map[*Term]*big.Int{}
	var order []*Term
	k := new(big.Int)
	var addT func(t *Term, m *big.Int)
	addT = func(t *Term, m *big.Int) {
		if t.IsConst() {
			k.Add(k, new(big.Int).Mul(t.Big(), m))
			return
		}
		if t.Op == OAdd {
			for _, a := range t.Args {
				addT(a, m)
			}
			return
		}
		if t.Op == OConcat && len(t.Args) > 1 {
			if last := t.Args[len(t.Args)-1]; last.IsConst() && !isZero(last) {
				as := append([]*Term(nil), t.Args...)
				as[len(as)-1] = c.ConstBig(new(big.Int), last.W)
				k.Add(k, new(big.Int).Mul(last.Big(), m))
				addT(c.ConcatN(as), m)
				return
			}
		}
		if co, base := c.asScaled(t); co != nil {
			if base.Op == OAdd || base.Op == OConcat {
				addT(base, new(big.Int).Mul(m, co))
				return
			}
			t = base
			m = new(big.Int).Mul(m, co)
		}
		if old, ok := acc[t]; ok {
			old.Add(old, m)
		} else {
			acc[t] = new(big.Int).Set(m)
			order = append(order, t)
		}
	}
	one := big.NewInt(1)
	for i, t := range ts {
		m := one
		if coef != nil {
			m = coef[i]
		}
		addT(t, m)
	}
	mod := new(big.Int).Lsh(one, uint(w))
	var args []*Term
	for _, t := range order {
		co := acc[t].Mod(acc[t], mod)
		if co.Sign() == 0 {
			continue
		}
		args = append(args, c.scale(t, co))
	}
	k.Mod(k, mod)
	if len(args) == 0 {
		return c.ConstBig(k, w)
	}
	if k.Sign() != 0 {
		args = append(args, c.ConstBig(k, w))
	}
	if len(args) == 1 {
		return args[0]
	}
	sortTerms(args)
	// try disjoint combination for small const + concat, e.g. (x<<3)+i
	if len(args) == 2 {
		if r := c.disjoint(args[0], args[1]); r != nil {
			return r
		}
	}
	return c.intern(&Term{Op: OAdd, W: w, Args: args})
}

// scale builds coeff*t for t that is not a sum/const, coeff reduced and nonzero.
func (c *Ctx) scale(t *Term, co *big.Int) *Term {
	if co.IsUint64() && co.Uint64() == 1 {
		return t
	}
	// power of two -> concat
	if tz := co.TrailingZeroBits(); co.BitLen() == int(tz)+1 {
		return c.Concat(c.Extract(t, t.W-1-int32(tz), 0), c.Const(0, int32(tz)))
	}
	k := c.ConstBig(co, t.W)
	if t.Op == OMul {
		args := append([]*Term{k}, t.Args...)
		return c.internMul(t.W, args)
	}
	return c.internMul(t.W, []*Term{k, t})
}

func (c *Ctx) internMul(w int32, args []*Term) *Term {
	return c.intern(&Term{Op: OMul, W: w, Args: args})
}

func (c *Ctx) Neg(a *Term) *Term { return c.sum(a.W, []*Term{a}, []*big.Int{big.NewInt(-1)}) }
func (c *Ctx) Sub(a, b *Term) *Term {
	chk(a, b)
	if a == b {
		return c.Const(0, a.W)
	}
	if a.IsConst() && b.IsConst() && a.W <= 64 {
		return c.Const(a.C-b.C, a.W)
	}
	if isZero(b) {
		return a
	}
	if d := c.zextDiff(a, b); d != nil {
		return d
	}
	return c.sum(a.W, []*Term{a, b}, []*big.Int{big.NewInt(1), big.NewInt(-1)})
}

// zextDiff simplifies zext(p) - zext(q) to the constant k when p is q + k without overflow.
func (c *Ctx) zextDiff(a, b *Term) *Term {
	if a.W > 64 || a.Op != OConcat || len(a.Args) != 2 || !isZero(a.Args[0]) {
		return nil
	}
	p := a.Args[1]
	if p.Op != OAdd || c.lz(b) < a.W-p.W {
		return nil
	}
	var hi, k uint64
	for _, x := range p.Args {
		r := x.rhi
		if x.IsConst() {
			k = x.U64()
		}
		if hi+r < hi {
			return nil
		}
		hi += r
	}
	if p.W < 64 && hi>>uint(p.W) != 0 {
		return nil
	}
	d := c.Sub(p, c.Extract(b, p.W-1, 0))
	if !d.IsConst() || d.U64() > k {
		return nil
	}
	return c.Const(d.U64(), a.W)
}

func (c *Ctx) Mul(a, b *Term) *Term {
	chk(a, b)
	if a.IsConst() && b.IsConst() {
		if a.W <= 64 {
			return c.Const(a.C*b.C, a.W)
		}
		return c.ConstBig(new(big.Int).Mul(a.B, b.B), a.W)
	}
	if b.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		if isZero(a) {
			return a
		}
		if isOne(a) {
			return b
		}
		// narrow: zext(x)*k without overflow
		if r := c.narrowMul(a, b); r != nil {
			return r
		}
		return c.sum(a.W, []*Term{b}, []*big.Int{a.Big()})
	}
	if r := c.narrowMul(a, b); r != nil {
		return r
	}
	// flatten
	var args []*Term
	k := big.NewInt(1)
	for _, t := range []*Term{a, b} {
		if t.Op == OMul {
			for _, x := range t.Args {
				if x.IsConst() {
					k.Mul(k, x.Big())
				} else {
					args = append(args, x)
				}
			}
		} else {
			args = append(args, t)
		}
	}
	sortTerms(args)
	k.Mod(k, new(big.Int).Lsh(big.NewInt(1), uint(a.W)))
	if k.Sign() == 0 {
		return c.Const(0, a.W)
	}
	m := c.internMul(a.W, args)
	return c.scale(m, k)
}

// narrowMul narrows a*b when the product provably fits fewer bits.
func (c *Ctx) narrowMul(a, b *Term) *Term {
	if a.W > 64 || a.W < 16 {
		return nil
	}
	h, l := bits.Mul64(a.rhi, b.rhi)
	if h != 0 {
		return nil
	}
	k := int32(bits.Len64(l))
	if k == 0 {
		return nil
	}
	if k >= a.W {
		return nil
	}
	// only when both are genuinely zero-extended (non-const operands)
	if !a.IsConst() && c.lz(a) == 0 || !b.IsConst() && c.lz(b) == 0 {
		return nil
	}
	x, y := c.Extract(a, k-1, 0), c.Extract(b, k-1, 0)
	if (!a.IsConst() && x.Op == OExtract && x.Args[0] == a) || (!b.IsConst() && y.Op == OExtract && y.Args[0] == b) {
		return nil // would not shrink structurally
	}
	return c.ZExt(c.Mul(x, y), a.W)
}

// lz: structural leading zero count (from concat with zero head).
func (c *Ctx) lz(t *Term) int32 {
	if t.IsConst() {
		return t.W - int32(t.Big().BitLen())
	}
	if t.Op == OConcat && isZero(t.Args[0]) {
		return t.Args[0].W
	}
	return 0
}

func (c *Ctx) UDiv(a, b *Term) *Term {
	chk(a, b)
	if b.IsConst() {
		if isZero(b) {
			return c.AllOnes(a.W) // SMT-LIB semantics
		}
		if a.IsConst() {
			if a.W <= 64 {
				return c.Const(a.C/b.C, a.W)
			}
			return c.ConstBig(new(big.Int).Div(a.B, b.B), a.W)
		}
		if isOne(b) {
			return a
		}
		bb := b.Big()
		if tz := bb.TrailingZeroBits(); bb.BitLen() == int(tz)+1 {
			return c.LshrC(a, int32(tz))
		}
		if a.W <= 64 && a.rhi < b.C {
			return c.Const(0, a.W)
		}
	}
	if a == b && a.W <= 64 && a.rlo > 0 {
		return c.Const(1, a.W)
	}
	if n := c.narrowTo(a, b); n > 0 && n < a.W {
		return c.ZExt(c.UDiv(c.Extract(a, n-1, 0), c.Extract(b, n-1, 0)), a.W)
	}
	return c.intern(&Term{Op: OUDiv, W: a.W, Args: []*Term{a, b}})
}

// narrowTo gives common structural narrow width for a and b (0 if none). Division by
// zero must not change: only used when b's range excludes zero or semantics agree.
func (c *Ctx) narrowTo(a, b *Term) int32 {
	if b.W <= 64 && b.rlo == 0 {
		return 0
	}
	if b.W > 64 && !b.IsConst() {
		return 0
	}
	la, lb := c.lz(a), c.lz(b)
	m := la
	if lb < m {
		m = lb
	}
	if m <= 0 {
		return 0
	}
	return a.W - m
}

func (c *Ctx) URem(a, b *Term) *Term {
	chk(a, b)
	if b.IsConst() {
		if isZero(b) {
			return a
		}
		if a.IsConst() {
			if a.W <= 64 {
				return c.Const(a.C%b.C, a.W)
			}
			return c.ConstBig(new(big.Int).Mod(a.B, b.B), a.W)
		}
		if isOne(b) {
			return c.Const(0, a.W)
		}
		bb := b.Big()
		if tz := bb.TrailingZeroBits(); bb.BitLen() == int(tz)+1 {
			return c.ZExt(c.Extract(a, int32(tz)-1, 0), a.W)
		}
	}
	if a.W <= 64 && b.rlo > a.rhi {
		return a
	}
	if n := c.narrowTo(a, b); n > 0 && n < a.W {
		return c.ZExt(c.URem(c.Extract(a, n-1, 0), c.Extract(b, n-1, 0)), a.W)
	}
	return c.intern(&Term{Op: OURem, W: a.W, Args: []*Term{a, b}})
}

func (c *Ctx) nonneg(a *Term) bool {
	if a.W <= 64 {
		return a.rhi <= maskW(a.W)>>1
	}
	return c.lz(a) > 0
}

func (c *Ctx) SDiv(a, b *Term) *Term {
	chk(a, b)
	if c.nonneg(a) && c.nonneg(b) {
		return c.UDiv(a, b)
	}
	if a.IsConst() && b.IsConst() && a.W <= 64 && b.C != 0 {
		x, y := a.S64(), b.S64()
		if y == -1 {
			return c.Const(uint64(-x), a.W)
		}
		return c.Const(uint64(x/y), a.W)
	}
	return c.intern(&Term{Op: OSDiv, W: a.W, Args: []*Term{a, b}})
}
func (c *Ctx) SRem(a, b *Term) *Term {
	chk(a, b)
	if c.nonneg(a) && c.nonneg(b) {
		return c.URem(a, b)
	}
	if a.IsConst() && b.IsConst() && a.W <= 64 && b.C != 0 {
		x, y := a.S64(), b.S64()
		if y == -1 {
			return c.Const(0, a.W)
		}
		return c.Const(uint64(x%y), a.W)
	}
	return c.intern(&Term{Op: OSRem, W: a.W, Args: []*Term{a, b}})
}

// ---------- bitwise ----------

func (c *Ctx) Not(a *Term) *Term {
	if a.W == 0 {
		return c.BNot(a)
	}
	return c.Xor(a, c.AllOnes(a.W))
}

// segs returns pieces of t from most significant: concat args or t itself.
func segs(t *Term) []*Term {
	if t.Op == OConcat {
		return t.Args
	}
	return []*Term{t}
}

func hasZeroSeg(t *Term) bool {
	if t.Op == OConcat {
		for _, a := range t.Args {
			if isZero(a) {
				return true
			}
			if a.IsConst() {
				return true
			}
		}
		return false
	}
	return t.IsConst()
}

// disjoint returns the combination of a and b when at every bit at most one may be
// non-zero (so or == xor == add), as a concat of pieces.
func (c *Ctx) disjoint(a, b *Term) *Term {
	if !hasZeroSeg(a) || !hasZeroSeg(b) {
		return nil
	}
	// boundaries (bit positions, from lsb)
	bset := map[int32]bool{}
	collect := func(t *Term) {
		pos := t.W
		for _, s := range segs(t) {
			pos -= s.W
			bset[pos] = true
		}
		if t.IsConst() {
			// split the constant into runs of zero / nonzero
			v := t.Big()
			prev := v.Bit(0)
			runs := 0
			for i := 1; i < int(t.W); i++ {
				if v.Bit(i) != prev {
					bset[int32(i)] = true
					prev = v.Bit(i)
					runs++
				}
			}
		}
	}
	collect(a)
	collect(b)
	var bs []int32
	for p := range bset {
		bs = append(bs, p)
	}
	if len(bs) > 160 {
		return nil
	}
	sort.Slice(bs, func(i, j int) bool { return bs[i] < bs[j] })
	bs = append(bs, a.W)
	var out []*Term // lsb first
	for i := 0; i+1 < len(bs); i++ {
		lo, hi := bs[i], bs[i+1]-1
		x := c.Extract(a, hi, lo)
		y := c.Extract(b, hi, lo)
		switch {
		case isZero(x):
			out = append(out, y)
		case isZero(y):
			out = append(out, x)
		default:
			if x.IsConst() && y.IsConst() && isZero(c.And(x, y)) {
				out = append(out, c.Xor(x, y))
				continue
			}
			return nil
		}
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return c.ConcatN(out)
}

func (c *Ctx) bitConst(op Op, a, b *Term) *Term {
	if a.W <= 64 {
		switch op {
		case OAnd:
			return c.Const(a.C&b.C, a.W)
		case OOr:
			return c.Const(a.C|b.C, a.W)
		default:
			return c.Const(a.C^b.C, a.W)
		}
	}
	r := new(big.Int)
	switch op {
	case OAnd:
		r.And(a.B, b.B)
	case OOr:
		r.Or(a.B, b.B)
	default:
		r.Xor(a.B, b.B)
	}
	return c.ConstBig(r, a.W)
}

// alignedPieces: if a and b are both concats/consts with identical boundaries, apply f piecewise.
func (c *Ctx) aligned(a, b *Term) bool {
	if a.Op == OConcat && b.Op == OConcat && len(a.Args) == len(b.Args) {
		for i := range a.Args {
			if a.Args[i].W != b.Args[i].W {
				return false
			}
		}
		return true
	}
	return false
}

func (c *Ctx) And(a, b *Term) *Term {
	chk(a, b)
	if a.W == 0 {
		return c.BAnd(a, b)
	}
	if a == b {
		return a
	}
	if a.IsConst() && b.IsConst() {
		return c.bitConst(OAnd, a, b)
	}
	if b.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		if isZero(a) {
			return a
		}
		if c.isAllOnes(a) {
			return b
		}
		// contiguous runs -> concat
		v := a.Big()
		type run struct {
			hi, lo int32
			one    bool
		}
		var runs []run
		lo := int32(0)
		for i := int32(1); i <= a.W; i++ {
			if i == a.W || v.Bit(int(i)) != v.Bit(int(lo)) {
				runs = append(runs, run{i - 1, lo, v.Bit(int(lo)) == 1})
				lo = i
			}
		}
		if len(runs) <= 5 {
			var out []*Term
			for i := len(runs) - 1; i >= 0; i-- {
				r := runs[i]
				if r.one {
					out = append(out, c.Extract(b, r.hi, r.lo))
				} else {
					out = append(out, c.Const(0, r.hi-r.lo+1))
				}
			}
			return c.ConcatN(out)
		}
	}
	// zero heads: narrow
	if m := maxi(c.lz(a), c.lz(b)); m > 0 && m < a.W {
		return c.ZExt(c.And(c.Extract(a, a.W-m-1, 0), c.Extract(b, a.W-m-1, 0)), a.W)
	}
	return c.nary(OAnd, a, b)
}

func maxi(a, b int32) int32 {
	if a > b {
		return a
	}
	return b
}
func mini(a, b int32) int32 {
	if a < b {
		return a
	}
	return b
}

func (c *Ctx) nary(op Op, a, b *Term) *Term {
	var args []*Term
	var k *Term
	for _, t := range []*Term{a, b} {
		xs := []*Term{t}
		if t.Op == op {
			xs = t.Args
		}
		for _, x := range xs {
			if x.IsConst() {
				if k == nil {
					k = x
				} else {
					k = c.bitConst(op, k, x)
				}
			} else {
				args = append(args, x)
			}
		}
	}
	sortTerms(args)
	out := args[:0:0]
	for i := 0; i < len(args); i++ {
		if op == OXor {
			if i+1 < len(args) && args[i] == args[i+1] {
				i++
				continue
			}
		} else if len(out) > 0 && out[len(out)-1] == args[i] {
			continue
		}
		out = append(out, args[i])
	}
	w := a.W
	if k != nil {
		switch op {
		case OAnd:
			if isZero(k) {
				return k
			}
			if c.isAllOnes(k) {
				k = nil
			}
		case OOr:
			if c.isAllOnes(k) {
				return k
			}
			if isZero(k) {
				k = nil
			}
		case OXor:
			if isZero(k) {
				k = nil
			}
		}
	}
	if op == OAnd || op == OOr {
		// x op ~x
		for _, x := range out {
			if x.Op == OXor && len(x.Args) == 2 {
				for i, y := range x.Args {
					if c.isAllOnes(y) {
						o := x.Args[1-i]
						for _, z := range out {
							if z == o {
								if op == OAnd {
									return c.Const(0, w)
								}
								return c.AllOnes(w)
							}
						}
					}
				}
			}
		}
	}
	if op == OXor && len(out) >= 2 {
		if r := c.pairZero(out); r != nil {
			acc := r[0]
			for _, x := range r[1:] {
				acc = c.Xor(acc, x)
			}
			if k != nil {
				acc = c.Xor(acc, k)
			}
			return acc
		}
	}
	if k != nil {
		out = append(out, k)
		sortTerms(out)
	}
	switch len(out) {
	case 0:
		if op == OXor || op == OOr {
			return c.Const(0, w)
		}
		return c.AllOnes(w)
	case 1:
		return out[0]
	}
	return c.intern(&Term{Op: op, W: w, Args: out})
}

// pairZero looks for two arguments of a xor whose zero segments are exactly
// complementary (a shifted pair forming a rotate) and merges them; failing that, when
// all arguments are pairwise disjoint, it merges everything. nil: nothing to do.
func (c *Ctx) pairZero(args []*Term) []*Term {
	if args[0].W > 64 {
		return nil
	}
	var idx []int
	var nz []uint64
	for i, a := range args {
		if a.Op == OConcat && hasZeroSeg(a) {
			var m uint64
			pos := a.W
			for _, s := range a.Args {
				pos -= s.W
				if !isZero(s) {
					m |= (^uint64(0) >> uint(64-s.W)) << uint(pos)
				}
			}
			idx = append(idx, i)
			nz = append(nz, m)
		}
	}
	full := ^uint64(0) >> uint(64-args[0].W)
	merge := func(i, j int) []*Term {
		m := c.disjoint(args[i], args[j])
		if m == nil {
			return nil
		}
		out := []*Term{m}
		for k, x := range args {
			if k != i && k != j {
				out = append(out, x)
			}
		}
		return out
	}
	for i := range idx {
		for j := i + 1; j < len(idx); j++ {
			if nz[i]^nz[j] == full && nz[i]&nz[j] == 0 {
				if r := merge(idx[i], idx[j]); r != nil {
					return r
				}
			}
		}
	}
	if len(idx) == len(args) {
		var all uint64
		for _, m := range nz {
			if all&m != 0 {
				return nil
			}
			all |= m
		}
		return merge(0, 1)
	}
	return nil
}

func (c *Ctx) Or(a, b *Term) *Term {
	chk(a, b)
	if a.W == 0 {
		return c.BOr(a, b)
	}
	if a == b {
		return a
	}
	if a.IsConst() && b.IsConst() {
		return c.bitConst(OOr, a, b)
	}
	if isZero(a) {
		return b
	}
	if isZero(b) {
		return a
	}
	if r := c.disjoint(a, b); r != nil {
		return r
	}
	if m := mini(c.lz(a), c.lz(b)); m > 0 && m < a.W {
		return c.ZExt(c.Or(c.Extract(a, a.W-m-1, 0), c.Extract(b, a.W-m-1, 0)), a.W)
	}
	return c.nary(OOr, a, b)
}

func (c *Ctx) Xor(a, b *Term) *Term {
	chk(a, b)
	if a.W == 0 {
		return c.BNot(c.Eq(a, b))
	}
	if a == b {
		return c.Const(0, a.W)
	}
	if a.IsConst() && b.IsConst() {
		return c.bitConst(OXor, a, b)
	}
	if isZero(a) {
		return b
	}
	if isZero(b) {
		return a
	}
	if r := c.disjoint(a, b); r != nil {
		return r
	}
	if m := mini(c.lz(a), c.lz(b)); m > 0 && m < a.W {
		return c.ZExt(c.Xor(c.Extract(a, a.W-m-1, 0), c.Extract(b, a.W-m-1, 0)), a.W)
	}
	if a.Op == OConcat && b.Op == OConcat {
		cuts := commonCuts(a, b)
		if a.W > 64 && len(cuts) > 0 {
			var out []*Term
			hi := a.W - 1
			for _, lo := range append(cuts, 0) {
				out = append(out, c.Xor(c.Extract(a, hi, lo), c.Extract(b, hi, lo)))
				hi = lo - 1
			}
			return c.ConcatN(out)
		}
	}
	return c.nary(OXor, a, b)
}

// commonCuts lists the piece boundaries two concatenations share, highest first.
func commonCuts(a, b *Term) []int32 {
	var out []int32
	i, j := 0, 0
	pa, pb := a.W-a.Args[0].W, b.W-b.Args[0].W
	for pa > 0 && pb > 0 {
		switch {
		case pa == pb:
			out = append(out, pa)
			i, j = i+1, j+1
			pa, pb = pa-a.Args[i].W, pb-b.Args[j].W
		case pa > pb:
			i++
			pa -= a.Args[i].W
		default:
			j++
			pb -= b.Args[j].W
		}
	}
	return out
}

// ---------- structure ----------

func (c *Ctx) Extract(t *Term, hi, lo int32) *Term {
	w := hi - lo + 1
	if w <= 0 || hi >= t.W || lo < 0 {
		panic(fmt.Sprintf("bad extract %d..%d of %d", hi, lo, t.W))
	}
	if w == t.W {
		return t
	}
	switch t.Op {
	case OConst:
		if t.W <= 64 {
			return c.Const(t.C>>uint(lo), w)
		}
		return c.ConstBig(new(big.Int).Rsh(t.B, uint(lo)), w)
	case OExtract:
		return c.Extract(t.Args[0], hi+t.Lo, lo+t.Lo)
	case OConcat:
		var out []*Term
		pos := t.W
		for _, a := range t.Args {
			pos -= a.W
			// a occupies [pos, pos+a.W-1]
			h, l := mini(hi, pos+a.W-1), maxi(lo, pos)
			if h >= l {
				out = append(out, c.Extract(a, h-pos, l-pos))
			}
		}
		return c.ConcatN(out)
	case OSext:
		if hi < t.Args[0].W {
			return c.Extract(t.Args[0], hi, lo)
		}
	case OIte:
		if t.Args[1].IsConst() || t.Args[2].IsConst() {
			return c.Ite(t.Args[0], c.Extract(t.Args[1], hi, lo), c.Extract(t.Args[2], hi, lo))
		}
	case OAnd, OOr, OXor:
		// push only if every argument simplifies (const / concat with matching cut)
		ok := true
		for _, a := range t.Args {
			if !cheapExtract(a, hi, lo) {
				ok = false
				break
			}
		}
		if ok {
			r := c.Extract(t.Args[0], hi, lo)
			for _, a := range t.Args[1:] {
				x := c.Extract(a, hi, lo)
				switch t.Op {
				case OAnd:
					r = c.And(r, x)
				case OOr:
					r = c.Or(r, x)
				default:
					r = c.Xor(r, x)
				}
			}
			return r
		}
	}
	if t.W <= 64 && t.rhi>>uint(lo) == 0 {
		return c.Const(0, w)
	}
	return c.intern(&Term{Op: OExtract, W: w, Hi: hi, Lo: lo, Args: []*Term{t}})
}

func cheapExtract(t *Term, hi, lo int32) bool {
	if t.IsConst() {
		return true
	}
	if t.Op == OConcat {
		pos := t.W
		for _, a := range t.Args {
			pos -= a.W
			if pos+a.W-1 < lo || pos > hi {
				continue
			}
			if lo <= pos && pos+a.W-1 <= hi {
				continue // whole piece
			}
			if a.IsConst() {
				continue
			}
			if a.Op == OExtract {
				continue
			}
			return false
		}
		return true
	}
	return false
}

func (c *Ctx) Concat(a, b *Term) *Term { return c.ConcatN([]*Term{a, b}) }

func (c *Ctx) ConcatN(ts []*Term) *Term {
	var out []*Term
	var push func(t *Term)
	push = func(t *Term) {
		if t.Op == OConcat {
			for _, a := range t.Args {
				push(a)
			}
			return
		}
		if len(out) > 0 {
			p := out[len(out)-1]
			if p.IsConst() && t.IsConst() {
				w := p.W + t.W
				if w <= 64 {
					out[len(out)-1] = c.Const(p.C<<uint(t.W)|t.C, w)
				} else {
					v := new(big.Int).Lsh(p.Big(), uint(t.W))
					out[len(out)-1] = c.ConstBig(v.Or(v, t.Big()), w)
				}
				return
			}
			pb, ph, pl := p, p.W-1, int32(0)
			if p.Op == OExtract {
				pb, ph, pl = p.Args[0], p.Hi, p.Lo
			}
			tb, th, tl := t, t.W-1, int32(0)
			if t.Op == OExtract {
				tb, th, tl = t.Args[0], t.Hi, t.Lo
			}
			if pb == tb && pl == th+1 && pb != p || pb == tb && pb == p && false {
				m := c.Extract(pb, ph, tl)
				out = out[:len(out)-1]
				push(m)
				return
			}
			// bitwise pieces over adjacent ranges: op(a[h:l],b[h:l]) ++ op(a[l-1:k],b[l-1:k])
			if m := c.mergeBitwise(p, t); m != nil {
				out = out[:len(out)-1]
				push(m)
				return
			}
		}
		out = append(out, t)
	}
	for _, t := range ts {
		if t == nil || t.W == 0 {
			panic("concat of bool")
		}
		push(t)
	}
	if len(out) == 1 {
		return out[0]
	}
	// [0, bitwise...] canonical enough
	var w int32
	for _, t := range out {
		w += t.W
	}
	return c.intern(&Term{Op: OConcat, W: w, Args: append([]*Term(nil), out...)})
}

// mergeBitwise merges p++t when both are the same bitwise op / ite over arguments that
// pairwise merge into adjacent extracts of common bases (undoes byte-wise processing).
func (c *Ctx) mergeBitwise(p, t *Term) *Term {
	if p.Op != t.Op {
		return nil
	}
	switch p.Op {
	case OAnd, OOr, OXor:
		if len(p.Args) != len(t.Args) {
			return nil
		}
		used := make([]bool, len(t.Args))
		var res *Term
		for _, a := range p.Args {
			var m *Term
			for j, b := range t.Args {
				if used[j] {
					continue
				}
				if a.IsConst() && b.IsConst() {
					m = c.Concat(a, b)
				} else {
					m = adj(c, a, b)
				}
				if m != nil {
					used[j] = true
					break
				}
			}
			if m == nil {
				return nil
			}
			if res == nil {
				res = m
			} else {
				switch p.Op {
				case OAnd:
					res = c.And(res, m)
				case OOr:
					res = c.Or(res, m)
				default:
					res = c.Xor(res, m)
				}
			}
		}
		return res
	case OIte:
		if p.Args[0] != t.Args[0] {
			return nil
		}
		x, y := adj(c, p.Args[1], t.Args[1]), adj(c, p.Args[2], t.Args[2])
		if p.Args[1].IsConst() && t.Args[1].IsConst() {
			x = c.Concat(p.Args[1], t.Args[1])
		}
		if p.Args[2].IsConst() && t.Args[2].IsConst() {
			y = c.Concat(p.Args[2], t.Args[2])
		}
		if x == nil || y == nil {
			return nil
		}
		return c.Ite(p.Args[0], x, y)
	}
	return nil
}

func adj(c *Ctx, p, t *Term) *Term {
	if p.Op == OExtract && t.Op == OExtract && p.Args[0] == t.Args[0] && p.Lo == t.Hi+1 {
		return c.Extract(p.Args[0], p.Hi, t.Lo)
	}
	return nil
}

func (c *Ctx) ZExt(t *Term, w int32) *Term {
	if t.W == w {
		return t
	}
	if t.W > w {
		panic("zext narrower")
	}
	return c.Concat(c.Const(0, w-t.W), t)
}
func (c *Ctx) SExt(t *Term, w int32) *Term {
	if t.W == w {
		return t
	}
	if c.nonneg(t) {
		return c.ZExt(t, w)
	}
	if t.IsConst() {
		v := new(big.Int).Set(t.Big())
		if v.Bit(int(t.W-1)) == 1 {
			v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(t.W)))
		}
		return c.ConstBig(v, w)
	}
	return c.intern(&Term{Op: OSext, W: w, Args: []*Term{t}})
}

func (c *Ctx) ShlC(t *Term, k int32) *Term {
	if k == 0 {
		return t
	}
	if k >= t.W {
		return c.Const(0, t.W)
	}
	return c.Concat(c.Extract(t, t.W-1-k, 0), c.Const(0, k))
}
func (c *Ctx) LshrC(t *Term, k int32) *Term {
	if k == 0 {
		return t
	}
	if k >= t.W {
		return c.Const(0, t.W)
	}
	return c.Concat(c.Const(0, k), c.Extract(t, t.W-1, k))
}

// Shl/Lshr/Ashr with equal-width variable counts (SMT semantics: count>=W gives 0 / sign).
func (c *Ctx) Shl(a, n *Term) *Term {
	chk(a, n)
	if n.IsConst() {
		if n.W > 64 && !n.B.IsUint64() || n.U64() >= uint64(a.W) {
			return c.Const(0, a.W)
		}
		return c.ShlC(a, int32(n.U64()))
	}
	if isZero(a) {
		return a
	}
	return c.intern(&Term{Op: OShl, W: a.W, Args: []*Term{a, n}})
}
func (c *Ctx) Lshr(a, n *Term) *Term {
	chk(a, n)
	if n.IsConst() {
		if n.W > 64 && !n.B.IsUint64() || n.U64() >= uint64(a.W) {
			return c.Const(0, a.W)
		}
		return c.LshrC(a, int32(n.U64()))
	}
	if isZero(a) {
		return a
	}
	return c.intern(&Term{Op: OLshr, W: a.W, Args: []*Term{a, n}})
}
func (c *Ctx) Ashr(a, n *Term) *Term {
	chk(a, n)
	if c.nonneg(a) {
		return c.Lshr(a, n)
	}
	if n.IsConst() {
		k := int32(a.W - 1)
		if n.Big().IsUint64() && n.U64() < uint64(a.W) {
			k = int32(n.U64())
		}
		if k == 0 {
			return a
		}
		if a.IsConst() && a.W <= 64 {
			return c.Const(uint64(a.S64()>>uint(k)), a.W)
		}
		return c.SExt(c.Extract(a, a.W-1, k), a.W)
	}
	return c.intern(&Term{Op: OAshr, W: a.W, Args: []*Term{a, n}})
}

// ---------- boolean ----------

func (c *Ctx) BNot(a *Term) *Term {
	if a.W != 0 {
		panic("bnot of bv")
	}
	if a.IsConst() {
		return c.Bool(a.C == 0)
	}
	switch a.Op {
	case OBNot:
		return a.Args[0]
	case OUlt:
		return c.Ule(a.Args[1], a.Args[0])
	case OUle:
		return c.Ult(a.Args[1], a.Args[0])
	case OSlt:
		return c.Sle(a.Args[1], a.Args[0])
	case OSle:
		return c.Slt(a.Args[1], a.Args[0])
	}
	return c.intern(&Term{Op: OBNot, Args: []*Term{a}})
}

func (c *Ctx) BAnd(a, b *Term) *Term { return c.boolN(OBAnd, []*Term{a, b}) }
func (c *Ctx) BOr(a, b *Term) *Term  { return c.boolN(OBOr, []*Term{a, b}) }
func (c *Ctx) AndN(ts ...*Term) *Term {
	return c.boolN(OBAnd, ts)
}
func (c *Ctx) OrN(ts ...*Term) *Term { return c.boolN(OBOr, ts) }
func (c *Ctx) Implies(a, b *Term) *Term {
	return c.BOr(c.BNot(a), b)
}

func (c *Ctx) boolN(op Op, ts []*Term) *Term {
	zero, unit := c.False, c.True // for and
	if op == OBOr {
		zero, unit = c.True, c.False
	}
	var args []*Term
	for _, t := range ts {
		if t == zero {
			return zero
		}
		if t == unit {
			continue
		}
		if t.Op == op {
			args = append(args, t.Args...)
		} else {
			args = append(args, t)
		}
	}
	if len(args) == 0 {
		return unit
	}
	sortTerms(args)
	out := args[:0:0]
	seen := map[int32]bool{}
	for _, t := range args {
		if seen[t.ID] {
			continue
		}
		seen[t.ID] = true
		out = append(out, t)
	}
	for _, t := range out {
		if t.Op == OBNot && seen[t.Args[0].ID] {
			return zero
		}
		if t.Op == OUlt || t.Op == OUle || t.Op == OSlt || t.Op == OSle {
			var inv Op
			switch t.Op {
			case OUlt:
				inv = OUle
			case OUle:
				inv = OUlt
			case OSlt:
				inv = OSle
			case OSle:
				inv = OSlt
			}
			for _, u := range out {
				if u.Op == inv && u.Args[0] == t.Args[1] && u.Args[1] == t.Args[0] {
					return zero
				}
			}
		}
	}
	if len(out) == 1 {
		return out[0]
	}
	// absorption: and(a, or(a,..)) = a ; or(a, and(a,..)) = a ; and(a, or(!a, b)) = and(a,b)
	dual := OBOr
	if op == OBOr {
		dual = OBAnd
	}
	changed := false
	var res []*Term
	for _, t := range out {
		if t.Op == dual {
			drop := false
			var keep []*Term
			for _, x := range t.Args {
				if seen[x.ID] {
					drop = true
					break
				}
				nx := c.BNot(x)
				if seen[nx.ID] && nx != t {
					continue
				}
				keep = append(keep, x)
			}
			if drop {
				changed = true
				continue
			}
			if len(keep) != len(t.Args) {
				changed = true
				res = append(res, c.boolN(dual, keep))
				continue
			}
		}
		if t.Op == OBNot && t.Args[0].Op == op {
			// and(a, !and(a, b)) = and(a, !b); and(!a, !and(a, b)) = !a; dually for or
			drop := false
			var keep []*Term
			for _, x := range t.Args[0].Args {
				if seen[x.ID] {
					continue
				}
				if seen[c.BNot(x).ID] {
					drop = true
					break
				}
				keep = append(keep, x)
			}
			if drop {
				changed = true
				continue
			}
			if len(keep) != len(t.Args[0].Args) {
				changed = true
				res = append(res, c.BNot(c.boolN(op, keep)))
				continue
			}
		}
		res = append(res, t)
	}
	if changed {
		return c.boolN(op, res)
	}
	// or(and(x, c), and(x, !c)) -> x   (common in merges)
	if op == OBOr && len(out) == 2 && out[0].Op == OBAnd && out[1].Op == OBAnd {
		in1 := map[int32]bool{}
		for _, x := range out[1].Args {
			in1[x.ID] = true
		}
		var common, r0 []*Term
		for _, x := range out[0].Args {
			if in1[x.ID] {
				common = append(common, x)
			} else {
				r0 = append(r0, x)
			}
		}
		if len(common) > 0 {
			inC := map[int32]bool{}
			for _, x := range common {
				inC[x.ID] = true
			}
			var r1 []*Term
			for _, x := range out[1].Args {
				if !inC[x.ID] {
					r1 = append(r1, x)
				}
			}
			return c.boolN(OBAnd, append(common, c.BOr(c.boolN(OBAnd, r0), c.boolN(OBAnd, r1))))
		}
	}
	return c.intern(&Term{Op: op, Args: out})
}

func (c *Ctx) Ite(p, a, b *Term) *Term {
	chk(a, b)
	if p.IsConst() {
		if p.C == 1 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if p.Op == OBNot {
		return c.Ite(p.Args[0], b, a)
	}
	if a.W == 0 {
		if a.IsTrue() {
			return c.BOr(p, b)
		}
		if a.IsFalse() {
			return c.BAnd(c.BNot(p), b)
		}
		if b.IsTrue() {
			return c.BOr(c.BNot(p), a)
		}
		if b.IsFalse() {
			return c.BAnd(p, a)
		}
	}
	if a.Op == OIte && a.Args[0] == p {
		a = a.Args[1]
	}
	if b.Op == OIte && b.Args[0] == p {
		b = b.Args[2]
	}
	if a == b {
		return a
	}
	if a.W > 0 && a.Op == OConcat && b.Op == OConcat || a.Op == OConcat && b.IsConst() || b.Op == OConcat && a.IsConst() {
		// strip common zero head
		if m := mini(c.lz(a), c.lz(b)); m > 0 && m < a.W {
			return c.ZExt(c.Ite(p, c.Extract(a, a.W-m-1, 0), c.Extract(b, b.W-m-1, 0)), a.W)
		}
	}
	if a.W > 1 && a.IsConst() && b.IsConst() {
		if m := mini(c.lz(a), c.lz(b)); m > 0 && m < a.W {
			x, y := c.Extract(a, a.W-m-1, 0), c.Extract(b, b.W-m-1, 0)
			return c.ZExt(c.intern(&Term{Op: OIte, W: x.W, Args: []*Term{p, x, y}}), a.W)
		}
	}
	return c.intern(&Term{Op: OIte, W: a.W, Args: []*Term{p, a, b}})
}

func (c *Ctx) Eq(a, b *Term) *Term {
	chk(a, b)
	if a == b {
		return c.True
	}
	if a.IsConst() && b.IsConst() {
		return c.False // distinct interned constants
	}
	if a.W == 0 {
		if a.IsConst() {
			a, b = b, a
		}
		if b.IsTrue() {
			return a
		}
		if b.IsFalse() {
			return c.BNot(a)
		}
		if a == c.BNot(b) {
			return c.False
		}
		if a.ID > b.ID {
			a, b = b, a
		}
		return c.intern(&Term{Op: OEq, Args: []*Term{a, b}})
	}
	if a.W <= 64 && (a.rhi < b.rlo || b.rhi < a.rlo) {
		return c.False
	}
	if b.IsConst() {
		a, b = b, a
	}
	if a.IsConst() {
		switch b.Op {
		case OIte:
			x, y := b.Args[1], b.Args[2]
			if x.IsConst() || y.IsConst() {
				ex, ey := c.Eq(a, x), c.Eq(a, y)
				return c.Ite(b.Args[0], ex, ey)
			}
		case OXor:
			for i, x := range b.Args {
				if x.IsConst() {
					var r *Term
					for j, y := range b.Args {
						if j != i {
							if r == nil {
								r = y
							} else {
								r = c.Xor(r, y)
							}
						}
					}
					return c.Eq(r, c.Xor(a, x))
				}
			}
			if isZero(a) && len(b.Args) == 2 {
				return c.Eq(b.Args[0], b.Args[1])
			}
		case OAdd:
			for i, x := range b.Args {
				if x.IsConst() {
					var rest []*Term
					for j, y := range b.Args {
						if j != i {
							rest = append(rest, y)
						}
					}
					return c.Eq(c.sum(b.W, rest, nil), c.Sub(a, x))
				}
			}
			if isZero(a) && len(b.Args) == 2 {
				// x + (-1)*y == 0 -> x == y
				for i := 0; i < 2; i++ {
					m := b.Args[i]
					if m.Op == OMul && len(m.Args) == 2 && c.isAllOnes(m.Args[0]) {
						return c.Eq(m.Args[1], b.Args[1-i])
					}
				}
			}
		case OConcat:
			res := c.True
			pos := b.W
			for _, x := range b.Args {
				pos -= x.W
				e := c.Eq(c.Extract(a, pos+x.W-1, pos), x)
				if e.IsFalse() {
					return e
				}
				res = c.BAnd(res, e)
			}
			return res
		case OOr:
			if isZero(a) {
				res := c.True
				for _, x := range b.Args {
					res = c.BAnd(res, c.Eq(x, a))
				}
				return res
			}
		}
	} else {
		if a.Op == OConcat || b.Op == OConcat {
			if a.Op != OConcat {
				a, b = b, a
			}
			// compare head and tail pieces that coincide
			if c.aligned(a, b) {
				n := 0
				for i := range a.Args {
					if a.Args[i] == b.Args[i] {
						n++
					}
				}
				if n > 0 || len(a.Args) <= 4 {
					res := c.True
					for i := range a.Args {
						e := c.Eq(a.Args[i], b.Args[i])
						if e.IsFalse() {
							return e
						}
						res = c.BAnd(res, e)
					}
					return res
				}
			} else if m := mini(c.lz(a), c.lz(b)); m > 0 && m < a.W {
				return c.Eq(c.Extract(a, a.W-m-1, 0), c.Extract(b, b.W-m-1, 0))
			} else if isZero(a.Args[0]) && b.Op != OConcat {
				// 0++x == y  ->  y[hi]==0 && x==y[lo]
				z := a.Args[0].W
				return c.BAnd(c.Eq(c.Extract(b, b.W-1, b.W-z), c.Const(0, z)), c.Eq(c.Extract(a, a.W-z-1, 0), c.Extract(b, b.W-z-1, 0)))
			}
		}
		if a.Op == OAdd || b.Op == OAdd || a.Op == OXor && b.Op == OXor {
			if a.Op == OXor {
				d := c.Xor(a, b)
				if d.IsConst() {
					return c.Bool(isZero(d))
				}
			} else {
				d := c.Sub(a, b)
				if d.IsConst() {
					return c.Bool(isZero(d))
				}
			}
		}
	}
	if a.ID > b.ID {
		a, b = b, a
	}
	return c.intern(&Term{Op: OEq, Args: []*Term{a, b}})
}

// commonHigh is the width of the leading concat segments a and b share, less than their width.
func commonHigh(a, b *Term) int32 {
	if a.Op != OConcat || b.Op != OConcat {
		return 0
	}
	var m int32
	for i := 0; i < len(a.Args) && i < len(b.Args) && a.Args[i] == b.Args[i]; i++ {
		m += a.Args[i].W
	}
	if m >= a.W {
		return 0
	}
	return m
}

func (c *Ctx) Ult(a, b *Term) *Term {
	chk(a, b)
	if a == b {
		return c.False
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.Big().Cmp(b.Big()) < 0)
	}
	if a.W <= 64 {
		if a.rhi < b.rlo {
			return c.True
		}
		if a.rlo >= b.rhi {
			return c.False
		}
	}
	if isZero(b) {
		return c.False
	}
	if isOne(b) {
		return c.Eq(a, c.Const(0, a.W))
	}
	if isZero(a) {
		return c.BNot(c.Eq(b, a))
	}
	if m := mini(c.lz(a), c.lz(b)); m > 0 && m < a.W {
		return c.Ult(c.Extract(a, a.W-m-1, 0), c.Extract(b, b.W-m-1, 0))
	}
	if m := commonHigh(a, b); m > 0 {
		return c.Ult(c.Extract(a, a.W-m-1, 0), c.Extract(b, b.W-m-1, 0))
	}
	if a.Op == OIte && b.IsConst() && a.Args[1].IsConst() && a.Args[2].IsConst() {
		return c.Ite(a.Args[0], c.Ult(a.Args[1], b), c.Ult(a.Args[2], b))
	}
	if b.Op == OIte && a.IsConst() && b.Args[1].IsConst() && b.Args[2].IsConst() {
		return c.Ite(b.Args[0], c.Ult(a, b.Args[1]), c.Ult(a, b.Args[2]))
	}
	return c.intern(&Term{Op: OUlt, Args: []*Term{a, b}})
}
func (c *Ctx) Ule(a, b *Term) *Term {
	chk(a, b)
	if a == b {
		return c.True
	}
	if a.IsConst() && b.IsConst() {
		return c.Bool(a.Big().Cmp(b.Big()) <= 0)
	}
	if a.W <= 64 {
		if a.rhi <= b.rlo {
			return c.True
		}
		if a.rlo > b.rhi {
			return c.False
		}
	}
	if isZero(a) {
		return c.True
	}
	if isZero(b) {
		return c.Eq(a, b)
	}
	if isOne(a) {
		return c.BNot(c.Eq(b, c.Const(0, b.W)))
	}
	if m := mini(c.lz(a), c.lz(b)); m > 0 && m < a.W {
		return c.Ule(c.Extract(a, a.W-m-1, 0), c.Extract(b, b.W-m-1, 0))
	}
	if m := commonHigh(a, b); m > 0 {
		return c.Ule(c.Extract(a, a.W-m-1, 0), c.Extract(b, b.W-m-1, 0))
	}
	if a.Op == OIte && b.IsConst() && a.Args[1].IsConst() && a.Args[2].IsConst() {
		return c.Ite(a.Args[0], c.Ule(a.Args[1], b), c.Ule(a.Args[2], b))
	}
	if b.Op == OIte && a.IsConst() && b.Args[1].IsConst() && b.Args[2].IsConst() {
		return c.Ite(b.Args[0], c.Ule(a, b.Args[1]), c.Ule(a, b.Args[2]))
	}
	return c.intern(&Term{Op: OUle, Args: []*Term{a, b}})
}
func (c *Ctx) Slt(a, b *Term) *Term {
	chk(a, b)
	if a == b {
		return c.False
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.Ult(a, b)
	}
	if a.IsConst() && b.IsConst() && a.W <= 64 {
		return c.Bool(a.S64() < b.S64())
	}
	return c.intern(&Term{Op: OSlt, Args: []*Term{a, b}})
}
func (c *Ctx) Sle(a, b *Term) *Term {
	chk(a, b)
	if a == b {
		return c.True
	}
	if c.nonneg(a) && c.nonneg(b) {
		return c.Ule(a, b)
	}
	if a.IsConst() && b.IsConst() && a.W <= 64 {
		return c.Bool(a.S64() <= b.S64())
	}
	return c.intern(&Term{Op: OSle, Args: []*Term{a, b}})
}

// Rebuild reconstructs t with new args through the simplifier.
func (c *Ctx) Rebuild(t *Term, args []*Term) *Term {
	same := true
	for i := range args {
		if args[i] != t.Args[i] {
			same = false
			break
		}
	}
	if same {
		return t
	}
	fold := func(f func(a, b *Term) *Term) *Term {
		r := args[0]
		for _, a := range args[1:] {
			r = f(r, a)
		}
		return r
	}
	switch t.Op {
	case OUF:
		return c.App(t.Name, t.W, args...)
	case OAdd:
		return c.sum(t.W, args, nil)
	case OMul:
		return fold(c.Mul)
	case OUDiv:
		return c.UDiv(args[0], args[1])
	case OURem:
		return c.URem(args[0], args[1])
	case OSDiv:
		return c.SDiv(args[0], args[1])
	case OSRem:
		return c.SRem(args[0], args[1])
	case OAnd:
		return fold(c.And)
	case OOr:
		return fold(c.Or)
	case OXor:
		return fold(c.Xor)
	case OShl:
		return c.Shl(args[0], args[1])
	case OLshr:
		return c.Lshr(args[0], args[1])
	case OAshr:
		return c.Ashr(args[0], args[1])
	case OConcat:
		return c.ConcatN(args)
	case OExtract:
		return c.Extract(args[0], t.Hi, t.Lo)
	case OSext:
		return c.SExt(args[0], t.W)
	case OIte:
		return c.Ite(args[0], args[1], args[2])
	case OEq:
		return c.Eq(args[0], args[1])
	case OUlt:
		return c.Ult(args[0], args[1])
	case OUle:
		return c.Ule(args[0], args[1])
	case OSlt:
		return c.Slt(args[0], args[1])
	case OSle:
		return c.Sle(args[0], args[1])
	case OBAnd:
		return c.boolN(OBAnd, args)
	case OBOr:
		return c.boolN(OBOr, args)
	case OBNot:
		return c.BNot(args[0])
	}
	panic("rebuild")
}

// Postorder lists every node reachable from roots, children first.
func Postorder(roots ...*Term) []*Term {
	seen := map[*Term]bool{}
	var out []*Term
	type fr struct {
		t *Term
		i int
	}
	var st []fr
	for _, r := range roots {
		if seen[r] {
			continue
		}
		seen[r] = true
		st = append(st, fr{r, 0})
		for len(st) > 0 {
			f := &st[len(st)-1]
			if f.i < len(f.t.Args) {
				a := f.t.Args[f.i]
				f.i++
				if !seen[a] {
					seen[a] = true
					st = append(st, fr{a, 0})
				}
				continue
			}
			out = append(out, f.t)
			st = st[:len(st)-1]
		}
	}
	return out
}

// RawNeq and RawOr build unsimplified formulas, so that a solver sees them.
func (c *Ctx) RawNeq(a, b *Term) *Term {
	return c.intern(&Term{Op: OBNot, Args: []*Term{c.intern(&Term{Op: OEq, Args: []*Term{a, b}})}})
}
func (c *Ctx) RawOr(ts []*Term) *Term {
	if len(ts) == 1 {
		return ts[0]
	}
	return c.intern(&Term{Op: OBOr, Args: ts})
}
