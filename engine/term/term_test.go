package term

import (
	"math/rand"
	"testing"
)

// TestSimplifier builds random expressions twice: through the simplifier, and by direct
// concrete evaluation of the unsimplified operation tree; values must agree.
func TestSimplifier(t *testing.T) {
	rng := rand.New(rand.NewSource(1))
	for iter := 0; iter < 6000; iter++ {
		c := NewCtx()
		widths := []int32{1, 3, 8, 16, 32, 64, 96}
		W := widths[rng.Intn(len(widths))]
		type pair struct {
			s *Term
			v []*Term
		}
		const NM = 4
		vars := []*Term{}
		models := make([]*Model, NM)
		for m := range models {
			models[m] = &Model{Vars: map[string]*Term{}}
		}
		rc := func(w int32) *Term {
			v := rng.Uint64()
			switch rng.Intn(4) {
			case 0:
				v &= 7
			case 1:
				v = ^uint64(0) << uint(rng.Intn(64))
			case 2:
				v = 0xff << uint(8*rng.Intn(8))
			}
			k := c.Const(v, w)
			if w > 64 && rng.Intn(2) == 0 {
				k = c.Concat(c.Const(rng.Uint64(), w-64), c.Const(v, 64))
			}
			return k
		}
		for i := 0; i < 3; i++ {
			x := c.Var(string(rune('a'+i)), W)
			vars = append(vars, x)
			for m := range models {
				models[m].Vars[x.Name] = rc(W)
			}
		}
		mk := func(op Op, w int32, hi, lo int32, s *Term, ps ...pair) pair {
			vals := make([]*Term, NM)
			for m := range vals {
				var args []*Term
				for _, p := range ps {
					args = append(args, p.v[m])
				}
				vals[m] = EvalNode(c, &Term{Op: op, W: w, Hi: hi, Lo: lo}, args, nil)
			}
			if s != nil {
				for m := range vals {
					if got := NewEvaluator(c, models[m]).Eval(s); got != vals[m] {
						var in []string
						for _, p := range ps {
							in = append(in, p.s.String()+" = "+p.v[m].String())
						}
						t.Fatalf("iter %d op %s[%d:%d] on %v gave %s = %s, want %s", iter, opNames[op], hi, lo, in, s, got, vals[m])
					}
				}
			}
			return pair{s, vals}
		}
		var gen func(d int, w int32) pair
		var genB func(d int) pair
		leaf := func(w int32) pair {
			if rng.Intn(4) > 0 {
				x := vars[rng.Intn(3)]
				vs := make([]*Term, NM)
				for m := range vs {
					vs[m] = models[m].Vars[x.Name]
				}
				p := pair{x, vs}
				if w == W {
					return p
				}
				if w < W {
					lo := int32(rng.Intn(int(W - w + 1)))
					return mk(OExtract, w, lo+w-1, lo, c.Extract(x, lo+w-1, lo), p)
				}
				z := c.Const(0, w-W)
				zp := pair{z, []*Term{z, z, z, z}}
				return mk(OConcat, w, 0, 0, c.Concat(z, x), zp, p)
			}
			k := rc(w)
			return pair{k, []*Term{k, k, k, k}}
		}
		genB = func(d int) pair {
			if d == 0 {
				p, q := leaf(8), leaf(8)
				return mk(OUlt, 0, 0, 0, c.Ult(p.s, q.s), p, q)
			}
			switch rng.Intn(9) {
			case 0:
				p := genB(d - 1)
				return mk(OBNot, 0, 0, 0, c.BNot(p.s), p)
			case 1:
				p, q := genB(d-1), genB(d-1)
				return mk(OBAnd, 0, 0, 0, c.BAnd(p.s, q.s), p, q)
			case 2:
				p, q := genB(d-1), genB(d-1)
				return mk(OBOr, 0, 0, 0, c.BOr(p.s, q.s), p, q)
			case 3:
				p, q := genB(d-1), genB(d-1)
				return mk(OEq, 0, 0, 0, c.Eq(p.s, q.s), p, q)
			}
			w := widths[rng.Intn(len(widths))]
			p, q := gen(d-1, w), gen(d-1, w)
			switch rng.Intn(5) {
			case 0:
				return mk(OEq, 0, 0, 0, c.Eq(p.s, q.s), p, q)
			case 1:
				return mk(OUlt, 0, 0, 0, c.Ult(p.s, q.s), p, q)
			case 2:
				return mk(OUle, 0, 0, 0, c.Ule(p.s, q.s), p, q)
			case 3:
				return mk(OSlt, 0, 0, 0, c.Slt(p.s, q.s), p, q)
			}
			return mk(OSle, 0, 0, 0, c.Sle(p.s, q.s), p, q)
		}
		gen = func(d int, w int32) pair {
			if d == 0 {
				return leaf(w)
			}
			bin := func(op Op, f func(a, b *Term) *Term) pair {
				p, q := gen(d-1, w), gen(d-1, w)
				return mk(op, w, 0, 0, f(p.s, q.s), p, q)
			}
			switch rng.Intn(19) {
			case 0, 1:
				return bin(OAdd, c.Add)
			case 2:
				return bin(OMul, c.Mul)
			case 3:
				return bin(OUDiv, c.UDiv)
			case 4:
				return bin(OURem, c.URem)
			case 5:
				if w > 64 {
					return leaf(w)
				}
				return bin(OSDiv, c.SDiv)
			case 6:
				if w > 64 {
					return leaf(w)
				}
				return bin(OSRem, c.SRem)
			case 7:
				return bin(OAnd, c.And)
			case 8:
				return bin(OOr, c.Or)
			case 9:
				return bin(OXor, c.Xor)
			case 10:
				return bin(OShl, c.Shl)
			case 11:
				return bin(OLshr, c.Lshr)
			case 12:
				return bin(OAshr, c.Ashr)
			case 13:
				if w < 2 {
					return leaf(w)
				}
				k := 1 + int32(rng.Intn(int(w-1)))
				p, q := gen(d-1, k), gen(d-1, w-k)
				return mk(OConcat, w, 0, 0, c.Concat(p.s, q.s), p, q)
			case 14:
				e := w + int32(rng.Intn(20))
				p := gen(d-1, e)
				lo := int32(rng.Intn(int(e - w + 1)))
				return mk(OExtract, w, lo+w-1, lo, c.Extract(p.s, lo+w-1, lo), p)
			case 15:
				if w < 2 {
					return leaf(w)
				}
				k := 1 + int32(rng.Intn(int(w-1)))
				p := gen(d-1, k)
				return mk(OSext, w, 0, 0, c.SExt(p.s, w), p)
			case 16:
				b := genB(d - 1)
				p, q := gen(d-1, w), gen(d-1, w)
				return mk(OIte, w, 0, 0, c.Ite(b.s, p.s, q.s), b, p, q)
			case 17:
				p, q := gen(d-1, w), gen(d-1, w)
				// a-b = a + (-1)*b
				k := c.AllOnes(w)
				kp := pair{k, []*Term{k, k, k, k}}
				m := mk(OMul, w, 0, 0, nil, kp, q)
				return mk(OAdd, w, 0, 0, c.Sub(p.s, q.s), p, m)
			}
			// rotate by constant, the common idiom
			k := int32(rng.Intn(int(w)))
			p := gen(d-1, w)
			a := c.Const(uint64(k), w)
			b := c.Const(uint64(w-k), w)
			ap, bp := pair{a, []*Term{a, a, a, a}}, pair{b, []*Term{b, b, b, b}}
			x := mk(OShl, w, 0, 0, c.Shl(p.s, a), p, ap)
			y := mk(OLshr, w, 0, 0, c.Lshr(p.s, b), p, bp)
			return mk(OOr, w, 0, 0, c.Or(x.s, y.s), x, y)
		}
		w := widths[rng.Intn(len(widths))]
		p := gen(1+rng.Intn(5), w)
		for m := range models {
			ev := NewEvaluator(c, models[m])
			if got := ev.Eval(p.s); got != p.v[m] {
				t.Fatalf("iter %d model %d: simplified %s = %s, want %s", iter, m, p.s, got, p.v[m])
			}
			for _, n := range Postorder(p.s) {
				if n.W >= 1 && n.W <= 64 {
					v := ev.Eval(n).C
					if v < n.rlo || v > n.rhi {
						t.Fatalf("iter %d range of %s: %d not in [%d,%d]", iter, n, v, n.rlo, n.rhi)
					}
				}
			}
		}
	}
}
