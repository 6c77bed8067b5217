package term

import (
	"math/big"
)

// Model assigns constants to variables; UF decides applications on constants.
type Model struct {
	Vars map[string]*Term // const terms
	// UF returns the value of an application on constant args (must be total).
	UF      func(name string, w int32, args []*Term) *Term
	Default func(name string, w int32) *Term
}

// Evaluator evaluates terms under a model inside a scratch context (constant folding).
type Evaluator struct {
	C    *Ctx
	M    *Model
	memo map[*Term]*Term
}

func NewEvaluator(c *Ctx, m *Model) *Evaluator {
	return &Evaluator{C: c, M: m, memo: map[*Term]*Term{}}
}

func (e *Evaluator) Eval(t *Term) *Term {
	if r, ok := e.memo[t]; ok {
		return r
	}
	for _, n := range e.order(t) {
		e.memo[n] = e.node(n)
	}
	return e.memo[t]
}

func (e *Evaluator) order(root *Term) []*Term {
	var out []*Term
	type fr struct {
		t *Term
		i int
	}
	seen := map[*Term]bool{root: true}
	st := []fr{{root, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if f.i < len(f.t.Args) {
			a := f.t.Args[f.i]
			f.i++
			if _, ok := e.memo[a]; !ok && !seen[a] {
				seen[a] = true
				st = append(st, fr{a, 0})
			}
			continue
		}
		out = append(out, f.t)
		st = st[:len(st)-1]
	}
	return out
}

func (e *Evaluator) node(t *Term) *Term {
	switch t.Op {
	case OConst:
		return t
	case OVar:
		if v, ok := e.M.Vars[t.Name]; ok {
			return v
		}
		if e.M.Default != nil {
			v := e.M.Default(t.Name, t.W)
			e.M.Vars[t.Name] = v
			return v
		}
		if t.W == 0 {
			return e.C.False
		}
		return e.C.Const(0, t.W)
	}
	args := make([]*Term, len(t.Args))
	for i, a := range t.Args {
		args[i] = e.memo[a]
	}
	return EvalNode(e.C, t, args, e.M.UF)
}

// EvalNode computes op on constant args directly (independent of the simplifier).
func EvalNode(c *Ctx, t *Term, args []*Term, uf func(string, int32, []*Term) *Term) *Term {
	if t.Op == OUF {
		return uf(t.Name, t.W, args)
	}
	w := t.W
	small := w <= 64
	for _, a := range args {
		if a.W > 64 {
			small = false
		}
	}
	if small {
		switch t.Op {
		case OAdd:
			var s uint64
			for _, a := range args {
				s += a.C
			}
			return c.Const(s, w)
		case OMul:
			s := uint64(1)
			for _, a := range args {
				s *= a.C
			}
			return c.Const(s, w)
		case OUDiv:
			if args[1].C == 0 {
				return c.Const(^uint64(0), w)
			}
			return c.Const(args[0].C/args[1].C, w)
		case OURem:
			if args[1].C == 0 {
				return args[0]
			}
			return c.Const(args[0].C%args[1].C, w)
		case OSDiv:
			x, y := args[0].S64(), args[1].S64()
			if y == 0 {
				if x >= 0 {
					return c.Const(^uint64(0), w)
				}
				return c.Const(1, w)
			}
			if y == -1 {
				return c.Const(uint64(-x), w)
			}
			return c.Const(uint64(x/y), w)
		case OSRem:
			x, y := args[0].S64(), args[1].S64()
			if y == 0 {
				return args[0]
			}
			if y == -1 {
				return c.Const(0, w)
			}
			return c.Const(uint64(x%y), w)
		case OAnd:
			s := ^uint64(0)
			for _, a := range args {
				s &= a.C
			}
			return c.Const(s, w)
		case OOr:
			var s uint64
			for _, a := range args {
				s |= a.C
			}
			return c.Const(s, w)
		case OXor:
			var s uint64
			for _, a := range args {
				s ^= a.C
			}
			return c.Const(s, w)
		case OShl:
			if args[1].C >= uint64(w) {
				return c.Const(0, w)
			}
			return c.Const(args[0].C<<args[1].C, w)
		case OLshr:
			if args[1].C >= uint64(w) {
				return c.Const(0, w)
			}
			return c.Const(args[0].C>>args[1].C, w)
		case OAshr:
			k := args[1].C
			if k > 63 {
				k = 63
			}
			return c.Const(uint64(args[0].S64()>>k), w)
		case OConcat:
			var s uint64
			for _, a := range args {
				if a.W < 64 {
					s = s<<uint(a.W) | a.C
				} else {
					s = a.C
				}
			}
			return c.Const(s, w)
		case OExtract:
			return c.Const(args[0].C>>uint(t.Lo), w)
		case OSext:
			return c.Const(uint64(args[0].S64()), w)
		case OIte:
			if args[0].C == 1 {
				return args[1]
			}
			return args[2]
		case OEq:
			return c.Bool(args[0].C == args[1].C)
		case OUlt:
			return c.Bool(args[0].C < args[1].C)
		case OUle:
			return c.Bool(args[0].C <= args[1].C)
		case OSlt:
			return c.Bool(args[0].S64() < args[1].S64())
		case OSle:
			return c.Bool(args[0].S64() <= args[1].S64())
		case OBAnd:
			for _, a := range args {
				if a.C == 0 {
					return c.False
				}
			}
			return c.True
		case OBOr:
			for _, a := range args {
				if a.C == 1 {
					return c.True
				}
			}
			return c.False
		case OBNot:
			return c.Bool(args[0].C == 0)
		}
	}
	sgn := func(a *Term) *big.Int {
		v := new(big.Int).Set(a.Big())
		if v.Bit(int(a.W-1)) == 1 {
			v.Sub(v, new(big.Int).Lsh(big.NewInt(1), uint(a.W)))
		}
		return v
	}
	r := new(big.Int)
	switch t.Op {
	case OAdd:
		for _, a := range args {
			r.Add(r, a.Big())
		}
	case OMul:
		r.SetInt64(1)
		for _, a := range args {
			r.Mul(r, a.Big())
		}
	case OUDiv:
		if args[1].Big().Sign() == 0 {
			return c.AllOnes(w)
		}
		r.Div(args[0].Big(), args[1].Big())
	case OURem:
		if args[1].Big().Sign() == 0 {
			return args[0]
		}
		r.Mod(args[0].Big(), args[1].Big())
	case OSDiv:
		r.Quo(sgn(args[0]), sgn(args[1]))
	case OSRem:
		r.Rem(sgn(args[0]), sgn(args[1]))
	case OAnd:
		r.Set(args[0].Big())
		for _, a := range args[1:] {
			r.And(r, a.Big())
		}
	case OOr:
		for _, a := range args {
			r.Or(r, a.Big())
		}
	case OXor:
		for _, a := range args {
			r.Xor(r, a.Big())
		}
	case OShl:
		if args[1].Big().Cmp(big.NewInt(int64(w))) >= 0 {
			return c.Const(0, w)
		}
		r.Lsh(args[0].Big(), uint(args[1].U64()))
	case OLshr:
		if args[1].Big().Cmp(big.NewInt(int64(w))) >= 0 {
			return c.Const(0, w)
		}
		r.Rsh(args[0].Big(), uint(args[1].U64()))
	case OAshr:
		k := uint(w - 1)
		if args[1].Big().Cmp(big.NewInt(int64(w))) < 0 {
			k = uint(args[1].U64())
		}
		r.Rsh(sgn(args[0]), k)
	case OConcat:
		for _, a := range args {
			r.Lsh(r, uint(a.W))
			r.Or(r, a.Big())
		}
	case OExtract:
		r.Rsh(args[0].Big(), uint(t.Lo))
	case OSext:
		r = sgn(args[0])
	case OIte:
		if args[0].C == 1 {
			return args[1]
		}
		return args[2]
	case OEq:
		return c.Bool(args[0].Big().Cmp(args[1].Big()) == 0)
	case OUlt:
		return c.Bool(args[0].Big().Cmp(args[1].Big()) < 0)
	case OUle:
		return c.Bool(args[0].Big().Cmp(args[1].Big()) <= 0)
	case OSlt:
		return c.Bool(sgn(args[0]).Cmp(sgn(args[1])) < 0)
	case OSle:
		return c.Bool(sgn(args[0]).Cmp(sgn(args[1])) <= 0)
	default:
		panic("eval op")
	}
	return c.ConstBig(r, w)
}
