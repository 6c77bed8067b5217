package smt

import (
	"verifengine/term"
)

// tiny decides conjunctions over one variable of at most eight bits by their
// truth table: a decision procedure for the loop conditions of deep arithmetic
// on small inputs, which bit-blasting handles badly.
type tiny struct {
	v    *term.Term // the variable
	evs  []*term.Evaluator
	supp map[*term.Term]*term.Term // support: nil none, many for more than one
}

var many = &term.Term{}

func (t *tiny) support(a *term.Term) *term.Term {
	if t.supp == nil {
		t.supp = map[*term.Term]*term.Term{}
	}
	type fr struct {
		t *term.Term
		i int
	}
	if r, ok := t.supp[a]; ok {
		return r
	}
	st := []fr{{a, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if _, ok := t.supp[f.t]; ok {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.Args) {
			n := f.t.Args[f.i]
			f.i++
			if _, ok := t.supp[n]; !ok {
				st = append(st, fr{n, 0})
			}
			continue
		}
		var s *term.Term
		switch {
		case f.t.Op == term.OVar:
			s = many
			if f.t.W > 0 && f.t.W <= 8 {
				s = f.t
			}
		case f.t.Op == term.OUF:
			s = many
		default:
			for _, x := range f.t.Args {
				switch q := t.supp[x]; {
				case q == nil || q == s:
				case s == nil:
					s = q
				default:
					s = many
				}
			}
		}
		t.supp[f.t] = s
		st = st[:len(st)-1]
	}
	return t.supp[a]
}

func (t *tiny) decide(asserts []*term.Term) Result {
	r, _ := t.solve(nil, asserts, nil)
	return r
}

func (t *tiny) solve(c *term.Ctx, asserts, want []*term.Term) (Result, map[*term.Term]*term.Term) {
	var v *term.Term
	for _, l := range [][]*term.Term{asserts, want} {
		for _, a := range l {
			s := t.support(a)
			if s == many || s != nil && v != nil && s != v {
				return Unknown, nil
			}
			if s != nil {
				v = s
			}
		}
	}
	if v == nil {
		return Unknown, nil
	}
	if t.v != v {
		t.v, t.evs = v, nil
		for i := uint64(0); i < 1<<uint(v.W); i++ {
			cc := term.NewCtx()
			t.evs = append(t.evs, term.NewEvaluator(cc, &term.Model{Vars: map[string]*term.Term{v.Name: cc.Const(i, v.W)}}))
		}
	}
	for _, e := range t.evs {
		ok := true
		for _, a := range asserts {
			if !e.Eval(a).IsTrue() {
				ok = false
				break
			}
		}
		if ok {
			vals := map[*term.Term]*term.Term{}
			for _, w := range want {
				r := e.Eval(w)
				switch {
				case r.W == 0:
					vals[w] = c.Bool(r.IsTrue())
				case r.B != nil:
					vals[w] = c.ConstBig(r.B, r.W)
				default:
					vals[w] = c.Const(r.C, r.W)
				}
			}
			return Sat, vals
		}
	}
	return Unsat, nil
}
