package term

// Under simplifies cond given the conjunction pc: atoms fixed by pc become constants.
// The returned list is equivalent to pc; (nil, nil) means pc is contradictory.
func (c *Ctx) Under(pc []*Term, cond *Term) ([]*Term, *Term) {
	facts := map[*Term]*Term{}
	bad := false
	set := func(k, v *Term) bool {
		if o, ok := facts[k]; ok {
			if o != v && o.IsConst() && v.IsConst() {
				bad = true
			}
			return false
		}
		facts[k] = v
		return true
	}
	// add records the literals implied by t; false when t is compound
	var add func(t *Term) bool
	changed := false
	add = func(t *Term) bool {
		switch t.Op {
		case OConst:
			if t.IsFalse() {
				bad = true
			}
			return true
		case OBAnd:
			ok := true
			for _, a := range t.Args {
				if !add(a) {
					ok = false
				}
			}
			return ok
		case OBNot:
			x := t.Args[0]
			switch x.Op {
			case OBOr:
				ok := true
				for _, a := range x.Args {
					if !add(c.BNot(a)) {
						ok = false
					}
				}
				return ok
			case OBAnd, OIte:
				return false
			}
			changed = set(x, c.False) || changed
			return true
		case OBOr, OIte:
			return false
		case OUlt, OUle, OSlt, OSle:
			changed = set(t, c.True) || changed
			n := c.BNot(t)
			if n.Op != OBNot && !n.IsConst() {
				set(n, c.False)
			}
			if t.Op == OUlt || t.Op == OSlt {
				// strict: the weak form holds, and the terms differ
				w := c.Ule(t.Args[0], t.Args[1])
				if t.Op == OSlt {
					w = c.Sle(t.Args[0], t.Args[1])
				}
				if !w.IsConst() {
					set(w, c.True)
					if nw := c.BNot(w); !nw.IsConst() && nw.Op != OBNot {
						set(nw, c.False)
					}
				}
				if e := c.Eq(t.Args[0], t.Args[1]); !e.IsConst() && e.Op == OEq {
					set(e, c.False)
				}
			}
			return true
		case OEq:
			changed = set(t, c.True) || changed
			if a, b := t.Args[0], t.Args[1]; a.W > 0 {
				if a.IsConst() && (b.Op == OVar || b.Op == OUF || b.Op == OIte) {
					set(b, a)
				} else if b.IsConst() && (a.Op == OVar || a.Op == OUF || a.Op == OIte) {
					set(a, b)
				}
			}
			return true
		}
		changed = set(t, c.True) || changed
		return true
	}
	sub := func(root *Term, extra map[*Term]*Term) *Term {
		memo := map[*Term]*Term{}
		for _, n := range Postorder(root) {
			if v, ok := facts[n]; ok {
				memo[n] = v
				continue
			}
			if v, ok := extra[n]; ok {
				memo[n] = v
				continue
			}
			if len(n.Args) == 0 {
				memo[n] = n
				continue
			}
			args := make([]*Term, len(n.Args))
			for i, a := range n.Args {
				args[i] = memo[a]
			}
			r := c.Rebuild(n, args)
			if v, ok := facts[r]; ok {
				r = v
			} else if v, ok := extra[r]; ok {
				r = v
			}
			memo[n] = r
		}
		return memo[root]
	}
	out := append([]*Term(nil), pc...)
	lit := make([]bool, len(out))
	for i, p := range out {
		lit[i] = add(p)
	}
	for round := 0; round < 3 && !bad; round++ {
		changed = false
		for i, p := range out {
			if lit[i] {
				continue
			}
			// literals found inside p itself must not rewrite p away
			own := ownLiterals(c, p)
			saved := map[*Term]*Term{}
			for _, o := range own {
				if v, ok := facts[o]; ok {
					saved[o] = v
					delete(facts, o)
				}
			}
			q := sub(p, nil)
			for k, v := range saved {
				facts[k] = v
			}
			if q != p {
				out[i] = q
				lit[i] = add(q)
				if bad {
					break
				}
			}
		}
		if !changed {
			break
		}
	}
	if bad {
		return nil, nil
	}
	extra := map[*Term]*Term{}
	for i, p := range out {
		if lit[i] || p.IsConst() {
			continue
		}
		extra[p] = c.True
		if p.Op == OBNot {
			extra[p.Args[0]] = c.False
		}
		if p.Op == OBAnd {
			for _, a := range p.Args {
				extra[a] = c.True
				if a.Op == OBNot {
					extra[a.Args[0]] = c.False
				}
			}
		}
	}
	return out, sub(cond, extra)
}

// ownLiterals lists the terms whose truth add() would record from the conjunction t.
func ownLiterals(c *Ctx, t *Term) []*Term {
	var out []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		switch t.Op {
		case OBAnd:
			for _, a := range t.Args {
				walk(a)
			}
		case OBNot:
			x := t.Args[0]
			if x.Op == OBOr {
				for _, a := range x.Args {
					walk(c.BNot(a))
				}
				return
			}
			out = append(out, x)
		case OUlt, OUle, OSlt, OSle:
			out = append(out, t)
			if n := c.BNot(t); n.Op != OBNot {
				out = append(out, n)
			}
			out = append(out, c.Eq(t.Args[0], t.Args[1]), c.Ule2(t))
			if n := c.BNot(c.Ule2(t)); n.Op != OBNot {
				out = append(out, n)
			}
		case OEq:
			out = append(out, t, t.Args[0], t.Args[1])
		default:
			out = append(out, t)
		}
	}
	walk(t)
	return out
}

// Ule2 is the weak form of a comparison.
func (c *Ctx) Ule2(t *Term) *Term {
	if t.Op == OSlt || t.Op == OSle {
		return c.Sle(t.Args[0], t.Args[1])
	}
	return c.Ule(t.Args[0], t.Args[1])
}
