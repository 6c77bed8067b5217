package term

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Printer emits SMT-LIB2 definitions for terms, one definition per node.
type Printer struct {
	done map[*Term]string
	decl map[string]bool
	sb   *strings.Builder
	// uf argument compaction: name -> argument positions that vary
	UFVars map[string][]bool
	// Cut: nodes printed as fresh variables
	Cut map[*Term]bool
}

func NewPrinter() *Printer {
	return &Printer{done: map[*Term]string{}, decl: map[string]bool{}, sb: &strings.Builder{}}
}

func Sort(w int32) string {
	if w == 0 {
		return "Bool"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func Quote(n string) string {
	return "|" + strings.Map(func(r rune) rune {
		if r == '|' || r == '\\' {
			return '_'
		}
		return r
	}, n) + "|"
}

func constStr(t *Term) string {
	if t.W == 0 {
		if t.C == 1 {
			return "true"
		}
		return "false"
	}
	if t.W%4 == 0 {
		s := t.Big().Text(16)
		return "#x" + strings.Repeat("0", int(t.W/4)-len(s)) + s
	}
	s := t.Big().Text(2)
	return "#b" + strings.Repeat("0", int(t.W)-len(s)) + s
}

// PrepareUF computes which argument positions of each uninterpreted function vary over
// the given roots; constant positions are dropped from the emitted function (sound: the
// dropped values are equal in every application).
func (p *Printer) PrepareUF(roots []*Term) {
	first := map[string]*Term{}
	p.UFVars = map[string][]bool{}
	for _, t := range Postorder(roots...) {
		if t.Op != OUF {
			continue
		}
		k := ufKey(t)
		f, ok := first[k]
		if !ok {
			first[k] = t
			p.UFVars[k] = make([]bool, len(t.Args))
			continue
		}
		v := p.UFVars[k]
		for i, a := range t.Args {
			if a != f.Args[i] {
				v[i] = true
			}
		}
	}
}

func ufKey(t *Term) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "%s/%d", t.Name, t.W)
	// run-length encode widths
	for i := 0; i < len(t.Args); {
		j := i
		for j < len(t.Args) && t.Args[j].W == t.Args[i].W {
			j++
		}
		fmt.Fprintf(&sb, ",%dx%d", j-i, t.Args[i].W)
		i = j
	}
	return sb.String()
}

// Emit makes sure t is defined and returns its reference; new definitions go to the buffer.
func (p *Printer) Emit(t *Term) string {
	if r, ok := p.done[t]; ok {
		return r
	}
	type fr struct {
		t *Term
		i int
	}
	st := []fr{{t, 0}}
	for len(st) > 0 {
		f := &st[len(st)-1]
		if _, ok := p.done[f.t]; ok {
			st = st[:len(st)-1]
			continue
		}
		if f.i < len(f.t.Args) && !(p.Cut != nil && p.Cut[f.t]) {
			a := f.t.Args[f.i]
			f.i++
			if _, ok := p.done[a]; !ok {
				st = append(st, fr{a, 0})
			}
			continue
		}
		n := f.t
		st = st[:len(st)-1]
		p.done[n] = p.def(n)
	}
	return p.done[t]
}

func (p *Printer) Take() string {
	s := p.sb.String()
	p.sb.Reset()
	return s
}

func (p *Printer) def(t *Term) string {
	if p.Cut != nil && p.Cut[t] {
		n := fmt.Sprintf("c%d", t.ID)
		fmt.Fprintf(p.sb, "(declare-fun %s () %s)\n", n, Sort(t.W))
		return n
	}
	switch t.Op {
	case OConst:
		return constStr(t)
	case OVar:
		q := Quote(t.Name)
		if !p.decl[q] {
			p.decl[q] = true
			fmt.Fprintf(p.sb, "(declare-fun %s () %s)\n", q, Sort(t.W))
		}
		return q
	}
	n := fmt.Sprintf("t%d", t.ID)
	w := p.sb
	fmt.Fprintf(w, "(define-fun %s () %s ", n, Sort(t.W))
	ref := func(a *Term) string { return p.done[a] }
	switch t.Op {
	case OUF:
		k := ufKey(t)
		vary := p.UFVars[k]
		var args []string
		var ws []int32
		for i, a := range t.Args {
			if vary == nil || (i < len(vary) && vary[i]) {
				args = append(args, ref(a))
				ws = append(ws, a.W)
			}
		}
		name := Quote("uf:" + k)
		// concatenate bit-vector args to keep arity small
		if len(args) > 1 {
			allbv := true
			var tot int32
			for _, x := range ws {
				if x == 0 {
					allbv = false
				}
				tot += x
			}
			if allbv {
				args = []string{"(concat " + strings.Join(args, " ") + ")"}
				ws = []int32{tot}
			}
		}
		if !p.decl[name] {
			p.decl[name] = true
			// the declaration must precede this define-fun
			s := w.String()
			w.Reset()
			cut := strings.LastIndex(s, "(define-fun "+n+" ")
			w.WriteString(s[:cut])
			fmt.Fprintf(w, "(declare-fun %s (", name)
			for i, x := range ws {
				if i > 0 {
					w.WriteByte(' ')
				}
				w.WriteString(Sort(x))
			}
			fmt.Fprintf(w, ") %s)\n", Sort(t.W))
			w.WriteString(s[cut:])
		}
		if len(args) == 0 {
			w.WriteString(name)
		} else {
			fmt.Fprintf(w, "(%s %s)", name, strings.Join(args, " "))
		}
	case OExtract:
		fmt.Fprintf(w, "((_ extract %d %d) %s)", t.Hi, t.Lo, ref(t.Args[0]))
	case OSext:
		fmt.Fprintf(w, "((_ sign_extend %d) %s)", t.W-t.Args[0].W, ref(t.Args[0]))
	default:
		fmt.Fprintf(w, "(%s", opNames[t.Op])
		for _, a := range t.Args {
			w.WriteByte(' ')
			w.WriteString(ref(a))
		}
		w.WriteByte(')')
	}
	w.WriteString(")\n")
	return n
}

// Vars lists the variables below roots sorted by name.
func Vars(roots ...*Term) []*Term {
	var out []*Term
	for _, t := range Postorder(roots...) {
		if t.Op == OVar {
			out = append(out, t)
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].Name < out[j].Name })
	return out
}

// UFs lists the uninterpreted applications below roots, children first.
func UFs(roots ...*Term) []*Term {
	var out []*Term
	for _, t := range Postorder(roots...) {
		if t.Op == OUF {
			out = append(out, t)
		}
	}
	return out
}

// ParseConst reads an SMT-LIB bit-vector/bool literal.
func (c *Ctx) ParseConst(s string, w int32) (*Term, bool) {
	s = strings.TrimSpace(s)
	switch {
	case s == "true":
		return c.True, true
	case s == "false":
		return c.False, true
	case strings.HasPrefix(s, "#x"):
		v, ok := new(big.Int).SetString(s[2:], 16)
		if !ok {
			return nil, false
		}
		return c.ConstBig(v, w), true
	case strings.HasPrefix(s, "#b"):
		v, ok := new(big.Int).SetString(s[2:], 2)
		if !ok {
			return nil, false
		}
		return c.ConstBig(v, w), true
	case strings.HasPrefix(s, "(_ bv"):
		f := strings.Fields(strings.Trim(s, "()"))
		v, ok := new(big.Int).SetString(strings.TrimPrefix(f[1], "bv"), 10)
		if !ok {
			return nil, false
		}
		return c.ConstBig(v, w), true
	}
	return nil, false
}

// String renders a term (bounded depth) for messages.
func (t *Term) String() string { return t.str(6) }
func (t *Term) str(d int) string {
	switch t.Op {
	case OConst:
		if t.W == 0 {
			return constStr(t)
		}
		return fmt.Sprintf("%s:%d", t.Big().Text(10), t.W)
	case OVar:
		return t.Name
	}
	if d == 0 {
		return fmt.Sprintf("t%d", t.ID)
	}
	var sb strings.Builder
	sb.WriteByte('(')
	if t.Op == OUF {
		sb.WriteString(t.Name)
	} else {
		sb.WriteString(opNames[t.Op])
	}
	if t.Op == OExtract {
		fmt.Fprintf(&sb, "[%d:%d]", t.Hi, t.Lo)
	}
	for i, a := range t.Args {
		sb.WriteByte(' ')
		if i > 8 {
			sb.WriteString("...")
			break
		}
		sb.WriteString(a.str(d - 1))
	}
	sb.WriteByte(')')
	return sb.String()
}
