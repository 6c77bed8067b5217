package exec

import (
	"fmt"
	"go/types"
	"strings"

	"verifengine/term"
)

// decimal renders t in base 10 when its number of digits is decided by the path condition.
func (x *Exec) decimal(st *State, t *term.Term, signed bool) ([]*term.Term, bool) {
	C := x.C
	if t.IsConst() {
		s := fmt.Sprint(t.U64())
		if signed {
			s = fmt.Sprint(t.S64())
		}
		return x.strBytes(&Str{S: s}), true
	}
	if t.W < 64 {
		if signed {
			t = C.SExt(t, 64)
		} else {
			t = C.ZExt(t, 64)
		}
	}
	if lo, hi := pcBounds(st, t); len(fmt.Sprint(lo)) == len(fmt.Sprint(hi)) && (!signed || hi < 1<<63) {
		return x.decDigits(t, len(fmt.Sprint(lo))), true
	}
	if signed && !x.infeasible(st, C.Slt(t, x.zero64)) {
		return nil, false
	}
	digits, pow := 0, uint64(1)
	for d := 1; d <= 20; d++ {
		in := C.Ule(C.Const(pow, 64), t)
		if d == 1 {
			in = C.True
		}
		if d < 20 {
			in = C.BAnd(in, C.Ult(t, C.Const(pow*10, 64)))
		}
		if !x.infeasible(st, in) {
			if digits != 0 {
				return nil, false
			}
			digits = d
		}
		pow *= 10
	}
	if digits == 0 {
		return nil, false
	}
	return x.decDigits(t, digits), true
}

// pcBounds reads constant bounds of t off the path condition.
func pcBounds(st *State, t *term.Term) (lo, hi uint64) {
	lo, hi = t.RangeLo(), t.RangeHi()
	var see func(p *term.Term, neg bool)
	see = func(p *term.Term, neg bool) {
		switch p.Op {
		case term.OBNot:
			see(p.Args[0], !neg)
			return
		case term.OBAnd:
			if !neg {
				for _, a := range p.Args {
					see(a, false)
				}
			}
			return
		case term.OUlt, term.OUle:
		default:
			return
		}
		a, b := p.Args[0], p.Args[1]
		strict := p.Op == term.OUlt
		if neg {
			a, b, strict = b, a, !strict
		}
		switch {
		case a.IsConst() && b == t:
			l := a.C
			if strict {
				l++
			}
			if l > lo {
				lo = l
			}
		case b.IsConst() && a == t:
			h := b.C
			if strict {
				h--
			}
			if h < hi {
				hi = h
			}
		}
	}
	for _, p := range st.pc.list() {
		see(p, false)
	}
	return
}

func (x *Exec) decDigits(t *term.Term, digits int) []*term.Term {
	C := x.C
	out := make([]*term.Term, digits)
	pow := uint64(1)
	for i := digits - 1; i >= 0; i-- {
		q := t
		if pow > 1 {
			q = C.UDiv(t, C.Const(pow, 64))
		}
		out[i] = C.Add(C.Extract(C.URem(q, C.Const(10, 64)), 7, 0), C.Const('0', 8))
		pow *= 10
	}
	return out
}

// symSprintf handles literal text, %d, %s and %v without flags.
func (x *Exec) symSprintf(st *State, f string, args []Value) (*Str, bool) {
	var out []*term.Term
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, x.C.Const(uint64(f[i]), 8))
			continue
		}
		i++
		if i >= len(f) {
			return nil, false
		}
		if f[i] == '%' {
			out = append(out, x.C.Const('%', 8))
			continue
		}
		if k >= len(args) {
			return nil, false
		}
		ifc, ok := args[k].(*Iface)
		k++
		if !ok || ifc.T == nil {
			return nil, false
		}
		switch v := ifc.V.(type) {
		case *term.Term:
			if _, named := ifc.T.(*types.Named); named || v.W == 0 || f[i] != 'd' && f[i] != 'v' {
				return nil, false
			}
			d, ok := x.decimal(st, v, isSigned(ifc.T))
			if !ok {
				return nil, false
			}
			out = append(out, d...)
		case *Str:
			if v.Opq != "" || f[i] != 's' && f[i] != 'v' {
				return nil, false
			}
			out = append(out, x.strBytes(v)...)
		default:
			return nil, false
		}
	}
	if k != len(args) {
		return nil, false
	}
	return x.mkStr(out), true
}

func initText() {
	itoa := func(signed bool) modelFn {
		return func(c *callCtx) Value {
			t := c.term(0)
			if len(c.args) > 1 {
				if b := c.term(1); !b.IsConst() || b.U64() != 10 {
					panic(unsupported("number base"))
				}
			}
			if d, ok := c.x.decimal(c.st, t, signed); ok {
				return c.x.mkStr(d)
			}
			return &Str{Opq: fmt.Sprintf("itoa(t%d)", t.ID)}
		}
	}
	models["strconv.Itoa"] = itoa(true)
	models["strconv.FormatInt"] = itoa(true)
	models["strconv.FormatUint"] = itoa(false)

	// text/template with plain {{.Name}} fields of a map
	models["text/template.New"] = func(c *callCtx) Value {
		return &Ptr{Obj: c.x.allocNative(c.st, "template", &Str{})}
	}
	models["(*text/template.Template).Parse"] = func(c *callCtx) Value {
		c.x.setNative(c.st, c.args[0].(*Ptr).Obj, &Str{S: c.str(1)})
		return tuple(c.args[0], &Iface{})
	}
	models["(*text/template.Template).Execute"] = func(c *callCtx) Value {
		x := c.x
		text := x.native(c.st, c.args[0].(*Ptr).Obj).(*Str).S
		data, ok := c.args[2].(*Iface)
		if !ok {
			panic(unsupported("template data"))
		}
		m, ok := data.V.(*MapRef)
		if !ok || m.Obj == nil {
			panic(unsupported("template data"))
		}
		var out []*term.Term
		for text != "" {
			i := strings.Index(text, "{{")
			if i < 0 {
				i = len(text)
			}
			out = append(out, x.strBytes(&Str{S: text[:i]})...)
			text = text[i:]
			if text == "" {
				break
			}
			j := strings.Index(text, "}}")
			name := ""
			if j > 0 {
				name = strings.TrimSpace(text[2:j])
			}
			if !strings.HasPrefix(name, ".") || strings.ContainsAny(name[1:], " .|(") {
				panic(unsupported("template action %q", name))
			}
			text = text[j+2:]
			found := false
			for _, e := range x.native(c.st, m.Obj).(*mapContent).E {
				k, ok := e.K.(*Str)
				if !ok || !e.Present.IsTrue() {
					panic(unsupported("template map"))
				}
				if k.S != name[1:] {
					continue
				}
				v := e.V
				if i, ok := v.(*Iface); ok {
					v = i.V
				}
				switch s := v.(type) {
				case *Str:
					out = append(out, x.strBytes(s)...)
				default:
					panic(unsupported("template field of %T", v))
				}
				found = true
			}
			if !found {
				out = append(out, x.strBytes(&Str{S: "<no value>"})...)
			}
		}
		w, ok := c.args[1].(*Iface)
		if !ok || w.T == nil {
			panic(unsupported("template writer"))
		}
		f := x.L.method(w.T, nil, "Write")
		if f == nil {
			panic(unsupported("template writer"))
		}
		if _, ok := x.callFunction(c.st, f, []Value{w.V, x.newBytes(c.st, out)}, nil, c.depth+1); !ok {
			c.dead = true
		}
		return &Iface{}
	}
}

// initByteAlg models the assembly helpers of internal/bytealg on concrete text.
func initByteAlg() {
	str := func(c *callCtx, i int) string {
		switch v := c.args[i].(type) {
		case *Str:
			return c.str(i)
		case *Slice:
			b := c.x.bytesOf(c.st, v)
			out := make([]byte, len(b))
			for k, t := range b {
				if !t.IsConst() {
					panic(unsupported("symbolic text in %s", fnName(c.fn)))
				}
				out[k] = byte(t.U64())
			}
			return string(out)
		}
		panic(unsupported("argument of %s", fnName(c.fn)))
	}
	num := func(c *callCtx, n int) Value { return c.x.C.Const(uint64(int64(n)), 64) }
	byteArg := func(c *callCtx, i int) byte {
		t := c.term(i)
		if !t.IsConst() {
			panic(unsupported("symbolic byte in %s", fnName(c.fn)))
		}
		return byte(t.U64())
	}
	for _, n := range []string{"IndexByteString", "IndexByte"} {
		models["internal/bytealg."+n] = func(c *callCtx) Value { return num(c, strings.IndexByte(str(c, 0), byteArg(c, 1))) }
	}
	for _, n := range []string{"LastIndexByteString", "LastIndexByte"} {
		models["internal/bytealg."+n] = func(c *callCtx) Value { return num(c, strings.LastIndexByte(str(c, 0), byteArg(c, 1))) }
	}
	for _, n := range []string{"CountString", "Count"} {
		models["internal/bytealg."+n] = func(c *callCtx) Value {
			return num(c, strings.Count(str(c, 0), string([]byte{byteArg(c, 1)})))
		}
	}
	for _, n := range []string{"IndexString", "Index"} {
		models["internal/bytealg."+n] = func(c *callCtx) Value { return num(c, strings.Index(str(c, 0), str(c, 1))) }
	}
}
