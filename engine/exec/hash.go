package exec

import (
	"encoding/hex"
	"fmt"
	"go/types"
	"io"
	"math/big"
	"strconv"
	"strings"

	"github.com/dchest/blake2b"
	"golang.org/x/crypto/sha3"

	"verifengine/term"
)

// HashState is the immutable model of a hash object: algorithm plus absorbed bytes.
type HashState struct {
	Alg  string // sponge:<kind> or blake2b:<size>:<person>:<salt>:<key>
	Size int
	Rate int
	Data []*term.Term
	Pos  int // bytes already squeezed
	Sq   bool
}

func (h *HashState) mergeWith(x *Exec, g *term.Term, o Value) Value {
	q, ok := o.(*HashState)
	if !ok || q.Alg != h.Alg || len(q.Data) != len(h.Data) || q.Pos != h.Pos || q.Sq != h.Sq {
		return nil
	}
	n := *h
	n.Data = make([]*term.Term, len(h.Data))
	for i := range n.Data {
		n.Data[i] = x.C.Ite(g, h.Data[i], q.Data[i])
	}
	return &n
}

// hashBytes returns output bytes [from,to) of the hash state as applications of
// uninterpreted functions (evaluated by the real implementation on constants).
func (x *Exec) hashBytes(h *HashState, from, to int) []*term.Term {
	var out []*term.Term
	if strings.HasPrefix(h.Alg, "blake2b") {
		t := x.C.App("hash:"+h.Alg, int32(h.Size*8), h.Data...)
		return x.splitBE(t)[from:to]
	}
	for i := from; i < to; {
		blk := i / h.Rate
		t := x.C.App(fmt.Sprintf("hash:%s#%d", h.Alg, blk), int32(h.Rate*8), h.Data...)
		all := x.splitBE(t)
		for i < to && i/h.Rate == blk {
			out = append(out, all[i%h.Rate])
			i++
		}
	}
	return out
}

func constBytes(args []*term.Term) []byte {
	b := make([]byte, len(args))
	for i, a := range args {
		b[i] = byte(a.U64())
	}
	return b
}

// RealHash evaluates a hash application natively.
func RealHash(name string, in []byte) ([]byte, bool) {
	f := strings.SplitN(strings.TrimPrefix(name, "hash:"), "#", 2)
	alg := f[0]
	if strings.HasPrefix(alg, "blake2b:") {
		p := strings.Split(alg, ":")
		size, _ := strconv.Atoi(p[1])
		person, _ := hex.DecodeString(p[2])
		salt, _ := hex.DecodeString(p[3])
		key, _ := hex.DecodeString(p[4])
		cfg := &blake2b.Config{Size: uint8(size)}
		if len(person) > 0 {
			cfg.Person = person
		}
		if len(salt) > 0 {
			cfg.Salt = salt
		}
		if len(key) > 0 {
			cfg.Key = key
		}
		h, err := blake2b.New(cfg)
		if err != nil {
			return nil, false
		}
		h.Write(in)
		return h.Sum(nil), true
	}
	blk, _ := strconv.Atoi(f[1])
	var r io.Reader
	k := strings.TrimPrefix(alg, "sponge:")
	rate := 136
	switch {
	case k == "legacy256":
		h := sha3.NewLegacyKeccak256()
		h.Write(in)
		r = h.(io.Reader)
	case k == "legacy512":
		h := sha3.NewLegacyKeccak512()
		h.Write(in)
		r = h.(io.Reader)
		rate = 72
	case k == "sha3-256":
		h := sha3.New256()
		h.Write(in)
		r = h.(io.Reader)
	case k == "sha3-512":
		h := sha3.New512()
		h.Write(in)
		r = h.(io.Reader)
		rate = 72
	case k == "shake256":
		h := sha3.NewShake256()
		h.Write(in)
		r = h
	case k == "shake128":
		h := sha3.NewShake128()
		h.Write(in)
		r = h
		rate = 168
	case strings.HasPrefix(k, "cshake256:"):
		p := strings.Split(k, ":")
		n, _ := hex.DecodeString(p[1])
		s, _ := hex.DecodeString(p[2])
		h := sha3.NewCShake256(n, s)
		h.Write(in)
		r = h
	default:
		return nil, false
	}
	out := make([]byte, rate*(blk+1))
	io.ReadFull(r, out)
	return out[rate*blk:], true
}

func (x *Exec) evalUF(name string, w int32, args []*term.Term) (*term.Term, bool) {
	switch {
	case strings.HasPrefix(name, "hash:"):
		b, ok := RealHash(name, constBytes(args))
		if !ok {
			return nil, false
		}
		return x.C.ConstBig(new(big.Int).SetBytes(b), w), true
	case name == "isprime":
		return x.C.Bool(args[0].Big().ProbablyPrime(20)), true
	}
	return nil, false
}

func (c *callCtx) newHash(pkg, typ string, h *HashState) Value {
	x := c.x
	p := x.L.Pkgs[pkg]
	if p == nil || p.Pkg.Scope().Lookup(typ) == nil {
		panic(unsupported("type %s.%s not found", pkg, typ))
	}
	o := x.allocNative(c.st, "hash "+h.Alg, h)
	ptr := types.NewPointer(p.Pkg.Scope().Lookup(typ).Type())
	return &Iface{T: ptr, V: &Ptr{Obj: o}}
}

func (c *callCtx) hstate(i int) (*Ptr, *HashState) {
	p, ok := c.args[i].(*Ptr)
	if !ok || p.Obj == nil {
		panic(unsupported("hash receiver"))
	}
	h, ok := c.x.native(c.st, p.Obj).(*HashState)
	if !ok {
		panic(unsupported("hash receiver is not modelled"))
	}
	return p, h
}

func initHash() {
	S := "golang.org/x/crypto/sha3"
	for _, k := range []struct {
		fn, alg    string
		size, rate int
	}{{"NewLegacyKeccak256", "legacy256", 32, 136}, {"NewLegacyKeccak512", "legacy512", 64, 72}, {"New256", "sha3-256", 32, 136}, {"New512", "sha3-512", 64, 72}, {"NewShake256", "shake256", 64, 136}, {"NewShake128", "shake128", 32, 168}} {
		k := k
		models[S+"."+k.fn] = func(c *callCtx) Value {
			return c.newHash(S, "state", &HashState{Alg: "sponge:" + k.alg, Size: k.size, Rate: k.rate})
		}
	}
	models[S+".NewCShake256"] = func(c *callCtx) Value {
		n, s := c.bytes(0), c.bytes(1)
		for _, t := range append(append([]*term.Term(nil), n...), s...) {
			if !t.IsConst() {
				panic(unsupported("symbolic customisation string"))
			}
		}
		if len(n) == 0 && len(s) == 0 {
			return c.newHash(S, "state", &HashState{Alg: "sponge:shake256", Size: 64, Rate: 136})
		}
		alg := fmt.Sprintf("sponge:cshake256:%x:%x", constBytes(n), constBytes(s))
		return c.newHash(S, "cshakeState", &HashState{Alg: alg, Size: 64, Rate: 136})
	}
	oneshot := func(alg string, rate, size int) modelFn {
		return func(c *callCtx) Value {
			out := c.x.hashBytes(&HashState{Alg: "sponge:" + alg, Rate: rate, Data: c.bytes(0)}, 0, size)
			a := &Agg{}
			for _, t := range out {
				a.L = append(a.L, t)
			}
			return a
		}
	}
	models[S+".Sum256"] = oneshot("sha3-256", 136, 32)
	models[S+".Sum512"] = oneshot("sha3-512", 72, 64)
	models[S+".ShakeSum256"] = func(c *callCtx) Value {
		d := c.slice(0)
		n := int(d.Len.U64())
		out := c.x.hashBytes(&HashState{Alg: "sponge:shake256", Rate: 136, Data: c.bytes(1)}, 0, n)
		c.x.putBytes(c.st, d, 0, out)
		return &Tuple{}
	}
	write := func(c *callCtx) Value {
		p, h := c.hstate(0)
		if h.Sq {
			c.require(c.x.C.False, "write to sponge after read")
			return nil
		}
		b := c.bytes(1)
		n := *h
		n.Data = append(append([]*term.Term(nil), h.Data...), b...)
		c.x.setNative(c.st, p.Obj, &n)
		return tuple(c.x.C.Const(uint64(len(b)), 64), &Iface{})
	}
	sum := func(c *callCtx) Value {
		_, h := c.hstate(0)
		out := c.x.hashBytes(h, 0, h.Size)
		if h.Sq {
			panic(unsupported("Sum after Read"))
		}
		pre := c.slice(1)
		app := c.x.newBytes(c.st, out)
		return c.x.appendBytes(c, pre, app)
	}
	reset := func(c *callCtx) Value {
		p, h := c.hstate(0)
		c.x.setNative(c.st, p.Obj, &HashState{Alg: h.Alg, Size: h.Size, Rate: h.Rate})
		return &Tuple{}
	}
	size := func(c *callCtx) Value { _, h := c.hstate(0); return c.x.C.Const(uint64(h.Size), 64) }
	read := func(c *callCtx) Value {
		p, h := c.hstate(0)
		d := c.slice(1)
		if !d.Len.IsConst() {
			panic(unsupported("read of symbolic length"))
		}
		n := int(d.Len.U64())
		out := c.x.hashBytes(h, h.Pos, h.Pos+n)
		c.x.putBytes(c.st, d, 0, out)
		s := *h
		s.Pos += n
		s.Sq = true
		c.x.setNative(c.st, p.Obj, &s)
		return tuple(c.x.C.Const(uint64(n), 64), &Iface{})
	}
	for _, r := range []string{"(*" + S + ".state).", "(*" + S + ".cshakeState)."} {
		models[r+"Write"], models[r+"Sum"], models[r+"Reset"], models[r+"Size"], models[r+"Read"] = write, sum, reset, size, read
		models[r+"BlockSize"] = func(c *callCtx) Value { _, h := c.hstate(0); return c.x.C.Const(uint64(h.Rate), 64) }
		models[r+"Clone"] = func(c *callCtx) Value {
			_, h := c.hstate(0)
			t := "state"
			if strings.Contains(h.Alg, "cshake") {
				t = "cshakeState"
			}
			return c.newHash(S, t, h)
		}
	}
	D := "github.com/dchest/blake2b"
	models["(*"+D+".digest).Write"], models["(*"+D+".digest).Sum"], models["(*"+D+".digest).Reset"], models["(*"+D+".digest).Size"] = write, sum, reset, size
	models["(*"+D+".digest).BlockSize"] = func(c *callCtx) Value { return c.x.C.Const(128, 64) }
	alg := func(size int, person, salt, key []byte) string {
		pad := func(b []byte) string {
			if len(b) == 0 {
				return ""
			}
			o := make([]byte, 16)
			copy(o, b)
			return hex.EncodeToString(o)
		}
		return fmt.Sprintf("blake2b:%d:%s:%s:%s", size, pad(person), pad(salt), hex.EncodeToString(key))
	}
	mk := func(c *callCtx, size int, person, salt, key []byte) Value {
		return c.newHash(D, "digest", &HashState{Alg: alg(size, person, salt, key), Size: size, Rate: 128})
	}
	models[D+".New256"] = func(c *callCtx) Value { return mk(c, 32, nil, nil, nil) }
	models[D+".New512"] = func(c *callCtx) Value { return mk(c, 64, nil, nil, nil) }
	models[D+".New"] = func(c *callCtx) Value {
		x := c.x
		p := c.args[0].(*Ptr)
		if p.Obj == nil {
			return tuple(mk(c, 64, nil, nil, nil), &Iface{})
		}
		ct := c.fn.Signature.Params().At(0).Type().(*types.Pointer).Elem()
		st := ct.Underlying().(*types.Struct)
		cfg := x.loadPtr(c.st, p, ct).(*Agg)
		get := func(n string) Value {
			for i := 0; i < st.NumFields(); i++ {
				if st.Field(i).Name() == n {
					return x.fieldOf(cfg, ct, i)
				}
			}
			panic(unsupported("blake2b config field %s", n))
		}
		bs := func(n string) []byte {
			s := x.sliceOf(get(n))
			if s.P.Obj == nil {
				return nil
			}
			ts := x.bytesOf(c.st, s)
			for _, t := range ts {
				if !t.IsConst() {
					panic(unsupported("symbolic blake2b %s", n))
				}
			}
			return constBytes(ts)
		}
		if tp, ok := get("Tree").(*Ptr); !ok || tp.Obj != nil {
			panic(unsupported("blake2b tree mode"))
		}
		sz := x.intOf(get("Size"))
		if !sz.IsConst() {
			panic(unsupported("symbolic blake2b size"))
		}
		person, salt, key := bs("Person"), bs("Salt"), bs("Key")
		if len(person) > 16 || len(salt) > 16 || len(key) > 64 || sz.U64() > 64 {
			return tuple(&Iface{}, x.newError(c.st, &Str{S: "blake2b: invalid config"}))
		}
		size := int(sz.U64())
		if size == 0 {
			size = 64
		}
		return tuple(mk(c, size, person, salt, key), &Iface{})
	}
	bsum := func(size int) modelFn {
		return func(c *callCtx) Value {
			out := c.x.hashBytes(&HashState{Alg: alg(size, nil, nil, nil), Size: size, Rate: 128, Data: c.bytes(0)}, 0, size)
			a := &Agg{}
			for _, t := range out {
				a.L = append(a.L, t)
			}
			return a
		}
	}
	models[D+".Sum256"] = bsum(32)
	models[D+".Sum512"] = bsum(64)
	models["golang.org/x/crypto/blake2b.Sum256"] = bsum(32)
	models["golang.org/x/crypto/blake2b.Sum512"] = bsum(64)
}

// appendBytes appends src to pre with Go's append semantics.
func (x *Exec) appendBytes(c *callCtx, pre, src *Slice) Value {
	sl, sc, tl := int(pre.Len.U64()), int(pre.Cap.U64()), int(src.Len.U64())
	if !pre.Len.IsConst() || !pre.Cap.IsConst() {
		panic(unsupported("Sum into slice of symbolic length"))
	}
	nl := x.C.Const(uint64(sl+tl), 64)
	if sl+tl <= sc {
		x.copySlice(c.st, &Slice{P: x.ptrAdd(pre.P, pre.Len, 1), Len: src.Len, Cap: src.Len}, src, byteType)
		return &Slice{P: pre.P, Len: nl, Cap: pre.Cap}
	}
	nc := realCap(1, sl, sc, tl)
	o := x.allocArray(c.st, "append", byteType, int64(nc))
	r := &Slice{P: &Ptr{Obj: o}, Len: nl, Cap: x.C.Const(uint64(nc), 64)}
	x.copySlice(c.st, r, pre, byteType)
	x.copySlice(c.st, &Slice{P: x.ptrAdd(r.P, pre.Len, 1), Len: src.Len, Cap: src.Len}, src, byteType)
	return r
}
