package cuckoo

import (
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

func pureNode(mask uint64, k [4]uint64, edge, uorv uint64) uint64 {
	return sym.UF64("node", k[0], k[1], k[2], k[3], edge, uorv) & mask
}

func pureBlock(k [4]uint64, edge uint64) uint64 {
	return sym.UF64("block", k[0], k[1], k[2], k[3], edge)
}

func repeat(c *Client, n int) {
	hx, hy := sym.BytesCap("hx", 40, 90), sym.BytesCap("hy", 33, 90)
	ex, ey := sym.Words64("ex", n+3)[:n], sym.Words64("ey", n+3)[:n]
	a, errA := c.Verify(hx, ex)
	c.Verify(hy, ey)
	b, errB := c.Verify(hx, ex)
	sym.Assert(a == b, "same verdict again")
	sym.Assert((errA == nil) == (errB == nil), "same kind of error again")
	sym.AssertEqBytes(hx[:90], sym.Bytes("hx", 90), "first header and its spare capacity untouched")
	sym.AssertEqBytes(hy[:90], sym.Bytes("hy", 90), "second header and its spare capacity untouched")
	for i, w := range sym.Words64("ex", n+3) {
		sym.AssertEq(ex[:n+3][i], w, "first proof and its spare capacity untouched")
	}
	for i, w := range sym.Words64("ey", n+3) {
		sym.AssertEq(ey[:n+3][i], w, "second proof and its spare capacity untouched")
	}
	sym.Reach("end")
	if a {
		sym.Reach("accepted")
	}
}

// Verif_C22_repeat every pair of headers and 2-edge proofs (with spare capacity), node functions arbitrary: a call between two equal calls changes nothing and inputs are untouched.
func Verif_C22_repeat() {
	repeat(NewCuckoo(29, 2, pureNode, nil), 2)
}

// Verif_C22_repeataroo the same for Cuckaroo.
func Verif_C22_repeataroo() {
	repeat(NewCuckaroo(30, 2, nil, pureBlock), 2)
}

func shared(c *Client, n int) {
	h := sym.BytesCap("hx", 40, 90)
	e := sym.Words64("ex", n+3)[:n]
	for i := 0; i < 2; i++ {
		sym.Concurrent(func() {
			ok, err := c.Verify(h, e)
			sym.Assert(ok == (err == nil), "a verdict is either acceptance or an error")
		})
	}
	sym.AssertEqBytes(h[:90], sym.Bytes("hx", 90), "header and its spare capacity untouched")
	for i, w := range sym.Words64("ex", n+3) {
		sym.AssertEq(e[:n+3][i], w, "proof and its spare capacity untouched")
	}
	sym.Reach("end")
}

// Verif_C22_shared one client, fresh and used before, called from several goroutines with the same header and proof of 2 edges, every content: no write to memory the calls share.
//
//verif:race
func Verif_C22_shared() {
	shared(NewCuckoo(29, 2, pureNode, nil), 2)
}

// Verif_C22_sharedaroo the same for Cuckaroo.
//
//verif:race
func Verif_C22_sharedaroo() {
	shared(NewCuckaroo(30, 2, nil, pureBlock), 2)
}

// Verif_C22_presets the Aeternity and Cortex clients with their real node functions on one header and 42 ascending edges, concretely: no write to memory the calls share.
//
//verif:race
func Verif_C22_presets() {
	h := make([]byte, 40)
	e := make([]uint64, 42)
	for i := range e {
		e[i] = uint64(i) * 7919
	}
	for _, c := range []*Client{NewAeternity(), NewCortex()} {
		sym.Concurrent(func() { c.Verify(h, e) })
	}
	for i := range h {
		sym.Assert(h[i] == 0, "header untouched")
	}
	for i := range e {
		sym.Assert(e[i] == uint64(i)*7919, "proof untouched")
	}
	sym.Reach("end")
}
