package beamhashiii

import (
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

// Verif_C22_repeat every pair of headers and solutions (with spare capacity): a call between two equal calls changes nothing, inputs and their spare capacity are untouched.
func Verif_C22_repeat() {
	hx, hy := sym.BytesCap("hx", 40, 80), sym.BytesCap("hy", 40, 80)
	x, y := sym.BytesCap("x", 104, 150), sym.BytesCap("y", 104, 150)
	c := NewBeam()
	a, errA := c.Verify(hx, x)
	c.Verify(hy, y)
	b, errB := c.Verify(hx, x)
	sym.Assert(a == b, "same verdict again")
	sym.Assert((errA == nil) == (errB == nil), "same kind of error again")
	sym.AssertEqBytes(hx[:80], sym.Bytes("hx", 80), "first header and its spare capacity untouched")
	sym.AssertEqBytes(hy[:80], sym.Bytes("hy", 80), "second header and its spare capacity untouched")
	sym.AssertEqBytes(x[:150], sym.Bytes("x", 150), "first solution and its spare capacity untouched")
	sym.AssertEqBytes(y[:150], sym.Bytes("y", 150), "second solution and its spare capacity untouched")
	sym.Reach("end")
}

// Verif_C22_shared one client, fresh and used before, called from several goroutines with the same header and solution, every content: no write to memory the calls share.
//
//verif:race
func Verif_C22_shared() {
	c := NewBeam()
	h, x := sym.BytesCap("hx", 40, 80), sym.BytesCap("x", 104, 150)
	for i := 0; i < 2; i++ {
		sym.Concurrent(func() { c.Verify(h, x) })
	}
	sym.AssertEqBytes(h[:80], sym.Bytes("hx", 80), "header and its spare capacity untouched")
	sym.AssertEqBytes(x[:150], sym.Bytes("x", 150), "solution and its spare capacity untouched")
	sym.Reach("end")
}
