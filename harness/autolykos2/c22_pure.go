package autolykos2

import (
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

// Verif_C22_repeat every pair of messages (with spare capacity), heights and nonces, the table size an arbitrary function of the height: a call between two equal calls changes nothing, each is the definition's, inputs and their spare capacity are untouched.
//
//verif:stub github.com/sencha-dev/powkit/autolykos2.calcN stubN
func Verif_C22_repeat() {
	for _, k := range []uint32{1, 3, 32} {
		c := New(k, 26)
		x, y := sym.BytesCap("x", 32, 90), sym.BytesCap("y", 32, 90)
		hx, hy, nx, ny := sym.U64("hx"), sym.U64("hy"), sym.U64("nx"), sym.U64("ny")
		d1, _ := c.Compute(x, hx, nx)
		keep := append([]byte{}, d1...)
		dy, err := c.Compute(y, hy, ny)
		sym.Assert(err == nil, "no error")
		d2, _ := c.Compute(x, hx, nx)
		sym.AssertEqBytes(d2, keep, "same digest again")
		sym.AssertEqBytes(d1, keep, "returned digest unchanged by later calls")
		sym.AssertEqBytes(dy, refCompute(int(k), stubN(1<<26, hy), sym.BytesCap("y", 32, 90), hy, ny), "digest of the call between")
		sym.AssertEqBytes(x[:90], sym.Bytes("x", 90), "first message and its spare capacity untouched")
		sym.AssertEqBytes(y[:90], sym.Bytes("y", 90), "second message and its spare capacity untouched")
		if k == 1 {
			sym.Reach("end")
		}
	}
}

// Verif_C22_shared one client, fresh and used before, called from several goroutines with the same message (every content, height and nonce): no write to memory the calls share.
//
//verif:race
//verif:stub github.com/sencha-dev/powkit/autolykos2.calcN stubN
func Verif_C22_shared() {
	c := NewErgo()
	x := sym.BytesCap("x", 32, 90)
	h, n := sym.U64("height"), sym.U64("nonce")
	for i := 0; i < 2; i++ {
		sym.Concurrent(func() {
			_, err := c.Compute(x, h, n)
			sym.Assert(err == nil, "no error")
		})
	}
	sym.AssertEqBytes(x[:90], sym.Bytes("x", 90), "message and its spare capacity untouched")
	sym.Reach("end")
}

// Verif_C22_height every 64-bit height: the table size computation writes no shared memory and repeats.
//
//verif:race
func Verif_C22_height() {
	h, h2 := sym.U64("height"), sym.U64("height2")
	a := calcN(1<<26, h)
	calcN(1<<26, h2)
	sym.AssertEq32(calcN(1<<26, h), a, "same table size again")
	sym.Concurrent(func() { calcN(1<<26, h2) })
	sym.Reach("end")
}
