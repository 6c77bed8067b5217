package eaglesong

import (
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

// Verif_C22_repeat every pair of inputs of 12 and 32 or 40 and 9 bytes (with spare capacity): a call between two equal calls changes nothing, each is the definition's, inputs and their spare capacity are untouched.
func Verif_C22_repeat() {
	for _, l := range [][2]int{{12, 32}, {40, 9}, {31, 31}} {
		c := NewNervos()
		x, y := sym.BytesCap("x", l[0], 80), sym.BytesCap("y", l[1], 80)
		d1 := c.Compute(x)
		keep := append([]byte{}, d1...)
		dy := c.Compute(y)
		d2 := c.Compute(x)
		sym.AssertEqBytes(d2, keep, "same digest again")
		sym.AssertEqBytes(d1, keep, "returned digest unchanged by later calls")
		sym.AssertEqBytes(dy, refSponge(43, 32, 256, 6, sym.Bytes("y", 80)[:l[1]]), "digest of the call between")
		sym.AssertEqBytes(x[:80], sym.Bytes("x", 80), "first input and its spare capacity untouched")
		sym.AssertEqBytes(y[:80], sym.Bytes("y", 80), "second input and its spare capacity untouched")
	}
	sym.Reach("end")
}

// Verif_C22_shared one client, fresh and used before, called from several goroutines with the same input of 0, 31, 32 or 48 bytes, every content: no write to memory the calls share.
//
//verif:race
func Verif_C22_shared() {
	c := NewNervos()
	x := sym.BytesCap("x", 48, 80)
	for _, n := range []int{0, 31, 32, 48} {
		for k := 0; k < 2; k++ {
			sym.Concurrent(func() { c.Compute(x[:n]) })
		}
	}
	sym.AssertEqBytes(x[:80], sym.Bytes("x", 80), "input and its spare capacity untouched")
	sym.Reach("end")
}
