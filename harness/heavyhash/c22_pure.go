package heavyhash

import (
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

func nonZero(b []byte) bool {
	return word64(b)|word64(b[8:])|word64(b[16:])|word64(b[24:]) != 0
}

// Verif_C22_repeat every pair of non-zero hashes (with spare capacity), timestamps and nonces, the matrix an arbitrary function of the hash: a call between two equal calls changes nothing, each is the definition's, inputs and their spare capacity are untouched.
//
//verif:stub heavyhash.newMatrix stubMatrix
func Verif_C22_repeat() {
	c := NewKaspa()
	x, y := sym.BytesCap("x", 32, 90), sym.BytesCap("y", 32, 90)
	sym.Assume(nonZero(sym.Bytes("x", 90)) && nonZero(sym.Bytes("y", 90)))
	tx, ty, nx, ny := int64(sym.U64("tx")), int64(sym.U64("ty")), sym.U64("nx"), sym.U64("ny")
	d1, _ := c.Compute(x, tx, nx)
	keep := append([]byte{}, d1...)
	dy, err := c.Compute(y, ty, ny)
	sym.Assert(err == nil, "no error")
	d2, _ := c.Compute(x, tx, nx)
	sym.AssertEqBytes(d2, keep, "same digest again")
	sym.AssertEqBytes(d1, keep, "returned digest unchanged by later calls")
	hy := sym.Bytes("y", 90)[:32]
	sym.AssertEqBytes(dy, digestOf(hy, ty, ny, arbitrary(word64(hy), word64(hy[8:]), word64(hy[16:]), word64(hy[24:]))), "digest of the call between")
	sym.AssertEqBytes(x[:90], sym.Bytes("x", 90), "first hash and its spare capacity untouched")
	sym.AssertEqBytes(y[:90], sym.Bytes("y", 90), "second hash and its spare capacity untouched")
	sym.Reach("end")
}

// Verif_C22_shared one client, fresh and used before, called from several goroutines with the same hash, every timestamp and nonce, over the real matrix generation of two hashes: no write to memory the calls share, and the matrix of a hash is the same after another's.
//
//verif:race
func Verif_C22_shared() {
	c := NewKaspa()
	ts, n := int64(sym.U64("time")), sym.U64("nonce")
	first := *newMatrix(0x0706050403020101, 2, 3, 4)
	for i := byte(0); i < 2; i++ {
		x := make([]byte, 32, 90)
		for j := range x {
			x[j] = byte(j)*3 + i + 1
		}
		for k := 0; k < 2; k++ {
			sym.Concurrent(func() {
				_, err := c.Compute(x, ts, n)
				sym.Assert(err == nil, "no error")
			})
		}
		for j := range x[:90] {
			w := byte(0)
			if j < 32 {
				w = byte(j)*3 + i + 1
			}
			sym.Assert(x[:90][j] == w, "hash and its spare capacity untouched")
		}
	}
	again := newMatrix(0x0706050403020101, 2, 3, 4)
	for i := range first {
		sym.AssertEqWords16(again[i][:], first[i][:], "same matrix again")
	}
	sym.Reach("end")
}
