package autolykos2

import (
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

// Verif_C10_ergo Ergo's 32-element hit for every 32-byte message, 64-bit height and nonce, with the table size an arbitrary positive function of the height and the hash an arbitrary function.
//
//verif:stub github.com/sencha-dev/powkit/autolykos2.calcN stubN
func Verif_C10_ergo() {
	msg := sym.BytesCap("msg", 32, 40)
	h, nonce := sym.U64("height"), sym.U64("nonce")
	got, err := NewErgo().Compute(msg, h, nonce)
	sym.Assert(err == nil, "no error")
	sym.AssertEqBytes(got, refCompute(32, stubN(1<<26, h), sym.BytesCap("msg", 32, 40), h, nonce), "Autolykos v2 hit")
	sym.AssertEqBytes(msg[:40], sym.Bytes("msg", 40), "message unchanged")
	sym.Reach("end")
}
