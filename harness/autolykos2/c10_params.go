package autolykos2

import sym "github.com/sencha-dev/powkit/internal/verifsym"

// Verif_C10_heights Ergo's hit with the real table-size schedule at heights below, at and above every regime, every message and nonce.
func Verif_C10_heights() {
	nonce := sym.U64("nonce")
	for _, h := range []uint64{0, 614399, 614400, 700000, 4198400, 1 << 33} {
		got, err := NewErgo().Compute(sym.Bytes("msg", 32), h, nonce)
		sym.Assert(err == nil, "no error")
		sym.AssertEqBytes(got, refCompute(32, refN(1<<26, h), sym.Bytes("msg", 32), h, nonce), "Autolykos v2 hit")
	}
	sym.Reach("end")
}

// Verif_C10_params other element counts (1, 2, 5, 29) and table size exponents (8, 16, 30), every message and nonce.
func Verif_C10_params() {
	nonce := sym.U64("nonce")
	for _, p := range [][2]uint32{{1, 8}, {2, 16}, {5, 26}, {29, 30}} {
		got, err := New(p[0], p[1]).Compute(sym.Bytes("msg", 32), 5000, nonce)
		sym.Assert(err == nil, "no error")
		sym.AssertEqBytes(got, refCompute(int(p[0]), 1<<p[1], sym.Bytes("msg", 32), 5000, nonce), "Autolykos v2 hit")
	}
	sym.Reach("end")
}
