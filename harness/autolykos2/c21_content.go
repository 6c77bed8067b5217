package autolykos2

import sym "github.com/sencha-dev/powkit/internal/verifsym"

// Verif_C21_content every 32-byte message and nonce at heights 0, 4198401 and 2^64-1: a 32-byte digest without a panic.
func Verif_C21_content() {
	sym.Reach("start")
	for _, h := range []uint64{0, 4198401, 1<<64 - 1} {
		digest, err := NewErgo().Compute(sym.Bytes("msg", 32), h, sym.U64("nonce"))
		sym.Assert(err == nil && len(digest) == 32, "digest")
	}
}
