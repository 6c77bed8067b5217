package crypto

import (
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

// Verif_C24_fnv64 the 64-bit FNV-1 step with the 32-bit prime, on every pair of 64-bit words.
func Verif_C24_fnv64() {
	u, v := sym.U64("u"), sym.U64("v")
	sym.AssertEq(Fnv1Uint64(u, v), u*16777619^v, "FNV-1 on 64-bit words")
	sym.Reach("end")
}
