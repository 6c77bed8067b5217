package bitutil

//verif:include xor_generic.go XORBytes=portableXORBytes

import (
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

func portable(la, lb int, f func(dst, a, b []byte) int) {
	n := la
	if lb < n {
		n = lb
	}
	ba, bb, bd := sym.Bytes("a", la+20), sym.Bytes("b", lb+20), sym.Bytes("d", n+20)
	ra, rb, rd := sym.Bytes("a", la+20), sym.Bytes("b", lb+20), sym.Bytes("d", n+20)
	sym.AssertEqInt(f(bd[:n], ba[:la], bb[:lb]), n, "count returned")
	for i := 0; i < n; i++ {
		rd[i] = ra[i] ^ rb[i]
	}
	sym.AssertEqBytes(bd, rd, "exactly the common prefix is xored")
	sym.AssertEqBytes(ba, ra, "first source unchanged")
	sym.AssertEqBytes(bb, rb, "second source unchanged")
}

// Verif_C23_portable the portable implementation (used on neither amd64 nor arm64), bytewise path: every pair of lengths 0 to 20 and equal lengths 21 to 80, every content.
func Verif_C23_portable() {
	for la := 0; la <= 20; la++ {
		for lb := 0; lb <= 20; lb++ {
			portable(la, lb, portableXORBytes)
		}
	}
	for n := 21; n <= 80; n++ {
		portable(n, n, portableXORBytes)
	}
	sym.Reach("end")
}

// Verif_C23_words the portable implementation's word-at-a-time path: equal lengths 1 to 80, every content.
func Verif_C23_words() {
	for n := 1; n <= 80; n++ {
		portable(n, n, func(dst, a, b []byte) int { fastXORBytes(dst, a, b, n); return n })
	}
	sym.Reach("end")
}
