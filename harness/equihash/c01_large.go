package equihash

import sym "github.com/sencha-dev/powkit/internal/verifsym"

// With a digest that is zero everywhere every collision holds, and a solution is valid
// exactly when its indices are distinct and every subtree starts with its least index.

func stubZeroDigest(a, b []byte, size int) []byte { return make([]byte, size) }

func specOrder(idx []uint32) bool {
	ok := uint64(1)
	for i := range idx {
		for j := 0; j < i; j++ {
			ok &= b2u(idx[i] != idx[j])
		}
	}
	for w := 2; w <= len(idx); w *= 2 {
		for at := 0; at < len(idx); at += w {
			ok &= b2u(idx[at] <= idx[at+w/2])
		}
	}
	return ok == 1
}

func checkOrder(n, k int) {
	header := sym.Bytes("header", 140)
	size := (1 << uint(k)) * (n/(k+1) + 1) / 8
	soln := sym.Bytes("soln", size)
	got, _ := New(uint32(n), uint32(k), "ZcashPoW", false).Verify(header, soln)
	want := specOrder(decode(n, k, sym.Bytes("soln", size)))
	sym.Assert(got == want, "accepted exactly when all indices are distinct and every subtree starts with its least index")
	sym.Reach("end")
}

// Verif_C01_order5 n=144, k=5: every list of 32 indices, every collision granted.
//
//verif:stub internal/crypto.Blake2b stubZeroDigest
func Verif_C01_order5() { checkOrder(144, 5) }

// Verif_C01_order6 n=168, k=6: every list of 64 indices, every collision granted.
//
//verif:stub internal/crypto.Blake2b stubZeroDigest
//verif:thorough
func Verif_C01_order6() { checkOrder(168, 6) }

// Verif_C01_zcash n=200, k=9 (the Zcash parameters), every collision granted: 512 indices
// that are valid but for four of them (the first and last of either half), which are
// arbitrary.
//
//verif:stub internal/crypto.Blake2b stubZeroDigest
//verif:thorough
func Verif_C01_zcash() {
	idx := make([]uint32, 512)
	for i := range idx {
		idx[i] = uint32(1000 + 7*i)
	}
	w := sym.Words32("index", 4)
	for i, at := range []int{0, 255, 256, 511} {
		sym.Assume(w[i] < 1<<21)
		idx[at] = w[i]
	}
	got, _ := New(200, 9, "ZcashPoW", false).Verify(sym.Bytes("header", 140), pack(200, 9, idx))
	sym.Assert(got == specOrder(idx), "accepted exactly when all indices are distinct and every subtree starts with its least index")
	sym.Reach("end")
}
