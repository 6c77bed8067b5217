package autolykos2

import sym "github.com/sencha-dev/powkit/internal/verifsym"

// Every element's digest; other digests are arbitrary.
var element [32]byte

func stubElement(b []byte) []byte {
	if len(b) > 8192 {
		return append([]byte(nil), element[:]...)
	}
	return sym.UFBytes("blake", 32, b)
}

// Verif_C10_padding every message and nonce, elements whose sum is zero, fits one, two, thirty or thirty-one bytes or needs all 32: the sum is hashed as 32 bytes.
//
//verif:stub internal/crypto.Blake2b256 stubElement
func Verif_C10_padding() {
	anyBlake = stubElement
	nonce := sym.U64("nonce")
	for _, top := range []int{32, 31, 30, 16, 2, 1, 0} {
		element = [32]byte{}
		for i := top; i < 32; i++ {
			element[i] = byte(200 + i)
		}
		for _, k := range []uint32{1, 2, 32} {
			got, err := New(k, 26).Compute(sym.Bytes("msg", 32), 5000, nonce)
			sym.Assert(err == nil, "no error")
			sym.AssertEqBytes(got, refCompute(int(k), 1<<26, sym.Bytes("msg", 32), 5000, nonce), "Autolykos v2 hit")
		}
	}
	sym.Reach("end")
}
