package heavyhash

import (
	"strconv"

	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

func lenMatrix(s0, s1, s2, s3 uint64) *matrix {
	var m matrix
	w := sym.LazyU64("matrix", 64)
	for i := range m {
		for j := range m[i] {
			m[i][j] = uint16(w[i]>>uint(j%16*4)) & 15
		}
	}
	return &m
}

// Verif_C21_lengths every hash length 0..96 (and nil, 128, 256, 1000), content, timestamp and nonce: exactly the non-zero 32-byte hashes are accepted; the all-zero hash and every other length are refused with an error and no result. The matrix is arbitrary here.
//
//verif:stub heavyhash.newMatrix lenMatrix
func Verif_C21_lengths() {
	for n := -1; n <= 100; n++ {
		l := n
		if n > 96 {
			l = []int{128, 256, 1000, 4096}[n-97]
		}
		var hash []byte
		if l >= 0 {
			hash = sym.Bytes("hash"+strconv.Itoa(l), l)
		}
		if l == 32 {
			zero := true
			for _, b := range hash {
				zero = zero && b == 0
			}
			digest, err := NewKaspa().Compute(hash, int64(sym.U64("time")), sym.U64("nonce"))
			sym.Assert((err != nil) == zero, "exactly the non-zero 32-byte hashes are accepted")
			sym.Assert(zero || len(digest) == 32, "result size")
			sym.Assert(!zero || digest == nil, "no result with an error")
			continue
		}
		digest, err := NewKaspa().Compute(hash, int64(sym.U64("time")), sym.U64("nonce"))
		sym.Assert(err != nil && digest == nil, "any other length is refused")
	}
	sym.Reach("end")
}
