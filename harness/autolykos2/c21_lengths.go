package autolykos2

import (
	"strconv"

	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

func stubCompute(k, nBase uint32, msg []byte, nonce, height uint64) []byte {
	return sym.UFBytes("digest", 32, msg)
}

// Verif_C21_lengths every message length 0..96 (and nil, 128, 256, 1000), content, height and nonce: exactly the 32-byte messages are accepted. The core is a stand-in here (its own panics are obligations of C10).
//
//verif:stub autolykos2.compute stubCompute
func Verif_C21_lengths() {
	for n := -1; n <= 99; n++ {
		l := n
		if n > 96 {
			l = []int{128, 256, 1000}[n-97]
		}
		var msg []byte
		if l >= 0 {
			msg = sym.Bytes("msg"+strconv.Itoa(l), l)
		}
		digest, err := NewErgo().Compute(msg, sym.U64("height"), sym.U64("nonce"))
		if l == 32 {
			sym.Assert(err == nil && len(digest) == 32, "a 32-byte message is accepted")
		} else {
			sym.Assert(err != nil && digest == nil, "any other length is refused")
		}
	}
	sym.Reach("end")
}
