package eaglesong

import (
	"strconv"

	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

var permutations int

func stubPermute(rounds int, state []uint32) { permutations++ }

// Verif_C21_lengths every input length 0..300 (and nil, 511, 512, 1000, 5000) and content: 32 bytes come back without a panic. The permutation is a stand-in here.
//
//verif:stub eaglesong.permute stubPermute
func Verif_C21_lengths() {
	for n := -1; n <= 304; n++ {
		l := n
		if n > 300 {
			l = []int{511, 512, 1000, 5000}[n-301]
		}
		var in []byte
		if l >= 0 {
			in = sym.Bytes("in"+strconv.Itoa(l), l)
		}
		sym.AssertEqInt(len(NewNervos().Compute(in)), 32, "digest size")
	}
	sym.Reach("end")
}
