package eaglesong

import (
	"strconv"

	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

// Verif_C21_content every content of inputs of 0, 1, 31, 32, 33, 63, 64 and 100 bytes with the real permutation: a digest without a panic.
func Verif_C21_content() {
	for _, n := range []int{0, 1, 31, 32, 33, 63, 64, 100} {
		sym.AssertEqInt(len(NewNervos().Compute(sym.Bytes("in"+strconv.Itoa(n), n))), 32, "digest size")
	}
	sym.Reach("end")
}
