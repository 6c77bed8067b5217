package beamhashiii

import (
	"strconv"

	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

func stubVerify(n, k uint32, personal, header, soln []byte) (bool, error) {
	return sym.Bool("verdict"), nil
}

// Verif_C21_lengths every header length 0..80 with solutions of 104 bytes and every solution length 0..220 with headers of 40 bytes, and both wrong: exactly 40 and 104 bytes reach the verifier (its own panics are obligations of C04).
//
//verif:stub beamhashiii.verify stubVerify
func Verif_C21_lengths() {
	try := func(h, s int) {
		var header, soln []byte
		if h >= 0 {
			header = sym.Bytes("header"+strconv.Itoa(h), h)
		}
		if s >= 0 {
			soln = sym.Bytes("soln"+strconv.Itoa(s), s)
		}
		ok, err := NewBeam().Verify(header, soln)
		if h == 40 && s == 104 {
			sym.Assert(err == nil && ok == sym.Bool("verdict"), "right lengths reach the verifier")
		} else {
			sym.Assert(err != nil && !ok, "any other length is refused")
		}
	}
	for h := -1; h <= 80; h++ {
		try(h, 104)
	}
	for s := -1; s <= 220; s++ {
		try(40, s)
	}
	for _, d := range []int{-8, -1, 0, 1, 8} {
		try(40+d, 104+1)
		try(40+d, 104-1)
		try(104+d, 40+d)
	}
	sym.Reach("end")
}
