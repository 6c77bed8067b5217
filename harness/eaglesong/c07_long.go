package eaglesong

import (
	"strconv"

	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

// The permutation as an arbitrary function of the rounds and the state.
func ufPermute(rounds int, s [16]uint32) [16]uint32 {
	in := make([]byte, 0, 68)
	in = append(in, byte(rounds))
	for _, w := range s {
		in = append(in, byte(w), byte(w>>8), byte(w>>16), byte(w>>24))
	}
	out := sym.UFBytes("permute", 64, in)
	for i := range s {
		s[i] = uint32(out[4*i]) | uint32(out[4*i+1])<<8 | uint32(out[4*i+2])<<16 | uint32(out[4*i+3])<<24
	}
	return s
}

func stubAnyPermute(rounds int, state []uint32) {
	var s [16]uint32
	copy(s[:], state)
	s = ufPermute(rounds, s)
	copy(state, s[:])
}

func longLens(lens []int) {
	anyPermute = ufPermute
	cl := NewNervos()
	for _, n := range lens {
		in := sym.Bytes("in"+strconv.Itoa(n), n)
		sym.AssertEqBytes(cl.Compute(in), refSponge(43, 32, 256, 0x06, in), "Eaglesong digest")
	}
	sym.Reach("end")
}

// Verif_C07_lengths every length from 0 to 300, every content, the permutation an arbitrary function (the other harnesses run the real one).
//
//verif:stub eaglesong.permute stubAnyPermute
func Verif_C07_lengths() {
	var lens []int
	for n := 0; n <= 300; n++ {
		lens = append(lens, n)
	}
	longLens(lens)
}

// Verif_C07_long lengths around 512, 1024, 4096 and 8192 and 5000 and 10000, every content, the permutation an arbitrary function.
//
//verif:stub eaglesong.permute stubAnyPermute
func Verif_C07_long() {
	longLens([]int{511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 5000, 8191, 8192, 10000})
}

// Verif_C07_huge lengths around 65536, every content, the permutation an arbitrary function.
//
//verif:stub eaglesong.permute stubAnyPermute
func Verif_C07_huge() { longLens([]int{65535, 65536, 65537}) }
