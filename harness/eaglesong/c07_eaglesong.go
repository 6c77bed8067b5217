package eaglesong

import (
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

func c07Lens(lens []int) {
	cl := NewNervos()
	for _, n := range lens {
		in := sym.Bytes("in", n)
		keep := append([]byte(nil), in...)
		sym.AssertEqBytes(cl.Compute(in), refSponge(43, 32, 256, 0x06, keep), "Eaglesong digest")
		sym.AssertEqBytes(in, keep, "input unchanged")
	}
	sym.Reach("end")
}

// Verif_C07_short full 43-round digest of every input of 0, 4 and 11 to 15 bytes (lengths each checked, all contents).
func Verif_C07_short() {
	c07Lens([]int{0, 4, 11, 12, 13, 14, 15})
}

// Verif_C07_tiny full 43-round digest of every input of 1 to 10 bytes (lengths each checked, all contents).
//
//verif:thorough
func Verif_C07_tiny() {
	c07Lens([]int{1, 2, 3, 5, 6, 7, 8, 9, 10})
}

// Verif_C07_block full 43-round digest around the 32-byte rate boundary: lengths 16 to 33, all contents.
func Verif_C07_block() {
	c07Lens([]int{16, 20, 27, 28, 29, 30, 31, 32, 33})
}

// Verif_C07_header full 43-round digest of block-header sized inputs: 48 (Nervos header and nonce), 63, 64, 65 and 96 bytes, all contents.
func Verif_C07_header() {
	c07Lens([]int{48, 63, 64, 65, 96})
}

// Verif_C07_params other sponge parameters: rates of 64, 128 and 256 bits, output of one to three rates, 1 to 5 rounds, every delimiter byte.
func Verif_C07_params() {
	d := sym.U8("delim")
	for _, p := range [][4]int{{3, 8, 64, 7}, {3, 24, 64, 9}, {2, 32, 128, 16}, {5, 16, 128, 15}, {1, 64, 256, 40}, {4, 32, 256, 31}} {
		in := sym.Bytes("in", p[3])
		got := New(p[0], p[1], p[2], p[1], d).Compute(in)
		sym.AssertEqBytes(got, refSponge(p[0], p[1], p[2], d, in), "Eaglesong digest, other parameters")
	}
	sym.Reach("end")
}

// Verif_C07_repeat digests of two inputs computed by one client are those of fresh clients, whatever the order; an already returned digest does not change.
func Verif_C07_repeat() {
	cl := NewNervos()
	a, b := sym.Bytes("a", 5), sym.Bytes("b", 33)
	d1 := cl.Compute(a)
	d2 := cl.Compute(b)
	d3 := cl.Compute(a)
	want := refSponge(43, 32, 256, 0x06, a)
	sym.AssertEqBytes(d1, want, "first digest after a second call")
	sym.AssertEqBytes(d2, refSponge(43, 32, 256, 0x06, b), "second digest")
	sym.AssertEqBytes(d3, want, "same input again")
	sym.Reach("end")
}
