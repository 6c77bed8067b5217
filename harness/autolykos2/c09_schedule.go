package autolykos2

import sym "github.com/sencha-dev/powkit/internal/verifsym"

// Verif_C09_ergo N for every 64-bit block height with Ergo's base of 2^26.
func Verif_C09_ergo() {
	h := sym.U64("height")
	sym.AssertEq32(calcN(1<<26, h), refN(1<<26, h), "table size at every height")
	sym.Reach("end")
}

// Verif_C09_bases N for every 64-bit block height, bases 2^10, 2^20, 2^25 and 100.
func Verif_C09_bases() {
	h := sym.U64("height")
	for _, b := range []uint32{100, 1 << 10, 1 << 20, 1 << 25} {
		sym.AssertEq32(calcN(b, h), refN(b, h), "table size at every height")
	}
	sym.Reach("end")
}

// Verif_C09_monotone N never decreases with the height, never exceeds its final value 2143944600, and is 2^26 before block 614400.
func Verif_C09_monotone() {
	a, b := sym.U64("a"), sym.U64("b")
	sym.Assume(a <= b)
	na, nb := calcN(1<<26, a), calcN(1<<26, b)
	sym.Assert(na <= nb, "monotone in the height")
	sym.Assert(nb <= 2143944600, "bounded by the final size")
	sym.Assert(a >= 614400 || na == 1<<26, "base before the first increase")
	sym.Reach("end")
}

// Verif_C09_symbase N for every 26-bit base at heights in the first three periods and around them.
func Verif_C09_symbase() {
	base := sym.U32("base")
	for _, h := range []uint64{0, 614399, 614400, 665599, 665600, 716799, 716800, 4198399, 4198400, 4198401, 4249600, 1 << 40, 1<<64 - 1} {
		sym.AssertEq32(calcN(base, h), refN(base, h), "table size for every base")
	}
	sym.Reach("end")
}
