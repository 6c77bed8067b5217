package bitutil

import (
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

// one runs XORBytes on sources of la and lb bytes at offsets oa and ob into a destination at
// offset od, all with neighbours on both sides, and checks every byte of the three buffers.
func one(la, lb, oa, ob, od, extra int) {
	n := la
	if lb < n {
		n = lb
	}
	ba, bb, bd := sym.Bytes("a", oa+la+20), sym.Bytes("b", ob+lb+20), sym.Bytes("d", od+n+extra+20)
	ra, rb, rd := sym.Bytes("a", oa+la+20), sym.Bytes("b", ob+lb+20), sym.Bytes("d", od+n+extra+20)
	got := XORBytes(bd[od:od+n+extra], ba[oa:oa+la], bb[ob:ob+lb])
	sym.AssertEqInt(got, n, "count returned")
	for i := 0; i < n; i++ {
		rd[od+i] = ra[oa+i] ^ rb[ob+i]
	}
	sym.AssertEqBytes(bd, rd, "exactly the common prefix is xored")
	sym.AssertEqBytes(ba, ra, "first source unchanged")
	sym.AssertEqBytes(bb, rb, "second source unchanged")
}

// Verif_C23_lengths every length 0 to 100 and 127 to 130, 255 to 257, every content, equal lengths, aligned.
func Verif_C23_lengths() {
	for n := 0; n <= 100; n++ {
		one(n, n, 0, 0, 0, 0)
	}
	for _, n := range []int{127, 128, 129, 130, 255, 256, 257} {
		one(n, n, 0, 0, 0, 0)
	}
	sym.Reach("end")
}

// Verif_C23_align lengths 1 to 40 and 63 to 66 at every offset 0..15 of each of the three buffers in turn and at mixed offsets, every content.
func Verif_C23_align() {
	for n := 1; n <= 66; n++ {
		if n > 40 && n < 63 {
			continue
		}
		for o := 1; o < 16; o++ {
			one(n, n, o, 0, 0, 0)
			one(n, n, 0, o, 0, 0)
			one(n, n, 0, 0, o, 0)
			one(n, n, o, 16-o, o/2, 1)
		}
	}
	sym.Reach("end")
}

// Verif_C23_unequal every pair of lengths 0 to 34 (and 34 against 100), destinations as long and longer, every content.
func Verif_C23_unequal() {
	for la := 0; la <= 34; la++ {
		for lb := 0; lb <= 34; lb++ {
			one(la, lb, 1, 3, 5, (la+lb)%3*9)
		}
		one(la, 100, 0, 0, 0, 30)
		one(100, la, 0, 0, 0, 30)
	}
	sym.Reach("end")
}

// Verif_C23_alias destination the same slice as the first, the second or both sources, and both sources one slice: lengths 0 to 80 at offsets 0, 1 and 8, every content.
func Verif_C23_alias() {
	for n := 0; n <= 80; n++ {
		for _, o := range []int{0, 1, 8} {
			for kind := 0; kind < 4; kind++ {
				a, b := sym.Bytes("a", o+n+20), sym.Bytes("b", o+n+20)
				ra, rb := sym.Bytes("a", o+n+20), sym.Bytes("b", o+n+20)
				got := n
				switch kind {
				case 0:
					got = XORBytes(a[o:o+n], a[o:o+n], b[o:o+n])
					for i := o; i < o+n; i++ {
						ra[i] ^= rb[i]
					}
				case 1:
					got = XORBytes(b[o:o+n], a[o:o+n], b[o:o+n])
					for i := o; i < o+n; i++ {
						rb[i] ^= ra[i]
					}
				case 2:
					got = XORBytes(a[o:o+n], a[o:o+n], a[o:o+n])
					for i := o; i < o+n; i++ {
						ra[i] = 0
					}
				case 3:
					got = XORBytes(b[o:o+n], a[o:o+n], a[o:o+n])
					for i := o; i < o+n; i++ {
						rb[i] = 0
					}
				}
				sym.AssertEqInt(got, n, "count returned")
				sym.AssertEqBytes(a, ra, "first buffer")
				sym.AssertEqBytes(b, rb, "second buffer")
			}
		}
	}
	sym.Reach("end")
}

// Verif_C23_short destinations one byte or more too short for lengths 1 to 40: refused by a panic that leaves the neighbouring bytes alone.
func Verif_C23_short() {
	for n := 1; n <= 40; n++ {
		for _, m := range []int{0, n / 2, n - 1} {
			a, b, d := sym.Bytes("a", n), sym.Bytes("b", n), sym.Bytes("d", n+40)
			sym.Assert(!sym.Try(func() { XORBytes(d[:m], a, b) }), "panics")
			sym.AssertEqBytes(d[m:], sym.Bytes("d", n+40)[m:], "nothing written past the destination")
		}
	}
	sym.Reach("end")
}

// Verif_C23_long lengths 1000 to 1060, around 2048, 4096, 8192 and 16384, every content, aligned and at odd offsets.
func Verif_C23_long() {
	for n := 1000; n <= 1060; n++ {
		one(n, n, 0, 0, 0, 0)
		one(n, n+1, 1, 7, 3, 2)
	}
	for _, n := range []int{2047, 2048, 2049, 2063, 4095, 4096, 4097, 4104, 8191, 8192, 8193, 16384, 16391} {
		one(n, n, 0, 0, 0, 0)
		one(n, n+3, 1, 7, 3, 2)
	}
	sym.Reach("end")
}

// Verif_C23_longer every length from 258 to 999 and 1061 to 2100, every content.
//
//verif:thorough
func Verif_C23_longer() {
	for n := 258; n <= 2100; n++ {
		one(n, n, 0, 0, 0, 0)
		one(n, n, n%16, n/16%16, n/7%16, 5)
	}
	sym.Reach("end")
}
