package equihash

import sym "github.com/sencha-dev/powkit/internal/verifsym"

// Verif_C02_expand expandArray on element widths 8 to 32 bits, every padding that fits 4 bytes, up to 9 elements, every content: each output element is its bits, right-aligned and zero-padded.
func Verif_C02_expand() {
	for bits := 8; bits <= 32; bits++ {
		w := (bits + 7) / 8
		for pad := 0; pad <= 4-w; pad++ {
			for _, elems := range []int{1, 3, 8, 9} {
				n := (elems*bits + 7) / 8
				if pad+w == 0 {
					continue
				}
				in := sym.Bytes("in", n)
				out, err := expandArray(in, uint32(bits), uint32(pad))
				sym.Assert(err == nil, "supported width")
				sym.Assert(len(out) >= elems*(w+pad), "an element for every complete group of bits")
				if elems%8 == 0 {
					sym.AssertEqInt(len(out), elems*(w+pad), "output length")
				}
				for e := 0; e < elems; e++ {
					v := bitsAt(sym.Bytes("in", n), e*bits, bits)
					for b := 0; b < w+pad; b++ {
						sym.AssertEq(uint64(out[e*(w+pad)+b]), v>>uint(8*(w+pad-1-b))&0xff, "expanded element")
					}
				}
			}
		}
	}
	sym.Reach("end")
}

// Verif_C02_badwidth element widths below 8 and above 32 bits are refused, every content of up to 9 bytes.
func Verif_C02_badwidth() {
	for _, bits := range []uint32{0, 1, 7, 33, 40, 1 << 20, 1<<32 - 1} {
		for n := 0; n < 10; n++ {
			_, err := expandArray(sym.Bytes("in", n), bits, 0)
			sym.Assert(err != nil, "unsupported width refused")
		}
	}
	sym.Reach("end")
}

// Verif_C02_minimal indices of whole solutions for the parameters of every preset and four others, every content: index i is bits [i*w,(i+1)*w).
func Verif_C02_minimal() {
	for _, p := range [][2]int{{125, 4}, {144, 5}, {192, 7}, {200, 9}, {210, 9}, {96, 5}, {60, 3}, {92, 3}, {48, 5}, {96, 3}, {150, 5}, {104, 3}, {108, 3}, {112, 3}, {116, 3}, {120, 3}, {124, 3}} {
		n, k := p[0], p[1]
		size := (1 << uint(k)) * (n/(k+1) + 1) / 8
		got, err := indicesFromMinimal(uint32(n), uint32(k), sym.Bytes("soln", size))
		sym.Assert(err == nil, "no error")
		sym.AssertEqWords32(got, decode(n, k, sym.Bytes("soln", size)), "decoded indices")
	}
	sym.Reach("end")
}

// Verif_C02_lengths solutions of any other length than the parameters' are refused by every preset's decoder: lengths 0 to 70 and one off the right one.
func Verif_C02_lengths() {
	for _, p := range [][3]int{{125, 4, 52}, {144, 5, 100}, {192, 7, 400}, {200, 9, 1344}, {210, 9, 1408}} {
		ls := []int{p[2] - 1, p[2] + 1, 2 * p[2]}
		for n := 0; n <= 70; n++ {
			ls = append(ls, n)
		}
		for _, n := range ls {
			if n == p[2] {
				continue
			}
			_, err := indicesFromMinimal(uint32(p[0]), uint32(p[1]), sym.Bytes("soln", n))
			sym.Assert(err != nil, "wrong solution length refused")
		}
	}
	sym.Reach("end")
}
