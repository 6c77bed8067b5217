package convutil

import (
	"encoding/binary"

	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

func leByte(w uint32, k int) byte { return byte(w >> (8 * uint(k))) }

// Verif_C26_words word arrays of 0 to 9 words in both byte orders: exact layout, exact inverse, arguments unchanged.
func Verif_C26_words() {
	for n := 0; n <= 9; n++ {
		ws := sym.Words32("w", n)
		keep := append([]uint32(nil), ws...)
		le := Uint32ArrayToBytes(ws, binary.LittleEndian)
		be := Uint32ArrayToBytes(ws, binary.BigEndian)
		sym.AssertEqInt(len(le), 4*n, "four bytes per word")
		sym.AssertEqInt(len(be), 4*n, "four bytes per word")
		wle, wbe := make([]byte, 4*n), make([]byte, 4*n)
		for i, w := range keep {
			for k := 0; k < 4; k++ {
				wle[4*i+k] = leByte(w, k)
				wbe[4*i+k] = leByte(w, 3-k)
			}
		}
		sym.AssertEqBytes(le, wle, "little-endian layout")
		sym.AssertEqBytes(be, wbe, "big-endian layout")
		sym.AssertEqWords32(BytesToUint32Array(le, binary.LittleEndian), keep, "little-endian round trip")
		sym.AssertEqWords32(BytesToUint32Array(be, binary.BigEndian), keep, "big-endian round trip")
		sym.AssertEqWords32(ws, keep, "argument unchanged")
	}
	sym.Reach("end")
}

// Verif_C26_bytes byte strings of 0 to 21 bytes: every whole word decoded, a trailing partial word ignored, argument unchanged.
func Verif_C26_bytes() {
	for n := 0; n <= 21; n++ {
		b := sym.Bytes("b", n)
		keep := append([]byte(nil), b...)
		le, be := BytesToUint32Array(b, binary.LittleEndian), BytesToUint32Array(b, binary.BigEndian)
		wle, wbe := make([]uint32, n/4), make([]uint32, n/4)
		for i := range wle {
			for k := 0; k < 4; k++ {
				wle[i] |= uint32(keep[4*i+k]) << (8 * uint(k))
				wbe[i] |= uint32(keep[4*i+k]) << (24 - 8*uint(k))
			}
		}
		sym.AssertEqWords32(le, wle, "little-endian words")
		sym.AssertEqWords32(be, wbe, "big-endian words")
		sym.AssertEqBytes(b, keep, "argument unchanged")
	}
	sym.Reach("end")
}

// Verif_C26_scalar single 32- and 64-bit integers in both byte orders, every value.
func Verif_C26_scalar() {
	v, w := sym.U32("v"), sym.U64("w")
	var l4, b4, l8, b8 []byte
	for k := 0; k < 4; k++ {
		l4 = append(l4, byte(v>>(8*uint(k))))
		b4 = append(b4, byte(v>>(24-8*uint(k))))
	}
	for k := 0; k < 8; k++ {
		l8 = append(l8, byte(w>>(8*uint(k))))
		b8 = append(b8, byte(w>>(56-8*uint(k))))
	}
	sym.AssertEqBytes(Uint32ToBytes(v, binary.LittleEndian), l4, "uint32 little-endian")
	sym.AssertEqBytes(Uint32ToBytes(v, binary.BigEndian), b4, "uint32 big-endian")
	sym.AssertEqBytes(Uint64ToBytes(w, binary.LittleEndian), l8, "uint64 little-endian")
	sym.AssertEqBytes(Uint64ToBytes(w, binary.BigEndian), b8, "uint64 big-endian")
	sym.Reach("end")
}
