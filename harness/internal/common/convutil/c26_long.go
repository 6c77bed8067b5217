package convutil

import (
	"encoding/binary"

	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

// Verif_C26_long byte strings of every length 22 to 200 and around 256, 512, 1024, 4096 and 20000, every content: the words decoded, and encoded back, in both byte orders.
func Verif_C26_long() {
	var lens []int
	for n := 22; n <= 200; n++ {
		lens = append(lens, n)
	}
	for _, p := range []int{256, 512, 1024, 4096, 20000} {
		lens = append(lens, p-1, p, p+1, p+4)
	}
	for _, n := range lens {
		b := sym.Bytes("long", n)
		le, be := BytesToUint32Array(b, binary.LittleEndian), BytesToUint32Array(b, binary.BigEndian)
		wle, wbe := make([]uint32, n/4), make([]uint32, n/4)
		for i := range wle {
			c := b[4*i : 4*i+4]
			wle[i] = uint32(c[0]) | uint32(c[1])<<8 | uint32(c[2])<<16 | uint32(c[3])<<24
			wbe[i] = uint32(c[3]) | uint32(c[2])<<8 | uint32(c[1])<<16 | uint32(c[0])<<24
		}
		sym.AssertEqWords32(le, wle, "little-endian words")
		sym.AssertEqWords32(be, wbe, "big-endian words")
		sym.AssertEqBytes(Uint32ArrayToBytes(le, binary.LittleEndian), b[:n&^3], "little-endian round trip")
		sym.AssertEqBytes(Uint32ArrayToBytes(be, binary.BigEndian), b[:n&^3], "big-endian round trip")
	}
	sym.Reach("end")
}
