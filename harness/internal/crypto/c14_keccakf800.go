package crypto

import (
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

// refKeccakF800 is Keccak-f[800] from the Keccak reference: lanes of 32 bits,
// 22 rounds, round constants from the degree-8 LFSR, rotation offsets by the rho walk.
func refKeccakF800(a *[25]uint32) {
	lfsr := byte(1)
	for round := 0; round < 22; round++ {
		// theta
		var c [5]uint32
		for x := 0; x < 5; x++ {
			c[x] = a[x] ^ a[x+5] ^ a[x+10] ^ a[x+15] ^ a[x+20]
		}
		for x := 0; x < 5; x++ {
			n := c[(x+1)%5]
			d := c[(x+4)%5] ^ (n<<1 | n>>31)
			for y := 0; y < 25; y += 5 {
				a[x+y] ^= d
			}
		}
		// rho and pi
		x, y := 1, 0
		cur := a[x+5*y]
		for t := 0; t < 24; t++ {
			r := uint((t + 1) * (t + 2) / 2 % 32)
			nx, ny := y, (2*x+3*y)%5
			x, y = nx, ny
			v := cur
			if r != 0 {
				v = cur<<r | cur>>(32-r)
			}
			cur, a[x+5*y] = a[x+5*y], v
		}
		// chi
		for y := 0; y < 25; y += 5 {
			var r [5]uint32
			copy(r[:], a[y:y+5])
			for x := 0; x < 5; x++ {
				a[y+x] = r[x] ^ (^r[(x+1)%5] & r[(x+2)%5])
			}
		}
		// iota
		var rc uint64
		for j := uint(0); j <= 6; j++ {
			if lfsr&1 == 1 {
				rc |= 1 << (1<<j - 1)
			}
			if lfsr&0x80 != 0 {
				lfsr = lfsr<<1 ^ 0x71
			} else {
				lfsr <<= 1
			}
		}
		a[0] ^= uint32(rc)
	}
}

// Verif_C14_permutation KeccakF800 on every 800-bit state equals the reference permutation (22 rounds).
func Verif_C14_permutation() {
	in := sym.Words32("a", 25)
	var a, b [25]uint32
	copy(a[:], in)
	copy(b[:], in)
	KeccakF800(&a)
	refKeccakF800(&b)
	sym.AssertEqWords32(a[:], b[:], "Keccak-f[800]")
	sym.Reach("end")
}

// Verif_C14_twice two successive calls on the same state apply the permutation twice; another state is untouched.
func Verif_C14_twice() {
	in := sym.Words32("a", 25)
	var a, b, c [25]uint32
	copy(a[:], in)
	copy(b[:], in)
	copy(c[:], in)
	KeccakF800(&a)
	KeccakF800(&a)
	refKeccakF800(&b)
	refKeccakF800(&b)
	sym.AssertEqWords32(a[:], b[:], "Keccak-f[800] twice")
	sym.AssertEqWords32(c[:], in, "unrelated state")
	sym.Reach("end")
}
