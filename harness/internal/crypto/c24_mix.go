package crypto

import (
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

// Verif_C24_fnv Fnv1 and Fnv1a on every pair of 32-bit words.
func Verif_C24_fnv() {
	u, v := sym.U32("u"), sym.U32("v")
	const prime = 16777619 // 2^24 + 2^8 + 0x93
	sym.AssertEq32(Fnv1(u, v), u*prime^v, "FNV-1: multiply, then xor")
	sym.AssertEq32(Fnv1a(u, v), (u^v)*prime, "FNV-1a: xor, then multiply")
	sym.Reach("end")
}

// Verif_C24_fnvHash FnvHash of mixes of 1, 16 and 32 words with data at least as long: every word mixed with the word of the same index.
func Verif_C24_fnvHash() {
	for _, n := range []int{0, 1, 16, 32} {
		for _, extra := range []int{0, 5} {
			mix, data := sym.Words32("mix", n), sym.Words32("data", n+extra)
			want := make([]uint32, n)
			for i := range want {
				want[i] = mix[i]*16777619 ^ data[i]
			}
			keep := append([]uint32(nil), data...)
			FnvHash(mix, data)
			sym.AssertEqWords32(mix, want, "FnvHash mixes every word")
			sym.AssertEqWords32(data, keep, "FnvHash leaves data unchanged")
		}
	}
	sym.Reach("end")
}

// Verif_C24_xoshiro xoshiro256++: five successive outputs from every 256-bit state.
func Verif_C24_xoshiro() {
	s := [4]uint64{sym.U64("s0"), sym.U64("s1"), sym.U64("s2"), sym.U64("s3")}
	h := NewXoshiro256PlusPlusHasher(s[0], s[1], s[2], s[3])
	for i := 0; i < 5; i++ {
		// reference: Blackman and Vigna, xoshiro256plusplus.c
		result := refRotl(s[0]+s[3], 23) + s[0]
		t := s[1] << 17
		s[2] ^= s[0]
		s[3] ^= s[1]
		s[1] ^= s[2]
		s[0] ^= s[3]
		s[2] ^= t
		s[3] = refRotl(s[3], 45)
		sym.AssertEq(h.Next(), result, "xoshiro256++ output")
	}
	sym.Reach("end")
}

func refRotl(x uint64, k uint) uint64 { return x<<k | x>>(64-k) }
