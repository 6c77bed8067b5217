package crypto

import (
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

func refRotl64(x uint64, n uint) uint64 { return x<<n | x>>(64-n) }

// one SipRound, as in the SipHash paper (figure 2.1), on state [v0 v1 v2 v3]
func refSipRound(v [4]uint64) [4]uint64 {
	a, b, c, d := v[0], v[1], v[2], v[3]
	a += b
	c += d
	b = refRotl64(b, 13) ^ a
	d = refRotl64(d, 16) ^ c
	a = refRotl64(a, 32)
	c += b
	a += d
	b = refRotl64(b, 17) ^ c
	d = refRotl64(d, 21) ^ a
	c = refRotl64(c, 32)
	return [4]uint64{a, b, c, d}
}

// SipHash-c-d of one 64-bit block on a raw state, as used by the Cuckoo Cycle family
func refSip(v [4]uint64, c, d int, nonce uint64) [4]uint64 {
	v[3] ^= nonce
	for i := 0; i < c; i++ {
		v = refSipRound(v)
	}
	v[0] ^= nonce
	v[2] ^= 0xff
	for i := 0; i < d; i++ {
		v = refSipRound(v)
	}
	return v
}

func refLanes(v [4]uint64) uint64 { return v[0] ^ v[1] ^ v[2] ^ v[3] }

func sipKeys() [4]uint64 {
	return [4]uint64{sym.U64("k0"), sym.U64("k1"), sym.U64("k2"), sym.U64("k3")}
}

// Verif_C06_hash24 SipHash-2-4 digest and chaining, every key and two successive nonces.
func Verif_C06_hash24() {
	k := sipKeys()
	n1, n2 := sym.U64("n1"), sym.U64("n2")
	h := NewSipHasher(k[0], k[1], k[2], k[3])
	sym.AssertEq(h.XorLanes(), refLanes(k), "lanes of the fresh state")
	h.Hash24(n1)
	v := refSip(k, 2, 4, n1)
	sym.AssertEq(h.XorLanes(), refLanes(v), "SipHash-2-4 digest")
	h.Hash24(n2)
	v = refSip(v, 2, 4, n2)
	sym.AssertEq(h.XorLanes(), refLanes(v), "SipHash-2-4 digest, second call on the same state")
	sym.Reach("end")
}

// Verif_C06_hash48 SipHash-4-8 digest and chaining, every key and two successive nonces.
func Verif_C06_hash48() {
	k := sipKeys()
	n1, n2 := sym.U64("n1"), sym.U64("n2")
	h := NewSipHasher(k[0], k[1], k[2], k[3])
	h.Hash48(n1)
	v := refSip(k, 4, 8, n1)
	sym.AssertEq(h.XorLanes(), refLanes(v), "SipHash-4-8 digest")
	h.Hash48(n2)
	v = refSip(v, 4, 8, n2)
	sym.AssertEq(h.XorLanes(), refLanes(v), "SipHash-4-8 digest, second call on the same state")
	sym.Reach("end")
}

// Verif_C06_node SipNode24 (plain and Aeternity legacy): every key, edge, side and mask.
func Verif_C06_node() {
	k := sipKeys()
	mask, edge := sym.U64("mask"), sym.U64("edge")
	uorv := uint64(sym.Int("uorv", 0, 1))
	want := refLanes(refSip(k, 2, 4, 2*edge+uorv))
	sym.AssertEq(SipNode24(mask, k, edge, uorv), want&mask, "SipNode24")
	sym.AssertEq(SipNode24Legacy(mask, k, edge, uorv), refRotl64(want, 17)&mask, "SipNode24Legacy rotates the digest by 17")
	sym.Reach("end")
}

// Verif_C06_block SipBlock48: every key and every edge in the 64-edge block (all positions).
func Verif_C06_block() {
	k := sipKeys()
	hi := sym.U64("edge") &^ 63
	// block values by the chained definition
	var vals [64]uint64
	v := k
	for i := 0; i < 64; i++ {
		v = refSip(v, 4, 8, hi+uint64(i))
		vals[i] = refLanes(v)
	}
	for pos := 0; pos < 64; pos++ {
		want := vals[pos] ^ vals[63]
		if pos == 63 {
			want = vals[63]
		}
		sym.AssertEq(SipBlock48(k, hi+uint64(pos)), want, "SipBlock48 at a fixed position")
	}
	sym.Reach("end")
}
