package octopus

import (
	"golang.org/x/crypto/sha3"

	"github.com/sencha-dev/powkit/internal/crypto"
	"github.com/sencha-dev/powkit/internal/dag"
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

func le32(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }
func le64(v uint64) []byte { return append(le32(uint32(v)), le32(uint32(v>>32))...) }

func word(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

func dword(b []byte) uint64 { return uint64(word(b)) | uint64(word(b[4:]))<<32 }

func k512(b []byte) []byte {
	h := sha3.NewLegacyKeccak512()
	h.Write(b)
	return h.Sum(nil)
}

func k256(b []byte) []byte {
	h := sha3.NewLegacyKeccak256()
	h.Write(b)
	return h.Sum(nil)
}

func fnv(u, v uint32) uint32 { return u*0x01000193 ^ v }

// stubItem is the dataset item as an arbitrary function of its index.
func stubItem(d *dag.DAG, cache []uint32, index uint32, h crypto.Hasher) []byte {
	return sym.UFBytes("item", 64, le32(index))
}

// stubCache leaves the cache empty: only the dataset items, stubbed above, read it.
func stubCache(d *dag.DAG, dest []uint32, epoch uint64, seed []byte) {}

// stubRemap is the parameter map as an arbitrary function into 1..mod-1.
func stubRemap(num uint64) uint64 {
	r := sym.UF64("remap", num)
	sym.Assume(r >= 1 && r < refMod)
	return r
}

const refMod = 1032193

type sip struct{ a, b, c, d uint64 }

func rl(x uint64, n uint) uint64 { return x<<n | x>>(64-n) }

func (s *sip) round() {
	s.a += s.b
	s.c += s.d
	s.b = rl(s.b, 13) ^ s.a
	s.d = rl(s.d, 16) ^ s.c
	s.a = rl(s.a, 32)
	s.c += s.b
	s.a += s.d
	s.b = rl(s.b, 17) ^ s.c
	s.d = rl(s.d, 21) ^ s.a
	s.c = rl(s.c, 32)
}

func refGcd(a, b uint64) uint64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

// refRemap is 11 to the power of num's residue class stripped of the factors it shares with mod-1.
func refRemap(num uint64) uint64 {
	e := num%(refMod-2) + 1
	for _, p := range []uint64{2, 3, 7} { // mod-1 = 2^14 * 3^2 * 7
		for e%p == 0 {
			e /= p
		}
	}
	r := uint64(1)
	for bit := 31; bit >= 0; bit-- {
		r = r * r % refMod
		if e>>uint(bit)&1 == 1 {
			r = r * 11 % refMod
		}
	}
	return r
}

// refDigest is the Conflux proof-of-work definition.
func refDigest(hash []byte, nonce, size uint64, remap func(uint64) uint64) []byte {
	v := [4]uint64{dword(hash), dword(hash[8:]), dword(hash[16:]), dword(hash[24:])}
	a, b, w := remap(v[0]), remap(v[1]), remap(v[3])
	h := v[2]
	c := remap(h)
	for b*b%refMod == 4*a*c%refMod {
		h++
		c = remap(h)
	}
	var coef [1024]uint32
	base := nonce / 32 * 32
	for lane := uint64(0); lane < 32; lane++ {
		s := sip{v[0], v[1], v[2], v[3] ^ (base + lane)}
		s.round()
		s.round()
		s.a ^= base + lane
		s.c ^= 0xff
		for i := 0; i < 4; i++ {
			s.round()
		}
		for k := uint64(0); k < 32; k++ {
			s.round()
			coef[32*k+lane] = uint32(s.a^s.b^s.c^s.d) % refMod
		}
	}
	// the points are w^(lane+32k)
	lane := nonce % 32
	p1, p2 := uint64(1), uint64(1)
	ww := w * w % refMod
	for i := uint64(0); i < lane; i++ {
		p1, p2 = p1*w%refMod, p2*ww%refMod
	}
	f1, f2 := p1, p2
	for i := lane; i < 32; i++ {
		f1, f2 = f1*w%refMod, f2*ww%refMod
	}
	var vals [32]uint32
	acc := uint64(0)
	for k := 0; k < 32; k++ {
		x := (a*p2 + b*p1 + c) % refMod
		y := uint64(0)
		for i := 1023; i >= 0; i-- {
			y = (y*x + uint64(coef[i])) % refMod
		}
		vals[k] = uint32(y)
		acc = acc*0x01000193 ^ y
		p1, p2 = p1*f1%refMod, p2*f2%refMod
	}
	seed := k512(append(append([]byte{}, hash...), le64(acc)...))
	var mix [64]uint32
	for i := range mix {
		mix[i] = word(seed[4*(i%16):])
	}
	pages := uint32(size / 256)
	for i := 0; i < 32; i++ {
		page := fnv(word(seed)^uint32(i)^vals[i], mix[i]) % pages
		for n := uint32(0); n < 4; n++ {
			it := sym.UFBytes("item", 64, le32(4*page+n))
			for l := uint32(0); l < 16; l++ {
				mix[16*n+l] = fnv(mix[16*n+l], word(it[4*l:]))
			}
		}
	}
	out := append([]byte{}, seed...)
	for i := 0; i < 8; i++ {
		lo, hi := mix[4*i:4*i+4], mix[32+4*i:36+4*i]
		out = append(out, le32(fnv(fnv(fnv(fnv(lo[0], lo[1]), lo[2]), lo[3]), fnv(fnv(fnv(hi[0], hi[1]), hi[2]), hi[3])))...)
	}
	return k256(out)
}

func client(size uint64) *Client {
	return New(dag.Config{Name: "T", DatasetSizes: dag.NewLookupTable([]uint64{size}, 1), CacheSizes: dag.NewLookupTable([]uint64{128, 128}, 2), MixBytes: 256, DatasetParents: 256, EpochLength: 1 << 19, SeedEpochLength: 1 << 19, CacheRounds: 1, CachesCount: 3})
}
