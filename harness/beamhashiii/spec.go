package beamhashiii

import (
	"math/big"

	"github.com/dchest/blake2b"
)

func le64(b []byte) uint64 {
	v := uint64(0)
	for i := 7; i >= 0; i-- {
		v = v<<8 | uint64(b[i])
	}
	return v
}

func rl(x uint64, n uint) uint64 {
	n &= 63
	if n == 0 {
		return x
	}
	return x<<n | x>>(64-n)
}

// siphash24 is SipHash-2-4 of one word, started from four state words.
func siphash24(key [4]uint64, word uint64) uint64 {
	a, b, c, d := key[0], key[1], key[2], key[3]
	round := func() {
		a += b
		c += d
		b = rl(b, 13) ^ a
		d = rl(d, 16) ^ c
		a = rl(a, 32)
		c += b
		a += d
		b = rl(b, 17) ^ c
		d = rl(d, 21) ^ a
		c = rl(c, 32)
	}
	d ^= word
	round()
	round()
	a ^= word
	c ^= 0xff
	for i := 0; i < 4; i++ {
		round()
	}
	return a ^ b ^ c ^ d
}

// elem is a partial solution: its work bits and its leaves.
type elem struct {
	bits *big.Int
	idx  []uint32
}

func low(b *big.Int, n uint) *big.Int {
	m := new(big.Int).Lsh(big.NewInt(1), n)
	return new(big.Int).And(b, m.Sub(m, big.NewInt(1)))
}

// mix replaces the low word by the rotated sum of the eight words of work bits and leaf indices.
func (e *elem) mix(rem int) {
	t := new(big.Int).Set(e.bits)
	pad := (512 - rem + 24) / 25
	if pad > len(e.idx) {
		pad = len(e.idx)
	}
	for i := 0; i < pad; i++ {
		x := new(big.Int).SetUint64(uint64(e.idx[i]))
		t.Or(t, x.Lsh(x, uint(rem+25*i)))
	}
	sum := uint64(0)
	for i := 0; i < 8; i++ {
		sum += rl(low(new(big.Int).Rsh(t, uint(64*i)), 64).Uint64(), uint(29*(i+1)))
	}
	top := new(big.Int).Rsh(e.bits, 64)
	e.bits = top.Or(top.Lsh(top, 64), new(big.Int).SetUint64(rl(sum, 24)))
}

// join is the xor without its 24 collision bits, cut to rem bits; the smaller first leaf leads.
func join(a, b *elem, rem int) *elem {
	x := new(big.Int).Xor(a.bits, b.bits)
	r := &elem{bits: low(x.Rsh(x, 24), uint(rem))}
	if a.idx[0] < b.idx[0] {
		r.idx = append(append(r.idx, a.idx...), b.idx...)
	} else {
		r.idx = append(append(r.idx, b.idx...), a.idx...)
	}
	return r
}

// refPrework is the keyed Blake2b of the header and the solution's extra nonce.
func refPrework(person string, header, soln []byte) [4]uint64 {
	p := append([]byte(person), 0xc0, 0x01, 0, 0, 5, 0, 0, 0) // 448 work bits, 5 rounds
	h, err := blake2b.New(&blake2b.Config{Size: 32, Person: p})
	if err != nil {
		panic(err)
	}
	h.Write(append(append([]byte{}, header...), soln[100:104]...))
	out := h.Sum(nil)
	return [4]uint64{le64(out), le64(out[8:]), le64(out[16:]), le64(out[24:])}
}

// refIndices reads 32 indices of 25 bits, least significant first.
func refIndices(soln []byte) []uint32 {
	var out []uint32
	for i := 0; i < 32; i++ {
		at := 25 * i
		v := uint64(0)
		for b := 4; b >= 0; b-- {
			if at/8+b < 100 {
				v = v<<8 | uint64(soln[at/8+b])
			}
		}
		out = append(out, uint32(v>>uint(at%8))&0x1ffffff)
	}
	return out
}

func leaf(x uint32, w [7]uint64) *elem {
	b := new(big.Int)
	for i := 6; i >= 0; i-- {
		b.Or(b.Lsh(b, 64), new(big.Int).SetUint64(w[i]))
	}
	return &elem{bits: b, idx: []uint32{x}}
}

// refVerify decides a solution; work gives the seven words of a leaf.
func refVerify(idx []uint32, work func(uint32) [7]uint64) bool {
	var level []*elem
	for _, x := range idx {
		e := leaf(x, work(x))
		level = append(level, e)
	}
	for round := 1; round <= 5; round++ {
		rem := 448 - 24*(round-1)
		if round == 5 {
			rem -= 64
		}
		next := 448 - 24*round
		if round == 4 {
			next -= 64
		} else if round == 5 {
			next = 24
		}
		var up []*elem
		for i := 0; i < len(level); i += 2 {
			a, b := level[i], level[i+1]
			a.mix(rem)
			b.mix(rem)
			if low(a.bits, 24).Cmp(low(b.bits, 24)) != 0 {
				return false
			}
			if b.idx[0] < a.idx[0] {
				return false
			}
			for _, p := range a.idx {
				for _, q := range b.idx {
					if p == q {
						return false
					}
				}
			}
			up = append(up, join(a, b, next))
		}
		level = up
	}
	return level[0].bits.Sign() == 0
}
