package autolykos2

import (
	"encoding/binary"
	"math/big"

	"github.com/dchest/blake2b"

	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

// the number of table elements: an arbitrary positive function of base and height
func stubN(base uint32, height uint64) uint32 {
	n := sym.UF32("N", uint64(base), height)
	sym.Assume(n > 0)
	return n
}

func cat(parts ...[]byte) []byte {
	var out []byte
	for _, p := range parts {
		out = append(out, p...)
	}
	return out
}

// anyBlake stands for the hash when set.
var anyBlake func(b []byte) []byte

func refBlake(b []byte) []byte {
	if anyBlake != nil {
		return anyBlake(b)
	}
	d := blake2b.Sum256(b)
	return d[:]
}

func be32(v uint32) []byte { var b [4]byte; binary.BigEndian.PutUint32(b[:], v); return b[:] }
func be64(v uint64) []byte { var b [8]byte; binary.BigEndian.PutUint64(b[:], v); return b[:] }

// refCompute is the Autolykos v2 hit: k pseudorandom table elements summed, hashed as a
// 32-byte big-endian integer.
func refCompute(k int, n uint32, msg []byte, height, nonce uint64) []byte {
	var m []byte
	for i := uint64(0); i < 1024; i++ {
		m = append(m, be64(i)...)
	}
	h := be32(uint32(height))
	x := binary.BigEndian.Uint64(refBlake(cat(msg, be64(nonce)))[24:])
	i := be32(uint32(x % uint64(n)))
	f := refBlake(cat(i, h, m))[1:]
	seed := refBlake(cat(f, msg, be64(nonce)))
	sum := new(big.Int)
	for j := 0; j < k; j++ {
		var w uint32
		for b := 0; b < 4; b++ {
			w = w<<8 | uint32(seed[(j+b)%32])
		}
		el := refBlake(cat(be32(w%n), h, m))[1:]
		sum.Add(sum, new(big.Int).SetBytes(el))
	}
	var out [32]byte
	sum.FillBytes(out[:])
	return refBlake(out[:])
}

// refTable is the number of elements after each increase: 5% (on whole hundreds) per
// 51200-block period from block 614400 on, the last one at block 4198400.
func refTable(base uint32) []uint32 {
	t := []uint32{base}
	for h := uint64(614400); h <= 4198400; h += 51200 {
		t = append(t, t[len(t)-1]/100*105)
	}
	return t
}

func refN(base uint32, height uint64) uint32 {
	t := refTable(base)
	n := t[0]
	for k := 1; k < len(t); k++ {
		if height >= 614400+51200*uint64(k-1) {
			n = t[k]
		}
	}
	return n
}
