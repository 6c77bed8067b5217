package heavyhash

import (
	"golang.org/x/crypto/sha3"

	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

func le64(v uint64) []byte {
	var b []byte
	for i := 0; i < 8; i++ {
		b = append(b, byte(v>>(8*i)))
	}
	return b
}

func word64(b []byte) uint64 {
	v := uint64(0)
	for i := 7; i >= 0; i-- {
		v = v<<8 | uint64(b[i])
	}
	return v
}

func cshake(data []byte, custom string) []byte {
	h := sha3.NewCShake256(nil, []byte(custom))
	h.Write(data)
	out := make([]byte, 32)
	h.Read(out)
	return out
}

type xo [4]uint64

func rot(x uint64, n uint) uint64 { return x<<n | x>>(64-n) }

func (s *xo) next() uint64 {
	r := rot(s[0]+s[3], 23) + s[0]
	t := s[1] << 17
	s[2] ^= s[0]
	s[3] ^= s[1]
	s[1] ^= s[2]
	s[0] ^= s[3]
	s[2] ^= t
	s[3] = rot(s[3], 45)
	return r
}

// draw is the next 64x64 matrix of nibbles of the stream.
func (s *xo) draw() *[64][64]uint16 {
	var m [64][64]uint16
	for i := 0; i < 64; i++ {
		for j := 0; j < 64; j += 16 {
			v := s.next()
			for k := 0; k < 16; k++ {
				m[i][j+k] = uint16(v >> (4 * k) & 15)
			}
		}
	}
	return &m
}

// arbitrary is the matrix as an arbitrary function of the seed words.
func arbitrary(s0, s1, s2, s3 uint64) *[64][64]uint16 {
	b := sym.UFBytes("matrix", 2048, le64(s0), le64(s1), le64(s2), le64(s3))
	var m [64][64]uint16
	for i := range m {
		for j := range m[i] {
			m[i][j] = uint16(b[(64*i+j)/2] >> (4 * (j % 2)) & 15)
		}
	}
	return &m
}

func stubMatrix(s0, s1, s2, s3 uint64) *matrix {
	m := matrix(*arbitrary(s0, s1, s2, s3))
	return &m
}

// digestOf is the definition, given the matrix.
func digestOf(hash []byte, timestamp int64, nonce uint64, m *[64][64]uint16) []byte {
	head := append(append([]byte{}, hash...), le64(uint64(timestamp))...)
	head = append(append(head, make([]byte, 32)...), le64(nonce)...)
	pre := cshake(head, "ProofOfWorkHash")
	var vec [64]uint16
	for i, b := range pre {
		vec[2*i], vec[2*i+1] = uint16(b>>4), uint16(b&15)
	}
	var out []byte
	for i := 0; i < 32; i++ {
		var s [2]uint16
		for r := range s {
			for j := 0; j < 64; j++ {
				s[r] += m[2*i+r][j] * vec[j]
			}
			s[r] >>= 10
		}
		out = append(out, pre[i]^byte(s[0]<<4|s[1]))
	}
	fin := cshake(out, "HeavyHash")
	var rev []byte
	for i := 31; i >= 0; i-- {
		rev = append(rev, fin[i])
	}
	return rev
}
