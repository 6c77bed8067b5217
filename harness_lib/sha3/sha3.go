// Package sha3 is the replay stand-in for golang.org/x/crypto/sha3: the real
// implementation, except that output blocks chosen by the solver are returned for
// the inputs they were chosen for.
package sha3

import (
	"fmt"
	"hash"
	"io"

	"golang.org/x/crypto/sha3/real"
)

type ShakeHash interface {
	io.Writer
	io.Reader
	Clone() ShakeHash
	Reset()
}

type state struct {
	alg       string
	size      int
	rate      int
	mk        func() io.ReadWriter
	data      []byte
	pos       int
	squeezing bool
}

func (s *state) block(i int) []byte {
	if b, ok := lookup(fmt.Sprintf("hash:sponge:%s#%d", s.alg, i), s.data); ok && len(b) == s.rate {
		return b
	}
	h := s.mk()
	h.Write(s.data)
	out := make([]byte, s.rate*(i+1))
	io.ReadFull(h, out)
	return out[s.rate*i:]
}

func (s *state) Write(p []byte) (int, error) {
	if s.squeezing {
		panic("sha3: write to sponge after read")
	}
	s.data = append(s.data, p...)
	return len(p), nil
}

func (s *state) Read(p []byte) (int, error) {
	s.squeezing = true
	for i := range p {
		p[i] = 0
	}
	for i := 0; i < len(p); {
		b := s.block(s.pos / s.rate)
		n := copy(p[i:], b[s.pos%s.rate:])
		s.pos += n
		i += n
	}
	return len(p), nil
}

func (s *state) Sum(in []byte) []byte {
	if s.squeezing {
		panic("sha3: Sum after Read")
	}
	d := *s
	out := make([]byte, s.size)
	d.Read(out)
	return append(in, out...)
}
func (s *state) Reset()         { s.data, s.pos, s.squeezing = nil, 0, false }
func (s *state) Size() int      { return s.size }
func (s *state) BlockSize() int { return s.rate }
func (s *state) Clone() ShakeHash {
	d := *s
	d.data = append([]byte(nil), s.data...)
	return &d
}

func fixed(alg string, size, rate int, mk func() hash.Hash) *state {
	return &state{alg: alg, size: size, rate: rate, mk: func() io.ReadWriter { return mk().(io.ReadWriter) }}
}

func New256() hash.Hash             { return fixed("sha3-256", 32, 136, real.New256) }
func New512() hash.Hash             { return fixed("sha3-512", 64, 72, real.New512) }
func NewLegacyKeccak256() hash.Hash { return fixed("legacy256", 32, 136, real.NewLegacyKeccak256) }
func NewLegacyKeccak512() hash.Hash { return fixed("legacy512", 64, 72, real.NewLegacyKeccak512) }
func NewShake128() ShakeHash {
	return &state{alg: "shake128", size: 32, rate: 168, mk: func() io.ReadWriter { return real.NewShake128() }}
}
func NewShake256() ShakeHash {
	return &state{alg: "shake256", size: 64, rate: 136, mk: func() io.ReadWriter { return real.NewShake256() }}
}
func NewCShake256(N, S []byte) ShakeHash {
	if len(N) == 0 && len(S) == 0 {
		return NewShake256()
	}
	n, c := append([]byte(nil), N...), append([]byte(nil), S...)
	return &state{alg: fmt.Sprintf("cshake256:%x:%x", n, c), size: 64, rate: 136, mk: func() io.ReadWriter { return real.NewCShake256(n, c) }}
}
func one(h hash.Hash, data []byte) []byte {
	h.Write(data)
	return h.Sum(nil)
}
func Sum256(data []byte) (out [32]byte) { copy(out[:], one(New256(), data)); return }
func Sum512(data []byte) (out [64]byte) { copy(out[:], one(New512(), data)); return }
func ShakeSum256(hash, data []byte) {
	h := NewShake256()
	h.Write(data)
	h.Read(hash)
}
