// Package blake2b is the replay stand-in for github.com/dchest/blake2b: the real
// implementation, except that outputs chosen by the solver are returned for the
// inputs they were chosen for.
package blake2b

import (
	"encoding/hex"
	"fmt"
	"hash"

	"github.com/dchest/blake2b/real"
)

const (
	BlockSize  = real.BlockSize
	Size       = real.Size
	SaltSize   = real.SaltSize
	PersonSize = real.PersonSize
	KeySize    = real.KeySize
)

type Config = real.Config
type Tree = real.Tree

type digest struct {
	h    hash.Hash
	alg  string
	data []byte
}

func pad(b []byte) string {
	if len(b) == 0 {
		return ""
	}
	o := make([]byte, 16)
	copy(o, b)
	return hex.EncodeToString(o)
}

func name(size int, person, salt, key []byte) string {
	return fmt.Sprintf("hash:blake2b:%d:%s:%s:%s", size, pad(person), pad(salt), hex.EncodeToString(key))
}

func New(c *Config) (hash.Hash, error) {
	h, err := real.New(c)
	if err != nil {
		return nil, err
	}
	d := &digest{h: h}
	if c == nil {
		d.alg = name(64, nil, nil, nil)
	} else if c.Tree == nil {
		sz := int(c.Size)
		if sz == 0 {
			sz = 64
		}
		d.alg = name(sz, c.Person, c.Salt, c.Key)
	}
	return d, nil
}
func New256() hash.Hash { return &digest{h: real.New256(), alg: name(32, nil, nil, nil)} }
func New512() hash.Hash { return &digest{h: real.New512(), alg: name(64, nil, nil, nil)} }
func NewMAC(n uint8, key []byte) hash.Hash {
	return &digest{h: real.NewMAC(n, key), alg: name(int(n), nil, nil, key)}
}
func (d *digest) Write(p []byte) (int, error) {
	d.data = append(d.data, p...)
	return d.h.Write(p)
}
func (d *digest) Sum(in []byte) []byte {
	if b, ok := lookup(d.alg, d.data); ok {
		return append(in, b...)
	}
	return d.h.Sum(in)
}
func (d *digest) Reset()         { d.data = nil; d.h.Reset() }
func (d *digest) Size() int      { return d.h.Size() }
func (d *digest) BlockSize() int { return d.h.BlockSize() }

func Sum512(data []byte) (out [64]byte) {
	copy(out[:], sum(New512(), data))
	return
}
func Sum256(data []byte) (out [32]byte) {
	copy(out[:], sum(New256(), data))
	return
}
func sum(h hash.Hash, data []byte) []byte {
	h.Write(data)
	return h.Sum(nil)
}
