package dag

import (
	"golang.org/x/crypto/sha3"
)

func k512(b []byte) []byte {
	h := sha3.NewLegacyKeccak512()
	h.Write(b)
	return h.Sum(nil)
}

func le32(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }

func le64(v uint64) []byte { return append(le32(uint32(v)), le32(uint32(v>>32))...) }

func word(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

func fnv(u, v uint32) uint32 { return u*0x01000193 ^ v }

func k256(b []byte) []byte {
	h := sha3.NewLegacyKeccak256()
	h.Write(b)
	return h.Sum(nil)
}
