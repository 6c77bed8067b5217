package crypto

import (
	"github.com/dchest/blake2b"
	"golang.org/x/crypto/sha3"

	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

func refKeccak256(b []byte) []byte {
	h := sha3.NewLegacyKeccak256()
	h.Write(b)
	return h.Sum(nil)
}

func refKeccak512(b []byte) []byte {
	h := sha3.NewLegacyKeccak512()
	h.Write(b)
	return h.Sum(nil)
}

var hashLens = []int{0, 1, 31, 32, 40, 64, 71, 72, 73, 96, 135, 136, 137, 144}

// Verif_C24_keccak Keccak256 and Keccak512 are the legacy-padding Keccak digests of exactly their argument, for 14 lengths around every block boundary, every content.
func Verif_C24_keccak() {
	for _, n := range hashLens {
		in := sym.BytesCap("in", n, n+3)
		keep := append([]byte(nil), in[:n+3]...)
		sym.AssertEqBytes(Keccak256(in), refKeccak256(keep[:n]), "Keccak256")
		sym.AssertEqBytes(Keccak512(in), refKeccak512(keep[:n]), "Keccak512")
		sym.AssertEqBytes(in[:n+3], keep, "hashing leaves its argument unchanged")
	}
	sym.Reach("end")
}

// Verif_C24_hasher reusable hashers: three successive calls of different lengths, destination longer than the digest, destination overlapping the data.
func Verif_C24_hasher() {
	h256, h512 := NewKeccak256Hasher(), NewKeccak512Hasher()
	for i, n := range []int{64, 0, 72, 32, 136} {
		in := sym.Bytes("in", n)
		if i%2 == 1 {
			in = sym.Bytes("in2", n)
		}
		d := sym.Bytes("dest", 70)
		want := append([]byte(nil), d...)
		copy(want, refKeccak512(in))
		h512(d, in)
		sym.AssertEqBytes(d, want, "512-bit hasher writes exactly the digest")
		d = sym.Bytes("dest", 40)
		want = append([]byte(nil), d...)
		copy(want, refKeccak256(in))
		h256(d, in)
		sym.AssertEqBytes(d, want, "256-bit hasher writes exactly the digest")
	}
	b := sym.Bytes("b", 64)
	want := refKeccak512(b)
	h512(b, b)
	sym.AssertEqBytes(b, want, "512-bit hasher in place")
	c := sym.Bytes("c", 32)
	want = refKeccak256(c)
	h256(c, c)
	sym.AssertEqBytes(c, want, "256-bit hasher in place")
	sym.Reach("end")
}

// Verif_C24_hasherIndependent two hashers in use at the same time do not affect one another.
func Verif_C24_hasherIndependent() {
	a, b := NewKeccak512Hasher(), NewKeccak512Hasher()
	x, y := sym.Bytes("x", 64), sym.Bytes("y", 64)
	dx, dy := make([]byte, 64), make([]byte, 64)
	a(dx, x)
	b(dy, y)
	a(dx, dx)
	sym.AssertEqBytes(dx, refKeccak512(refKeccak512(x)), "first hasher")
	sym.AssertEqBytes(dy, refKeccak512(y), "second hasher")
	k := NewKeccak256Hasher()
	d := make([]byte, 32)
	k(d, y)
	sym.AssertEqBytes(d, refKeccak256(y), "256-bit hasher among 512-bit ones")
	sym.Reach("end")
}

func refBlake(data, personal []byte, size int) []byte {
	h, err := blake2b.New(&blake2b.Config{Size: uint8(size), Person: personal})
	if err != nil {
		panic(err)
	}
	h.Write(data)
	return h.Sum(nil)
}

// Verif_C24_blake Blake2b with the personalisations and digest sizes the clients use (and shorter ones), data of 0 to 200 bytes; Blake2b256.
func Verif_C24_blake() {
	persons := [][]byte{nil, []byte("ZcashPoW\xc8\x00\x00\x00\x09\x00\x00\x00"), []byte("ZelProof\x7d\x00\x00\x00\x04\x00\x00\x00"), []byte("Beam-PoW\xc0\x01\x00\x00\x05\x00\x00\x00"), []byte("short")}
	for _, n := range []int{0, 32, 40, 127, 128, 129, 144, 200} {
		in := sym.BytesCap("in", n, n+3)
		keep := append([]byte(nil), in[:n+3]...)
		for _, p := range persons {
			pk := append([]byte(nil), p...)
			for _, size := range []int{32, 50, 54, 60, 64} {
				sym.AssertEqBytes(Blake2b(in, p, size), refBlake(keep[:n], pk, size), "Blake2b")
			}
			sym.AssertEqBytes(p, pk, "personalisation unchanged")
		}
		sym.AssertEqBytes(Blake2b256(in), refBlake(keep[:n], nil, 32), "Blake2b256")
		sym.AssertEqBytes(in[:n+3], keep, "hashing leaves its argument unchanged")
	}
	sym.Reach("end")
}

// Verif_C24_blakeFresh a digest already returned is not changed by later calls.
func Verif_C24_blakeFresh() {
	a, b := sym.Bytes("a", 40), sym.Bytes("b", 40)
	d1 := Blake2b256(a)
	d2 := Blake2b(a, []byte("ZcashPoW"), 50)
	d3 := Keccak256(a)
	d4 := Keccak512(a)
	d5 := CShake256(a, []byte("ProofOfWorkHash"), 32)
	Blake2b256(b)
	Blake2b(b, []byte("ZcashPoW"), 50)
	Keccak256(b)
	Keccak512(b)
	CShake256(b, []byte("ProofOfWorkHash"), 32)
	sym.AssertEqBytes(d1, refBlake(a, nil, 32), "Blake2b256 result after another call")
	sym.AssertEqBytes(d2, refBlake(a, []byte("ZcashPoW"), 50), "Blake2b result after another call")
	sym.AssertEqBytes(d3, refKeccak256(a), "Keccak256 result after another call")
	sym.AssertEqBytes(d4, refKeccak512(a), "Keccak512 result after another call")
	h := sha3.NewCShake256(nil, []byte("ProofOfWorkHash"))
	h.Write(a)
	o := make([]byte, 32)
	h.Read(o)
	sym.AssertEqBytes(d5, o, "CShake256 result after another call")
	sym.Reach("end")
}

// Verif_C24_cshake CShake256 with customisation string and no function name, data of 0 to 200 bytes, outputs of 0 to 300 bytes.
func Verif_C24_cshake() {
	for _, p := range []string{"ProofOfWorkHash", "HeavyHash", "x", ""} {
		for _, n := range []int{0, 32, 80, 135, 136, 200} {
			in := sym.BytesCap("in", n, n+3)
			keep := append([]byte(nil), in[:n+3]...)
			for _, size := range []int{0, 32, 64, 136, 137, 300} {
				h := sha3.NewCShake256(nil, []byte(p))
				h.Write(keep[:n])
				o := make([]byte, size)
				h.Read(o)
				sym.AssertEqBytes(CShake256(in, []byte(p), size), o, "CShake256")
			}
			sym.AssertEqBytes(in[:n+3], keep, "hashing leaves its argument unchanged")
		}
	}
	sym.Reach("end")
}
