package equihash

import (
	"github.com/dchest/blake2b"

	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

func le32(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }

// bitsAt is the big-endian value of bits [pos,pos+n) of b.
func bitsAt(b []byte, pos, n int) uint64 {
	var v uint64
	for i := pos; i < pos+n; i++ {
		v = v<<1 | uint64(b[i/8]>>uint(7-i%8)&1)
	}
	return v
}

func refPersonal(personal string, n, k int) []byte {
	p := append([]byte(personal), le32(uint32(n))...)
	return append(p, le32(uint32(k))...)
}

func refGen(person, header []byte, g uint32, size int) []byte {
	h, err := blake2b.New(&blake2b.Config{Size: uint8(size), Person: person})
	if err != nil {
		panic(err)
	}
	h.Write(header)
	h.Write(le32(g))
	return h.Sum(nil)
}

// refTwisted is ZelHash's twisted digest: the wrapping sum of the 32-bit words of all
// digests from the start of the 16-block up to g, masked in every 16th byte.
func refTwisted(person, header []byte, g uint32, size int) []byte {
	out := make([]byte, size)
	var acc [16]uint32
	for q := uint32(0); q <= g&15; q++ {
		d := refGen(person, header, g&^15+q, size)
		for w := range acc {
			acc[w] += uint32(d[4*w]) | uint32(d[4*w+1])<<8 | uint32(d[4*w+2])<<16 | uint32(d[4*w+3])<<24
		}
	}
	for w, v := range acc {
		copy(out[4*w:], le32(v))
	}
	for i := 15; i < size; i += 16 {
		out[i] &^= 7
	}
	return out
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// segments splits the n-bit leaf hash of an index into its k+1 collision segments.
func segments(n, k int, person, header []byte, index uint32, twist bool) []uint64 {
	per := 512 / n
	nb := (n + 7) / 8
	var d []byte
	if twist {
		d = refTwisted(person, header, index/uint32(per), per*nb)
	} else {
		d = refGen(person, header, index/uint32(per), per*nb)
	}
	off := index % uint32(per) * uint32(nb)
	leaf := d[off : off+uint32(nb)]
	out := make([]uint64, k+1)
	for s := range out {
		out[s] = bitsAt(leaf, s*(n/(k+1)), n/(k+1))
	}
	return out
}

// specEquihash is the declarative Equihash acceptance condition on decoded indices: all
// distinct, every subtree's first index not after its sibling's, every subtree of 2^l
// leaves cancelling on segment l-1, and all leaves cancelling on the last segment too.
func specEquihash(n, k int, person, header []byte, idx []uint32, twist bool) bool {
	ok := uint64(1)
	segs := make([][]uint64, len(idx))
	for i := range idx {
		segs[i] = segments(n, k, person, header, idx[i], twist)
	}
	for i := range idx {
		for j := 0; j < i; j++ {
			ok &= b2u(idx[i] != idx[j])
		}
	}
	for l := 1; l <= k; l++ {
		w := 1 << uint(l)
		for at := 0; at < len(idx); at += w {
			ok &= b2u(idx[at] <= idx[at+w/2])
			var x uint64
			for i := at; i < at+w; i++ {
				x ^= segs[i][l-1]
			}
			ok &= b2u(x == 0)
		}
	}
	var x uint64
	for i := range idx {
		x ^= segs[i][k]
	}
	ok &= b2u(x == 0)
	return ok == 1
}

func decode(n, k int, soln []byte) []uint32 {
	out := make([]uint32, 1<<uint(k))
	w := n/(k+1) + 1
	for i := range out {
		out[i] = uint32(bitsAt(soln, i*w, w))
	}
	return out
}

// pack is the inverse of decode.
func pack(n, k int, idx []uint32) []byte {
	w := n/(k+1) + 1
	out := make([]byte, len(idx)*w/8)
	for i, v := range idx {
		for b := 0; b < w; b++ {
			p := i*w + b
			out[p/8] |= byte(v>>uint(w-1-b)&1) << uint(7-p%8)
		}
	}
	return out
}

func checkVerify(n, k int, personal string, twist bool, headerLen int) {
	header := sym.Bytes("header", headerLen)
	size := (1 << uint(k)) * (n/(k+1) + 1) / 8
	soln := sym.Bytes("soln", size)
	got, err := New(uint32(n), uint32(k), personal, twist).Verify(header, soln)
	want := specEquihash(n, k, refPersonal(personal, n, k), sym.Bytes("header", headerLen), decode(n, k, sym.Bytes("soln", size)), twist)
	sym.Assert(got == want, "accepted exactly when the indices are a valid Equihash solution")
	sym.Assert(!got || err == nil, "no error with acceptance")
	sym.Reach("end")
	if want {
		sym.Reach("some solution")
	}
}
