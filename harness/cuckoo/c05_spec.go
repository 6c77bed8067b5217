package cuckoo

import (
	"encoding/binary"

	"github.com/dchest/blake2b"

	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

// specKeys are the four siphash keys: the little-endian words of the header's
// blake2b-256 digest.
func specKeys(header []byte) [4]uint64 {
	d := blake2b.Sum256(header)
	var k [4]uint64
	for i := range k {
		k[i] = binary.LittleEndian.Uint64(d[8*i:])
	}
	return k
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

// specCycle is the declarative acceptance condition over the proof's edges and their
// endpoints: edges in range and strictly ascending, every endpoint shared by exactly
// two edges on its side, and the edges connected - a single cycle through all edges.
func specCycle(mask uint64, edges, u, v []uint64) bool {
	n := len(edges)
	ok := uint64(1)
	for i := range edges {
		ok &= b2u(edges[i] <= mask)
		if i > 0 {
			ok &= b2u(edges[i-1] < edges[i])
		}
	}
	var adj [8]uint64
	for i := 0; i < n; i++ {
		var nu, nv uint64
		for j := 0; j < n; j++ {
			if i == j {
				continue
			}
			eu, ev := b2u(u[i] == u[j]), b2u(v[i] == v[j])
			nu += eu
			nv += ev
			adj[i] |= (eu | ev) << uint(j)
		}
		ok &= b2u(nu == 1) & b2u(nv == 1)
	}
	reach := uint64(1)
	for step := 1; step < n; step++ {
		next := reach
		for i := 0; i < n; i++ {
			next |= adj[i] & -(reach >> uint(i) & 1)
		}
		reach = next
	}
	ok &= b2u(reach == 1<<uint(n)-1)
	return ok == 1
}

// the node functions: arbitrary functions of the keys and the edge
func ufNode(mask uint64, k [4]uint64, edge, uorv uint64) uint64 {
	return sym.UF64("node", k[0], k[1], k[2], k[3], edge, uorv) & mask
}

func ufBlock(k [4]uint64, edge uint64) uint64 {
	return sym.UF64("block", k[0], k[1], k[2], k[3], edge)
}

func checkCuckoo(bits, n int, header []byte) {
	edges := sym.Words64("edge", n)
	c := NewCuckoo(bits, n, ufNode, nil)
	got, err := c.Verify(header, edges)
	mask := uint64(1)<<uint(bits) - 1
	k := specKeys(header)
	u, v := make([]uint64, n), make([]uint64, n)
	for i, e := range sym.Words64("edge", n) {
		u[i], v[i] = ufNode(mask, k, e, 0), ufNode(mask, k, e, 1)
	}
	want := specCycle(mask, sym.Words64("edge", n), u, v)
	sym.Assert(got == want, "accepted exactly when the edges form one ascending in-range cycle")
	sym.Assert(got == (err == nil), "an error accompanies every rejection and no acceptance")
	sym.Reach("end")
	if want || n&1 == 1 {
		sym.Reach("some cycle")
	}
}

func checkCuckaroo(bits, n int, header []byte) {
	edges := sym.Words64("edge", n)
	c := NewCuckaroo(bits, n, nil, ufBlock)
	got, err := c.Verify(header, edges)
	mask := uint64(1)<<uint(bits) - 1
	k := specKeys(header)
	u, v := make([]uint64, n), make([]uint64, n)
	for i, e := range sym.Words64("edge", n) {
		b := ufBlock(k, e)
		u[i], v[i] = b&mask, b>>32&mask
	}
	want := specCycle(mask, sym.Words64("edge", n), u, v)
	sym.Assert(got == want, "accepted exactly when the edges form one ascending in-range cycle")
	sym.Assert(got == (err == nil), "an error accompanies every rejection and no acceptance")
	sym.Reach("end")
	if want || n&1 == 1 {
		sym.Reach("some cycle")
	}
}
