package octopus

import (
	"github.com/sencha-dev/powkit/internal/dag"
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

func fixedHash(k byte) []byte {
	b := make([]byte, 32, 80)
	for i := range b {
		b[i] = byte(i)*37 + 11*k
	}
	return b
}

// Verif_C22_repeat every dataset content and size, two hashes (with spare capacity) and nonces in several lanes: a call between two equal calls changes nothing, each is the definition's, inputs and their spare capacity are untouched.
//
//verif:stub (*internal/dag.DAG).generateDatasetItem stubItem
//verif:stub (*internal/dag.DAG).generateCache stubCache
func Verif_C22_repeat() {
	size := sym.U64("size")
	sym.Assume(size >= 256 && size < 1<<40)
	c := client(size)
	x, y := fixedHash(1), fixedHash(2)
	d1, _ := c.Compute(x, 9, 77)
	keep := append([]byte{}, d1...)
	dy, err := c.Compute(y, 1000, 1<<40+5)
	sym.Assert(err == nil, "no error")
	d2, _ := c.Compute(x, 9, 77)
	sym.AssertEqBytes(d2, keep, "same digest again")
	sym.AssertEqBytes(d1, keep, "returned digest unchanged by later calls")
	sym.AssertEqBytes(dy, refDigest(fixedHash(2), 1<<40+5, size, refRemap), "digest of the call between")
	sym.AssertEqBytes(x[:80], fixedHash(1)[:80], "first hash and its spare capacity untouched")
	sym.AssertEqBytes(y[:80], fixedHash(2)[:80], "second hash and its spare capacity untouched")
	sym.Reach("end")
}

// Verif_C22_shared one client, fresh and used before, called from several goroutines, over a real three-row cache with every first row and two-parent items, for three hash and nonce pairs and heights of two epochs: no write to memory the calls share without the lock.
//
//verif:race
func Verif_C22_shared() {
	c := New(dag.Config{Name: "T", DatasetSizes: dag.NewLookupTable([]uint64{768, 1280, 768}, 3), CacheSizes: dag.NewLookupTable([]uint64{192, 192, 192, 192}, 4), MixBytes: 256, DatasetParents: 2, EpochLength: 4096, SeedEpochLength: 4096, CacheRounds: 1, CachesCount: 2})
	for i, h := range []uint64{7, 4097, 8} {
		x := fixedHash(byte(i))
		n := uint64(i) * 0x123456789
		sym.Concurrent(func() {
			_, err := c.Compute(x, h, n)
			sym.Assert(err == nil, "no error")
		})
		sym.AssertEqBytes(x[:80], fixedHash(byte(i))[:80], "hash and its spare capacity untouched")
	}
	sym.Reach("end")
}

// Verif_C22_symbolic one call of a fresh client for every hash with a non-degenerate first quadratic and every nonce in lane 3, parameter map and items arbitrary functions: no write to memory calls share.
//
//verif:race
//verif:stub octopus.remap stubRemap
//verif:stub (*internal/dag.DAG).generateDatasetItem stubItem
//verif:stub (*internal/dag.DAG).generateCache stubCache
func Verif_C22_symbolic() {
	hash := sym.Bytes("hash", 32)
	a, b, c := stubRemap(dword(hash)), stubRemap(dword(hash[8:])), stubRemap(dword(hash[16:]))
	sym.Assume(b*b%refMod != 4*a*c%refMod)
	cl := client(1 << 20)
	n := sym.U64("nonce")&^31 | 3
	sym.Concurrent(func() {
		_, err := cl.Compute(hash, 9, n)
		sym.Assert(err == nil, "no error")
	})
	sym.AssertEqBytes(hash, sym.Bytes("hash", 32), "hash untouched")
	sym.Reach("end")
}
