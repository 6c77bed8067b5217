package ethash

import (
	"github.com/sencha-dev/powkit/internal/dag"
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

// Verif_C22_repeat every pair of hashes (with spare capacity), nonces and heights in two epochs, dataset items an arbitrary function of epoch-independent index: a call between two equal calls changes nothing, the call between is itself the definition's, inputs and their spare capacity are untouched.
//
//verif:stub (*internal/dag.DAG).generateDatasetItem stubItem
//verif:stub (*internal/dag.DAG).generateCache stubCache
func Verif_C22_repeat() {
	itemLimit = 0
	size0, size1 := sym.U64("size0"), sym.U64("size1")
	sym.Assume(size0 >= 128 && size0 < 1<<38 && size1 >= 128 && size1 < 1<<38)
	c := New(testConfig(4096, []uint64{size0, size1, size0}))
	x, y := sym.BytesCap("x", 32, 80), sym.BytesCap("y", 32, 80)
	h := uint64(sym.U16("offset") & 4095)
	nx, ny := sym.U64("nx"), sym.U64("ny")
	mix1, digest1, _ := c.Compute(x, h, nx)
	keepMix, keepDigest := append([]byte{}, mix1...), append([]byte{}, digest1...)
	mixY, digestY, err := c.Compute(y, 4096|h, ny)
	sym.Assert(err == nil, "no error")
	mix2, digest2, _ := c.Compute(x, h, nx)
	sym.AssertEqBytes(mix2, keepMix, "same mix again")
	sym.AssertEqBytes(digest2, keepDigest, "same digest again")
	sym.AssertEqBytes(mix1, keepMix, "returned mix unchanged by later calls")
	sym.AssertEqBytes(digest1, keepDigest, "returned digest unchanged by later calls")
	wm, wd := refHashimoto(sym.Bytes("y", 80)[:32], ny, size1)
	sym.AssertEqBytes(mixY, wm, "mix of the call between")
	sym.AssertEqBytes(digestY, wd, "digest of the call between")
	sym.AssertEqBytes(x[:80], sym.Bytes("x", 80), "first hash untouched")
	sym.AssertEqBytes(y[:80], sym.Bytes("y", 80), "second hash untouched")
	sym.Reach("end")
}

func tinyConfig() dag.Config {
	return dag.Config{Name: "T", DatasetSizes: dag.NewLookupTable([]uint64{384, 640, 384}, 3), CacheSizes: dag.NewLookupTable([]uint64{192, 192, 192, 192}, 4), MixBytes: 128, DatasetParents: 2, EpochLength: 4096, SeedEpochLength: 4096, CacheRounds: 1, CachesCount: 2}
}

// Verif_C22_shared one client, fresh and used before, called from several goroutines with the same hash (every content, nonce 0..3, heights of two epochs) over a real three-row cache and two-parent items: no write to memory the calls share (inputs, client, package variables, cache) without the lock.
//
//verif:race
func Verif_C22_shared() {
	c := New(tinyConfig())
	x := sym.BytesCap("x", 32, 80)
	n := sym.U64("nonce")
	call := func(h uint64) func() {
		return func() {
			_, _, err := c.Compute(x, h, n)
			sym.Assert(err == nil, "no error")
		}
	}
	sym.Concurrent(call(7))
	sym.Concurrent(call(4097))
	sym.Concurrent(call(7))
	sym.AssertEqBytes(x[:80], sym.Bytes("x", 80), "hash and its spare capacity untouched")
	sym.Reach("end")
}
