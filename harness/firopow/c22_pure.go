package firopow

import (
	"github.com/sencha-dev/powkit/internal/dag"
	"github.com/sencha-dev/powkit/internal/progpow"
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

func anyCore(cfg *progpow.Config, height, seed, datasetSize uint64, lookup dag.LookupFunc, l1 []uint32) []byte {
	var parts [][]byte
	parts = append(parts, le64(height), le64(seed), le64(datasetSize))
	for _, v := range lookup(5) {
		parts = append(parts, le32(v))
	}
	for _, v := range l1 {
		parts = append(parts, le32(v))
	}
	return sym.UFBytes("core", 32, parts...)
}

func refAny(hash []byte, height, nonce, size uint64) ([]byte, []byte) {
	var st []uint32
	for i := 0; i < 8; i++ {
		st = append(st, word(hash[4*i:]))
	}
	st = append(st, uint32(nonce), uint32(nonce>>32))
	st = append(st, 1, 0, 0, 0, 0, 0, 0, 0, 0x80008081, 0, 0, 0, 0, 0, 0)
	s := refKeccak(st)
	parts := [][]byte{le64(height), s[:8], le64(size)}
	for i := 0; i < 64; i++ {
		parts = append(parts, le32(refItem(5, i)))
	}
	for i := 0; i < 32; i++ {
		parts = append(parts, le32(refL1(i)))
	}
	mix := sym.UFBytes("core", 32, parts...)
	var fin []uint32
	for i := 0; i < 8; i++ {
		fin = append(fin, word(s[4*i:]))
	}
	for i := 0; i < 8; i++ {
		fin = append(fin, word(mix[4*i:]))
	}
	fin = append(fin, 0, 1, 0, 0, 0, 0, 0, 0, 0x80008081)
	return mix, refKeccak(fin)[:32]
}

// Verif_C22_repeat every pair of hashes (with spare capacity), nonces and heights of two epochs, permutation, core and items arbitrary functions: a call between two equal calls changes nothing, each is the definition's, inputs and their spare capacity are untouched.
//
//verif:stub internal/progpow.Hash anyCore
//verif:stub internal/crypto.KeccakF800 stubKeccak
//verif:stub (*internal/dag.DAG).generateDatasetItem stubItem
//verif:stub (*internal/dag.DAG).generateCache stubCache
func Verif_C22_repeat() {
	size := []uint64{sym.U64("size0"), sym.U64("size1"), sym.U64("size2")}
	c := New(dag.Config{Name: "T", DatasetSizes: dag.NewLookupTable(size, 3), CacheSizes: dag.NewLookupTable([]uint64{128, 128, 128, 128}, 4), MixBytes: 128, DatasetParents: 512, EpochLength: 4096, SeedEpochLength: 4096, CacheRounds: 1, CachesCount: 3, L1Enabled: true, L1CacheSize: 128, L1CacheNumItems: 32})
	x, y := sym.BytesCap("x", 32, 80), sym.BytesCap("y", 32, 80)
	h := uint64(sym.U16("offset") & 4095)
	nx, ny := sym.U64("nx"), sym.U64("ny")
	mix1, digest1, _ := c.Compute(x, h, nx)
	keepMix, keepDigest := append([]byte{}, mix1...), append([]byte{}, digest1...)
	mixY, digestY, err := c.Compute(y, 4096|h, ny)
	sym.Assert(err == nil, "no error")
	mix2, digest2, _ := c.Compute(x, h, nx)
	sym.AssertEqBytes(mix2, keepMix, "same mix again")
	sym.AssertEqBytes(digest2, keepDigest, "same digest again")
	sym.AssertEqBytes(mix1, keepMix, "returned mix unchanged by later calls")
	sym.AssertEqBytes(digest1, keepDigest, "returned digest unchanged by later calls")
	wm, wd := refAny(sym.Bytes("y", 80)[:32], 4096|h, ny, size[1])
	sym.AssertEqBytes(mixY, wm, "mix of the call between")
	sym.AssertEqBytes(digestY, wd, "digest of the call between")
	wm, wd = refAny(sym.Bytes("x", 80)[:32], h, nx, size[0])
	sym.AssertEqBytes(mix1, wm, "mix of the first call")
	sym.AssertEqBytes(digest1, wd, "digest of the first call")
	sym.AssertEqBytes(x[:80], sym.Bytes("x", 80), "first hash untouched")
	sym.AssertEqBytes(y[:80], sym.Bytes("y", 80), "second hash untouched")
	sym.Reach("end")
}

func tinyCore(cfg *progpow.Config, height, seed, datasetSize uint64, lookup dag.LookupFunc, l1 []uint32) []byte {
	it := lookup(3)
	return sym.UFBytes("tiny", 32, le64(height), le64(seed), le32(it[0]), le32(l1[1]))
}

// Verif_C22_shared one client, fresh and used before, called from several goroutines with the same hash, every content and nonce, heights of two epochs, over a real three-row cache, two-parent items and an L1 cache, permutation real, core a stand-in (its own purity: internal/progpow): no write to memory the calls share without the lock.
//
//verif:race
//verif:stub internal/progpow.Hash tinyCore
func Verif_C22_shared() {
	c := New(dag.Config{Name: "T", DatasetSizes: dag.NewLookupTable([]uint64{4096, 8192, 4096}, 3), CacheSizes: dag.NewLookupTable([]uint64{192, 192, 192, 192}, 4), MixBytes: 128, DatasetParents: 2, EpochLength: 4096, SeedEpochLength: 4096, CacheRounds: 1, CachesCount: 2, L1Enabled: true, L1CacheSize: 128, L1CacheNumItems: 32})
	x := sym.BytesCap("x", 32, 80)
	n := sym.U64("nonce")
	for _, h := range []uint64{7, 4097, 8} {
		sym.Concurrent(func() {
			_, _, err := c.Compute(x, h, n)
			sym.Assert(err == nil, "no error")
		})
	}
	sym.AssertEqBytes(x[:80], sym.Bytes("x", 80), "hash and its spare capacity untouched")
	sym.Reach("end")
}
