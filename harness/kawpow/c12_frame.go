package kawpow

import (
	"github.com/sencha-dev/powkit/internal/dag"
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

// Verif_C12_kawpow every header hash, nonce, height of two epochs, dataset size and dataset content; the permutation, the core and the dataset items are arbitrary functions.
//
//verif:stub internal/progpow.Hash stubCore
//verif:stub internal/crypto.KeccakF800 stubKeccak
//verif:stub (*internal/dag.DAG).generateDatasetItem stubItem
//verif:stub (*internal/dag.DAG).generateCache stubCache
func Verif_C12_kawpow() {
	for epoch := uint64(0); epoch < 2; epoch++ {
		coreRuns = 0
		wantSize = sym.U64("size")
		wantHeight = epoch<<12 | uint64(sym.U16("offset")&4095)
		c := New(dag.Config{Name: "T", DatasetSizes: dag.NewLookupTable([]uint64{wantSize, wantSize, wantSize}, 3), CacheSizes: dag.NewLookupTable([]uint64{128, 128, 128}, 3), MixBytes: 128, DatasetParents: 512, EpochLength: 4096, SeedEpochLength: 4096, CacheRounds: 1, CachesCount: 3, L1Enabled: true, L1CacheSize: 128, L1CacheNumItems: 32})
		hash, nonce := sym.Bytes("hash", 32), sym.U64("nonce")
		mix, digest, err := c.Compute(hash, wantHeight, nonce)
		sym.Assert(err == nil, "no error")
		var st []uint32
		for i := 0; i < 8; i++ {
			st = append(st, word(sym.Bytes("hash", 32)[4*i:]))
		}
		st = append(st, uint32(nonce), uint32(nonce>>32))
		for _, p := range padding {
			st = append(st, uint32(p))
		}
		s := refKeccak(st)
		wantMix := sym.UFBytes("core", 32, le64(wantHeight), s[:8])
		sym.AssertEqBytes(mix, wantMix, "mix of the core run on the seed's first words")
		var fin []uint32
		for i := 0; i < 8; i++ {
			fin = append(fin, word(s[4*i:]))
		}
		for i := 0; i < 8; i++ {
			fin = append(fin, word(wantMix[4*i:]))
		}
		for _, p := range padding[:9] {
			fin = append(fin, uint32(p))
		}
		sym.AssertEqBytes(digest, refKeccak(fin)[:32], "digest of seed, mix and padding")
		sym.AssertEqInt(coreRuns, 1, "one core run")
	}
	sym.Reach("end")
}
