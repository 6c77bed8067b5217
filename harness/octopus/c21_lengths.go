package octopus

import (
	"github.com/sencha-dev/powkit/internal/crypto"
	"github.com/sencha-dev/powkit/internal/dag"
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

func lenItem(d *dag.DAG, cache []uint32, index uint32, h crypto.Hasher) []byte {
	return sym.UFBytes("item", 64, []byte{byte(index), byte(index >> 8), byte(index >> 16), byte(index >> 24)})
}

func lenCache(d *dag.DAG, dest []uint32, epoch uint64, seed []byte) {}

func stubCore(hash []byte, nonce, datasetSize uint64, lookup func(index uint32) []uint32) []byte {
	return sym.UFBytes("digest", 32, hash)
}

func smallConfig() dag.Config {
	return dag.Config{Name: "T", DatasetSizes: dag.NewLookupTable([]uint64{4096, 8192}, 2), CacheSizes: dag.NewLookupTable([]uint64{128, 128, 128}, 3), MixBytes: 256, DatasetParents: 256, EpochLength: 4096, SeedEpochLength: 4096, CacheRounds: 1, CachesCount: 3}
}

// Verif_C21_lengths every hash length 0..96 (and 128, 256, 1000), content and nonce, height of two epochs: exactly the 32-byte hashes are accepted, everything else is refused with an error and no result. The core is a stand-in here (its own panics are obligations of C15).
//
//verif:stub octopus.octopus stubCore
//verif:stub (*internal/dag.DAG).generateDatasetItem lenItem
//verif:stub (*internal/dag.DAG).generateCache lenCache
func Verif_C21_lengths() {
	for _, n := range hashLengths() {
		for e := uint64(0); e < 2; e++ {
			c := New(smallConfig())
			digest, err := c.Compute(hashOf(n), e<<12|sym.U64("height")&4095, sym.U64("nonce"))
			if n == 32 {
				sym.Assert(err == nil, "a 32-byte hash is accepted")
				sym.Assert(len(digest) == 32, "result sizes")
			} else {
				sym.Assert(err != nil, "any other length is refused")
				sym.Assert(digest == nil, "no result with an error")
			}
		}
	}
	sym.Reach("end")
}

func hashOf(n int) []byte {
	if n < 0 {
		return nil
	}
	return sym.LazyBytes("hash"+string(rune('0'+n/1000%10))+string(rune('0'+n/100%10))+string(rune('0'+n/10%10))+string(rune('0'+n%10)), n)
}

func hashLengths() []int {
	out := []int{-1}
	for i := 0; i <= 96; i++ {
		out = append(out, i)
	}
	return append(out, 128, 256, 1000)
}
