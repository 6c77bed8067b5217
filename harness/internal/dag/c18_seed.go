package dag

import (
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

// chain is the n-fold Keccak-256 of 32 zero bytes.
func chain(n int) []byte {
	s := make([]byte, 32)
	for i := 0; i < n; i++ {
		s = k256(s)
	}
	return s
}

// Verif_C18_seed every height of seed epochs 0 to 5, 63 and 2047, seed epoch lengths 1300, 7500, 30000 and 2^19; every height below 2^64 for the epoch number at epoch lengths 1300, 7500, 30000, 60000 and 2^19.
func Verif_C18_seed() {
	for _, length := range []uint64{1300, 7500, 30000, 1 << 19} {
		d := New(Config{EpochLength: 2 * length, SeedEpochLength: length})
		for _, k := range []uint64{0, 1, 2, 3, 4, 5, 63, 2047} {
			height := k*length + uint64(sym.U32("offset"))%length
			sym.AssertEqBytes(d.SeedHash(height), chain(int(k)), "seed of a height")
		}
	}
	for _, length := range []uint64{1300, 7500, 30000, 60000, 1 << 19} {
		d := New(Config{EpochLength: length, SeedEpochLength: 77})
		height := sym.U64("height")
		sym.AssertEq(d.CalcEpoch(height), height/length, "epoch of a height")
	}
	sym.Reach("end")
}

var asked []byte
var askedEpoch uint64

// stubNote records the seed a cache is generated from.
func stubNote(d *DAG, dest []uint32, epoch uint64, seed []byte) {
	if epoch == askedEpoch {
		asked = append([]byte{}, seed...)
	}
}

// Verif_C18_cacheSeed epochs 0 to 6 and 300: the cache of an epoch is generated from the seed of the epoch's blocks, with equal and with halved seed epochs.
//
//verif:stub (*internal/dag.DAG).generateCache stubNote
func Verif_C18_cacheSeed() {
	sizes := make([]uint64, 302)
	for i := range sizes {
		sizes[i] = 128
	}
	for _, ratio := range []uint64{1, 2} {
		for _, epoch := range []uint64{0, 1, 2, 3, 4, 5, 6, 300} {
			d := New(Config{Name: "T", DatasetSizes: NewLookupTable(sizes, 302), CacheSizes: NewLookupTable(sizes, 302), MixBytes: 128, EpochLength: 30000 * ratio, SeedEpochLength: 30000, CachesCount: 3})
			asked, askedEpoch = nil, epoch
			d.GetCache(epoch)
			sym.AssertEqBytes(asked, chain(int(epoch*ratio)), "seed of an epoch's cache")
		}
	}
	sym.Reach("end")
}
