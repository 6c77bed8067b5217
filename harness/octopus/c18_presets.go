package octopus

import (
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

func stubDir(name string) string { return "dir" }

// Verif_C18_Conflux every height for the epoch; the published parameters of the preset; the tables end at epoch 2048.
//
//verif:stub internal/common.DefaultDir stubDir
func Verif_C18_Conflux() {
	d := NewConflux().data
	height := sym.U64("height")
	sym.AssertEq(d.CalcEpoch(height), height/524288, "epoch of a height")
	sym.Assert(d.Name == "CFX", "coin name")
	sym.Assert(d.Revision == 1, "file revision")
	sym.AssertEq(d.EpochLength, 524288, "epoch length")
	sym.AssertEq(d.SeedEpochLength, 524288, "seed epoch length")
	sym.AssertEq(d.CacheInitBytes, 16777216, "cache bytes at genesis")
	sym.AssertEq(d.CacheGrowthBytes, 65536, "cache growth")
	sym.AssertEq(d.DatasetInitBytes, 4294967296, "dataset bytes at genesis")
	sym.AssertEq(d.DatasetGrowthBytes, 16777216, "dataset growth")
	sym.AssertEq(d.MixBytes, 256, "mix width")
	sym.AssertEq32(d.DatasetParents, 256, "dataset parents")
	sym.AssertEqInt(d.CacheRounds, 3, "cache rounds")
	sym.Assert(d.CachesCount >= 1, "caches kept")
	sym.Assert(d.L1Enabled == false, "L1 cache")
	if d.L1Enabled {
		sym.AssertEq(d.L1CacheSize, 16384, "L1 bytes")
		sym.AssertEqInt(int(d.L1CacheNumItems), 4096, "L1 words")
	}
	sym.Assert(d.StorageDir != "", "storage directory")
	sym.Reach("end")
}
