package kawpow

import (
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

func stubDir(name string) string { return "dir" }

// Verif_C18_Ravencoin every height for the epoch; the published parameters of the preset; the tables end at epoch 2048.
//
//verif:stub internal/common.DefaultDir stubDir
func Verif_C18_Ravencoin() {
	d := NewRavencoin().data
	height := sym.U64("height")
	sym.AssertEq(d.CalcEpoch(height), height/7500, "epoch of a height")
	sym.Assert(d.Name == "RVN", "coin name")
	sym.Assert(d.Revision == 23, "file revision")
	sym.AssertEq(d.EpochLength, 7500, "epoch length")
	sym.AssertEq(d.SeedEpochLength, 7500, "seed epoch length")
	sym.AssertEq(d.CacheInitBytes, 16777216, "cache bytes at genesis")
	sym.AssertEq(d.CacheGrowthBytes, 131072, "cache growth")
	sym.AssertEq(d.DatasetInitBytes, 1073741824, "dataset bytes at genesis")
	sym.AssertEq(d.DatasetGrowthBytes, 8388608, "dataset growth")
	sym.AssertEq(d.MixBytes, 128, "mix width")
	sym.AssertEq32(d.DatasetParents, 512, "dataset parents")
	sym.AssertEqInt(d.CacheRounds, 3, "cache rounds")
	sym.Assert(d.CachesCount >= 1, "caches kept")
	sym.Assert(d.L1Enabled == true, "L1 cache")
	if d.L1Enabled {
		sym.AssertEq(d.L1CacheSize, 16384, "L1 bytes")
		sym.AssertEqInt(int(d.L1CacheNumItems), 4096, "L1 words")
	}
	sym.Assert(d.StorageDir != "", "storage directory")
	sym.Reach("end")
}
