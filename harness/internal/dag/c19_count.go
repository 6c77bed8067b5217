package dag

import (
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

// Verif_C19_count every sequence of 5 requests over 4 epochs with 1 to 3 caches kept: the map never holds more than the configured number.
//
//verif:stub (*internal/dag.DAG).generateCache stubCount
func Verif_C19_count() {
	sym.StrictClock()
	sym.SplitCases(1)
	v := sym.U8("keep")
	for keep := 1; keep <= 3; keep++ {
		if v == uint8(keep) {
			sizes := []uint64{128, 128, 128, 128, 128, 128}
			d := New(Config{Name: "T", DatasetSizes: NewLookupTable(sizes, 6), CacheSizes: NewLookupTable(sizes, 6), MixBytes: 128, EpochLength: 10, SeedEpochLength: 10, CachesCount: keep})
			countWalk(d, keep, 5)
		}
	}
}

func countWalk(d *DAG, keep, n int) {
	if n == 0 {
		sym.Reach("end of a history")
		return
	}
	v := sym.U8("epoch" + string(rune('0'+n)))
	for e := uint8(0); e < 4; e++ {
		if v == e {
			d.GetCache(uint64(e))
			sym.Assert(len(d.caches) <= keep, "no more caches than configured")
			countWalk(d, keep, n-1)
			sym.Assume(false)
		}
	}
	sym.Assume(false)
}

func stubCount(d *DAG, dest []uint32, epoch uint64, seed []byte) {}
