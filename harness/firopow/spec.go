package firopow

import (
	"github.com/sencha-dev/powkit/internal/crypto"
	"github.com/sencha-dev/powkit/internal/dag"
	"github.com/sencha-dev/powkit/internal/progpow"
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

var (
	wantHeight, wantSize uint64
	coreRuns             int
	seedWant             uint64
)

func le32(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }
func le64(v uint64) []byte { return append(le32(uint32(v)), le32(uint32(v>>32))...) }

// stubCore is the ProgPow core as an arbitrary function of height, seed and dataset size.
func stubCore(cfg *progpow.Config, height, seed, datasetSize uint64, lookup dag.LookupFunc, l1 []uint32) []byte {
	coreRuns++
	sym.Assert(cfg.PeriodLength == 1, "period length")
	sym.Assert(cfg.LaneCount == 16 && cfg.RegisterCount == 32 && cfg.RoundCount == 64, "lanes, registers, rounds")
	sym.Assert(cfg.RoundCacheAccesses == 11 && cfg.RoundMathOperations == 18, "cache accesses and math operations")
	sym.Assert(cfg.CacheBytes == 16*1024 && cfg.DagLoads == 4, "L1 size and DAG loads")
	sym.AssertEq(height, wantHeight, "height given to the core")
	sym.AssertEq(datasetSize, wantSize, "dataset size given to the core")
	sym.AssertEqInt(len(l1), 32, "L1 cache given to the core")
	it := lookup(sym.U32("probe"))
	sym.AssertEqInt(len(it), 64, "dataset item width")
	for i := 0; i < 64; i++ {
		sym.AssertEq32(it[i], refItem(sym.U32("probe"), i), "dataset item given to the core")
	}
	for i := 0; i < 32; i++ {
		sym.AssertEq32(l1[i], refL1(i), "L1 word given to the core")
	}
	return sym.UFBytes("core", 32, le64(height), le64(seed))
}

func word(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

// refItem is word w of the 256-byte dataset item i: four consecutive 64-byte items.
func refItem(i uint32, w int) uint32 {
	b := sym.UFBytes("item", 64, le32(4*i+uint32(w/16)))
	return word(b[w%16*4:])
}

func refL1(i int) uint32 {
	b := sym.UFBytes("item", 64, le32(uint32(i/16)))
	return word(b[i%16*4:])
}

func stubKeccak(st *[25]uint32) {
	var in []byte
	for _, v := range st {
		in = append(in, le32(v)...)
	}
	out := sym.UFBytes("f800", 100, in)
	for i := range st {
		st[i] = word(out[4*i:])
	}
}

// refKeccak is the permutation on a state given as words, returning its bytes.
func refKeccak(words []uint32) []byte {
	var in []byte
	for _, v := range words {
		in = append(in, le32(v)...)
	}
	return sym.UFBytes("f800", 100, in)
}

// stubItem is the dataset item as an arbitrary function of its index.
func stubItem(d *dag.DAG, cache []uint32, index uint32, h crypto.Hasher) []byte {
	return sym.UFBytes("item", 64, le32(index))
}

// stubCache leaves the cache empty: only the dataset items, stubbed above, read it.
func stubCache(d *dag.DAG, dest []uint32, epoch uint64, seed []byte) {}
