package progpow

import (
	"github.com/sencha-dev/powkit/internal/dag"
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

var (
	frameHeight, frameSize uint64
	coreRuns               int
)

func word(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

// stubCore is the ProgPow core as an arbitrary function of height, seed and dataset size.
func stubCore(cfg *Config, height, seed, datasetSize uint64, lookup dag.LookupFunc, l1 []uint32) []byte {
	coreRuns++
	sym.Assert(cfg.PeriodLength == 10, "period length")
	sym.Assert(cfg.LaneCount == 16 && cfg.RegisterCount == 32 && cfg.RoundCount == 64, "lanes, registers, rounds")
	sym.Assert(cfg.RoundCacheAccesses == 11 && cfg.RoundMathOperations == 18, "cache accesses and math operations")
	sym.Assert(cfg.CacheBytes == 16*1024 && cfg.DagLoads == 4, "L1 size and DAG loads")
	sym.AssertEq(height, frameHeight, "height given to the core")
	sym.AssertEq(datasetSize, frameSize, "dataset size given to the core")
	sym.AssertEqWords32(lookup(sym.U32("probe")), itemUF(64)(sym.U32("probe")), "dataset item given to the core")
	sym.AssertEq32(l1[sym.U32("probe")%4096], sym.LazyU32("l1", 4096)[sym.U32("probe")%4096], "L1 word given to the core")
	return sym.UFBytes("core", 32, le64(height), le64(seed))
}

func stubKeccak(st *[25]uint32) {
	var in []byte
	for _, v := range st {
		in = append(in, le32(v)...)
	}
	out := sym.UFBytes("f800", 100, in)
	for i := range st {
		st[i] = word(out[4*i:])
	}
}

// refKeccak is the permutation on a state given as words, returning its bytes.
func refKeccak(words []uint32) []byte {
	var in []byte
	for _, v := range words {
		in = append(in, le32(v)...)
	}
	return sym.UFBytes("f800", 100, in)
}

// Verif_C12_progpow094 every header hash, nonce, height, dataset size, dataset item and L1 content; the permutation and the core are arbitrary functions.
//
//verif:stub internal/progpow.Hash stubCore
//verif:stub internal/crypto.KeccakF800 stubKeccak
func Verif_C12_progpow094() {
	coreRuns = 0
	frameHeight, frameSize = sym.U64("height"), sym.U64("size")
	nonce := sym.U64("nonce")
	mix, digest := compute(sym.Bytes("hash", 32), frameHeight, nonce, frameSize, itemUF(64), sym.LazyU32("l1", 4096))
	var st []uint32
	for i := 0; i < 8; i++ {
		st = append(st, word(sym.Bytes("hash", 32)[4*i:]))
	}
	st = append(st, uint32(nonce), uint32(nonce>>32))
	for len(st) < 25 {
		st = append(st, 0)
	}
	s := refKeccak(st)
	wantMix := sym.UFBytes("core", 32, le64(frameHeight), s[:8])
	sym.AssertEqBytes(mix, wantMix, "mix of the core run on the seed's first words")
	var fin []uint32
	for i := 0; i < 8; i++ {
		fin = append(fin, word(s[4*i:]))
	}
	for i := 0; i < 8; i++ {
		fin = append(fin, word(wantMix[4*i:]))
	}
	for len(fin) < 25 {
		fin = append(fin, 0)
	}
	sym.AssertEqBytes(digest, refKeccak(fin)[:32], "digest of seed and mix")
	sym.AssertEqInt(coreRuns, 1, "one core run")
	sym.Reach("end")
}
