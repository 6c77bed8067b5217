package progpow

import (
	"github.com/sencha-dev/powkit/internal/dag"
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

// Verif_C22_repeat every pair of seeds, dataset and L1 content: the core run between two equal runs changes nothing, earlier results and the L1 cache are untouched; two heights of different periods.
func Verif_C22_repeat() {
	for _, heights := range [][2]uint64{{90000, 90000}, {7, 123456}} {
		cfg := rcfg(16, 4)
		cfg.RoundCount, cfg.RoundCacheAccesses, cfg.RoundMathOperations = 2, 3, 4
		l1 := sym.LazyU32("l1", 4096)
		x, y := sym.U64("x"), sym.U64("y")
		a := Hash(cfg, heights[0], x, 1<<30, itemUF(64), l1)
		keep := append([]byte{}, a...)
		Hash(cfg, heights[1], y, 1<<29, itemUF(64), l1)
		b := Hash(cfg, heights[0], x, 1<<30, itemUF(64), l1)
		sym.AssertEqBytes(b, keep, "same mix again")
		sym.AssertEqBytes(a, keep, "returned mix unchanged by later calls")
	}
	sym.Reach("end")
}

// Verif_C22_shared the core run from several goroutines with one configuration and L1 cache, every seed, two periods, 16 lanes and all 32 registers: no write to memory the runs share.
//
//verif:race
func Verif_C22_shared() {
	cfg := rcfg(16, 32)
	cfg.RoundCount = 2
	l1 := sym.LazyU32("l1", 4096)
	x := sym.U64("x")
	for _, h := range []uint64{7, 123456} {
		sym.Concurrent(func() { Hash(cfg, h, x, 1<<30, itemUF(64), l1) })
	}
	sym.Reach("end")
}

// Verif_C22_frame the ProgPow 0.9.4 framing with the core an arbitrary function, called from several goroutines and around another hash: every hash and nonce, permutation real: no write to memory the calls share, the same result again, the hash and its spare capacity untouched.
//
//verif:race
//verif:stub internal/progpow.Hash shortCore
func Verif_C22_frame() {
	x, y := sym.BytesCap("x", 32, 80), sym.BytesCap("y", 32, 80)
	nx, ny := sym.U64("nx"), sym.U64("ny")
	l1 := sym.LazyU32("l1", 4096)
	m1, d1 := compute(x, 7, nx, 1<<30, itemUF(64), l1)
	keepM, keepD := append([]byte{}, m1...), append([]byte{}, d1...)
	compute(y, 123456, ny, 1<<29, itemUF(64), l1)
	m2, d2 := compute(x, 7, nx, 1<<30, itemUF(64), l1)
	sym.AssertEqBytes(m2, keepM, "same mix again")
	sym.AssertEqBytes(d2, keepD, "same digest again")
	sym.AssertEqBytes(m1, keepM, "returned mix unchanged by later calls")
	sym.AssertEqBytes(d1, keepD, "returned digest unchanged by later calls")
	sym.Concurrent(func() { compute(x, 7, nx, 1<<30, itemUF(64), l1) })
	sym.AssertEqBytes(x[:80], sym.Bytes("x", 80), "hash and its spare capacity untouched")
	sym.Reach("end")
}

func shortCore(cfg *Config, height, seed, datasetSize uint64, lookup dag.LookupFunc, l1 []uint32) []byte {
	it := lookup(3)
	return sym.UFBytes("tiny", 32, le64(height), le64(seed), le32(it[0]), le32(l1[1]))
}
