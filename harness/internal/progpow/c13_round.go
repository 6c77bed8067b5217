package progpow

import (
	"github.com/sencha-dev/powkit/internal/dag"
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

func checkRound(period uint64, r uint32, lanes, regs, cache, math int, size uint64) {
	mix, ref := symMix("mix", lanes, regs), symMix("mix", lanes, regs)
	l1 := sym.LazyU32("l1", 4096)
	cfg := rcfg(lanes, regs)
	cfg.RoundCacheAccesses, cfg.RoundMathOperations = cache, math
	got := round(cfg, period, r, mix, size, itemUF(lanes*4), l1)
	sRound(sCfg{lanes, regs, cache, math, 4096}, period, int(r), ref, uint32(size/256), itemUF(lanes*4), sym.LazyU32("l1", 4096))
	for l := range ref {
		sym.AssertEqWords32(got[l], ref[l], "mix after the round")
	}
	sym.Reach("end")
}

// Verif_C13_round one round at full size (16 lanes, 32 registers, 11 cache accesses, 18 math operations) for every mix, dataset item and L1 content, at 3 period numbers and rounds 0, 17 and 63.
func Verif_C13_round() {
	checkRound(0, 0, 16, 32, 11, 18, 1<<30)
	checkRound(30000, 17, 16, 32, 11, 18, 1<<33-256)
	checkRound(0x123456789, 63, 16, 32, 11, 18, 1073739904)
}

// Verif_C13_rounds 4 lanes, 8 registers for every mix, dataset item and L1 content, at 24 periods with rounds across 0..63 (every program operation occurs).
func Verif_C13_rounds() {
	p := uint64(1)
	for i := uint32(0); i < 24; i++ {
		checkRound(p, i*11%64, 4, 8, 11, 18, 1<<30+uint64(i)<<23)
		p = p*2862933555777941757 + 3037000493
	}
}

// Verif_C13_counts configurations with more cache accesses than math operations, none of either, and other lane counts.
func Verif_C13_counts() {
	checkRound(7, 3, 4, 8, 12, 5, 1<<30)
	checkRound(8, 5, 8, 8, 0, 3, 1<<30)
	checkRound(9, 6, 2, 16, 4, 0, 1<<30)
	checkRound(10, 1, 1, 4, 3, 3, 1<<30)
}

func checkHash(lanes, regs, rounds int, plen, offset uint64) {
	seed, height := sym.U64("seed"), uint64(90000)*plen+offset
	cfg := rcfg(lanes, regs)
	cfg.RoundCount, cfg.PeriodLength, cfg.RoundCacheAccesses, cfg.RoundMathOperations = rounds, plen, 3, 4
	got := Hash(cfg, height, seed, 1<<30, itemUF(lanes*4), sym.LazyU32("l1", 4096))
	mix := sInit(seed, lanes, regs)
	for r := 0; r < rounds; r++ {
		sRound(sCfg{lanes, regs, 3, 4, 4096}, 90000, r, mix, 1<<30/256, itemUF(lanes*4), sym.LazyU32("l1", 4096))
	}
	sym.AssertEqBytes(got, sReduce(mix), "mix hash")
	sym.Reach("end")
}

// Verif_C13_hash the whole core for every seed, dataset and L1 content, at 16 lanes with 4 registers and 3 rounds, and at other lane, register and round counts, first and last height of a period.
func Verif_C13_hash() {
	checkHash(16, 4, 3, 3, 0)
	checkHash(16, 4, 2, 3, 2)
	checkHash(8, 8, 2, 10, 9)
	checkHash(4, 32, 2, 1, 0)
	checkHash(16, 32, 1, 3, 1)
}

var (
	rounds     uint32
	wantPeriod uint64
	wantSize   uint64
)

func stubRound(cfg *Config, seed uint64, r uint32, mix [][]uint32, datasetSize uint64, lookup dag.LookupFunc, l1 []uint32) [][]uint32 {
	sym.AssertEq(seed, wantPeriod, "the round runs the program of the height's period")
	sym.AssertEq32(r, rounds, "round number")
	sym.AssertEq(datasetSize, wantSize, "dataset size")
	rounds++
	for l := range mix {
		for i := range mix[l] {
			mix[l][i] = sym.UF32("round", uint64(r), uint64(l), uint64(i), uint64(mix[l][i]))
		}
	}
	return mix
}

// Verif_C13_period every 64-bit height, seed and dataset size: all 64 rounds run the program of period height/length (lengths 1, 3, 10, 50), from the seed's initial mix to the final reduction; the round itself is an arbitrary function.
//
//verif:stub internal/progpow.round stubRound
func Verif_C13_period() {
	for _, plen := range []uint64{1, 3, 10, 50} {
		seed, height, size := sym.U64("seed"), sym.U64("height"), sym.U64("size")
		cfg := rcfg(16, 4)
		cfg.PeriodLength = plen
		rounds, wantPeriod, wantSize = 0, height/plen, size
		got := Hash(cfg, height, seed, size, itemUF(64), sym.LazyU32("l1", 4096))
		sym.AssertEq32(rounds, 64, "number of rounds")
		mix := sInit(seed, 16, 4)
		for r := 0; r < 64; r++ {
			for l := range mix {
				for i := range mix[l] {
					mix[l][i] = sym.UF32("round", uint64(r), uint64(l), uint64(i), uint64(mix[l][i]))
				}
			}
		}
		sym.AssertEqBytes(got, sReduce(mix), "mix hash")
	}
	sym.Reach("end")
}
