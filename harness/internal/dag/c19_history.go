package dag

import (
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

// histEpochs is the number of different epochs a history may request.
const histEpochs = 4

// history is the observed state of one run: what was requested, what came back.
type history struct {
	d    *DAG
	keep int // caches the configuration allows

	recent []int // epochs requested, least recently used first
	got    [histEpochs]*cache
	gen    [histEpochs + 1]int // generations per epoch, the pre-generated next one included

	// another thread asks for epoch inEpoch during generation number inAt (-1: never)
	inAt, inEpoch, generations int
}

var run *history

func histSize(epoch uint64) uint64 { return 16 + 4*epoch }

func newHistory(keep int, l1 bool) *history {
	sizes := make([]uint64, histEpochs+2)
	for i := range sizes {
		sizes[i] = histSize(uint64(i))
	}
	cfg := Config{Name: "T", DatasetSizes: NewLookupTable(sizes, histEpochs+2), CacheSizes: NewLookupTable(sizes, histEpochs+2), MixBytes: 128, EpochLength: 10, SeedEpochLength: 10, CachesCount: keep}
	if l1 {
		cfg.L1Enabled, cfg.L1CacheSize, cfg.L1CacheNumItems = true, 12, 3
	}
	run = &history{d: New(cfg), keep: keep, inAt: -1}
	return run
}

// choose runs k for every value below n of a symbolic choice.
func choose(name string, n int, k func(int)) {
	v := sym.U8(name)
	for i := 0; i < n; i++ {
		if v == uint8(i) {
			k(i)
			sym.Assume(false)
		}
	}
	sym.Assume(false)
}

// stubHistory stands for the generation of a cache: any function of epoch and index.
func stubHistory(d *DAG, dest []uint32, epoch uint64, seed []byte) {
	sym.Gate()
	n := run.generations
	run.generations++
	if epoch <= histEpochs {
		run.gen[epoch]++
	}
	half := len(dest) / 2
	for i := 0; i < half; i++ {
		dest[i] = sym.UF32("cache", epoch, uint64(i))
	}
	if n == run.inAt {
		sym.Thread(func() { run.request(run.inEpoch) })
	}
	for i := half; i < len(dest); i++ {
		dest[i] = sym.UF32("cache", epoch, uint64(i))
	}
}

func stubHistoryL1(d *DAG, dest, cache []uint32) {
	for i := range dest {
		dest[i] = sym.UF32("l1", uint64(cache[0]), uint64(cache[len(cache)-1]), uint64(i))
	}
}

// holds checks that c carries exactly the data of epoch e.
func (h *history) holds(c *cache, e int) {
	want := make([]uint32, histSize(uint64(e))/4)
	for i := range want {
		want[i] = sym.UF32("cache", uint64(e), uint64(i))
	}
	sym.AssertEqWords32(c.Cache(), want, "data of the requested epoch")
	if h.d.L1Enabled {
		l1 := make([]uint32, h.d.L1CacheNumItems)
		stubHistoryL1(h.d, l1, want)
		sym.AssertEqWords32(c.L1(), l1, "L1 data of the requested epoch")
	}
}

// request asks for epoch e and checks the answer against a least recently used list.
func (h *history) request(e int) {
	kept := false
	var rest []int
	for _, r := range h.recent {
		if r == e {
			kept = true
		} else {
			rest = append(rest, r)
		}
	}
	h.recent = append(rest, e)
	if len(h.recent) > h.keep {
		h.recent = h.recent[1:]
	}
	before, old := h.gen[e], h.got[e]
	c := h.d.GetCache(uint64(e))
	h.holds(c, e)
	if kept {
		sym.Assert(old == nil || c == old, "a cache among the last requested is kept")
		sym.Assert(h.gen[e] == before, "a kept cache is not generated again")
	} else {
		sym.Assert(old == nil || c != old, "no cache beyond the configured number is kept, the least recently used goes")
		sym.Assert(h.gen[e] <= before+1, "a cache is generated once")
	}
	h.got[e] = c
}

// walk follows every history of n more requests; between two requests the
// goroutines spawned so far run or do not.
func (h *history) walk(n int, sched bool) {
	if n == 0 {
		sym.Reach("end of a history")
		return
	}
	choose("epoch"+string(rune('0'+n)), histEpochs, func(e int) {
		h.request(e)
		if !sched || n == 1 {
			h.walk(n-1, sched)
			return
		}
		choose("run"+string(rune('0'+n)), 2, func(r int) {
			if r == 1 {
				sym.RunGoroutines()
			}
			h.walk(n-1, sched)
		})
	})
}

// Verif_C19_keep1 every sequence of 5 requests (thorough 6) over 4 epochs, one cache kept, the pre-generating goroutine not scheduled before the end; contents an arbitrary function of the epoch, the clock any strictly increasing sequence.
//
//verif:stub (*internal/dag.DAG).generateCache stubHistory
func Verif_C19_keep1() { sequences(1) }

// Verif_C19_keep2 as keep1 with two caches kept.
//
//verif:stub (*internal/dag.DAG).generateCache stubHistory
func Verif_C19_keep2() { sequences(2) }

// Verif_C19_keep3 as keep1 with three caches kept.
//
//verif:stub (*internal/dag.DAG).generateCache stubHistory
func Verif_C19_keep3() { sequences(3) }

func sequences(keep int) {
	sym.StrictClock()
	sym.SplitCases(1)
	sym.MapOrder(keep % 2)
	newHistory(keep, false).walk(5+sym.Tier(), false)
}

// Verif_C19_pregenerate every sequence of 4 requests (thorough 5) over 4 epochs, two caches kept, with L1 caches; between any two requests the pre-generating goroutines finish or are delayed.
//
//verif:stub (*internal/dag.DAG).generateCache stubHistory
//verif:stub (*internal/dag.DAG).generateL1Cache stubHistoryL1
func Verif_C19_pregenerate() {
	sym.StrictClock()
	sym.SplitCases(1)
	newHistory(2, true).walk(4+sym.Tier(), true)
}

// Verif_C19_during every sequence of 3 requests (thorough 4) over 4 epochs, two caches kept, pre-generating goroutines finished or delayed between requests; half way through any of the first 4 generations, whoever runs it, another thread asks for any epoch.
//
//verif:stub (*internal/dag.DAG).generateCache stubHistory
//verif:stub (*internal/dag.DAG).generateL1Cache stubHistoryL1
func Verif_C19_during() {
	sym.StrictClock()
	sym.SplitCases(1)
	choose("at", 4, func(at int) {
		choose("inner", histEpochs, func(e int) {
			h := newHistory(2, true)
			h.inAt, h.inEpoch = at, e
			h.walk(3+sym.Tier(), true)
		})
	})
}

// small is a real configuration small enough to generate natively.
func small(keep int) *DAG {
	sizes := make([]uint64, histEpochs+3)
	for i := range sizes {
		sizes[i] = 128
	}
	return New(Config{Name: "T", DatasetSizes: NewLookupTable(sizes, histEpochs+3), CacheSizes: NewLookupTable(sizes, histEpochs+3), MixBytes: 128, EpochLength: 10, SeedEpochLength: 10, CachesCount: keep, CacheRounds: 1})
}

// Verif_C19_lock requests for an epoch already held, for the pre-generated one and for a new one, each from several goroutines at once: every access to shared memory that another goroutine may write is ordered by the lock or the once.
//
//verif:race
//verif:stub (*internal/dag.DAG).generateCache stubShared
func Verif_C19_lock() {
	sym.StrictClock()
	sym.SplitCases(1)
	for _, e := range []uint64{0, 1, 3} {
		d := small(2)
		d.GetCache(0)
		sym.Concurrent(func() {
			c := d.GetCache(e)
			sym.Assert(len(c.Cache()) == 32, "finished cache")
		})
	}
	sym.Reach("end")
}

func stubShared(d *DAG, dest []uint32, epoch uint64, seed []byte) {
	for i := range dest {
		dest[i] = uint32(epoch)
	}
}
