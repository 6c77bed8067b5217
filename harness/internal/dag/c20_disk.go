package dag

import (
	"fmt"
	"unsafe"

	sym "github.com/sencha-dev/powkit/internal/verifsym"
	os "github.com/sencha-dev/powkit/internal/verifsym/fake/os"
	rand "github.com/sencha-dev/powkit/internal/verifsym/fake/rand"
)

//verif:fake os=os path/filepath=filepath math/rand=rand github.com/edsrzf/mmap-go=mmap

const (
	diskSize  = 16 // bytes of every cache
	diskItems = 3  // words of every L1 cache
	diskDir   = "/store/dag"
)

// diskDAG is a process's view: nothing in memory yet.
func diskDAG(keep int, l1, lock bool) *DAG {
	sizes := make([]uint64, 9)
	for i := range sizes {
		sizes[i] = diskSize
	}
	cfg := Config{Name: "T", Revision: 2, StorageDir: diskDir, DatasetSizes: NewLookupTable(sizes, 9), CacheSizes: NewLookupTable(sizes, 9), MixBytes: 128, EpochLength: 10, SeedEpochLength: 10, CachesCount: keep, CachesLockMmap: lock}
	if l1 {
		cfg.L1Enabled, cfg.L1CacheSize, cfg.L1CacheNumItems = true, 4*diskItems, diskItems
	}
	return New(cfg)
}

// stubDisk stands for the generation of a cache; the process may be killed half way.
func stubDisk(d *DAG, dest []uint32, epoch uint64, seed []byte) {
	os.Point("generation")
	for i := range dest {
		if i == len(dest)/2 {
			os.Point("second half of generation")
		}
		dest[i] = sym.UF32("cache", epoch, uint64(i))
	}
	os.Point("end of generation")
}

func stubDiskL1(d *DAG, dest, cache []uint32) {
	os.Point("L1 generation")
	for i := range dest {
		if i == len(dest)/2 {
			os.Point("second half of L1 generation")
		}
		dest[i] = sym.UF32("l1", uint64(cache[0]), uint64(cache[len(cache)-1]), uint64(i))
	}
	os.Point("end of L1 generation")
}

func freshCache(epoch uint64) []uint32 {
	w := make([]uint32, diskSize/4)
	for i := range w {
		w[i] = sym.UF32("cache", epoch, uint64(i))
	}
	return w
}

func freshL1(epoch uint64) []uint32 {
	c := freshCache(epoch)
	w := make([]uint32, diskItems)
	for i := range w {
		w[i] = sym.UF32("l1", uint64(c[0]), uint64(c[len(c)-1]), uint64(i))
	}
	return w
}

// serve asks one process for an epoch and checks what it would compute with.
func serve(d *DAG, epoch uint64) {
	c := d.GetCache(epoch)
	sym.AssertEqWords32(c.Cache(), freshCache(epoch), "cache served equals a fresh one")
	sym.Assert(!os.Unmapped(unsafe.Pointer(&c.Cache()[0])), "cache served is still mapped")
	if d.L1Enabled {
		sym.AssertEqWords32(c.L1(), freshL1(epoch), "L1 cache served equals a fresh one")
		sym.Assert(!os.Unmapped(unsafe.Pointer(&c.L1()[0])), "L1 cache served is still mapped")
	}
}

// dump is the file image of words.
func dump(m0, m1 uint32, w []uint32) []byte {
	var b []byte
	for _, v := range append([]uint32{m0, m1}, w...) {
		b = append(b, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
	}
	return b
}

// The file names are part of the on-disk format.
func cachePath(d *DAG, epoch uint64) string {
	return fmt.Sprintf("%s/cache-%s-R%d-%x", diskDir, d.Name, d.Revision, d.SeedHash(epoch*d.EpochLength + 1)[:8])
}
func l1Path(d *DAG, epoch uint64) string {
	return fmt.Sprintf("%s/l1-%s-R%d-%x", diskDir, d.Name, d.Revision, d.SeedHash(epoch*d.EpochLength + 1)[:8])
}

// found places files another run may have left: none, valid ones, or ones of a
// chosen kind; arbitrary contents carry a wrong magic or length.
func found(name, path string, fresh []uint32, kinds int) {
	full := 8 + 4*len(fresh)
	switch kind := sym.Choose(name+" found", kinds); kind {
	case 0: // no file
	case 1:
		os.Put(path, dump(0xbaddcafe, 0xfee1dead, fresh))
	case 2: // arbitrary words, wrong magic
		w := sym.Words32(name, len(fresh)+2)
		sym.Assume(w[0] != 0xbaddcafe || w[1] != 0xfee1dead)
		if sym.Choose(name+" which magic", 2) == 0 {
			sym.Assume(w[0] != 0xbaddcafe)
		} else {
			sym.Assume(w[0] == 0xbaddcafe)
		}
		os.Put(path, dump(w[0], w[1], w[2:]))
	default: // every other length, right magic where there is room for it
		n := sym.Choose(name+" length", full+16)
		if n >= full {
			n++
		}
		w := sym.Words32(name+"long", 16)
		os.Put(path, dump(0xbaddcafe, 0xfee1dead, w)[:n])
	}
}

// Verif_C20_faults no file, a valid file or one with a wrong magic in the storage directory, up to two failing file operations (thorough: six) in any place, mappings locked or not; every cache content. Whatever happened, a second process without failures is served right as well.
//
//verif:stub (*internal/dag.DAG).generateCache stubDisk
//verif:stub (*internal/dag.DAG).generateL1Cache stubDiskL1
func Verif_C20_faults() {
	sym.SplitCases(1)
	d := diskDAG(2, false, sym.Choose("lock", 2) == 1)
	found("cache", cachePath(d, 3), freshCache(3), 3)
	os.Faults = 2 + 4*sym.Tier()
	serve(d, 3)
	os.Faults = 0
	serve(diskDAG(2, false, true), 3)
	sym.Reach("second process")
}

// Verif_C20_l1 as faults with L1 caches and one failing operation (thorough: three).
//
//verif:stub (*internal/dag.DAG).generateCache stubDisk
//verif:stub (*internal/dag.DAG).generateL1Cache stubDiskL1
func Verif_C20_l1() {
	sym.SplitCases(1)
	d := diskDAG(2, true, sym.Choose("lock", 2) == 1)
	found("cache", cachePath(d, 3), freshCache(3), 3)
	found("l1", l1Path(d, 3), freshL1(3), 3)
	os.Faults = 1 + 2*sym.Tier()
	serve(d, 3)
	os.Faults = 0
	serve(diskDAG(2, true, true), 3)
	sym.Reach("second process")
}

// Verif_C20_found files of every length from 0 to 40 bytes and of every content with a wrong magic, for the cache and for the L1 cache, no failures (thorough: one): never served.
//
//verif:stub (*internal/dag.DAG).generateCache stubDisk
//verif:stub (*internal/dag.DAG).generateL1Cache stubDiskL1
func Verif_C20_found() {
	sym.SplitCases(1)
	d := diskDAG(2, true, false)
	os.Faults = sym.Tier()
	if sym.Choose("which", 2) == 0 {
		found("cache", cachePath(d, 1), freshCache(1), 4)
	} else {
		os.Put(cachePath(d, 1), dump(0xbaddcafe, 0xfee1dead, freshCache(1)))
		found("l1", l1Path(d, 1), freshL1(1), 4)
	}
	serve(d, 1)
	os.Faults = 0
	serve(diskDAG(2, true, false), 1)
	sym.Reach("second process")
}

// Verif_C20_killed a first process killed at any file operation or within generation, a second one killed as well or not (thorough: a failing operation too), its random numbers repeating or not: the third is served right. With L1 caches, the directory empty at first.
//
//verif:stub (*internal/dag.DAG).generateCache stubDisk
//verif:stub (*internal/dag.DAG).generateL1Cache stubDiskL1
func Verif_C20_killed() {
	sym.SplitCases(1)
	repeat := sym.Choose("random numbers repeat", 2) == 1
	os.Kills = 2
	os.Faults = sym.Tier()
	for i := 0; i < 2; i++ {
		if os.Kills == 0 {
			break
		}
		os.Process(func() { serve(diskDAG(2, true, false), 3) })
		if repeat {
			rand.Restart()
		}
	}
	os.Kills, os.Faults = 0, 0
	serve(diskDAG(2, true, false), 3)
	sym.Reach("after the kills")
}

// Verif_C20_other a second process runs to its end between any two file operations of the first, for the same epoch, a later one that outdates it or an earlier one; with L1 caches, no failures (thorough: one).
//
//verif:stub (*internal/dag.DAG).generateCache stubDisk
//verif:stub (*internal/dag.DAG).generateL1Cache stubDiskL1
func Verif_C20_other() {
	sym.SplitCases(1)
	e := []uint64{3, 6, 1}[sym.Choose("epoch of the other process", 3)]
	os.Faults = sym.Tier()
	os.Other = func() { serve(diskDAG(2, true, false), e) }
	serve(diskDAG(2, true, false), 3)
	os.Other = nil
	serve(diskDAG(2, true, false), 3)
	sym.Reach("both ran")
}

// Verif_C20_delete files of epochs 0 to 6, of another revision, of another coin and unrelated ones in the directory, one to three caches kept, an operation failing anywhere: after a request for epoch 4 all but the outdated ones of this coin are there, unchanged. Whether the epoch's own files were there or not.
//
//verif:stub (*internal/dag.DAG).generateCache stubDisk
//verif:stub (*internal/dag.DAG).generateL1Cache stubDiskL1
func Verif_C20_delete() {
	sym.SplitCases(1)
	keep := 1 + sym.Choose("keep", 3)
	d := diskDAG(keep, true, false)
	had := sym.Choose("epoch present", 2) == 1
	var paths []string
	var must []bool
	put := func(p string, keepIt bool, content []byte) {
		os.Put(p, content)
		paths = append(paths, p)
		must = append(must, keepIt)
	}
	for e := uint64(0); e <= 6; e++ {
		if e == 4 && !had {
			continue
		}
		put(cachePath(d, e), int(e) > 4-keep, dump(0xbaddcafe, 0xfee1dead, freshCache(e)))
		put(l1Path(d, e), int(e) > 4-keep, dump(0xbaddcafe, 0xfee1dead, freshL1(e)))
	}
	for _, name := range []string{"U", "T2", "ST"} {
		o := diskDAG(keep, true, false)
		o.Name = name
		put(cachePath(o, 0), true, dump(0xbaddcafe, 0xfee1dead, freshCache(0)))
		put(l1Path(o, 4), true, dump(0xbaddcafe, 0xfee1dead, freshL1(4)))
	}
	for _, rev := range []int{1, 3, 22} {
		o := diskDAG(keep, true, false)
		o.Revision = rev
		put(cachePath(o, 0), true, dump(0xbaddcafe, 0xfee1dead, freshCache(0)))
		put(l1Path(o, 4), true, dump(0xbaddcafe, 0xfee1dead, freshL1(4)))
	}
	put(diskDir+"/wallet.dat", true, sym.Bytes("wallet", 20))
	put(diskDir+"/cache", true, sym.Bytes("other", 20))
	put("/store/cache-T-R2", true, sym.Bytes("outside", 20))
	var before [][]byte
	for _, p := range paths {
		before = append(before, append([]byte{}, os.Content(p)...))
	}
	os.Faults = 1
	serve(d, 4)
	for i, p := range paths {
		if must[i] {
			sym.AssertEqBytes(os.Content(p), before[i], "only files of outdated epochs go")
		}
	}
	sym.Reach("end")
}
