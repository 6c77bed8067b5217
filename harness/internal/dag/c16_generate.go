package dag

import (
	"github.com/sencha-dev/powkit/internal/crypto"
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

// stubSeed is the epoch's seed as an arbitrary function of the seed epoch.
func stubSeed(d *DAG, height uint64) []byte {
	return sym.UFBytes("seed", 32, le64(height/d.SeedEpochLength))
}

// stubFill makes the cache arbitrary words.
func stubFill(d *DAG, dest []uint32, epoch uint64, seed []byte) {
	copy(dest, sym.Words32("cache", len(dest)))
}

// stubItem is the dataset item as an arbitrary function of its index.
func stubItem(d *DAG, cache []uint32, index uint32, h crypto.Hasher) []byte {
	return sym.UFBytes("item", 64, le32(index))
}

func config(rows, rounds int, parents uint32) Config {
	sizes := []uint64{uint64(rows) * 64, uint64(rows) * 64, uint64(rows) * 64, uint64(rows) * 64}
	return Config{Name: "T", DatasetSizes: NewLookupTable([]uint64{1024, 1024, 1024, 1024}, 4), CacheSizes: NewLookupTable(sizes, 4), MixBytes: 128, DatasetParents: parents, EpochLength: 4096, SeedEpochLength: 4096, CacheRounds: rounds, CachesCount: 3}
}

// refCache is the sequential chain followed by the given rounds of RandMemoHash.
func refCache(seed []byte, n, rounds int) []byte {
	flat := append([]byte{}, k512(seed)...)
	for len(flat) < 64*n {
		flat = append(flat, k512(flat[len(flat)-64:])...)
	}
	for r := 0; r < rounds; r++ {
		for i := 0; i < n; i++ {
			prev := flat[(i+n-1)%n*64:]
			pick := flat[int(word(flat[64*i:])%uint32(n))*64:]
			in := make([]byte, 64)
			for b := range in {
				in[b] = prev[b] ^ pick[b]
			}
			copy(flat[64*i:], k512(in))
		}
	}
	return flat
}

// Verif_C16_cache every seed; 1 to 5 rows and 0 to 3 rounds (the presets use 3), epochs 0 to 2; Keccak-512 uninterpreted.
//
//verif:stub (*internal/dag.DAG).SeedHash stubSeed
func Verif_C16_cache() {
	caches([][2]int{{1, 0}, {1, 3}, {2, 1}, {2, 3}, {3, 1}, {3, 3}, {4, 2}, {5, 1}, {5, 3}})
}

// Verif_C16_rows as cache, 6 to 9 rows and up to 4 rounds.
//
//verif:thorough
//verif:stub (*internal/dag.DAG).SeedHash stubSeed
func Verif_C16_rows() {
	caches([][2]int{{6, 3}, {7, 3}, {7, 4}, {8, 3}, {9, 3}})
}

func caches(sizes [][2]int) {
	for _, p := range sizes {
		n, rounds := p[0], p[1]
		epoch := uint64(n % 3)
		got := New(config(n, rounds, 2)).GetCache(epoch).Cache()
		want := refCache(sym.UFBytes("seed", 32, le64(epoch)), n, rounds)
		sym.AssertEqInt(len(got), 16*n, "cache length")
		for i := range got {
			sym.AssertEq32(got[i], word(want[4*i:]), "cache word")
		}
	}
	sym.Reach("end")
}

// refItem is the dataset item's definition over cache words.
func refItem(cache func(uint32) uint32, rows, parents, index uint32) []byte {
	var in []byte
	for w := uint32(0); w < 16; w++ {
		v := cache(index%rows*16 + w)
		if w == 0 {
			v ^= index
		}
		in = append(in, le32(v)...)
	}
	h := k512(in)
	var mix [16]uint32
	for w := range mix {
		mix[w] = word(h[4*w:])
	}
	for p := uint32(0); p < parents; p++ {
		parent := fnv(index^p, mix[p%16]) % rows
		for w := uint32(0); w < 16; w++ {
			mix[w] = fnv(mix[w], cache(parent*16+w))
		}
	}
	var out []byte
	for _, v := range mix {
		out = append(out, le32(v)...)
	}
	return k512(out)
}

// Verif_C16_item every item index and cache content, with the row counts of the first and the last tabulated epochs and 3 rows; parents 0, 1, 17, 256 and 512; Keccak-512 uninterpreted.
func Verif_C16_item() {
	for i, rows := range []uint32{3, 262139, 4456441} {
		name := []string{"few", "first", "last"}[i]
		for _, parents := range []uint32{0, 1, 17, 256, 512} {
			if rows == 3 && parents > 17 {
				continue
			}
			cache := sym.LazyU32(name, int(rows)*16)
			at := func(i uint32) uint32 { return sym.LazyU32(name, int(rows)*16)[i] }
			d := New(config(3, 1, parents))
			index := sym.U32("index")
			got := d.generateDatasetItem(cache, index, crypto.NewKeccak512Hasher())
			sym.AssertEqBytes(got, refItem(at, rows, parents, index), "dataset item")
		}
	}
	sym.Reach("end")
}

// Verif_C16_lookup every index (with the wide index below 2^32), items an arbitrary function of their index: the 64, 128 and 256-byte lookups.
//
//verif:stub (*internal/dag.DAG).generateDatasetItem stubItem
func Verif_C16_lookup() {
	d := New(config(3, 1, 2))
	c := d.GetCache(1)
	index := sym.U32("index")
	for wide, look := range map[uint32]LookupFunc{1: d.NewLookupFunc512(c, 1), 2: d.NewLookupFunc1024(c, 1), 4: d.NewLookupFunc2048(c, 1)} {
		got := look(index)
		sym.AssertEqInt(len(got), int(16*wide), "words of a lookup")
		for i := range got {
			item := sym.UFBytes("item", 64, le32(index*wide+uint32(i/16)))
			sym.AssertEq32(got[i], word(item[i%16*4:]), "word of a lookup")
		}
	}
	sym.Reach("end")
}

// Verif_C16_end the three lookups through the real item generation, every index and cache content of 3 rows, 2 parents.
//
//verif:stub (*internal/dag.DAG).generateCache stubFill
func Verif_C16_end() {
	d := New(config(3, 1, 2))
	c := d.GetCache(1)
	index := sym.U32("index")
	words := sym.Words32("cache", 48)
	at := func(i uint32) uint32 { return words[i] }
	for _, wide := range []uint32{1, 2, 4} {
		look := d.NewLookupFunc512(c, 1)
		if wide == 2 {
			look = d.NewLookupFunc1024(c, 1)
		} else if wide == 4 {
			look = d.NewLookupFunc2048(c, 1)
		}
		got := look(index)
		for i := range got {
			item := refItem(at, 3, 2, index*wide+uint32(i/16))
			sym.AssertEq32(got[i], word(item[i%16*4:]), "word of a lookup")
		}
		for i := range words {
			sym.AssertEq32(c.Cache()[i], sym.Words32("cache", 48)[i], "cache unchanged by lookups")
		}
	}
	sym.Reach("end")
}

// Verif_C16_l1 items an arbitrary function of their index: L1 caches of 16, 80 and 4096 words hold the first words of the dataset.
//
//verif:stub (*internal/dag.DAG).generateDatasetItem stubItem
func Verif_C16_l1() {
	for _, n := range []uint{16, 80, 4096} {
		cfg := config(3, 1, 2)
		cfg.L1Enabled, cfg.L1CacheSize, cfg.L1CacheNumItems = true, uint64(n)*4, n
		l1 := New(cfg).GetCache(2).L1()
		sym.AssertEqInt(len(l1), int(n), "L1 length")
		for i := range l1 {
			item := sym.UFBytes("item", 64, le32(uint32(i/16)))
			sym.AssertEq32(l1[i], word(item[i%16*4:]), "L1 word")
		}
	}
	sym.Reach("end")
}
