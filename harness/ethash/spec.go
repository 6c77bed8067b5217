package ethash

import (
	"golang.org/x/crypto/sha3"

	"github.com/sencha-dev/powkit/internal/crypto"
	"github.com/sencha-dev/powkit/internal/dag"
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

func le32(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }

func word(b []byte) uint32 {
	return uint32(b[0]) | uint32(b[1])<<8 | uint32(b[2])<<16 | uint32(b[3])<<24
}

func k512(b []byte) []byte {
	h := sha3.NewLegacyKeccak512()
	h.Write(b)
	return h.Sum(nil)
}

func k256(b []byte) []byte {
	h := sha3.NewLegacyKeccak256()
	h.Write(b)
	return h.Sum(nil)
}

func fnv(u, v uint32) uint32 { return u*0x01000193 ^ v }

var itemLimit uint32 // number of 64-byte dataset items; 0 when not checked

// stubItem is the dataset item as an arbitrary function of its index.
func stubItem(d *dag.DAG, cache []uint32, index uint32, h crypto.Hasher) []byte {
	if itemLimit != 0 {
		sym.Assert(index < itemLimit, "item addressed lies inside the dataset")
	}
	return sym.UFBytes("item", 64, le32(index))
}

// stubCache leaves the cache empty: only the dataset items, stubbed above, read it.
func stubCache(d *dag.DAG, dest []uint32, epoch uint64, seed []byte) {}

// refHashimoto is hashimoto as the Ethereum specification gives it.
func refHashimoto(hash []byte, nonce uint64, size uint64) ([]byte, []byte) {
	rows := uint32(size / 128)
	in := append([]byte{}, hash...)
	for i := 0; i < 8; i++ {
		in = append(in, byte(nonce>>(8*i)))
	}
	seed := k512(in)
	var mix [32]uint32
	for i := range mix {
		mix[i] = word(seed[4*(i%16):])
	}
	for i := 0; i < 64; i++ {
		page := fnv(uint32(i)^word(seed), mix[i%32]) % rows
		for j := 0; j < 2; j++ {
			it := sym.UFBytes("item", 64, le32(2*page+uint32(j)))
			for w := 0; w < 16; w++ {
				mix[16*j+w] = fnv(mix[16*j+w], word(it[4*w:]))
			}
		}
	}
	var cmix []byte
	for i := 0; i < 32; i += 4 {
		cmix = append(cmix, le32(fnv(fnv(fnv(mix[i], mix[i+1]), mix[i+2]), mix[i+3]))...)
	}
	return cmix, k256(append(append([]byte{}, seed...), cmix...))
}

func testConfig(epochLength uint64, sizes []uint64) dag.Config {
	caches := make([]uint64, len(sizes)+1)
	for i := range caches {
		caches[i] = 128
	}
	return dag.Config{Name: "T", DatasetSizes: dag.NewLookupTable(sizes, uint64(len(sizes))), CacheSizes: dag.NewLookupTable(caches, uint64(len(caches))), MixBytes: 128, DatasetParents: 256, EpochLength: epochLength, SeedEpochLength: 4096, CacheRounds: 1, CachesCount: 3}
}
