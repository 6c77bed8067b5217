package octopus

import sym "github.com/sencha-dev/powkit/internal/verifsym"

// A parameter map under which the first candidates from searchFrom on are degenerate.
var searchFrom, searchFirst, searchA, searchB, searchC uint64

func stubSearch(num uint64) uint64 {
	switch d := num - searchFrom; {
	case num == 1111:
		return searchA
	case num == 2222:
		return searchB
	case num == 3333:
		return 5 // w
	case d < searchFirst:
		return searchC
	default:
		return 3 + (d-searchFirst)%1000
	}
}

func put64(b []byte, v uint64) {
	for i := range b[:8] {
		b[i] = byte(v >> (8 * uint(i)))
	}
}

// Verif_C15_search four quadratics whose first 0 to 4, 17 or 100 candidates are degenerate, counted from words in the middle, at a multiple of the modulus less one and at the wrap of 64 bits: the first non-degenerate one is used, for every dataset size and content.
//
//verif:stub octopus.remap stubSearch
//verif:stub (*internal/dag.DAG).generateDatasetItem stubItem
//verif:stub (*internal/dag.DAG).generateCache stubCache
func Verif_C15_search() {
	size := sym.U64("size")
	sym.Assume(size >= 256 && size < 1<<40)
	for i, k := range []uint64{0, 1, 2, 3, 4, 17, 100} {
		searchFrom = []uint64{1 << 40, 1032191, 1<<64 - 2, 1<<64 - 1}[i%4]
		searchFirst = k
		p := [][3]uint64{{1, 2, 1}, {2, 1001, 1028419}, {1032192, 1032192, 258048}, {700000, 123456, 387225}}[i%4]
		searchA, searchB, searchC = p[0], p[1], p[2]
		hash := make([]byte, 32)
		put64(hash, 1111)
		put64(hash[8:], 2222)
		put64(hash[16:], searchFrom)
		put64(hash[24:], 3333)
		checkDigest(hash, 9, 1<<50|uint64(5*i), size, stubSearch)
	}
	sym.Reach("end")
}
