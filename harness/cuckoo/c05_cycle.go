package cuckoo

import sym "github.com/sencha-dev/powkit/internal/verifsym"

// Verif_C05_cuckoo2 Cuckoo proofs of 2 edges: every 40-byte header, every pair of 64-bit edges, every node function, 29-bit graph.
func Verif_C05_cuckoo2() { checkCuckoo(29, 2, sym.Bytes("header", 40)) }

// Verif_C05_cuckoo4 Cuckoo proofs of 4 edges, every node function, 29-bit graph.
func Verif_C05_cuckoo4() { checkCuckoo(29, 4, sym.Bytes("header", 40)) }

// Verif_C05_cuckaroo2 Cuckaroo proofs of 2 edges, every block function, 30-bit graph.
func Verif_C05_cuckaroo2() { checkCuckaroo(30, 2, sym.Bytes("header", 40)) }

// Verif_C05_cuckaroo4 Cuckaroo proofs of 4 edges, every block function, 30-bit graph.
func Verif_C05_cuckaroo4() { checkCuckaroo(30, 4, sym.Bytes("header", 40)) }

// Verif_C05_cuckoo6 Cuckoo proofs of 6 edges, every node function, 29-bit graph.
func Verif_C05_cuckoo6() { checkCuckoo(29, 6, sym.Bytes("header", 40)) }

// Verif_C05_cuckaroo6 Cuckaroo proofs of 6 edges, every block function, 30-bit graph.
func Verif_C05_cuckaroo6() { checkCuckaroo(30, 6, sym.Bytes("header", 40)) }

// Verif_C05_odd Cuckoo and Cuckaroo proofs of 3 and 5 edges (no bipartite cycle exists: always rejected).
func Verif_C05_odd() {
	checkCuckoo(29, 3, sym.Bytes("header", 32))
}

// Verif_C05_oddaroo Cuckaroo proofs of 3 edges (no bipartite cycle exists: always rejected).
func Verif_C05_oddaroo() {
	checkCuckaroo(30, 3, sym.Bytes("header", 32))
}

// Verif_C05_smallgraph graphs of 1, 7, 31 and 32 edge bits, 4-edge proofs, headers of 0 and 129 bytes.
func Verif_C05_smallgraph() {
	checkCuckoo(1, 2, sym.Bytes("header", 0))
	checkCuckoo(7, 4, sym.Bytes("headerb", 129))
}

// Verif_C05_smallgrapharoo Cuckaroo on 7- and 31-bit graphs, 4-edge proofs, headers of 1 and 128 bytes.
func Verif_C05_smallgrapharoo() {
	checkCuckaroo(7, 2, sym.Bytes("header", 1))
	checkCuckaroo(31, 4, sym.Bytes("headerb", 128))
}

// Verif_C05_cuckoo8 Cuckoo proofs of 8 edges, every node function, 29-bit graph.
//
//verif:thorough
func Verif_C05_cuckoo8() { checkCuckoo(29, 8, sym.Bytes("header", 40)) }

// Verif_C05_cuckaroo8 Cuckaroo proofs of 8 edges, every block function, 30-bit graph.
//
//verif:thorough
func Verif_C05_cuckaroo8() { checkCuckaroo(30, 8, sym.Bytes("header", 40)) }
