package cuckoo

import sym "github.com/sencha-dev/powkit/internal/verifsym"

func anyNode(mask uint64, k [4]uint64, edge, uorv uint64) uint64 {
	return sym.UF64("node", k[0], k[1], k[2], k[3], edge, uorv) & mask
}

func anyBlock(k [4]uint64, edge uint64) uint64 {
	return sym.UF64("block", k[0], k[1], k[2], k[3], edge)
}

func verdict(ok bool, err error) {
	sym.Assert(ok == (err == nil), "a verdict is either acceptance or an error")
}

// Verif_C21_walk every proof of 1 to 4 edges, every node function: Cuckoo verification ends with a verdict, without panic and within 64 rounds of every loop.
func Verif_C21_walk() {
	sym.LoopLimit(64)
	for n := 1; n <= 4; n++ {
		verdict(NewCuckoo(29, n, anyNode, nil).Verify(sym.Bytes("header", 40), proofOf(n)))
	}
	sym.Reach("end")
}

// Verif_C21_walkaroo every proof of 1 to 4 edges, every block function: Cuckaroo verification ends with a verdict, without panic and within 64 rounds of every loop.
func Verif_C21_walkaroo() {
	sym.LoopLimit(64)
	for n := 1; n <= 4; n++ {
		verdict(NewCuckaroo(30, n, nil, anyBlock).Verify(sym.Bytes("header", 40), proofOf(n)))
	}
	sym.Reach("end")
}

// Verif_C21_big every 42-edge proof on the preset graphs with a node function that puts all edges on one node or each on its own: refused, no panic.
func Verif_C21_big() {
	sym.LoopLimit(4000)
	one := func(mask uint64, k [4]uint64, edge, uorv uint64) uint64 { return sym.U64("node") & mask }
	ok, err := NewCuckoo(29, 42, one, nil).Verify(sym.Bytes("header", 40), ascending())
	sym.Assert(!ok && err != nil, "refused")
	blk := func(k [4]uint64, edge uint64) uint64 { return sym.U64("block") }
	ok, err = NewCuckaroo(30, 42, nil, blk).Verify(sym.Bytes("header", 40), ascending())
	sym.Assert(!ok && err != nil, "refused")
	sym.Reach("end")
}

func ascending() []uint64 {
	out := make([]uint64, 42)
	for i, w := range sym.Words64("edge", 42) {
		out[i] = w&(1<<20-1) | uint64(i)<<20
	}
	return out
}
