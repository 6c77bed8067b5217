package cuckoo

import (
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

// the endpoints handed out for the edge with the given index (the top bits of the edge)
var ends [42][2]uint64

// cycleEnds makes ends a single 42-cycle visiting the edges in a scrambled order, with
// arbitrary low bits in every node value (the tag bits keep different nodes different).
func cycleEnds(tag uint64) {
	for i := 0; i < 42; i++ {
		a, b := i*17%42, (i+1)*17%42
		node := sym.U64("node[" + string(rune('a'+i/8)) + string(rune('0'+i%8)) + "]")
		val := node&(1<<tag-1) | uint64(i)<<tag
		side := i & 1
		ends[a][side], ends[b][side] = val, val
	}
}

func presetEdges(shift uint) []uint64 {
	out := make([]uint64, 42)
	for i, w := range sym.Words64("edge", 42) {
		out[i] = w&(1<<shift-1) | uint64(i)<<shift
	}
	return out
}

func stubNode(mask uint64, k [4]uint64, edge, uorv uint64) uint64 {
	sym.AssertEq(mask, 1<<29-1, "29 edge bits")
	checkKeys(k)
	return ends[edge>>23][uorv]
}

func stubBlock(k [4]uint64, edge uint64) uint64 {
	checkKeys(k)
	e := ends[edge>>24]
	return e[0] | e[1]<<32 | sym.U64("junk")&0xc0000000c0000000
}

func checkKeys(k [4]uint64) {
	want := specKeys(sym.Bytes("header", 80))
	for i := range k {
		sym.AssertEq(k[i], want[i], "siphash key from the header digest")
	}
}

func presetCheck(c *Client, edges []uint64, bad, badval uint64) {
	header := sym.Bytes("header", 80)
	ok, err := c.Verify(header, edges)
	sym.Assert(ok && err == nil, "a proof whose 42 edges form one cycle is accepted")
	edges[41] = badval
	ok, err = c.Verify(header, edges)
	sym.Assert(!ok && err != nil, "an out-of-range last edge is rejected")
	sym.Reach("end")
}

// Verif_C05_aeternity the Aeternity preset accepts every 42-edge proof whose (arbitrary) node values form a 42-cycle on a 29-bit graph, and rejects it once the last edge is out of range.
//
//verif:stub github.com/sencha-dev/powkit/internal/crypto.SipNode24Legacy stubNode
func Verif_C05_aeternity() {
	cycleEnds(23)
	big := sym.U64("big")
	sym.Assume(big > 1<<29-1)
	presetCheck(NewAeternity(), presetEdges(23), 41, big)
}

// Verif_C05_cortex the Cortex preset accepts every 42-edge proof whose (arbitrary) node values form a 42-cycle on a 30-bit graph, whatever the block bits outside the mask, and rejects it once the last edge is out of range.
//
//verif:stub github.com/sencha-dev/powkit/internal/crypto.SipBlock48 stubBlock
func Verif_C05_cortex() {
	cycleEnds(24)
	big := sym.U64("big")
	sym.Assume(big > 1<<30-1)
	presetCheck(NewCortex(), presetEdges(24), 41, big)
}

// Verif_C05_lengths both presets and custom sizes reject every proof whose number of edges is not the proof size: 0 to 84 edges, all contents.
func Verif_C05_lengths() {
	header := sym.Bytes("header", 40)
	for n := 0; n <= 84; n++ {
		if n == 42 {
			continue
		}
		edges := sym.Words64("edge", n)
		ok, err := NewAeternity().Verify(header, edges)
		sym.Assert(!ok && err != nil, "Aeternity proof of a wrong length rejected")
		ok, err = NewCortex().Verify(header, edges)
		sym.Assert(!ok && err != nil, "Cortex proof of a wrong length rejected")
	}
	ok, err := NewCuckoo(29, 4, ufNode, nil).Verify(header, sym.Words64("edge", 3))
	sym.Assert(!ok && err != nil, "short proof rejected")
	sym.Reach("end")
}
