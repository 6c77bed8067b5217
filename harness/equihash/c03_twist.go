package equihash

import sym "github.com/sencha-dev/powkit/internal/verifsym"

// twistIndices are indices whose generation has the given position in its 16-block and
// whose slot in the hash output is i mod per; the block number is arbitrary.
func twistIndices(n, k, shift int) []uint32 {
	per := uint32(512 / n)
	w := n/(k+1) + 1
	idx := make([]uint32, 1<<uint(k))
	blocks := sym.Words32("block", len(idx))
	for i := range idx {
		blk := blocks[i] & (uint32(1)<<uint(w)/(16*per) - 1)
		pos := uint32((i*7 + shift) % 16)
		idx[i] = blk*16*per + pos*per + uint32(i+shift)%per
	}
	return idx
}

func checkTwist(c *Client, n, k, shift int, personal string, twist bool) {
	header := sym.Bytes("header", 140)
	idx := twistIndices(n, k, shift)
	got, err := c.Verify(header, pack(n, k, idx))
	want := specEquihash(n, k, refPersonal(personal, n, k), sym.Bytes("header", 140), idx, twist)
	sym.Assert(got == want, "accepted exactly when valid under the twisted hashes")
	sym.Assert(!got || err == nil, "no error with acceptance")
	sym.Reach("end")
	if want {
		sym.Reach("some solution")
	}
}

// Verif_C03_flux0 the Flux preset, 16 indices in arbitrary blocks at positions covering the 16-block once, every header, every hash function.
func Verif_C03_flux0() { checkTwist(NewFlux(), 125, 4, 0, "ZelProof", true) }

// Verif_C03_flux1 the Flux preset with every index one slot further.
func Verif_C03_flux1() { checkTwist(NewFlux(), 125, 4, 1, "ZelProof", true) }

// Verif_C03_flux5 the Flux preset with positions and slots shifted by 5.
func Verif_C03_flux5() { checkTwist(NewFlux(), 125, 4, 5, "ZelProof", true) }

// Verif_C03_off the same parameters without the twist.
func Verif_C03_off() { checkTwist(New(125, 4, "ZelProof", false), 125, 4, 3, "ZelProof", false) }

// Verif_C03_small n=64, k=3 with the twist: 4 positions at a time.
func Verif_C03_small() {
	for s := 0; s < 16; s += 5 {
		checkTwist(New(64, 3, "ZelProof", true), 64, 3, s, "ZelProof", true)
	}
}

// Verif_C03_any n=64, k=3 with the twist: one leaf's index fully arbitrary (every position in its 16-block), the others in arbitrary blocks.
func Verif_C03_any() {
	idx := twistIndices(64, 3, 2)
	idx[0] = sym.U32("index") & 0x1ffff
	header := sym.Bytes("header", 140)
	got, _ := New(64, 3, "ZelProof", true).Verify(header, pack(64, 3, idx))
	want := specEquihash(64, 3, refPersonal("ZelProof", 64, 3), sym.Bytes("header", 140), idx, true)
	sym.Assert(got == want, "accepted exactly when valid under the twisted hashes")
	sym.Reach("end")
}
