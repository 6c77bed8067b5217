package octopus

import (
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

func checkDigest(hash []byte, height, nonce, size uint64, remap func(uint64) uint64) {
	got, err := client(size).Compute(hash, height, nonce)
	sym.Assert(err == nil, "no error")
	sym.AssertEqBytes(got, refDigest(hash, nonce, size, remap), "digest")
}

func symbolicLanes(lanes []uint64) {
	size := sym.U64("size")
	sym.Assume(size >= 256 && size < 1<<40)
	hash := sym.Bytes("hash", 32)
	a, b, c := stubRemap(dword(hash)), stubRemap(dword(hash[8:])), stubRemap(dword(hash[16:]))
	sym.Assume(b*b%refMod != 4*a*c%refMod)
	for _, lane := range lanes {
		checkDigest(sym.Bytes("hash", 32), uint64(sym.U32("height")&(1<<19-1)), sym.U64("nonce")&^31|lane, size, stubRemap)
	}
	sym.Reach("end")
}

// Verif_C15_digest every header hash whose first candidate quadratic is non-degenerate, every nonce in warp lanes 0, 1 and 31, every dataset size and content; the parameter map is an arbitrary function into 1..mod-1, Keccak uninterpreted.
//
//verif:stub octopus.remap stubRemap
//verif:stub (*internal/dag.DAG).generateDatasetItem stubItem
//verif:stub (*internal/dag.DAG).generateCache stubCache
func Verif_C15_digest() { symbolicLanes([]uint64{0, 1, 31}) }

// Verif_C15_lanes as digest, the remaining warp lanes.
//
//verif:thorough
//verif:stub octopus.remap stubRemap
//verif:stub (*internal/dag.DAG).generateDatasetItem stubItem
//verif:stub (*internal/dag.DAG).generateCache stubCache
func Verif_C15_lanes() {
	var lanes []uint64
	for i := uint64(2); i < 31; i++ {
		lanes = append(lanes, i)
	}
	symbolicLanes(lanes)
}

// Verif_C15_degenerate every header hash whose first one or two candidate quadratics are degenerate and the next is not, nonces in warp lane 7.
//
//verif:stub octopus.remap stubRemap
//verif:stub (*internal/dag.DAG).generateDatasetItem stubItem
//verif:stub (*internal/dag.DAG).generateCache stubCache
func Verif_C15_degenerate() { degenerate(false) }

func degenerate(fixed bool) {
	for k := uint64(1); k < 3; k++ {
		{
			name := []string{"", "hash1", "hash2"}[k]
			hash := sym.Bytes(name, 32)
			a, b, h := stubRemap(dword(hash)), stubRemap(dword(hash[8:])), dword(hash[16:])
			if fixed {
				sym.Assume(a == 1 && b == 2 && stubRemap(h) == 1 && stubRemap(h+k) == 3)
			}
			for i := uint64(0); i <= k; i++ {
				c := stubRemap(h + i)
				sym.Assume((b*b%refMod == 4*a*c%refMod) == (i < k))
			}
			checkDigest(sym.Bytes(name, 32), 5, sym.U64("nonce")&^31|7, 1<<20, stubRemap)
		}
	}
}

// Verif_C15_degenerateCase as degenerate, with the quadratics x^2+2x+1 and x^2+2x+3: such headers are reached.
//
//verif:stub octopus.remap stubRemap
//verif:stub (*internal/dag.DAG).generateDatasetItem stubItem
//verif:stub (*internal/dag.DAG).generateCache stubCache
func Verif_C15_degenerateCase() {
	degenerate(true)
	sym.Reach("end")
}

// Verif_C15_concrete every dataset size and content for one header hash and a nonce in each warp lane, with the real parameter map.
//
//verif:stub (*internal/dag.DAG).generateDatasetItem stubItem
//verif:stub (*internal/dag.DAG).generateCache stubCache
func Verif_C15_concrete() {
	size := sym.U64("size")
	sym.Assume(size >= 256 && size < 1<<40)
	var hash []byte
	for i := 0; i < 32; i++ {
		hash = append(hash, byte(i*37+11))
	}
	for lane := uint64(0); lane < 32; lane += 5 {
		checkDigest(append([]byte{}, hash...), 9, 0xd653b35d46892840|lane, size, refRemap)
	}
	sym.Reach("end")
}

// Verif_C15_remap windows of 256 consecutive words around zero, the powers of 2, 3 and 7, the wrap at mod-2 and the top of the 64-bit range: the map is 11 to the stripped exponent.
func Verif_C15_remap() {
	sym.SplitCases(1)
	for _, base := range []uint64{0, 1<<14 - 128, 3 * 3 * 7 * 1 << 10, 1032000, 1032192, 2064300, 1<<32 - 128, 1<<63 + 12345*32, 1<<64 - 256} {
		num := base + uint64(sym.U8("low"))
		sym.AssertEq(remap(num), refRemap(num), "parameter map")
	}
	sym.Reach("end")
}
