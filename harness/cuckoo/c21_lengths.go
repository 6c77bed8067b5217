package cuckoo

import (
	"strconv"

	"github.com/sencha-dev/powkit/internal/crypto"
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

func proofOf(n int) []uint64 {
	if n < 0 {
		return nil
	}
	return sym.Words64("proof"+strconv.Itoa(n), n)
}

// Verif_C21_proofs every proof length 0..90 other than the configured one (42 and 4), every content, for both variants: refused with an error, no verdict.
func Verif_C21_proofs() {
	for n := -1; n <= 90; n++ {
		for _, c := range []*Client{NewAeternity(), NewCortex()} {
			if n != 42 {
				ok, err := c.Verify(sym.Bytes("header", 8), proofOf(n))
				sym.Assert(err != nil && !ok, "wrong proof length is refused")
			}
		}
		for _, c := range []*Client{NewCuckoo(10, 4, crypto.SipNode24Legacy, nil), NewCuckaroo(10, 4, nil, crypto.SipBlock48)} {
			if n != 4 {
				ok, err := c.Verify(sym.Bytes("header", 8), proofOf(n))
				sym.Assert(err != nil && !ok, "wrong proof length is refused")
			}
		}
	}
	sym.Reach("end")
}

// Verif_C21_headers every header length 0..300 and content, every proof of four edges outside the graph: refused with an error, no panic.
func Verif_C21_headers() {
	for n := -1; n <= 300; n++ {
		var header []byte
		if n >= 0 {
			header = sym.Bytes("header"+strconv.Itoa(n), n)
		}
		proof := proofOf(4)
		proof[0] |= 1 << 63
		ok, err := NewCuckoo(10, 4, crypto.SipNode24Legacy, nil).Verify(header, proof)
		sym.Assert(err != nil && !ok, "refused")
		ok, err = NewCuckaroo(10, 4, nil, crypto.SipBlock48).Verify(header, proof)
		sym.Assert(err != nil && !ok, "refused")
	}
	sym.Reach("end")
}

// Verif_C21_variants the variants without a verifier refuse every proof.
func Verif_C21_variants() {
	for _, v := range []CuckooVariant{Cuckatoo, Cuckarood, Cuckaroom, Cuckarooz, 17} {
		c := newClient(v, 29, 4, crypto.SipNode24Legacy, crypto.SipBlock48)
		ok, err := c.Verify(sym.Bytes("header", 80), proofOf(4))
		sym.Assert(err != nil && !ok, "unsupported variant is refused")
	}
	sym.Reach("end")
}
