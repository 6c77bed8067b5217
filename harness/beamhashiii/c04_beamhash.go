package beamhashiii

import (
	"github.com/sencha-dev/powkit/internal/crypto"
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

func work(key [4]uint64) func(uint32) [7]uint64 {
	return func(x uint32) [7]uint64 {
		var w [7]uint64
		for i := range w {
			w[i] = siphash24(key, uint64(x)<<3+uint64(i))
		}
		return w
	}
}

// Verif_C04_verdict every 40-byte header and 104-byte solution; Blake2b uninterpreted, siphash as coded.
func Verif_C04_verdict() {
	header, soln := sym.Bytes("header", 40), sym.Bytes("soln", 104)
	ok, err := NewBeam().Verify(header, soln)
	want := refVerify(refIndices(sym.Bytes("soln", 104)), work(refPrework("Beam-PoW", sym.Bytes("header", 40), sym.Bytes("soln", 104))))
	sym.Assert(ok == want, "accepted exactly when valid")
	sym.Assert(!ok || err == nil, "no error on acceptance")
	sym.Reach("end")
}

// siphash as an arbitrary function of the word hashed
var hashed uint64

func stubSip(a, b, c, d uint64) *crypto.SipHasher { return &crypto.SipHasher{} }
func stubHash24(h *crypto.SipHasher, word uint64) { hashed = word }
func stubXorLanes(h *crypto.SipHasher) uint64     { return sym.UF64("sip", hashed) }
func anyWork(x uint32) (w [7]uint64) {
	for i := range w {
		w[i] = sym.UF64("sip", uint64(x)<<3+uint64(i))
	}
	return w
}

// Verif_C04_accept every 104-byte solution with siphash an arbitrary function of the word hashed (so that valid solutions can be chosen freely).
//
//verif:stub internal/crypto.NewSipHasher stubSip
//verif:stub (*internal/crypto.SipHasher).Hash24 stubHash24
//verif:stub (*internal/crypto.SipHasher).XorLanes stubXorLanes
func Verif_C04_accept() {
	ok, _ := NewBeam().Verify(make([]byte, 40), sym.Bytes("soln", 104))
	want := refVerify(refIndices(sym.Bytes("soln", 104)), anyWork)
	sym.Assert(ok == want, "accepted exactly when valid")
	sym.Reach("end")
}

var wantKey [4]uint64
var keyOK = true

func stubKey(a, b, c, d uint64) *crypto.SipHasher {
	keyOK = keyOK && wantKey == [4]uint64{a, b, c, d}
	return &crypto.SipHasher{}
}

// Verif_C04_keys every 40-byte header and nonce (the indices fixed): siphash is keyed with the Blake2b digest of the header followed by the nonce.
//
//verif:stub internal/crypto.NewSipHasher stubKey
//verif:stub (*internal/crypto.SipHasher).Hash24 stubHash24
//verif:stub (*internal/crypto.SipHasher).XorLanes stubXorLanes
func Verif_C04_keys() {
	soln := make([]byte, 104)
	for i := range soln[:100] {
		soln[i] = byte(37 * i)
	}
	copy(soln[100:], sym.Bytes("nonce", 4))
	wantKey = refPrework("Beam-PoW", sym.Bytes("header", 40), soln)
	NewBeam().Verify(sym.Bytes("header", 40), soln)
	sym.Assert(keyOK, "siphash keys are the digest of the header and the nonce")
	sym.Reach("end")
}
