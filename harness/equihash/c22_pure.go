package equihash

import sym "github.com/sencha-dev/powkit/internal/verifsym"

func pureVerify(n, k int, personal string, twist bool, header int) {
	c := New(uint32(n), uint32(k), personal, twist)
	size := (1 << uint(k)) * (n/(k+1) + 1) / 8
	hx, hy := sym.BytesCap("hx", header, header+24), sym.BytesCap("hy", header, header+24)
	x, y := sym.BytesCap("x", size, size+40), sym.BytesCap("y", size, size+40)
	a, errA := c.Verify(hx, x)
	okY, _ := c.Verify(hy, y)
	b, errB := c.Verify(hx, x)
	sym.Assert(a == b, "same verdict again")
	sym.Assert((errA == nil) == (errB == nil), "same kind of error again")
	if twist { // the twisted definition is C03's
		okY = false
	}
	want := !twist && specEquihash(n, k, refPersonal(personal, n, k), sym.Bytes("hy", header+24)[:header], decode(n, k, sym.Bytes("y", size+40)[:size]), twist)
	sym.Assert(okY == want, "verdict of the call between")
	sym.AssertEqBytes(hx[:header+24], sym.Bytes("hx", header+24), "first header and its spare capacity untouched")
	sym.AssertEqBytes(hy[:header+24], sym.Bytes("hy", header+24), "second header and its spare capacity untouched")
	sym.AssertEqBytes(x[:size+40], sym.Bytes("x", size+40), "first solution and its spare capacity untouched")
	sym.AssertEqBytes(y[:size+40], sym.Bytes("y", size+40), "second solution and its spare capacity untouched")
	sym.Reach("end")
}

// Verif_C22_repeat every pair of headers and solutions (with spare capacity) at n=32, k=3 (segments of whole bytes): a call between two equal calls changes nothing, it is judged by the definition, inputs and their spare capacity are untouched.
func Verif_C22_repeat() { pureVerify(32, 3, "ZcashPoW", false, 140) }

// Verif_C22_repeatTwist n=124, k=3 with the twist (solution words used in place).
func Verif_C22_repeatTwist() { pureVerify(124, 3, "ZelProof", true, 40) }

// Verif_C22_decode every content of a right-length solution, every preset: decoding twice around another solution's gives the same indices and leaves, and changes neither solution nor header nor their spare capacity.
func Verif_C22_decode() {
	for _, p := range []struct {
		n, k  uint32
		twist bool
	}{{125, 4, true}, {144, 5, false}, {192, 7, false}, {200, 9, false}, {210, 9, false}, {124, 3, true}} {
		size := int(1<<p.k*(p.n/(p.k+1)+1)) / 8
		h, person := sym.BytesCap("h", 140, 170), append(make([]byte, 0, 40), "ZcashPoWxxxxyyyy"...)
		x, y := sym.BytesCap("x", size, size+8), sym.BytesCap("y", size, size+8)
		a, _ := indicesFromMinimal(p.n, p.k, x)
		keep := append([]uint32{}, a...)
		indicesFromMinimal(p.n, p.k, y)
		b, _ := indicesFromMinimal(p.n, p.k, x)
		sym.AssertEqWords32(b, keep, "same indices again")
		sym.AssertEqWords32(a, keep, "returned indices unchanged by later calls")
		last := 1<<p.k - 1
		n1, _ := newNode(p.n, p.k, person, p.twist, h, a[last]&0xffff)
		k1 := append([]byte{}, n1.hash...)
		newNode(p.n, p.k, person, p.twist, h, a[0]&0xffff)
		n2, _ := newNode(p.n, p.k, person, p.twist, h, a[last]&0xffff)
		sym.AssertEqBytes(n2.hash, k1, "same leaf again")
		sym.AssertEqBytes(n1.hash, k1, "leaf unchanged by later ones")
		sym.AssertEqBytes(h[:170], sym.Bytes("h", 170), "header and its spare capacity untouched")
		sym.Assert(string(person[:40]) == "ZcashPoWxxxxyyyy"+string(make([]byte, 24)), "personalisation and its spare capacity untouched")
		sym.AssertEqBytes(x[:size+8], sym.Bytes("x", size+8), "solution and its spare capacity untouched")
	}
	sym.Reach("end")
}

// Verif_C22_shared one client, fresh and used before, called from several goroutines with the same header and solution, every content, at n=32, k=3 and n=124, k=3 with the twist: no write to memory the calls share.
//
//verif:race
func Verif_C22_shared() {
	for _, p := range []struct {
		n, k  int
		twist bool
	}{{32, 3, false}, {124, 3, true}} {
		c := New(uint32(p.n), uint32(p.k), "ZcashPoW", p.twist)
		size := (1 << uint(p.k)) * (p.n/(p.k+1) + 1) / 8
		h, x := sym.BytesCap("h", 140, 170), sym.BytesCap("x", size, size+8)
		for i := 0; i < 2; i++ {
			sym.Concurrent(func() { c.Verify(h, x) })
		}
		sym.AssertEqBytes(h[:170], sym.Bytes("h", 170), "header and its spare capacity untouched")
		sym.AssertEqBytes(x[:size+8], sym.Bytes("x", size+8), "solution and its spare capacity untouched")
	}
	sym.Reach("end")
}
