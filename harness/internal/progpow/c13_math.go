package progpow

import sym "github.com/sencha-dev/powkit/internal/verifsym"

// Verif_C13_math every operand pair and every 32-bit selector of the random math operation.
func Verif_C13_math() {
	a, b, s := sym.U32("a"), sym.U32("b"), sym.U32("sel")
	sym.AssertEq32(randomMath(a, b, s), sMath(a, b, s%11), "random math")
	sym.Reach("end")
}

// Verif_C13_mathops every operand pair of each of the eleven operations, at selectors across the 32-bit range.
func Verif_C13_mathops() {
	for op := uint32(0); op < 11; op++ {
		for _, base := range []uint32{0, 11, 0x7fffffff - 0x7fffffff%11, 0xffffffff - 0xffffffff%11 - 11} {
			a, b := sym.U32("a"), sym.U32("b")
			sym.AssertEq32(randomMath(a, b, base+op), sMath(a, b, op), "random math")
		}
	}
	sym.Reach("end")
}

// Verif_C13_merge every operand pair and every 32-bit selector of the merge.
func Verif_C13_merge() {
	a, b, s := sym.U32("a"), sym.U32("b"), sym.U32("sel")
	sym.AssertEq32(randomMerge(a, b, s), sMerge(a, b, s%4, (s>>16)%31+1), "random merge")
	sym.Reach("end")
}

// Verif_C13_kiss99 every generator state, four successive outputs.
func Verif_C13_kiss99() {
	z, w, jsr, jcong := sym.U32("z"), sym.U32("w"), sym.U32("jsr"), sym.U32("jcong")
	g := newKiss99(z, w, jsr, jcong)
	s := &sKiss{z, w, jsr, jcong}
	for i := 0; i < 4; i++ {
		sym.AssertEq32(g.next(), s.next(), "KISS99 output")
	}
	sym.Reach("end")
}

// Verif_C13_init the initial mix of every 64-bit seed, 16 lanes of 32 registers.
func Verif_C13_init() {
	seed := sym.U64("seed")
	got, want := initMix(seed, 16, 32), sInit(seed, 16, 32)
	for l := range want {
		sym.AssertEqWords32(got[l], want[l], "initial mix")
	}
	sym.Reach("end")
}

// Verif_C13_program the register sequences and the generator after them for every 64-bit period number, 4 registers.
func Verif_C13_program() { checkProgram(4) }

// Verif_C13_program32 the same for 32 registers at 40 concrete period numbers across the 64-bit range.
func Verif_C13_program32() {
	p := uint64(0)
	for i := 0; i < 40; i++ {
		got, want := initMixRngState(p, 32), sNewProg(p, 32)
		for j := 0; j < 70; j++ {
			sym.AssertEq32(got.nextSrc(), want.nsrc(), "source sequence")
			sym.AssertEq32(got.nextDst(), want.ndst(), "destination sequence")
			sym.AssertEq32(got.nextRng(), want.k.next(), "generator")
		}
		p = p*6364136223846793005 + uint64(i)*(1<<uint(i)) + 1
	}
	sym.Reach("end")
}

func checkProgram(regs uint32) {
	p := sym.U64("period")
	got, want := initMixRngState(p, regs), sNewProg(p, regs)
	for i := uint32(0); i < 2*regs+1; i++ {
		sym.AssertEq32(got.nextSrc(), want.nsrc(), "source sequence")
		sym.AssertEq32(got.nextDst(), want.ndst(), "destination sequence")
		sym.AssertEq32(got.nextRng(), want.k.next(), "generator")
	}
	sym.Reach("end")
}
