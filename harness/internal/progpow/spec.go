package progpow

import (
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

func sFnv1a(h, d uint32) uint32 { return (h ^ d) * 0x01000193 }

// sKiss is the KISS99 generator.
type sKiss struct{ z, w, jsr, jcong uint32 }

func (k *sKiss) next() uint32 {
	k.z = 36969*(k.z&0xffff) + k.z>>16
	k.w = 18000*(k.w&0xffff) + k.w>>16
	mwc := k.z<<16 + k.w
	k.jsr ^= k.jsr << 17
	k.jsr ^= k.jsr >> 13
	k.jsr ^= k.jsr << 5
	k.jcong = 69069*k.jcong + 1234567
	return (mwc ^ k.jcong) + k.jsr
}

func sRotl(x, n uint32) uint32 {
	n %= 32
	if n == 0 {
		return x
	}
	return x<<n | x>>(32-n)
}

func sRotr(x, n uint32) uint32 {
	n %= 32
	if n == 0 {
		return x
	}
	return x>>n | x<<(32-n)
}

func sClz(x uint32) uint32 {
	n := uint32(32)
	for i := uint(0); i < 32; i++ {
		if x>>i != 0 {
			n = 31 - uint32(i)
		}
	}
	return n
}

func sPop(x uint32) uint32 {
	var n uint32
	for i := uint(0); i < 32; i++ {
		n += x >> i & 1
	}
	return n
}

// sMath is the ProgPow math operation selected by op (0..10).
func sMath(a, b, op uint32) uint32 {
	switch op {
	case 0:
		return a + b
	case 1:
		return a * b
	case 2:
		return uint32(uint64(a) * uint64(b) >> 32)
	case 3:
		if a < b {
			return a
		}
		return b
	case 4:
		return sRotl(a, b)
	case 5:
		return sRotr(a, b)
	case 6:
		return a & b
	case 7:
		return a | b
	case 8:
		return a ^ b
	case 9:
		return sClz(a) + sClz(b)
	}
	return sPop(a) + sPop(b)
}

func sMerge(a, b, op, rot uint32) uint32 {
	switch op {
	case 0:
		return a*33 + b
	case 1:
		return (a ^ b) * 33
	case 2:
		return sRotl(a, rot) ^ b
	}
	return sRotr(a, rot) ^ b
}

// sProg is the random program of one period.
type sProg struct {
	k        sKiss
	src, dst []uint32
	si, di   int
}

func sNewProg(period uint64, regs uint32) *sProg {
	lo, hi := uint32(period), uint32(period>>32)
	z := sFnv1a(0x811c9dc5, lo)
	w := sFnv1a(z, hi)
	jsr := sFnv1a(w, lo)
	jcong := sFnv1a(jsr, hi)
	p := &sProg{k: sKiss{z, w, jsr, jcong}}
	for i := uint32(0); i < regs; i++ {
		p.src, p.dst = append(p.src, i), append(p.dst, i)
	}
	for i := regs - 1; i > 0; i-- {
		j := p.k.next() % (i + 1)
		p.dst[i], p.dst[j] = p.dst[j], p.dst[i]
		j = p.k.next() % (i + 1)
		p.src[i], p.src[j] = p.src[j], p.src[i]
	}
	return p
}

func (p *sProg) nsrc() uint32 { p.si++; return p.src[(p.si-1)%len(p.src)] }
func (p *sProg) ndst() uint32 { p.di++; return p.dst[(p.di-1)%len(p.dst)] }

type sCfg struct {
	lanes, regs, cache, math int
	cacheWords               uint32
}

// sRound is one ProgPow round on mix (lanes x regs) in place. The operations themselves
// (randomMath, randomMerge) are decided on their own in c13_math.go.
func sRound(c sCfg, period uint64, r int, mix [][]uint32, items uint32, item func(uint32) []uint32, l1 []uint32) {
	p := sNewProg(period, uint32(c.regs))
	data := item(mix[r%c.lanes][0] % items)
	n := c.cache
	if c.math > n {
		n = c.math
	}
	for i := 0; i < n; i++ {
		if i < c.cache {
			s, d, sel := p.nsrc(), p.ndst(), p.k.next()
			for l := range mix {
				mix[l][d] = randomMerge(mix[l][d], l1[mix[l][s]%c.cacheWords], sel)
			}
		}
		if i < c.math {
			x := p.k.next() % uint32(c.regs*(c.regs-1))
			a, b := x%uint32(c.regs), x/uint32(c.regs)
			if b >= a {
				b++
			}
			op, d := p.k.next(), p.ndst()
			sel := p.k.next()
			for l := range mix {
				mix[l][d] = randomMerge(mix[l][d], randomMath(mix[l][a], mix[l][b], op), sel)
			}
		}
	}
	per := len(data) / c.lanes
	for i := 0; i < per; i++ {
		d := uint32(0)
		if i > 0 {
			d = p.ndst()
		}
		sel := p.k.next()
		for l := range mix {
			mix[l][d] = randomMerge(mix[l][d], data[(l^r)%c.lanes*per+i], sel)
		}
	}
}

func sInit(seed uint64, lanes, regs int) [][]uint32 {
	var mix [][]uint32
	z := sFnv1a(0x811c9dc5, uint32(seed))
	w := sFnv1a(z, uint32(seed>>32))
	for l := 0; l < lanes; l++ {
		jsr := sFnv1a(w, uint32(l))
		k := &sKiss{z, w, jsr, sFnv1a(jsr, uint32(l))}
		var row []uint32
		for i := 0; i < regs; i++ {
			row = append(row, k.next())
		}
		mix = append(mix, row)
	}
	return mix
}

func sReduce(mix [][]uint32) []byte {
	var h [8]uint32
	for i := range h {
		h[i] = 0x811c9dc5
	}
	for l := range mix {
		x := uint32(0x811c9dc5)
		for _, v := range mix[l] {
			x = sFnv1a(x, v)
		}
		h[l%8] = sFnv1a(h[l%8], x)
	}
	var out []byte
	for _, v := range h {
		out = append(out, byte(v), byte(v>>8), byte(v>>16), byte(v>>24))
	}
	return out
}

func itemUF(words int) func(uint32) []uint32 {
	return func(i uint32) []uint32 {
		out := make([]uint32, words)
		for w := range out {
			out[w] = sym.UF32("item", uint64(i), uint64(w))
		}
		return out
	}
}

func symMix(name string, lanes, regs int) [][]uint32 {
	all := sym.Words32(name, lanes*regs)
	var mix [][]uint32
	for l := 0; l < lanes; l++ {
		mix = append(mix, all[l*regs:(l+1)*regs:(l+1)*regs])
	}
	return mix
}

func le32(v uint32) []byte { return []byte{byte(v), byte(v >> 8), byte(v >> 16), byte(v >> 24)} }
func le64(v uint64) []byte { return append(le32(uint32(v)), le32(uint32(v>>32))...) }

func rcfg(lanes, regs int) *Config {
	return &Config{PeriodLength: 3, DagLoads: 4, CacheBytes: 16 * 1024, LaneCount: lanes, RegisterCount: regs, RoundCount: 64, RoundCacheAccesses: 11, RoundMathOperations: 18}
}
