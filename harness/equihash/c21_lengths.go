package equihash

import (
	"strconv"

	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

func solnOf(n int) []byte {
	if n < 0 {
		return nil
	}
	return sym.LazyBytes("soln"+strconv.Itoa(n), n)
}

// Verif_C21_solutions every preset; every solution length 0..150 and within 300 bytes of the right one and their double, half and sum, other than the right one, every content: refused with an error, no verdict.
func Verif_C21_solutions() {
	for _, p := range []struct {
		c    *Client
		size int
	}{{NewFlux(), 52}, {NewBitcoinGold(), 100}, {NewZClassic(), 400}, {NewZCash(), 1344}, {NewAion(), 1408}} {
		try := func(n int) {
			if n == p.size {
				return
			}
			ok, err := p.c.Verify(sym.Bytes("header", 140), solnOf(n))
			sym.Assert(err != nil && !ok, "wrong solution length is refused")
		}
		for n := -1; n <= 150; n++ {
			try(n)
		}
		for d := -300; d <= 300; d++ {
			if p.size+d > 150 {
				try(p.size + d)
			}
		}
		for _, n := range []int{2 * p.size, p.size / 2, 3 * p.size, 3000, 5000} {
			try(n)
		}
	}
	sym.Reach("end")
}

// allZero is a base hash under which everything collides.
func allZero(initialState, personalState []byte, g, hashLength uint32, twist bool) []byte {
	return make([]byte, hashLength)
}

func encode(indices []uint32, width int) []byte {
	out := make([]byte, (len(indices)*width+7)/8)
	for i, v := range indices {
		for b := 0; b < width; b++ {
			pos := i*width + b
			out[pos/8] |= byte(v>>uint(width-1-b)&1) << uint(7-pos%8)
		}
	}
	return out
}

// Verif_C21_right every preset with a right-length solution of ascending indices and a base hash under which everything collides: accepted without error, for header lengths 0, 1, 108, 140, 500 of any content.
//
//verif:stub equihash.generateHash allZero
func Verif_C21_right() {
	for _, p := range []struct {
		c    *Client
		n, k int
	}{{NewFlux(), 125, 4}, {NewBitcoinGold(), 144, 5}, {NewZClassic(), 192, 7}, {NewZCash(), 200, 9}, {NewAion(), 210, 9}} {
		indices := make([]uint32, 1<<p.k)
		for i := range indices {
			indices[i] = uint32(i*3 + 1)
		}
		for _, h := range []int{0, 1, 108, 140, 500} {
			ok, err := p.c.Verify(sym.LazyBytes("header"+strconv.Itoa(h), h), encode(indices, p.n/(p.k+1)+1))
			sym.Assert(ok && err == nil, "accepted")
		}
	}
	sym.Reach("end")
}
