package eaglesong

import (
	"golang.org/x/crypto/sha3"
)

// refRows are the rows of the 16x16 binary matrix of the Eaglesong permutation.
var refRows = [16]string{
	"1111010111110001", "0111101011111001", "0011110101111101", "0001111010111111",
	"1111101010101110", "1000100010100111", "1011000110100010", "1010110100100001",
	"0101011010010001", "0010101101001001", "0001010110100101", "0000101011010011",
	"1111000010011000", "0111100001001100", "0011110000100110", "1110101111100011",
}

// the two non-zero rotation amounts of the circulant step, per word
var refCirc = [16][2]uint{{2, 4}, {13, 22}, {4, 19}, {3, 14}, {27, 31}, {3, 8}, {17, 26}, {3, 12}, {18, 22}, {12, 18}, {4, 7}, {4, 31}, {12, 27}, {7, 17}, {7, 8}, {1, 13}}

// refConstants derives the injection constants from their published seed.
func refConstants(rounds int) []uint32 {
	seed := "The various ways in which the knowledge on which people base their plan is" +
		" communicated to them is the crucial problem for any theory explaining the economic" +
		" process, and the problem of what is the best way to utilizing knowledge initially " +
		"dispersed among all the people is at least one of the main problems of economic policy" +
		" - or of designing an efficient economic system."
	raw := make([]byte, rounds*64)
	sha3.ShakeSum256(raw, []byte(seed))
	out := make([]uint32, rounds*16)
	for i := range out {
		out[i] = uint32(raw[4*i]) | uint32(raw[4*i+1])<<8 | uint32(raw[4*i+2])<<16 | uint32(raw[4*i+3])<<24
	}
	return out
}

func refRot(x uint32, n uint) uint32 { return x<<n | x>>(32-n) }

// anyPermute stands for the permutation when set.
var anyPermute func(rounds int, s [16]uint32) [16]uint32

func refPermute(rounds int, consts []uint32, s [16]uint32) [16]uint32 {
	if anyPermute != nil {
		return anyPermute(rounds, s)
	}
	for r := 0; r < rounds; r++ {
		var t [16]uint32
		for j := 0; j < 16; j++ {
			for k := 0; k < 16; k++ {
				if refRows[k][j] == '1' {
					t[j] ^= s[k]
				}
			}
		}
		for j := 0; j < 16; j++ {
			s[j] = t[j] ^ refRot(t[j], refCirc[j][0]) ^ refRot(t[j], refCirc[j][1]) ^ consts[16*r+j]
		}
		for j := 0; j < 16; j += 2 {
			a, b := s[j], s[j+1]
			a = refRot(a+b, 8)
			b = refRot(b, 24)
			s[j], s[j+1] = a, a+b
		}
	}
	return s
}

// refSponge is the Eaglesong sponge: delimiter appended, big-endian absorption,
// little-endian squeezing.
func refSponge(rounds, outLen, rate int, delim byte, in []byte) []byte {
	consts := refConstants(43)
	msg := append(append([]byte(nil), in...), delim)
	rb := rate / 8
	var s [16]uint32
	for off := 0; off < len(msg); off += rb {
		for j := 0; j < rb/4; j++ {
			var w uint32
			for k := 0; k < 4; k++ {
				if p := off + 4*j + k; p < len(msg) {
					w = w<<8 | uint32(msg[p])
				}
			}
			s[j] ^= w
		}
		s = refPermute(rounds, consts, s)
	}
	var out []byte
	for len(out) < outLen {
		for j := 0; j < rb/4; j++ {
			out = append(out, byte(s[j]), byte(s[j]>>8), byte(s[j]>>16), byte(s[j]>>24))
		}
		s = refPermute(rounds, consts, s)
	}
	return out
}
