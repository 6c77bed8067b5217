package heavyhash

import (
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

// Verif_C08_digest every non-zero header hash, timestamp, nonce and matrix of nibbles (an arbitrary function of the hash words); cSHAKE uninterpreted.
//
//verif:stub heavyhash.newMatrix stubMatrix
func Verif_C08_digest() {
	hash := sym.Bytes("hash", 32)
	sym.Assume(word64(hash)|word64(hash[8:])|word64(hash[16:])|word64(hash[24:]) != 0)
	ts, nonce := int64(sym.U64("time")), sym.U64("nonce")
	got, err := NewKaspa().Compute(sym.Bytes("hash", 32), ts, nonce)
	sym.Assert(err == nil, "no error")
	m := arbitrary(word64(hash), word64(hash[8:]), word64(hash[16:]), word64(hash[24:]))
	sym.AssertEqBytes(got, digestOf(sym.Bytes("hash", 32), ts, nonce, m), "digest")
	sym.Reach("end")
}

// full is the rank test as an arbitrary predicate of the matrix' first two rows.
func full(m *[64][64]uint16) bool {
	var w [8]uint64
	for i := 0; i < 128; i++ {
		w[i/16] |= uint64(m[i/64][i%64]) << (4 * (i % 16))
	}
	if w[0]|w[1]|w[2]|w[3] == 0 {
		return false
	}
	return sym.UFBool("full", w[0], w[1], w[2], w[3], w[4], w[5], w[6], w[7])
}

func stubRank(m *matrix) int {
	n := [64][64]uint16(*m)
	if full(&n) {
		return 64
	}
	return 63
}

// Verif_C08_matrix every stream state whose first, second or third matrix is the first of full rank (rank an arbitrary predicate, zero for a zero first row): the matrix used is that one.
//
//verif:stub heavyhash.calculateRank stubRank
func Verif_C08_matrix() {
	for k := 0; k < 3; k++ {
		{
			s := sym.Words64([]string{"seed0", "seed1", "seed2"}[k], 4)
			x := xo{s[0], s[1], s[2], s[3]}
			var want *[64][64]uint16
			for i := 0; i <= k; i++ {
				want = x.draw()
				sym.Assume(full(want) == (i == k))
			}
			got := newMatrix(s[0], s[1], s[2], s[3])
			for i := range want {
				sym.AssertEqWords16(got[i][:], want[i][:], "matrix row")
			}
			if k < 2 {
				sym.Reach([]string{"first matrix", "second matrix"}[k])
			}
		}
	}
}

// byRule fills a matrix by rule; both rank tests see it.
var tinyPivot = [6][6]int{{1, 15, 9, 3, 15, 13}, {12, 8, 2, 11, 9, 13}, {12, 13, 12, 13, 8, 11}, {9, 6, 4, 0, 12, 7}, {4, 3, 10, 4, 12, 5}, {4, 7, 3, 3, 3, 5}}

func byRule(rule int) *matrix {
	var m matrix
	for i := range m {
		for j := range m[i] {
			switch rule {
			case 0: // identity
				if i == j {
					m[i][j] = 1
				}
			case 1: // reversed identity, large entries
				if i+j == 63 {
					m[i][j] = 15
				}
			case 2: // last row equals the first
				m[i][j] = uint16(i%63*7+j*j+i%63*j) & 15
			case 3: // upper triangle of fifteens
				if j >= i {
					m[i][j] = 15
				}
			case 4: // zero column
				if j != 40 {
					m[i][j] = uint16(i*i*3+j*5+i*j) & 15
				}
			case 5: // one row, scaled
				m[i][j] = uint16(j%4) * uint16(i%5)
			case 6, 7, 8: // identity but for a block of full rank with a tiny last pivot, or of rank 5
				if i == j {
					m[i][j] = 1
				}
				if i >= 58 && j >= 58 && rule != 7 {
					m[i][j] = uint16(tinyPivot[i-58][j-58])
				} else if i >= 20 && i < 23 && j >= 40 && j < 43 && rule == 7 {
					m[i][j] = uint16([3][3]int{{1, 9, 3}, {13, 4, 0}, {4, 7, 2}}[i-20][j-40])
				}
				if rule == 8 && i == 63 && j >= 58 {
					m[i][j] = uint16(tinyPivot[2][j-58])
				}
			case 9, 10, 11: // scrambled, then with two equal rows, or two equal columns
				x := uint32(i*64+j+1) * 2654435761
				if rule == 10 && i == 63 {
					x = uint32(5*64+j+1) * 2654435761
				}
				if rule == 11 && j == 62 {
					x = uint32(i*64+9+1) * 2654435761
				}
				x ^= x >> 15
				x *= 2246822519
				x ^= x >> 13
				m[i][j] = uint16(x>>20) & 15
			}
		}
	}
	return &m
}

// Verif_C08_rank twelve fixed matrices, full-rank (two with tiny pivots) and singular, through the real floating-point rank test (concrete: floating point is not encoded).
func Verif_C08_rank() {
	want := []bool{true, true, false, true, false, false, true, true, false, true, false, false}
	for rule, full := range want {
		sym.Assert((calculateRank(byRule(rule)) == 64) == full, "full rank recognised")
	}
	sym.Reach("end")
}
