package ethash

import (
	"math/big"

	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

func stubDir(name string) string { return "" }

// refSize is the largest size not above the linear bound whose row count is prime, in steps of two rows.
func refSize(init, growth, epoch, width uint64) uint64 {
	size := init + growth*epoch - width
	for !new(big.Int).SetUint64(size / width).ProbablyPrime(20) {
		size -= 2 * width
	}
	return size
}

func refSizes(init, growth, width uint64) []uint64 {
	var out []uint64
	for e := uint64(0); e < 2048; e++ {
		out = append(out, refSize(init, growth, e, width))
	}
	return out
}

// Verif_C17_Ethereum every tabulated epoch: the sizes served are the prime-row sizes.
//
//verif:stub internal/common.DefaultDir stubDir
func Verif_C17_Ethereum() {
	d := NewEthereum().data
	epoch := uint64(sym.U16("epoch") & 2047)
	sym.AssertEq(d.CacheSize(epoch), refSizes(16777216, 131072, 64)[epoch], "cache size")
	sym.AssertEq(d.DatasetSize(epoch), refSizes(1073741824, 8388608, 128)[epoch], "dataset size")
	sym.Reach("end")
}

// Verif_C17_EthereumPast every epoch from 2048 to 2^20 whose prime is found in at most four steps (primality an arbitrary predicate), and epochs 2048, 2049, 4095 and 100000 with real primality.
//
//verif:stub internal/common.DefaultDir stubDir
func Verif_C17_EthereumPast() {
	d := NewEthereum().data
	for _, e := range []uint64{2048, 2049, 4095, 100000} {
		sym.AssertEq(d.CacheSize(e), refSize(16777216, 131072, e, 64), "cache size past the table")
		sym.AssertEq(d.DatasetSize(e), refSize(1073741824, 8388608, e, 128), "dataset size past the table")
	}
	epoch := 2048 + uint64(sym.U32("epoch")&(1<<20-1))
	for _, q := range [][3]uint64{{16777216, 131072, 64}, {1073741824, 8388608, 128}} {
		size := q[0] + q[1]*epoch - q[2]
		prime := false
		for i := uint64(0); i < 4; i++ {
			prime = prime || new(big.Int).SetUint64((size-2*i*q[2])/q[2]).ProbablyPrime(20)
		}
		sym.Assume(prime)
		got := uint64(0)
		if q[2] == 64 && q[0] == 16777216 {
			got = d.CacheSize(epoch)
		} else {
			got = d.DatasetSize(epoch)
		}
		sym.AssertEq(got, refSize(q[0], q[1], epoch, q[2]), "size past the table")
	}
	sym.Reach("end")
}

// Verif_C17_EthereumClassic every tabulated epoch: the sizes served are the prime-row sizes.
//
//verif:stub internal/common.DefaultDir stubDir
func Verif_C17_EthereumClassic() {
	d := NewEthereumClassic().data
	epoch := uint64(sym.U16("epoch") & 2047)
	sym.AssertEq(d.CacheSize(epoch), refSizes(16777216, 131072, 64)[epoch], "cache size")
	sym.AssertEq(d.DatasetSize(epoch), refSizes(1073741824, 8388608, 128)[epoch], "dataset size")
	sym.Reach("end")
}

// Verif_C17_EthereumClassicPast every epoch from 2048 to 2^20 whose prime is found in at most four steps (primality an arbitrary predicate), and epochs 2048, 2049, 4095 and 100000 with real primality.
//
//verif:stub internal/common.DefaultDir stubDir
func Verif_C17_EthereumClassicPast() {
	d := NewEthereumClassic().data
	for _, e := range []uint64{2048, 2049, 4095, 100000} {
		sym.AssertEq(d.CacheSize(e), refSize(16777216, 131072, e, 64), "cache size past the table")
		sym.AssertEq(d.DatasetSize(e), refSize(1073741824, 8388608, e, 128), "dataset size past the table")
	}
	epoch := 2048 + uint64(sym.U32("epoch")&(1<<20-1))
	for _, q := range [][3]uint64{{16777216, 131072, 64}, {1073741824, 8388608, 128}} {
		size := q[0] + q[1]*epoch - q[2]
		prime := false
		for i := uint64(0); i < 4; i++ {
			prime = prime || new(big.Int).SetUint64((size-2*i*q[2])/q[2]).ProbablyPrime(20)
		}
		sym.Assume(prime)
		got := uint64(0)
		if q[2] == 64 && q[0] == 16777216 {
			got = d.CacheSize(epoch)
		} else {
			got = d.DatasetSize(epoch)
		}
		sym.AssertEq(got, refSize(q[0], q[1], epoch, q[2]), "size past the table")
	}
	sym.Reach("end")
}
