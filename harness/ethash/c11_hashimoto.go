package ethash

import (
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

// Verif_C11_hashimoto every header hash, nonce, height of four epochs, dataset size of 128 bytes or more and dataset content (items an arbitrary function of their index); ETH- and ETC-like seed epochs; Keccak uninterpreted.
//
//verif:stub (*internal/dag.DAG).generateDatasetItem stubItem
//verif:stub (*internal/dag.DAG).generateCache stubCache
func Verif_C11_hashimoto() {
	itemLimit = 0
	sizes := sym.Words64("size", 4)
	for epoch := uint64(0); epoch < 4; epoch++ {
		size := sym.Words64("size", 4)[epoch]
		sym.Assume(size >= 128 && size < 1<<38)
		for _, length := range []uint64{4096, 8192} {
			c := New(testConfig(length, sizes))
			height := epoch*length | sym.U64("offset")&(length-1)
			nonce := sym.U64("nonce")
			mix, digest, err := c.Compute(sym.Bytes("hash", 32), height, nonce)
			sym.Assert(err == nil, "no error")
			wantMix, wantDigest := refHashimoto(sym.Bytes("hash", 32), nonce, size)
			sym.AssertEqBytes(mix, wantMix, "mix")
			sym.AssertEqBytes(digest, wantDigest, "digest")
		}
	}
	sym.Reach("end")
}

// Verif_C11_inside every header hash, nonce and dataset content; the dataset sizes of epochs 0, 1, 500 and 2047 of Ethereum and of a one-page dataset; every item addressed lies inside the dataset.
//
//verif:stub (*internal/dag.DAG).generateDatasetItem stubItem
//verif:stub (*internal/dag.DAG).generateCache stubCache
func Verif_C11_inside() {
	for _, size := range []uint64{datasetSizes[0], datasetSizes[1], datasetSizes[500], datasetSizes[2047], 128} {
		itemLimit = uint32(size / 64)
		c := New(testConfig(4096, []uint64{size}))
		_, _, err := c.Compute(sym.Bytes("hash", 32), 7, sym.U64("nonce"))
		sym.Assert(err == nil, "no error")
	}
	sym.Reach("end")
}
