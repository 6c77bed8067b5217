package ethash

import (
	"github.com/sencha-dev/powkit/internal/dag"
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

// Verif_C21_content every 32-byte hash, nonce, dataset content and dataset size from one page to 2^38 bytes with the real core: mix and digest of 32 bytes without a panic.
//
//verif:stub (*internal/dag.DAG).generateDatasetItem lenItem
//verif:stub (*internal/dag.DAG).generateCache lenCache
func Verif_C21_content() {
	size := sym.U64("size")
	sym.Assume(size >= 128 && size < 1<<38)
	cfg := smallConfig()
	cfg.DatasetSizes = dag.NewLookupTable([]uint64{size, size}, 2)
	mix, digest, err := New(cfg).Compute(sym.Bytes("hash", 32), 5, sym.U64("nonce"))
	sym.Assert(err == nil && len(mix) == 32 && len(digest) == 32, "mix and digest")
	sym.Reach("end")
}
