package main

import (
	"flag"
	"math/big"
	"os"
	"strconv"

	"github.com/sencha-dev/powkit/internal/dag"
	sym "github.com/sencha-dev/powkit/internal/verifsym"
)

var savedText []byte
var savedName string
var saves int

func stubSave(data []byte, name string) {
	savedText = append([]byte(nil), data...)
	savedName = name
	saves++
}

// digitsOf fixes the number of decimal digits of the n-th value: 1..20, all widths in turn.
func digitsOf(v uint64, d int) uint64 {
	lo := uint64(1)
	for i := 1; i < d; i++ {
		lo *= 10
	}
	if d > 1 {
		sym.Assume(v >= lo)
	}
	if d < 20 {
		sym.Assume(v < lo*10)
	}
	return v
}

// symbolic sizes: an arbitrary function of the size parameters and the epoch
func stubCacheSize(d *dag.DAG, epoch uint64) uint64 {
	return digitsOf(sym.UF64("cacheSize", d.Config.CacheInitBytes, d.Config.CacheGrowthBytes, epoch), 1+int(epoch*7%20))
}

func stubDatasetSize(d *dag.DAG, epoch uint64) uint64 {
	return digitsOf(sym.UF64("datasetSize", d.Config.MixBytes, d.Config.DatasetInitBytes, d.Config.DatasetGrowthBytes, epoch), 1+int((epoch+3)*11%20))
}

// wantList consumes one "name = []uint64{ v, v, ... }" declaration: white space is free, a trailing comma is allowed.
type reader struct {
	b []byte
	i int
}

func (r *reader) space() {
	for r.i < len(r.b) && (r.b[r.i] == ' ' || r.b[r.i] == '\t' || r.b[r.i] == '\n') {
		r.i++
	}
}

func (r *reader) lit(s string) bool {
	r.space()
	if r.i+len(s) > len(r.b) || string(r.b[r.i:r.i+len(s)]) != s {
		return false
	}
	r.i += len(s)
	return true
}

func (r *reader) number(v uint64, d int, msg string) {
	r.space()
	lo := uint64(1)
	for i := 1; i < d; i++ {
		lo *= 10
	}
	for i := 0; i < d; i++ {
		sym.Assert(r.i < len(r.b), msg)
		q := v
		if lo > 1 {
			q = v / lo
		}
		sym.AssertEq(uint64(r.b[r.i]), uint64(byte(q%10)+'0'), msg)
		lo /= 10
		r.i++
	}
	sym.Assert(r.i < len(r.b) && !isDigit(r.b[r.i]), msg)
}

func isDigit(c byte) bool { return c >= '0' && c <= '9' }

func (r *reader) list(n int, value func(i int) (uint64, int), msg string) {
	sym.Assert(r.lit("[]uint64{"), msg+": opening")
	for i := 0; i < n; i++ {
		v, d := value(i)
		r.number(v, d, msg+": value "+strconv.Itoa(i)+" of "+strconv.Itoa(n))
		sym.Assert(r.lit(","), msg+": separator")
	}
	sym.Assert(r.lit("}"), msg+": nothing after the last value")
}

func runMain(args ...string) {
	flag.CommandLine = flag.NewFlagSet("gen-lookup", flag.ContinueOnError)
	os.Args = append([]string{"gen-lookup"}, args...)
	saves = 0
	main()
}

func checkFile(name string, n int, cache, dataset func(i int) (uint64, int)) {
	sym.Assert(saves == 1 && savedName == name, "one file of the package's name")
	r := &reader{b: savedText}
	sym.Assert(r.lit("package") && r.lit(name), "package clause")
	sym.Assert(r.lit("var") && r.lit("cacheSizes") && r.lit("="), "cache table declaration")
	r.list(n, cache, "cache sizes")
	sym.Assert(r.lit("var") && r.lit("datasetSizes") && r.lit("="), "dataset table declaration")
	r.list(n, dataset, "dataset sizes")
	r.space()
	sym.Assert(r.i == len(r.b), "end of file")
}

// Verif_C25_format every value list of 0..44 entries (64-bit values of 1..20 digits in turn, contents symbolic) and row sizes 1..9: the formatted table is exactly those values in order.
func Verif_C25_format() {
	for n := 0; n <= 44; n++ {
		var vs []uint64
		for i := 0; i < n; i++ {
			vs = append(vs, digitsOf(sym.U64("v"+strconv.Itoa(i)), 1+i*7%20))
		}
		for rows := 1; rows <= 9; rows++ {
			r := &reader{b: []byte(formatLookupTable(vs, rows))}
			r.list(n, func(i int) (uint64, int) { return vs[i], 1 + i*7%20 }, "table")
			r.space()
			sym.Assert(r.i == len(r.b), "end of table")
		}
	}
	sym.Reach("end")
}

// Verif_C25_main the whole program for 0..32 epochs: the file saved holds package clause and both tables, every entry the size (an arbitrary function of the parameters and the epoch) of its epoch for the parameters given on the command line.
//
//verif:stub cmd/gen-lookup.saveToFile stubSave
//verif:stub (*internal/dag.DAG).CacheSize stubCacheSize
//verif:stub (*internal/dag.DAG).DatasetSize stubDatasetSize
func Verif_C25_main() {
	for n := 0; n <= 32; n++ {
		runMain("-package", "coin", "-epochs", strconv.Itoa(n), "-mixBytes", "256", "-cacheInit", "5000", "-cacheGrowth", "700", "-datasetInit", "900000", "-datasetGrowth", "11000")
		checkFile("coin", n,
			func(i int) (uint64, int) { return sym.UF64("cacheSize", 5000, 700, uint64(i)), 1 + i*7%20 },
			func(i int) (uint64, int) {
				return sym.UF64("datasetSize", 256, 900000, 11000, uint64(i)), 1 + (i+3)*11%20
			})
	}
	sym.Reach("end")
}

func refSize(init, growth, epoch, width uint64) uint64 {
	size := init + growth*epoch - width
	for !new(big.Int).SetUint64(size / width).ProbablyPrime(20) {
		size -= 2 * width
	}
	return size
}

// Verif_C25_sizes the whole program with real sizes for the Ethereum and Conflux parameters and 1..12 epochs: the file holds the prime-row sizes of epochs 0..n-1.
//
//verif:stub cmd/gen-lookup.saveToFile stubSave
func Verif_C25_sizes() {
	coins := []struct {
		name                  string
		mix                   uint64
		cinit, cgrow, di, dgr uint64
	}{
		{"ethash", 128, 16777216, 131072, 1073741824, 8388608},
		{"octopus", 256, 16777216, 65536, 4294967296, 16777216},
	}
	for _, c := range coins {
		for n := 1; n <= 12; n++ {
			u := func(v uint64) string { return strconv.FormatUint(v, 10) }
			runMain("-package", c.name, "-epochs", strconv.Itoa(n), "-mixBytes", u(c.mix), "-cacheInit", u(c.cinit), "-cacheGrowth", u(c.cgrow), "-datasetInit", u(c.di), "-datasetGrowth", u(c.dgr))
			dec := func(v uint64) (uint64, int) { return v, len(u(v)) }
			checkFile(c.name, n,
				func(i int) (uint64, int) { return dec(refSize(c.cinit, c.cgrow, uint64(i), 64)) },
				func(i int) (uint64, int) { return dec(refSize(c.di, c.dgr, uint64(i), c.mix)) })
		}
	}
	sym.Reach("end")
}

// concrete sizes that tell epochs and parameters apart
func fixedCacheSize(d *dag.DAG, epoch uint64) uint64 {
	return d.Config.CacheInitBytes + d.Config.CacheGrowthBytes*epoch
}

func fixedDatasetSize(d *dag.DAG, epoch uint64) uint64 {
	return d.Config.DatasetInitBytes + d.Config.DatasetGrowthBytes*epoch + d.Config.MixBytes
}

// Verif_C25_defaults the whole program without -epochs and -mixBytes: 2048 epochs and 128-byte rows, sizes a fixed function of parameters and epoch.
//
//verif:stub cmd/gen-lookup.saveToFile stubSave
//verif:stub (*internal/dag.DAG).CacheSize fixedCacheSize
//verif:stub (*internal/dag.DAG).DatasetSize fixedDatasetSize
func Verif_C25_defaults() {
	runMain("-package", "coin", "-cacheInit", "5000", "-cacheGrowth", "700", "-datasetInit", "900000", "-datasetGrowth", "11000")
	dec := func(v uint64) (uint64, int) { return v, len(strconv.FormatUint(v, 10)) }
	checkFile("coin", 2048,
		func(i int) (uint64, int) { return dec(5000 + 700*uint64(i)) },
		func(i int) (uint64, int) { return dec(900000 + 11000*uint64(i) + 128) })
	sym.Reach("end")
}
