// Package rand stands in for math/rand: distinct numbers, repeatable when a process restarts.
package rand

var next uint64

// Restart makes the numbers repeat, as an unseeded generator does in a new process.
func Restart() { next = 0 }

func Uint64() uint64 { next++; return 1000 + next }
func Int() int       { return int(Uint64()) }
func Int63() int64   { return int64(Uint64()) }
func Int31() int32   { return int32(Uint64()) }
func Uint32() uint32 { return uint32(Uint64()) }
func Seed(s int64)   {}
func Intn(n int) int { return int(Uint64() % uint64(n)) }
func Int63n(n int64) int64 {
	return int64(Uint64() % uint64(n))
}
