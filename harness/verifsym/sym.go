// Package verifsym is the input/assertion vocabulary of the verification
// harnesses. The symbolic executor interprets these functions itself; the bodies
// below run when a counterexample is replayed natively against the real code.
package verifsym

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"runtime"
	"runtime/debug"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Data is a concrete assignment produced by the solver.
type Data struct {
	Tier int
	Vars map[string]string            // name -> hex value
	UF   map[string]string            // "name(arg,...)" -> hex value
	Lazy map[string]map[string]string // array -> index -> hex value
}

var (
	data  Data
	mu    sync.Mutex
	fails []string
	lazy  = map[string]interface{}{}
)

type assumeFailed struct{}

func load() {
	b, err := os.ReadFile(os.Getenv("VERIF_REPLAY"))
	if err == nil {
		json.Unmarshal(b, &data)
	}
}

func val(name string) uint64 {
	v, ok := data.Vars[name]
	if !ok {
		return 0
	}
	u, _ := strconv.ParseUint(v, 16, 64)
	return u
}

// RunNative runs a harness on the assignment in $VERIF_REPLAY and reports.
func RunNative(f func()) {
	load()
	threads.Store(goid(), true)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if _, ok := r.(assumeFailed); ok {
					mu.Lock()
					n := len(fails)
					mu.Unlock()
					if n == 0 { // an assertion that failed before the assumption still counts
						fmt.Println("VERIF-REPLAY: ASSUME")
					}
					return
				}
				fmt.Printf("VERIF-REPLAY: PANIC %v\n%s\n", r, debug.Stack())
			}
		}()
		f()
	}()
	mu.Lock()
	defer mu.Unlock()
	for _, m := range fails {
		fmt.Printf("VERIF-REPLAY: FAIL %s\n", m)
	}
	fmt.Println("VERIF-REPLAY: END")
}

func fail(m string) {
	mu.Lock()
	fails = append(fails, m)
	mu.Unlock()
}

// Native reports whether the harness runs natively rather than symbolically.
func Native() bool { return true }

// Tier is 0 for the quick check and 1 for the thorough one.
func Tier() int { return data.Tier }

func U8(name string) uint8   { return uint8(val(name)) }
func U16(name string) uint16 { return uint16(val(name)) }
func U32(name string) uint32 { return uint32(val(name)) }
func U64(name string) uint64 { return val(name) }
func Bool(name string) bool  { return val(name) != 0 }

// Int is an arbitrary integer in [lo,hi].
func Int(name string, lo, hi int) int {
	v := int(val(name))
	Assume(lo <= v && v <= hi)
	return v
}

// Bytes is an arbitrary byte string of length n.
func Bytes(name string, n int) []byte {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(val(fmt.Sprintf("%s[%d]", name, i)))
	}
	return b
}

// BytesCap is Bytes with arbitrary spare capacity behind the length.
func BytesCap(name string, n, c int) []byte { return Bytes(name, c)[:n] }

func Words16(name string, n int) []uint16 {
	b := make([]uint16, n)
	for i := range b {
		b[i] = uint16(val(fmt.Sprintf("%s[%d]", name, i)))
	}
	return b
}
func Words32(name string, n int) []uint32 {
	b := make([]uint32, n)
	for i := range b {
		b[i] = uint32(val(fmt.Sprintf("%s[%d]", name, i)))
	}
	return b
}
func Words64(name string, n int) []uint64 {
	b := make([]uint64, n)
	for i := range b {
		b[i] = val(fmt.Sprintf("%s[%d]", name, i))
	}
	return b
}

// LazyU32 is an arbitrary array of n words, represented as a function of the index.
func LazyU32(name string, n int) []uint32 {
	if v, ok := lazy[name]; ok {
		return v.([]uint32)
	}
	b := make([]uint32, n)
	for k, v := range data.Lazy[name] {
		i, _ := strconv.ParseUint(k, 16, 64)
		u, _ := strconv.ParseUint(v, 16, 64)
		if i < uint64(n) {
			b[i] = uint32(u)
		}
	}
	lazy[name] = b
	return b
}
func LazyU64(name string, n int) []uint64 {
	if v, ok := lazy[name]; ok {
		return v.([]uint64)
	}
	b := make([]uint64, n)
	for k, v := range data.Lazy[name] {
		i, _ := strconv.ParseUint(k, 16, 64)
		u, _ := strconv.ParseUint(v, 16, 64)
		if i < uint64(n) {
			b[i] = u
		}
	}
	lazy[name] = b
	return b
}
func LazyBytes(name string, n int) []byte {
	if v, ok := lazy[name]; ok {
		return v.([]byte)
	}
	b := make([]byte, n)
	for k, v := range data.Lazy[name] {
		i, _ := strconv.ParseUint(k, 16, 64)
		u, _ := strconv.ParseUint(v, 16, 64)
		if i < uint64(n) {
			b[i] = byte(u)
		}
	}
	lazy[name] = b
	return b
}

func key(name string, args []uint64) string {
	var s []string
	for _, a := range args {
		s = append(s, strconv.FormatUint(a, 16))
	}
	return name + "(" + strings.Join(s, ",") + ")"
}

func uf(name string, args []uint64) uint64 {
	u, _ := strconv.ParseUint(data.UF[key("uf:"+name, args)], 16, 64)
	return u
}

// UF8, UF32, UF64, UFBool are arbitrary but fixed functions of their arguments.
func UF8(name string, args ...uint64) uint8   { return uint8(uf(name, args)) }
func UF32(name string, args ...uint64) uint32 { return uint32(uf(name, args)) }
func UF64(name string, args ...uint64) uint64 { return uf(name, args) }
func UFBool(name string, args ...uint64) bool { return uf(name, args) != 0 }

// UFBytes is an arbitrary fixed function to n bytes.
func UFBytes(name string, n int, in ...[]byte) []byte {
	k := "ufb:" + name
	var args []uint64
	for _, b := range in {
		k += fmt.Sprintf(":%d", len(b))
		for _, c := range b {
			args = append(args, uint64(c))
		}
	}
	out := make([]byte, n)
	h := data.UF[key(k, args)]
	for len(h) < 2*n {
		h = "0" + h
	}
	h = h[len(h)-2*n:]
	for i := range out {
		u, _ := strconv.ParseUint(h[2*i:2*i+2], 16, 8)
		out[i] = byte(u)
	}
	return out
}

func Assume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}
func Assert(c bool, msg string) {
	if !c {
		fail(msg)
	}
}
func AssertEq(a, b uint64, msg string) {
	if a != b {
		fail(fmt.Sprintf("%s: %#x != %#x", msg, a, b))
	}
}
func AssertEq32(a, b uint32, msg string) { AssertEq(uint64(a), uint64(b), msg) }
func AssertEqInt(a, b int, msg string)   { AssertEq(uint64(a), uint64(b), msg) }
func AssertEqBytes(a, b []byte, msg string) {
	if !bytes.Equal(a, b) {
		fail(fmt.Sprintf("%s: %x != %x", msg, a, b))
	}
}
func AssertEqWords16(a, b []uint16, msg string) {
	if len(a) != len(b) {
		fail(fmt.Sprintf("%s: lengths %d and %d", msg, len(a), len(b)))
		return
	}
	for i := range a {
		if a[i] != b[i] {
			fail(fmt.Sprintf("%s: word %d: %#x != %#x", msg, i, a[i], b[i]))
			return
		}
	}
}
func AssertEqWords32(a, b []uint32, msg string) {
	if len(a) != len(b) {
		fail(fmt.Sprintf("%s: lengths %d and %d", msg, len(a), len(b)))
		return
	}
	for i := range a {
		if a[i] != b[i] {
			fail(fmt.Sprintf("%s: word %d: %#x != %#x", msg, i, a[i], b[i]))
			return
		}
	}
}
func AssertEqWords64(a, b []uint64, msg string) {
	if len(a) != len(b) {
		fail(fmt.Sprintf("%s: lengths %d and %d", msg, len(a), len(b)))
		return
	}
	for i := range a {
		if a[i] != b[i] {
			fail(fmt.Sprintf("%s: word %d: %#x != %#x", msg, i, a[i], b[i]))
			return
		}
	}
}

// Reach marks a point that some input must reach (vacuity guard).
func Reach(label string) {}

// MapOrder selects a map iteration order; SplitCases asks for eager path pruning.
func MapOrder(n int)   {}
func SplitCases(n int) {}

// LoopLimit makes it an error that a loop whose exit depends on symbolic data runs more than n rounds.
func LoopLimit(n int) {}

// Freeze makes unsynchronised writes to already existing memory an error.
func Freeze()   {}
func Unfreeze() {}

// Try reports whether f returned (true) or panicked (false).
func Try(f func()) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			if _, is := r.(assumeFailed); is {
				panic(r)
			}
		}
	}()
	f()
	return true
}

// Concurrent runs f from several goroutines at once; f must only share what the
// code under test shares.
func Concurrent(f func()) {
	var wg sync.WaitGroup
	var mu sync.Mutex
	var pan interface{}
	for i := 0; i < 4; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			threads.Store(goid(), true)
			defer func() {
				if r := recover(); r != nil {
					mu.Lock()
					pan = r
					mu.Unlock()
				}
			}()
			f()
		}()
	}
	wg.Wait()
	if pan != nil {
		panic(pan)
	}
}

var (
	threads  sync.Map // goroutines the harness itself started
	gateMu   sync.Mutex
	gateOpen = make(chan struct{})
)

func goid() string {
	var b [64]byte
	f := strings.Fields(string(b[:runtime.Stack(b[:], false)]))
	return f[1]
}

var chosen int

// Choose is an arbitrary decision below n; each value is followed in a run of its own.
func Choose(what string, n int) int {
	mu.Lock()
	k := chosen
	chosen++
	mu.Unlock()
	return int(val(fmt.Sprintf("choice %d: %s", k, what)))
}

// StrictClock makes every reading of the clock later than the one before.
func StrictClock() {}

// Gate is where a goroutine that the code under test started waits for
// RunGoroutines; the harness's own threads pass.
func Gate() {
	if _, ok := threads.Load(goid()); ok {
		return
	}
	gateMu.Lock()
	g := gateOpen
	gateMu.Unlock()
	select {
	case <-g:
	case <-time.After(2 * time.Second):
	}
}

// RunGoroutines lets spawned goroutines finish.
func RunGoroutines() {
	gateMu.Lock()
	close(gateOpen)
	gateOpen = make(chan struct{})
	gateMu.Unlock()
	time.Sleep(50 * time.Millisecond)
}

// Thread runs f as another thread at this point; a path on which it would have to
// wait for a suspended thread ends.
func Thread(f func()) {
	done := make(chan interface{}, 1)
	go func() {
		defer func() { done <- recover() }()
		threads.Store(goid(), true)
		f()
	}()
	select {
	case r := <-done:
		if r != nil {
			panic(r)
		}
	case <-time.After(2 * time.Second):
		panic(assumeFailed{})
	}
}

// Pending is the number of goroutines spawned and not yet run.
func Pending() int { return 0 }
