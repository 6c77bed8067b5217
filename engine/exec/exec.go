package exec

import (
	"fmt"
	"go/types"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"golang.org/x/tools/go/ssa"

	"verifengine/smt"
	"verifengine/term"
)

type Obligation struct {
	Kind string // assert, panic, frozen
	Msg  string
	PC   []*term.Term
	Cond *term.Term
	// pairs that must be equal (Cond is their conjunction), for sweeping
	Eqs [][2]*term.Term
}

type Exec struct {
	C    *term.Ctx
	L    *Loader
	tc   *typeCache
	root *Heap
	inc  *smt.Inc

	zero64      *term.Term
	nobj        int
	inInit      bool
	epoch       int
	frozenEpoch int
	infos       map[*ssa.Function]*fnInfo
	consts      map[*ssa.Const]Value
	globals     map[*ssa.Global]Value
	inited      map[*ssa.Package]bool
	initPkg     []*ssa.Package
	feasCache   map[feasKey]bool
	lightCache  map[*term.Term]bool
	feasLost    time.Duration
	stubs       map[string]*ssa.Function
	stubUsed    map[string]bool
	modelUsed   map[string]bool
	encoded     map[string]bool
	harnessFn   map[string]bool
	trace       []string
	steps       int64
	forks       int64
	tryDepth    int
	tryPanics   []*State
	spawnObj    *Object
	lockObj     *Object
	chosen      int      // choices made in this run
	trail       []choice // the run's decisions
	Runs        int
	tid         int // running thread, 0 is the harness
	threads     int
	onceStart   []int64
	strictClock bool
	tracking    bool
	reads       map[accessKey][]access
	writes      map[accessKey][]access
	fsObj       *Object
	clockObj    *Object // latest instant read
	timeN       int
	uniq        int

	MaxSteps  int64
	MaxUnwind int
	LoopLimit int // when set, more undecided rounds of one loop are an obligation
	FeasAll   bool
	MapOrder  int
	Tier      int
	ArchTag   string

	Obls     []*Obligation
	Reaches  []Reach
	Vars     map[string]*term.Term
	VarOrder []string
	LazyN    map[string]int64
	Asserts  int64
	Pins     []*term.Term
	Deadline time.Time
	Closed   [][2]*term.Term
	Assumes  []string
	Notes    []string
	Trivial  int64 // assertions closed by the rewriter
	Pairs    [][2]*term.Term
}

// LowMem asks running executions to stop.
var LowMem atomic.Bool

type Reach struct {
	Label string
	PC    []*term.Term
}

func New(l *Loader, st *smt.Stats) *Exec {
	x := &Exec{
		C: term.NewCtx(), L: l, tc: &typeCache{sizes: types.SizesFor("gc", "amd64")},
		infos: map[*ssa.Function]*fnInfo{}, consts: map[*ssa.Const]Value{}, globals: map[*ssa.Global]Value{},
		inited: map[*ssa.Package]bool{}, feasCache: map[feasKey]bool{}, lightCache: map[*term.Term]bool{}, stubs: map[string]*ssa.Function{},
		stubUsed: map[string]bool{}, modelUsed: map[string]bool{}, encoded: map[string]bool{}, harnessFn: map[string]bool{},
		MaxSteps: 200_000_000, MaxUnwind: 20000, Vars: map[string]*term.Term{}, LazyN: map[string]int64{},
	}
	x.inc = smt.NewInc(3000, st)
	x.C.UF = x.evalUF
	x.zero64 = x.C.Const(0, 64)
	x.root = newHeap(nil)
	st0 := &State{heap: x.root}
	x.spawnObj = x.allocNative(st0, "spawned", &spawnList{})
	x.lockObj = x.allocNative(st0, "locks", x.zero64)
	x.fsObj = x.allocNative(st0, "fs", nil)
	x.clockObj = x.allocNative(st0, "clock", x.zero64)
	for _, o := range []*Object{x.spawnObj, x.lockObj, x.fsObj, x.clockObj} {
		o.Epoch = 1 << 30
	}
	return x
}

func (x *Exec) Close() { x.inc.Close() }

func (x *Exec) addObl(o *Obligation) {
	x.Obls = append(x.Obls, o)
}

// RunHarness executes fn (no arguments) from the initial state.
func (x *Exec) RunHarness(fn *ssa.Function) (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch u := r.(type) {
			case Unsupported:
				tr := x.trace
				if len(tr) > 6 {
					tr = tr[len(tr)-6:]
				}
				for i := range tr {
					tr[i] = shortName(tr[i])
				}
				err = unsupported("%s [in %s]", u.Msg, strings.Join(tr, " > "))
			case unionSlice:
				err = unsupported("slice with several possible backing arrays [in %v]", x.trace)
			default:
				panic(r)
			}
		}
	}()
	x.L.build(fn)
	for {
		x.Runs++
		st := &State{heap: newHeap(x.root)}
		x.epoch, x.frozenEpoch, x.chosen, x.tid, x.timeN = 1, 0, 0, 0, 0
		x.MapOrder, x.LoopLimit, x.FeasAll, x.strictClock = 0, 0, false, false
		if fn.Pkg != nil {
			x.ensureInit(fn.Pkg)
		}
		x.callFunction(st, fn, nil, nil, 0)
		if !x.nextRun() {
			return nil
		}
		if !x.Deadline.IsZero() && time.Now().After(x.Deadline) {
			panic(unsupported("time budget exhausted after %d runs", x.Runs))
		}
	}
}

func (x *Exec) where() string {
	if n := len(x.trace); n > 0 {
		return shortName(x.trace[n-1])
	}
	return ""
}

// A frozenWrite hits memory that other threads can reach.
func (x *Exec) frozenWrite(st *State, o *Object, cell int) {
	held := x.held(st)
	C := x.C
	sync := C.BOr(C.BNot(C.Eq(C.Extract(held, 15, 0), C.Const(0, 16))), C.BNot(C.Eq(C.Extract(held, 47, 32), C.Const(0, 16))))
	x.recordWrite(st, o, cell, held)
	if sync.IsTrue() {
		return
	}
	x.addObl(&Obligation{Kind: "shared-write", Msg: "unsynchronised write to shared memory " + o.Name + " in " + x.where(), PC: st.pc.list(), Cond: sync})
}

// Accesses to shared memory while a harness runs code concurrently with itself.
type accessKey struct {
	o    *Object
	cell int
}
type access struct {
	pc    []*term.Term
	step  int64 // of a read; for a write in a once section, where that began
	once  bool
	where string
}

const maxAccess = 6

func (x *Exec) recordWrite(st *State, o *Object, cell int, held *term.Term) {
	if !x.tracking || !held.IsConst() {
		return
	}
	h := held.U64()
	a := access{pc: st.pc.list(), where: x.where()}
	switch {
	case h&0xffff != 0:
	case h>>32 != 0 && len(x.onceStart) > 0:
		a.once, a.step = true, x.onceStart[0]
	default:
		return
	}
	k := accessKey{o, cell}
	if len(x.writes[k]) < maxAccess {
		x.writes[k] = append(x.writes[k], a)
	}
}

func (x *Exec) noteRead(st *State, o *Object, cell int) {
	if !x.tracking || x.inInit || x.frozenEpoch == 0 || o.Epoch >= x.frozenEpoch {
		return
	}
	held := x.held(st)
	if !held.IsConst() {
		return
	}
	h := held.U64()
	if h&0xffffffff != 0 {
		return
	}
	k := accessKey{o, cell}
	if len(x.reads[k]) < maxAccess {
		x.reads[k] = append(x.reads[k], access{pc: st.pc.list(), step: x.steps, once: h>>32 != 0, where: x.where()})
	}
}

// sharedReads reports reads without the lock of memory the same code writes under it.
func (x *Exec) sharedReads() {
	var keys []accessKey
	for k := range x.reads {
		if len(x.writes[k]) > 0 {
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool {
		if keys[i].o.ID != keys[j].o.ID {
			return keys[i].o.ID < keys[j].o.ID
		}
		return keys[i].cell < keys[j].cell
	})
	seen := map[string]bool{}
	for _, k := range keys {
		for _, r := range x.reads[k] {
			for _, w := range x.writes[k] {
				if w.once && (r.once || r.step >= w.step) {
					continue
				}
				pc := append(append([]*term.Term(nil), r.pc...), w.pc...)
				m := fmt.Sprintf("read without the lock in %s of memory %s written with it in %s", r.where, k.o.Name, w.where)
				if seen[m] {
					continue
				}
				seen[m] = true
				x.addObl(&Obligation{Kind: "shared-read", Msg: m, PC: pc, Cond: x.C.False})
			}
		}
	}
}

func (x *Exec) Encoded() []string {
	var out []string
	for k := range x.encoded {
		out = append(out, k)
	}
	return out
}
func (x *Exec) Steps() int64 { return x.steps }
func (x *Exec) Forks() int64 { return x.forks }
func (x *Exec) Models() []string {
	var out []string
	for k := range x.modelUsed {
		out = append(out, k)
	}
	for k := range x.stubUsed {
		out = append(out, "stub:"+k)
	}
	return out
}

// SetStub redirects calls of the named function.
func (x *Exec) SetStub(target string, f *ssa.Function) { x.stubs[target] = f }

// EvalUF evaluates a modelled external function on constants.
func (x *Exec) EvalUF(name string, w int32, args []*term.Term) (*term.Term, bool) {
	return x.evalUF(name, w, args)
}

// IsHarnessFn reports whether the named executed function belongs to a harness file.
func (x *Exec) IsHarnessFn(name string) bool { return x.harnessFn[name] }
