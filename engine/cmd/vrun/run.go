package main

import (
	"encoding/hex"
	"fmt"
	"hash/fnv"
	"math/big"
	"math/rand"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"

	"verifengine/exec"
	"verifengine/smt"
	"verifengine/term"
)

func runHarness(ld *exec.Loader, h *harness, st *smt.Stats) (r *result) {
	t0 := time.Now()
	r = &result{h: h, bysolver: map[string]int{}}
	defer func() {
		if e := recover(); e != nil {
			r.err = short(fmt.Sprintf("internal error: %v", e), 300)
			vlog("%s: %v\n%s", h.Name, e, debug.Stack())
		}
		r.wall = time.Since(t0).Seconds()
		r.x = nil
	}()
	pkg := ld.Pkgs[pkgPath(h.Rel)]
	if pkg == nil {
		r.err = "package not loaded"
		return
	}
	fn := pkg.Func(h.Name)
	if fn == nil {
		r.err = "function not found"
		return
	}
	x := exec.New(ld, st)
	defer x.Close()
	if *fTier == "thorough" {
		x.Tier = 1
		x.MaxSteps = 4_000_000_000
	}
	x.Deadline = deadline
	for _, s := range h.Stubs {
		f := pkg.Func(s.Fn)
		if f == nil {
			r.err = "stub " + s.Fn + " not found"
			return
		}
		x.SetStub(s.Target, f)
	}
	err := x.RunHarness(fn)
	if err != nil {
		r.err = short(err.Error(), 400)
	}
	r.asserts, r.trivial, r.obls = x.Asserts, x.Trivial, len(x.Obls)
	r.steps, r.forks, r.nterms, r.vars = x.Steps(), x.Forks(), x.C.NumTerms(), len(x.Vars)
	for _, e := range x.Encoded() {
		if !strings.Contains(e, symPkg) && !x.IsHarnessFn(e) {
			r.encoded = append(r.encoded, e)
		}
	}
	r.models = x.Models()
	vlog("%s: executed in %.1fs: %d steps %d forks %d terms %d asserts %d trivial %d obligations err=%q", h.Name, time.Since(t0).Seconds(), r.steps, r.forks, r.nterms, r.asserts, r.trivial, r.obls, r.err)
	d := &discharger{r: r, x: x, st: st, h: h, negs: map[*exec.Obligation]*term.Term{}}
	d.run()
	return
}

const symPkg = module + "/internal/verifsym"

func pkgPath(rel string) string { return module + "/" + rel }

type discharger struct {
	r    *result
	x    *exec.Exec
	st   *smt.Stats
	h    *harness
	nq   int
	mu   sync.Mutex
	negs map[*exec.Obligation]*term.Term
}

func (d *discharger) neg(o *exec.Obligation) *term.Term {
	d.mu.Lock()
	defer d.mu.Unlock()
	n := d.negs[o]
	if n != nil {
		return n
	}
	pc, cond := o.PC, o.Cond
	if len(pc) > 0 && !cond.IsConst() {
		p, q := d.x.C.Under(pc, cond)
		if p == nil {
			n = d.x.C.False
		} else {
			pc, cond = p, q
		}
	}
	if n == nil {
		n = d.x.C.AndN(append(append([]*term.Term(nil), pc...), d.x.C.BNot(cond))...)
	}
	d.negs[o] = n
	return n
}

func (d *discharger) remaining() time.Duration {
	t := time.Until(deadline)
	if violStop.Load() && t > 5*time.Second {
		t = 5 * time.Second
	}
	if t < 0 {
		return 0
	}
	return t
}

func (d *discharger) solve(as []*term.Term, want []*term.Term, to time.Duration) *smt.Answer {
	if rem := d.remaining(); to > rem {
		to = rem
	}
	if to <= 0 {
		return &smt.Answer{R: smt.Unknown, Err: "time budget exhausted"}
	}
	q := &smt.Query{C: d.x.C, Asserts: as, Want: want, Timeout: to}
	if *fDump != "" {
		d.mu.Lock()
		d.nq++
		q.Dump = filepath.Join(*fDump, fmt.Sprintf("%s-%03d.smt2", d.h.Name, d.nq))
		d.mu.Unlock()
	}
	a := smt.Solve(q, d.st)
	d.mu.Lock()
	d.r.queries++
	d.r.bysolver[a.Solver+" "+a.R.String()]++
	if s := a.Dur.Seconds(); s > d.r.slowest {
		d.r.slowest = s
	}
	d.mu.Unlock()
	return a
}

func wants(roots ...*term.Term) []*term.Term {
	seen := map[*term.Term]bool{}
	var w []*term.Term
	add := func(t *term.Term) {
		if !t.IsConst() && !seen[t] {
			seen[t] = true
			w = append(w, t)
		}
	}
	for _, v := range term.Vars(roots...) {
		add(v)
	}
	for _, u := range term.UFs(roots...) {
		add(u)
		for _, a := range u.Args {
			add(a)
		}
	}
	return w
}

// run discharges every obligation of the harness.
func (d *discharger) run() {
	x, r := d.x, d.r
	// one query over the equalities the normaliser closed
	if len(x.Closed) > 0 {
		seen := map[*term.Term]bool{}
		var any []*term.Term
		n := 0
		for _, p := range x.Closed {
			if !seen[p[0]] && p[0].W > 0 && n < 40 {
				seen[p[0]] = true
				any = append(any, x.C.RawNeq(p[0], p[1]))
				n++
			}
		}
		if len(any) > 0 {
			d.solve([]*term.Term{x.C.RawOr(any)}, nil, 60*time.Second)
		}
	}
	var todo []*exec.Obligation
	for _, o := range x.Obls {
		if d.neg(o).IsFalse() {
			r.proved++
			r.trivial += 0
			continue
		}
		todo = append(todo, o)
	}
	// witnesses
	var wg sync.WaitGroup
	labels := map[string]bool{}
	okLabel := map[string]bool{}
	type wit struct {
		label string
		ans   *smt.Answer
		pc    []*term.Term
	}
	var wits []wit
	for _, rc := range x.Reaches {
		labels[rc.Label] = true
	}
	perLabel := map[string]int{}
	for _, rc := range x.Reaches {
		if perLabel[rc.Label] >= 3 {
			continue
		}
		perLabel[rc.Label]++
		rc := rc
		wg.Add(1)
		go func() {
			defer wg.Done()
			a := d.solve(rc.PC, wants(rc.PC...), 40*time.Second)
			d.mu.Lock()
			defer d.mu.Unlock()
			if a.R == smt.Sat {
				okLabel[rc.Label] = true
				wits = append(wits, wit{rc.Label, a, rc.PC})
			} else if a.R == smt.Unknown {
				okLabel[rc.Label] = okLabel[rc.Label] || false
			}
		}()
	}
	d.discharge(todo)
	wg.Wait()
	for l := range labels {
		if okLabel[l] {
			r.reached++
		} else {
			r.vacuous = append(r.vacuous, "no input found reaching "+l)
		}
	}
	if r.err == "" && len(labels) == 0 && len(todo) == 0 && x.Asserts == 0 {
		r.vacuous = append(r.vacuous, "harness has no assertion")
	}
	// concrete runs of witness inputs through the compiled code
	if len(r.viol) == 0 && !*fNoRep {
		sort.Slice(wits, func(i, j int) bool { return wits[i].label < wits[j].label })
		for i, w := range wits {
			if i >= 2 {
				break
			}
			ce := d.counterexample(w.ans)
			ce.HashTab = len(ce.Hash) > 0
			queueWitness(d.h, ce, r)
		}
	}
}

func (d *discharger) discharge(todo []*exec.Obligation) {
	x, r := d.x, d.r
	skipMsg := map[string]bool{}
	for round := 0; len(todo) > 0 && round < 30; round++ {
		var ns []*term.Term
		for _, o := range todo {
			ns = append(ns, d.neg(o))
		}
		all := x.C.OrN(ns...)
		to := 60 * time.Second
		if len(todo) == 1 {
			to = 200 * time.Second
		}
		if *fTier == "thorough" {
			to *= 5
		}
		a := d.solve([]*term.Term{all}, wants(all), min(to, 20*time.Second))
		if a.R == smt.Unknown {
			if g := d.guess(all, 30*time.Second); g != nil {
				a = g
			} else {
				a = d.solve([]*term.Term{all}, wants(all), to)
			}
		}
		switch a.R {
		case smt.Unsat:
			r.proved += len(todo)
			return
		case smt.Unknown:
			if len(todo) == 1 {
				d.single(todo[0], ns[0])
				return
			}
			// individually, in parallel
			var wg sync.WaitGroup
			var mu sync.Mutex
			var again []*exec.Obligation
			for i := range todo {
				i := i
				wg.Add(1)
				go func() {
					defer wg.Done()
					to := 100 * time.Second
					if *fTier == "thorough" {
						to *= 6
					}
					b := d.solve([]*term.Term{ns[i]}, wants(ns[i]), to)
					mu.Lock()
					defer mu.Unlock()
					switch b.R {
					case smt.Unsat:
						r.proved++
					case smt.Sat:
						if !d.candidate([]*exec.Obligation{todo[i]}, []*term.Term{ns[i]}, b, skipMsg) {
							r.unconf = append(r.unconf, todo[i].Kind+": "+todo[i].Msg)
						}
					default:
						again = append(again, todo[i])
					}
				}()
			}
			wg.Wait()
			for _, o := range again {
				d.single(o, d.neg(o))
			}
			return
		}
		// sat: which obligations does the model violate?
		before := len(todo)
		if d.candidate(todo, ns, a, skipMsg) {
			if d.fatal() {
				return
			}
		}
		var keep []*exec.Obligation
		for _, o := range todo {
			if !skipMsg[o.Kind+o.Msg] {
				keep = append(keep, o)
			}
		}
		todo = keep
		if len(todo) == before {
			r.unconf = append(r.unconf, "no progress on satisfiable query")
			return
		}
	}
}

func (d *discharger) fatal() bool {
	for _, v := range d.r.viol {
		if v.Known == "" {
			return true
		}
	}
	return false
}

// single is the last resort for one hard obligation.
func (d *discharger) single(o *exec.Obligation, n *term.Term) {
	r := d.r
	if len(o.Eqs) > 1 {
		// split by element
		ok := true
		for _, e := range o.Eqs {
			q := d.x.C.AndN(append(append([]*term.Term(nil), o.PC...), d.x.C.BNot(d.x.C.Eq(e[0], e[1])))...)
			if q.IsFalse() {
				continue
			}
			a := d.solve([]*term.Term{q}, wants(q), 60*time.Second)
			if a.R == smt.Sat {
				if !d.candidate([]*exec.Obligation{o}, []*term.Term{n}, a, map[string]bool{}) {
					r.unconf = append(r.unconf, o.Kind+": "+o.Msg)
				}
				return
			}
			if a.R != smt.Unsat {
				ok = false
				break
			}
		}
		if ok {
			r.proved++
			return
		}
	}
	r.unknown = append(r.unknown, o.Kind+": "+o.Msg)
}

// candidate replays a model; violated messages are marked in skip.
func (d *discharger) candidate(obs []*exec.Obligation, ns []*term.Term, a *smt.Answer, skip map[string]bool) bool {
	x, r := d.x, d.r
	confirmed := false
	first := a
	tried := false
	// table replays the first model with the solver's values for the external hashes
	table := func(bad []*exec.Obligation) bool {
		if tried || *fNoRep {
			return false
		}
		tried = true
		ce := d.counterexample(first)
		if len(ce.Hash) == 0 {
			return false
		}
		ce.HashTab = true
		b := d.violated(obs, ns, first)
		if len(b) == 0 {
			b = bad[:1]
		}
		ce.Kind, ce.Msg = b[0].Kind, b[0].Msg
		ok, out := replay(d.h, ce, b[0].Kind)
		vlog("%s: candidate %s %q with chosen hash values reproduces=%v %s", d.h.Name, ce.Kind, ce.Msg, ok, short(out, 300))
		if !ok {
			return false
		}
		d.confirm(ce, b, out+" (with the external hash functions' outputs chosen by the solver)", skip)
		return true
	}
	for iter := 0; iter < 12; iter++ {
		bad := d.violated(obs, ns, a)
		if len(bad) == 0 {
			// model evaluation disagrees with the solver: treat all as candidates
			bad = obs[:1]
		}
		ce := d.counterexample(a)
		ce.Kind, ce.Msg = bad[0].Kind, bad[0].Msg
		var out string
		ok := false
		if *fNoRep {
			ok, out = true, "not replayed"
		} else {
			ok, out = replay(d.h, ce, bad[0].Kind)
		}
		vlog("%s: candidate %s %q reproduces=%v %s", d.h.Name, bad[0].Kind, bad[0].Msg, ok, short(out, 300))
		if ok {
			d.confirm(ce, bad, out, skip)
			return true
		}
		if iter >= 3 && table(bad) {
			return true
		}
		// tie external hash applications to their real values at this point and retry
		pins := d.pins(ns, a)
		if len(pins) == 0 {
			if table(bad) {
				return true
			}
			for _, b := range bad {
				skip[b.Kind+b.Msg] = true
				r.unconf = append(r.unconf, fmt.Sprintf("%s: %s (native: %s)", b.Kind, b.Msg, short(out, 200)))
			}
			return confirmed
		}
		x.Pins = append(x.Pins, pins...)
		all := x.C.OrN(ns...)
		b := d.solve(append([]*term.Term{all}, x.Pins...), wants(append([]*term.Term{all}, x.Pins...)...), 60*time.Second)
		if b.R != smt.Sat {
			if table(bad) {
				return true
			}
			for _, o := range bad {
				skip[o.Kind+o.Msg] = true
				r.unconf = append(r.unconf, fmt.Sprintf("%s: %s (not reproduced: %s)", o.Kind, o.Msg, short(out, 200)))
			}
			return confirmed
		}
		a = b
	}
	for _, o := range obs {
		if !skip[o.Kind+o.Msg] {
			skip[o.Kind+o.Msg] = true
			r.unconf = append(r.unconf, o.Kind+": "+o.Msg+" (replay did not converge)")
		}
	}
	return confirmed
}

func (d *discharger) confirm(ce *ceData, bad []*exec.Obligation, out string, skip map[string]bool) {
	v := &violation{H: d.h, Kind: bad[0].Kind, Msg: bad[0].Msg, Native: out, Summary: short(out, 400)}
	v.Known = isKnown(d.h.Prop, d.h, bad[0].Kind+": "+bad[0].Msg)
	if v.Known == "" {
		v.File = saveReplay(d.h, ce, out)
	}
	d.mu.Lock()
	d.r.viol = append(d.r.viol, v)
	d.mu.Unlock()
	if v.Known == "" {
		noteViolation(v)
	}
	for _, b := range bad {
		skip[b.Kind+b.Msg] = true
	}
}

func (d *discharger) evaluator(a *smt.Answer, roots ...*term.Term) *term.Evaluator {
	m := &term.Model{Vars: map[string]*term.Term{}}
	tab := map[string]*term.Term{}
	for t, v := range a.Vals {
		switch t.Op {
		case term.OVar:
			m.Vars[t.Name] = v
		}
	}
	for t := range a.Vals {
		if t.Op == term.OUF {
			k, ok := d.ufKey(t, a)
			if ok {
				tab[k] = a.Vals[t]
			}
		}
	}
	m.UF = func(name string, w int32, args []*term.Term) *term.Term {
		k := ufName(name, args)
		if v, ok := tab[k]; ok {
			return v
		}
		if w == 0 {
			return d.x.C.False
		}
		return d.x.C.Const(0, w)
	}
	return term.NewEvaluator(d.x.C, m)
}

func ufName(name string, args []*term.Term) string {
	var s []string
	for _, a := range args {
		s = append(s, a.Big().Text(16))
	}
	return name + "(" + strings.Join(s, ",") + ")"
}

func (d *discharger) ufKey(t *term.Term, a *smt.Answer) (string, bool) {
	var args []*term.Term
	for _, g := range t.Args {
		if g.IsConst() {
			args = append(args, g)
			continue
		}
		v, ok := a.Vals[g]
		if !ok {
			return "", false
		}
		args = append(args, v)
	}
	return ufName(t.Name, args), true
}

func (d *discharger) violated(obs []*exec.Obligation, ns []*term.Term, a *smt.Answer) []*exec.Obligation {
	ev := d.evaluator(a)
	var out []*exec.Obligation
	for i, o := range obs {
		if ev.Eval(ns[i]).IsTrue() {
			out = append(out, o)
		}
	}
	return out
}

// pins returns implications fixing modelled hashes at the model's arguments to real values.
func (d *discharger) pins(ns []*term.Term, a *smt.Answer) []*term.Term {
	x := d.x
	var out []*term.Term
	for t := range a.Vals {
		if t.Op != term.OUF || !(strings.HasPrefix(t.Name, "hash:") || t.Name == "isprime") {
			continue
		}
		var args []*term.Term
		ok := true
		guard := []*term.Term{}
		for _, g := range t.Args {
			v := g
			if !g.IsConst() {
				v, ok = a.Vals[g]
				if !ok {
					break
				}
				guard = append(guard, x.C.Eq(g, v))
			}
			args = append(args, v)
		}
		if !ok {
			continue
		}
		real, ok := x.EvalUF(t.Name, t.W, args)
		if !ok || real == a.Vals[t] {
			continue
		}
		out = append(out, x.C.Implies(x.C.AndN(guard...), x.C.Eq(t, real)))
	}
	return out
}

// counterexample turns a model into replay data.
func (d *discharger) counterexample(a *smt.Answer) *ceData {
	ce := &ceData{Vars: map[string]string{}, UF: map[string]string{}, Lazy: map[string]map[string]string{}, Hash: map[string]string{}, Tier: d.x.Tier, Harness: d.h.Name, Rel: d.h.Rel, Property: d.h.Prop}
	for t, v := range a.Vals {
		switch t.Op {
		case term.OVar:
			ce.Vars[t.Name] = v.Big().Text(16)
		case term.OUF:
			var args []*term.Term
			ok := true
			for _, g := range t.Args {
				c := g
				if !g.IsConst() {
					c, ok = a.Vals[g]
				}
				if !ok {
					break
				}
				args = append(args, c)
			}
			if !ok {
				continue
			}
			switch {
			case strings.HasPrefix(t.Name, "mem:"):
				n := t.Name[4:]
				if ce.Lazy[n] == nil {
					ce.Lazy[n] = map[string]string{}
				}
				ce.Lazy[n][args[0].Big().Text(16)] = v.Big().Text(16)
			case strings.HasPrefix(t.Name, "hash:"):
				b := make([]byte, len(args))
				for i := range args {
					b[i] = byte(args[i].U64())
				}
				o := v.Big().FillBytes(make([]byte, t.W/8))
				ce.Hash[t.Name+"("+hex.EncodeToString(b)+")"] = hex.EncodeToString(o)
			default:
				ce.UF[ufName(t.Name, args)] = v.Big().Text(16)
			}
		}
	}
	return ce
}

var _ = ssa.NaiveForm

// guess evaluates a formula the solver did not decide quickly on a few concrete
// assignments; a hit is only ever used as a counterexample candidate for replay.
func (d *discharger) guess(f *term.Term, limit time.Duration) *smt.Answer {
	x := d.x
	ws := wants(f)
	end := time.Now().Add(limit)
	rng := rand.New(rand.NewSource(1))
	for try := 0; try < 400 && time.Now().Before(end); try++ {
		style := try % 5
		salt := rng.Uint64()
		word := func(h uint64, w int32) *term.Term {
			if w == 0 {
				return x.C.Bool(h&1 == 1)
			}
			b := new(big.Int)
			for got := int32(0); got < w; got += 64 {
				h = h*6364136223846793005 + 1442695040888963407
				v := h ^ h>>29
				switch {
				case style == 1:
					v = 0
				case style == 2 && h>>60 < 12:
					v &= 3
				case style == 3 && h>>61 < 4:
					v = 0
				case style == 4 && h>>61 < 4:
					v = ^uint64(0)
				}
				b.Lsh(b, 64).Or(b, new(big.Int).SetUint64(v))
			}
			return x.C.ConstBig(b.And(b, new(big.Int).Sub(new(big.Int).Lsh(big.NewInt(1), uint(w)), big.NewInt(1))), w)
		}
		hash := func(s string) uint64 {
			h := fnv.New64a()
			h.Write([]byte(s))
			return h.Sum64() ^ salt
		}
		m := &term.Model{Vars: map[string]*term.Term{}}
		m.Default = func(name string, w int32) *term.Term { return word(hash(name), w) }
		m.UF = func(name string, w int32, args []*term.Term) *term.Term {
			if strings.HasPrefix(name, "hash:") || name == "isprime" {
				if r, ok := x.EvalUF(name, w, args); ok {
					return r
				}
			}
			return word(hash(ufName(name, args)), w)
		}
		d.mu.Lock()
		ev := term.NewEvaluator(x.C, m)
		hit := ev.Eval(f).IsTrue()
		var a *smt.Answer
		if hit {
			a = &smt.Answer{R: smt.Sat, Solver: "evaluation", Vals: map[*term.Term]*term.Term{}}
			for _, t := range ws {
				a.Vals[t] = ev.Eval(t)
			}
			d.r.bysolver["evaluation sat"]++
		}
		d.mu.Unlock()
		if hit {
			return a
		}
	}
	return nil
}
