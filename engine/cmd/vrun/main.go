// Command vrun decides one property by symbolic execution of the code in /repo.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"verifengine/exec"
	"verifengine/smt"
)

const module = "github.com/sencha-dev/powkit"

var (
	fProp    = flag.String("property", "", "property id")
	fTier    = flag.String("tier", "", "quick or thorough")
	fRepo    = flag.String("repo", "/repo", "repository")
	fVerif   = flag.String("verif", "", "framework directory")
	fOnly    = flag.String("only", "", "regexp of harness functions")
	fV       = flag.Bool("v", false, "verbose")
	fBudget  = flag.Int("budget", 0, "seconds of wall clock for solving")
	fDump    = flag.String("dump", "", "directory for SMT scripts")
	fJ       = flag.Int("j", 8, "parallel harnesses")
	fReplay  = flag.String("replay", "", "replay a saved counterexample")
	fNoRep   = flag.Bool("noreplay", false, "do not replay counterexamples")
	fKeep    = flag.Bool("keep", false, "keep the scratch directory")
	deadline time.Time
	start    = time.Now()
	scratch  string
	outMu    sync.Mutex
)

func logf(f string, a ...interface{}) {
	outMu.Lock()
	defer outMu.Unlock()
	fmt.Printf("[%6.1fs] "+f+"\n", append([]interface{}{time.Since(start).Seconds()}, a...)...)
}

func vlog(f string, a ...interface{}) {
	if *fV {
		logf(f, a...)
	}
}

func die(f string, a ...interface{}) {
	logf("ERROR "+f, a...)
	cleanup()
	os.Exit(2)
}

func cleanup() {
	if scratch != "" && !*fKeep {
		os.RemoveAll(scratch)
	}
}

type result struct {
	h         *harness
	err       string
	x         *exec.Exec
	asserts   int64
	trivial   int64
	obls      int
	proved    int
	unknown   []string
	unconf    []string
	vacuous   []string
	reached   int
	validated int
	queries   int
	viol      []*violation
	wall      float64
	bounds    []string
	encoded   []string
	models    []string
	steps     int64
	forks     int64
	nterms    int
	vars      int
	sample    string
	slowest   float64
	bysolver  map[string]int
}

type violation struct {
	H       *harness
	Kind    string
	Msg     string
	File    string
	Native  string
	Known   string
	Summary string
}

type knownFinding struct {
	Property string `json:"property"`
	Harness  string `json:"harness"`
	Msg      string `json:"msg"` // regexp on the failing assertion
	What     string `json:"what"`
}

type knownFile struct {
	Findings []knownFinding `json:"findings"`
	Fixed    []string       `json:"fixed"`
}

var known knownFile

var (
	resMu    sync.Mutex
	violMu   sync.Mutex
	violCh   = make(chan struct{})
	violAll  []*violation
	violStop atomic.Bool
)

// noteViolation records a confirmed unlisted violation and tells main to wind down.
func noteViolation(v *violation) {
	violMu.Lock()
	defer violMu.Unlock()
	violAll = append(violAll, v)
	if len(violAll) == 1 {
		violStop.Store(true)
		close(violCh)
	}
}

func violOf(h *harness) []*violation {
	violMu.Lock()
	defer violMu.Unlock()
	var out []*violation
	for _, v := range violAll {
		if v.H == h {
			out = append(out, v)
		}
	}
	return out
}

// watchMemory stops symbolic executions (reported as reduced bounds) before the heap
// reaches the memory of the machine.
func watchMemory() {
	var m runtime.MemStats
	for {
		runtime.ReadMemStats(&m)
		exec.LowMem.Store(m.HeapAlloc > 12<<30)
		time.Sleep(500 * time.Millisecond)
	}
}

func main() {
	flag.Parse()
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(9 << 30)
	go watchMemory()
	if *fVerif == "" {
		e, _ := os.Executable()
		*fVerif = filepath.Dir(filepath.Dir(e))
	}
	if *fTier == "" {
		*fTier = os.Getenv("VERIF_TIER")
	}
	if *fTier != "thorough" {
		*fTier = "quick"
	}
	b := *fBudget
	if b == 0 {
		b = 420
		if *fTier == "thorough" {
			b = 2400
		}
	}
	deadline = start.Add(time.Duration(b) * time.Second)
	os.Setenv("GOFLAGS", "-mod=mod")
	os.Setenv("GOPROXY", "off")
	os.Setenv("GOSUMDB", "off")
	os.Setenv("GOTOOLCHAIN", "local")
	var err error
	scratch, err = os.MkdirTemp("", "verif-")
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	kb, err := os.ReadFile(filepath.Join(*fVerif, "known_findings.json"))
	if err == nil {
		if err := json.Unmarshal(kb, &known); err != nil {
			die("known_findings.json: %v", err)
		}
	}
	if *fReplay != "" {
		os.Exit(replaySaved(*fReplay))
	}
	hs, err := discover(*fVerif, *fProp)
	if err != nil {
		die("%v", err)
	}
	if *fOnly != "" {
		re := regexp.MustCompile(*fOnly)
		var k []*harness
		for _, h := range hs {
			if re.MatchString(h.Name) {
				k = append(k, h)
			}
		}
		hs = k
	}
	if *fTier == "quick" {
		var k []*harness
		for _, h := range hs {
			if !h.Thorough {
				k = append(k, h)
			}
		}
		hs = k
	}
	if len(hs) == 0 {
		die("no harness for %s", *fProp)
	}
	ld, dropped, err := loadAll(hs)
	if err != nil {
		die("%v", err)
	}
	vlog("loaded %d harnesses", len(hs))
	var st smt.Stats
	sem := make(chan struct{}, *fJ)
	var wg sync.WaitGroup
	results := make([]*result, len(hs))
	// longest first is unknown; keep file order
	for i, h := range hs {
		if dropped[h.File] != "" {
			results[i] = &result{h: h, err: "harness does not compile against this tree: " + dropped[h.File]}
			continue
		}
		wg.Add(1)
		go func(i int, h *harness) {
			defer wg.Done()
			sem <- struct{}{}
			defer func() { <-sem }()
			r := runHarness(ld, h, &st)
			resMu.Lock()
			if results[i] == nil {
				results[i] = r
			}
			resMu.Unlock()
			runtime.GC()
		}(i, h)
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	select {
	case <-done:
	case <-violCh:
		// a confirmed violation settles the exit code; give the rest a moment only
		select {
		case <-done:
		case <-time.After(15 * time.Second):
		}
		resMu.Lock()
		for i := range results {
			if results[i] == nil {
				results[i] = &result{h: hs[i], err: "not finished: stopped after a violation was confirmed", viol: violOf(hs[i])}
			}
		}
		snap := append([]*result(nil), results...)
		resMu.Unlock()
		results = snap
	}
	code := report(hs, results, &st)
	cleanup()
	os.Exit(code)
}

func report(hs []*harness, rs []*result, st *smt.Stats) int {
	nv := 0
	var tot, disc, triv int64
	var unk, reduced, unconf, vac, enc, models, samples []string
	encSet, modSet := map[string]bool{}, map[string]bool{}
	bySolver := map[string]int{}
	var steps, forks int64
	slow := 0.0
	reaches, valid := 0, 0
	seenV := map[string]bool{}
	knownSeen := map[string]bool{}
	for _, r := range rs {
		if r == nil {
			continue
		}
		if r.err != "" {
			reduced = append(reduced, r.h.Name+": "+r.err)
		}
		tot += r.asserts
		tot += int64(r.obls) - (r.asserts - r.trivial)
		disc += r.trivial + int64(r.proved)
		triv += r.trivial
		for _, u := range r.unknown {
			unk = append(unk, r.h.Name+": "+u)
		}
		for _, u := range r.unconf {
			unconf = append(unconf, r.h.Name+": "+u)
		}
		for _, u := range r.vacuous {
			vac = append(vac, r.h.Rel+" "+r.h.Name+": "+u)
		}
		for _, e := range r.encoded {
			encSet[e] = true
		}
		for _, e := range r.models {
			modSet[e] = true
		}
		for k, v := range r.bysolver {
			bySolver[k] += v
		}
		steps += r.steps
		forks += r.forks
		reaches += r.reached
		valid += r.validated
		if r.slowest > slow {
			slow = r.slowest
		}
		samples = append(samples, fmt.Sprintf("%s [%s]: %d assertions (%d closed by normalisation), %d of %d remaining obligations discharged by solver, %d terms, %d inputs, %.1fs%s", r.h.Name, r.h.Doc, r.asserts, r.trivial, r.proved, r.obls, r.nterms, r.vars, r.wall, r.sample))
		for _, v := range r.viol {
			if v.Known != "" {
				if !knownSeen[v.Known] {
					knownSeen[v.Known] = true
					fmt.Printf("KNOWN-FINDING: property=%s %s\n", *fProp, v.Known)
				}
				continue
			}
			k := v.H.Name + v.Kind + v.Msg
			if seenV[k] {
				continue
			}
			seenV[k] = true
			nv++
			fmt.Printf("violation in %s: %s: %s\n  %s\n", v.H.Name, v.Kind, v.Msg, v.Summary)
			fmt.Printf("VIOLATION property=%s replay=%s\n", *fProp, v.File)
		}
	}
	for e := range encSet {
		enc = append(enc, e)
	}
	for e := range modSet {
		models = append(models, e)
	}
	sort.Strings(enc)
	sort.Strings(models)
	for _, u := range reduced {
		logf("REDUCED-BOUND %s", u)
	}
	for _, u := range unk {
		logf("UNDECIDED %s", u)
	}
	for _, u := range unconf {
		logf("UNCONFIRMED %s", u)
	}
	for _, u := range vac {
		logf("VACUOUS %s", u)
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	var bounds []string
	for _, h := range hs {
		if h.Doc != "" {
			bounds = append(bounds, h.Name+": "+h.Doc)
		}
	}
	wall := time.Since(start).Seconds()
	cov := map[string]interface{}{
		"obligations":                     tot,
		"discharged":                      disc,
		"checker_cmd":                     fmt.Sprintf("/verif/bin/vrun -property %s -tier %s", *fProp, *fTier),
		"trusted_base":                    []string{"golang.org/x/tools/go/ssa front end", "the executor in /verif/engine/exec and its models of the listed library functions", "the term normaliser in /verif/engine/term (rule-fuzzed by go test ./term)", "z3 4.8.12 / z3 5.3.2 / cvc5 1.1.2", "the reference models written in /verif/harness"},
		"evaluations":                     st.Queries,
		"distinct_nontrivial":             int64(len(bounds)),
		"rule":                            "one symbolic harness per bounded configuration; every input byte/word, index and memory cell in it is a solver variable, so each discharged obligation covers all their values",
		"samples":                         samples,
		"functions_encoded":               enc,
		"library_models_and_stubs":        models,
		"bounds":                          bounds,
		"closed_by_normalisation":         triv,
		"solver_queries":                  st.Queries,
		"solver_queries_path_feasibility": st.Feas,
		"solver_unsat":                    st.Unsat,
		"solver_sat":                      st.Sat,
		"solver_unknown":                  st.Unknown,
		"solver_seconds":                  float64(st.Nanos) / 1e9,
		"solver_verdicts_by_solver":       bySolver,
		"slowest_query_seconds":           slow,
		"reachability_witnesses":          reaches,
		"reduced_bound":                   reduced,
		"undecided":                       unk,
		"unconfirmed_counterexamples":     unconf,
		"vacuous":                         vac,
		"harnesses":                       len(hs),
	}
	explain := "Bounded symbolic execution of the Go SSA of /repo's current source; assertions and runtime panics become SMT obligations. states = symbolic program states (one per instruction executed), transitions = symbolic branches taken both ways, traces_validated_against_impl = solver-chosen inputs re-run through the compiled code with every assertion passing."
	cov["explanation"] = explain
	ev := map[string]interface{}{
		"property": *fProp, "tier": *fTier, "seed": seed, "level": "model_checking", "coverage": cov,
		"assumptions": []string{"GOARCH=amd64 sizes and layout", "allocation never fails", "inputs outside the stated bounds are not covered"},
		"wall_s":      wall, "violations": nv,
	}
	cov["states"] = steps
	cov["transitions"] = forks
	cov["traces_validated_against_impl"] = valid
	if *fOnly == "" {
		os.MkdirAll(filepath.Join(*fVerif, "evidence"), 0o755)
		j, _ := json.MarshalIndent(ev, "", " ")
		if err := os.WriteFile(filepath.Join(*fVerif, "evidence", *fProp+".json"), append(j, '\n'), 0o644); err != nil {
			logf("evidence: %v", err)
		}
	}
	logf("%s %s: %d harnesses, %d obligations, %d discharged (%d by normalisation), %d undecided, %d reduced, %d violations, %d queries, %.1fs solver", *fProp, *fTier, len(hs), tot, disc, triv, len(unk), len(reduced), nv, st.Queries, float64(st.Nanos)/1e9)
	if nv > 0 {
		return 1
	}
	return 0
}

func isKnown(prop string, h *harness, msg string) string {
	for _, k := range known.Findings {
		if k.Property == prop && k.Harness == h.Name {
			if ok, _ := regexp.MatchString(k.Msg, msg); ok {
				return k.What
			}
		}
	}
	return ""
}

func short(s string, n int) string {
	s = strings.ReplaceAll(s, "\n", " ")
	if len(s) > n {
		return s[:n] + "…"
	}
	return s
}
