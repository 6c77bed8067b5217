// Package smt drives external SMT solver processes.
package smt

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"verifengine/term"
)

type Result int

const (
	Unknown Result = iota
	Unsat
	Sat
)

func (r Result) String() string { return [...]string{"unknown", "unsat", "sat"}[r] }

// Stats are shared by every query of a run.
type Stats struct {
	Queries, Unsat, Sat, Unknown, Feas int64
	Nanos                              int64
}

func (s *Stats) add(r Result, d time.Duration) {
	atomic.AddInt64(&s.Queries, 1)
	atomic.AddInt64(&s.Nanos, int64(d))
	switch r {
	case Unsat:
		atomic.AddInt64(&s.Unsat, 1)
	case Sat:
		atomic.AddInt64(&s.Sat, 1)
	default:
		atomic.AddInt64(&s.Unknown, 1)
	}
}

// slots bounds the number of concurrently running solver processes.
var slots = make(chan struct{}, 10)

type solverCmd struct {
	name string
	args func(sec int) []string
	pre  string
}

var solvers = []solverCmd{
	{"z3-new", func(s int) []string { return []string{"z3-new", "-in", fmt.Sprintf("-T:%d", s), "-memory:5000"} }, ""},
	{"cvc5", func(s int) []string {
		return []string{"cvc5", "--lang=smt2", "--produce-models", fmt.Sprintf("--tlimit=%d", s*1000)}
	}, "(set-logic QF_UFBV)\n"},
	{"z3", func(s int) []string { return []string{"z3", "-in", fmt.Sprintf("-T:%d", s), "-memory:5000"} }, ""},
}

// Answer of a query.
type Answer struct {
	R      Result
	Solver string
	Vals   map[*term.Term]*term.Term // requested values when Sat
	Dur    time.Duration
	Err    string
}

// Query is a conjunction of assertions.
type Query struct {
	C       *term.Ctx
	Asserts []*term.Term
	Want    []*term.Term
	Timeout time.Duration
	Only    string // restrict to one solver
	Dump    string // write the script here
}

var hardTerms int64

// Solve runs the portfolio and returns the first definite answer.
func Solve(q *Query, st *Stats) *Answer {
	t0 := time.Now()
	p := term.NewPrinter()
	roots := append(append([]*term.Term(nil), q.Asserts...), q.Want...)
	if q.Only == "" {
		var t tiny
		if r, vals := t.solve(q.C, q.Asserts, q.Want); r != Unknown {
			a := &Answer{R: r, Solver: "table", Vals: vals, Dur: time.Since(t0)}
			if st != nil {
				st.add(r, a.Dur)
			}
			return a
		}
	}
	p.PrepareUF(roots)
	var body strings.Builder
	var names []string
	for _, w := range q.Want {
		names = append(names, p.Emit(w))
	}
	for _, a := range q.Asserts {
		n := p.Emit(a)
		body.WriteString(p.Take())
		fmt.Fprintf(&body, "(assert %s)\n", n)
	}
	head := ""
	if len(q.Asserts) == 0 {
		head = p.Take()
	}
	script := head + body.String() + "(check-sat)\n"
	if q.Dump != "" {
		os.WriteFile(q.Dump, []byte(script), 0o644)
	}
	getv := ""
	if len(names) > 0 {
		getv = "(get-value (" + strings.Join(names, " ") + "))\n"
	}
	sec := int(q.Timeout / time.Second)
	if sec < 1 {
		sec = 1
	}
	ctx, cancel := context.WithTimeout(context.Background(), q.Timeout+3*time.Second)
	defer cancel()
	type rep struct {
		r    Result
		s    string
		vals string
		err  string
	}
	ch := make(chan rep, len(solvers))
	n := 0
	start := func(s solverCmd) {
		n++
		go func() {
			select {
			case slots <- struct{}{}:
				defer func() { <-slots }()
			case <-ctx.Done():
				ch <- rep{Unknown, s.name, "", "no slot"}
				return
			}
			r, v, e := runOne(ctx, s, s.pre+script, getv, sec)
			ch <- rep{r, s.name, v, e}
		}()
	}
	var use []solverCmd
	for _, s := range solvers {
		if q.Only == "" || q.Only == s.name {
			use = append(use, s)
		}
	}
	start(use[0])
	next := 1
	ans := &Answer{R: Unknown}
	got := 0
	timer := time.NewTimer(1500 * time.Millisecond)
	defer timer.Stop()
loop:
	for got < n || next < len(use) {
		select {
		case r := <-ch:
			got++
			if r.r != Unknown {
				ans.R, ans.Solver = r.r, r.s
				if r.r == Sat && len(names) > 0 {
					vals, err := parseValues(q.C, r.vals, q.Want)
					if err != nil {
						ans.R, ans.Err = Unknown, err.Error()
						continue
					}
					ans.Vals = vals
				}
				break loop
			}
			if r.err != "" {
				ans.Err = r.s + ": " + r.err
			}
			if got == n && next < len(use) {
				start(use[next])
				next++
			}
		case <-timer.C:
			for next < len(use) {
				start(use[next])
				next++
			}
		}
	}
	cancel()
	ans.Dur = time.Since(t0)
	if st != nil {
		st.add(ans.R, ans.Dur)
	}
	return ans
}

func runOne(ctx context.Context, s solverCmd, script, getv string, sec int) (Result, string, string) {
	args := s.args(sec)
	cmd := exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", "ulimit -v 7000000; exec \"$0\" \"$@\""}, args...)...)
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	cmd.Cancel = func() error { return syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL) }
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	var eb bytes.Buffer
	cmd.Stderr = &eb
	if err := cmd.Start(); err != nil {
		return Unknown, "", err.Error()
	}
	defer func() {
		syscall.Kill(-cmd.Process.Pid, syscall.SIGKILL)
		cmd.Wait()
	}()
	go io.WriteString(in, script)
	rd := bufio.NewReaderSize(out, 1<<16)
	for {
		line, err := rd.ReadString('\n')
		l := strings.TrimSpace(line)
		switch {
		case l == "unsat":
			return Unsat, "", ""
		case l == "sat":
			if getv == "" {
				return Sat, "", ""
			}
			go func() { io.WriteString(in, getv); in.Close() }()
			v, _ := io.ReadAll(rd)
			return Sat, string(v), ""
		case l == "unknown" || l == "timeout" || strings.HasPrefix(l, "cvc5 interrupted"):
			return Unknown, "", l
		case strings.HasPrefix(l, "(error"):
			return Unknown, "", l
		}
		if err != nil {
			return Unknown, "", strings.TrimSpace(eb.String())
		}
	}
}

func parseValues(c *term.Ctx, s string, want []*term.Term) (map[*term.Term]*term.Term, error) {
	// ((name val) (name val) ...)
	out := map[*term.Term]*term.Term{}
	i := 0
	skip := func() {
		for i < len(s) && (s[i] == ' ' || s[i] == '\n' || s[i] == '\t' || s[i] == '\r') {
			i++
		}
	}
	atom := func() string {
		skip()
		if i >= len(s) {
			return ""
		}
		st := i
		switch s[i] {
		case '(':
			d := 0
			for i < len(s) {
				if s[i] == '(' {
					d++
				}
				if s[i] == ')' {
					d--
					if d == 0 {
						i++
						break
					}
				}
				i++
			}
			return s[st:i]
		case '|':
			i++
			for i < len(s) && s[i] != '|' {
				i++
			}
			i++
			return s[st:i]
		}
		for i < len(s) && s[i] != ' ' && s[i] != ')' && s[i] != '\n' {
			i++
		}
		return s[st:i]
	}
	skip()
	if i >= len(s) || s[i] != '(' {
		return nil, fmt.Errorf("bad model %.80q", s)
	}
	i++
	for _, w := range want {
		skip()
		if i >= len(s) || s[i] != '(' {
			return nil, fmt.Errorf("bad model pair %.80q", s[min(i, len(s)):])
		}
		i++
		atom()
		v := atom()
		t, ok := c.ParseConst(v, w.W)
		if !ok {
			return nil, fmt.Errorf("bad model value %.80q", v)
		}
		out[w] = t
		skip()
		if i < len(s) && s[i] == ')' {
			i++
		}
	}
	return out, nil
}

// Inc is an incremental solver session (z3).
type Inc struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	rd   *bufio.Reader
	p    *term.Printer
	ms   int
	st   *Stats
	n    int
	mu   sync.Mutex
	dead bool
	tiny tiny
}

func NewInc(ms int, st *Stats) *Inc { return &Inc{ms: ms, st: st} }

func (s *Inc) start() bool {
	cmd := exec.Command("z3-new", "-in", "-memory:3000")
	cmd.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	in, _ := cmd.StdinPipe()
	out, _ := cmd.StdoutPipe()
	if err := cmd.Start(); err != nil {
		return false
	}
	s.cmd, s.in, s.rd = cmd, in, bufio.NewReader(out)
	s.p = term.NewPrinter()
	s.n = 0
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.ms)
	return true
}

func (s *Inc) Close() {
	if s.cmd != nil {
		syscall.Kill(-s.cmd.Process.Pid, syscall.SIGKILL)
		s.cmd.Wait()
		s.cmd = nil
	}
}

// CheckT decides the conjunction; Unknown after ms milliseconds.
func (s *Inc) CheckT(asserts []*term.Term, ms int) Result {
	s.mu.Lock()
	defer s.mu.Unlock()
	for _, a := range asserts {
		if a.IsFalse() {
			return Unsat
		}
	}
	if r := s.tiny.decide(asserts); r != Unknown {
		if s.st != nil {
			atomic.AddInt64(&s.st.Feas, 1)
			s.st.add(r, 0)
		}
		return r
	}
	if s.cmd == nil || s.n > 400 {
		s.Close()
		if !s.start() {
			return Unknown
		}
	}
	s.n++
	t0 := time.Now()
	var names []string
	for _, a := range asserts {
		names = append(names, s.p.Emit(a))
	}
	defs := s.p.Take()
	var sb strings.Builder
	sb.WriteString(defs)
	fmt.Fprintf(&sb, "(set-option :timeout %d)\n", ms)
	sb.WriteString("(push)\n")
	for _, n := range names {
		fmt.Fprintf(&sb, "(assert %s)\n", n)
	}
	sb.WriteString("(check-sat)\n(pop)\n")
	if _, err := io.WriteString(s.in, sb.String()); err != nil {
		s.Close()
		return Unknown
	}
	done := make(chan string, 1)
	go func() {
		l, err := s.rd.ReadString('\n')
		if err != nil {
			l = "dead"
		}
		done <- strings.TrimSpace(l)
	}()
	var l string
	select {
	case l = <-done:
	case <-time.After(time.Duration(ms)*time.Millisecond + 5*time.Second):
		syscall.Kill(-s.cmd.Process.Pid, syscall.SIGKILL)
		<-done
		l = "dead"
	}
	r := Unknown
	switch l {
	case "sat":
		r = Sat
	case "unsat":
		r = Unsat
	case "unknown":
	default:
		s.Close()
	}
	if s.st != nil {
		atomic.AddInt64(&s.st.Feas, 1)
		s.st.add(r, time.Since(t0))
	}
	return r
}
