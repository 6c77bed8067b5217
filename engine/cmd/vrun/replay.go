package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	osexec "os/exec"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"syscall"
	"time"
)

type ceData struct {
	Property, Harness, Rel string
	Kind, Msg              string
	Tier                   int
	Vars                   map[string]string
	UF                     map[string]string
	Lazy                   map[string]map[string]string
	Hash                   map[string]string
	HashTab                bool   `json:",omitempty"` // replayed with the solver's hash values
	Native                 string `json:",omitempty"`
}

type nativeBin struct {
	once sync.Once
	path string
	err  error
}

var (
	binMu sync.Mutex
	bins  = map[string]*nativeBin{}
	nrep  int
)

// buildNative compiles the package of h with its harness, hooking stubbed functions.
func buildNative(h *harness, tab bool) (string, error) {
	key := fmt.Sprint(tab) + "|" + h.Rel + "|" + fmt.Sprint(h.Race) + "|" + fmt.Sprint(h.Stubs) + "|" + h.File
	binMu.Lock()
	nb := bins[key]
	if nb == nil {
		nb = &nativeBin{}
		bins[key] = nb
	}
	id := len(bins)
	binMu.Unlock()
	nb.once.Do(func() { nb.path, nb.err = compileNative(h, id, tab) })
	return nb.path, nb.err
}

func compileNative(h *harness, id int, tab bool) (string, error) {
	dir := filepath.Join(scratch, fmt.Sprintf("native%d", id))
	os.MkdirAll(dir, 0o755)
	repl := map[string]string{}
	for dst, src := range symOverlay() {
		repl[dst] = src
	}
	for _, f := range sources[h.Rel] {
		repl[overlayPath(h.Rel, f)] = f
	}
	// hooks for stubs
	var setup []string
	imports := map[string]string{}
	edited, err := fakeImports(h.Rel)
	if err != nil {
		return "", err
	}
	for i, s := range h.Stubs {
		pkgRel, hook, file, code, err := hookFor(s.Target, i, edited)
		if err != nil {
			vlog("no native hook for %s: %v", s.Target, err)
			continue
		}
		edited[file] = code
		if pkgRel == h.Rel {
			setup = append(setup, fmt.Sprintf("\t%s = %s", hook, s.Fn))
		} else {
			al := "vp" + fmt.Sprint(i)
			imports[al] = pkgPath(pkgRel)
			setup = append(setup, fmt.Sprintf("\t%s.%s = %s", al, hook, s.Fn))
		}
	}
	n := 0
	for f, c := range edited {
		p := filepath.Join(dir, fmt.Sprintf("edit%d.go", n))
		n++
		if err := os.WriteFile(p, []byte(c), 0o644); err != nil {
			return "", err
		}
		repl[f] = p
	}
	pkgName, err := packageName(h.Rel)
	if err != nil {
		return "", err
	}
	var tb strings.Builder
	fmt.Fprintf(&tb, "package %s\n\nimport (\n\t\"os\"\n\t\"testing\"\n\n\tzzsym %q\n", pkgName, symPkg)
	var als []string
	for a := range imports {
		als = append(als, a)
	}
	sort.Strings(als)
	for _, a := range als {
		fmt.Fprintf(&tb, "\t%s %q\n", a, imports[a])
	}
	tb.WriteString(")\n\nfunc TestVerifReplay(t *testing.T) {\n")
	for _, s := range setup {
		tb.WriteString(s + "\n")
	}
	tb.WriteString("\tswitch os.Getenv(\"VERIF_HARNESS\") {\n")
	for _, nm := range sameFile(h) {
		fmt.Fprintf(&tb, "\tcase %q:\n\t\tzzsym.RunNative(%s)\n", nm, nm)
	}
	tb.WriteString("\t}\n}\n")
	tf := filepath.Join(dir, "replay_test.go")
	os.WriteFile(tf, []byte(tb.String()), 0o644)
	repl[filepath.Join(*fRepo, h.Rel, "zz_verif_replay_test.go")] = tf
	// keep the package's own tests out of the binary
	ents, _ := os.ReadDir(filepath.Join(*fRepo, h.Rel))
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), "_test.go") {
			repl[filepath.Join(*fRepo, h.Rel, e.Name())] = ""
		}
	}
	ovf := filepath.Join(dir, "overlay.json")
	oj, _ := json.Marshal(map[string]interface{}{"Replace": repl})
	os.WriteFile(ovf, oj, 0o644)
	bin := filepath.Join(dir, "replay.test")
	args := []string{"test", "-c", "-vet=off", "-overlay", ovf, "-o", bin}
	env := append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOTOOLCHAIN=local")
	if h.Race {
		args = append(args, "-race")
	} else {
		env = append(env, "CGO_ENABLED=0")
	}
	if tab {
		mf, err := tableModules()
		if err != nil {
			return "", err
		}
		args = append(args, "-modfile="+mf)
	}
	args = append(args, "./"+h.Rel)
	ctx, cancel := context.WithTimeout(context.Background(), 180*time.Second)
	defer cancel()
	c := osexec.CommandContext(ctx, "go", args...)
	c.Dir = *fRepo
	c.Env = env
	out, err := c.CombinedOutput()
	if err != nil {
		return "", fmt.Errorf("native build: %v: %s", err, short(string(out), 1500))
	}
	return bin, nil
}

func sameFile(h *harness) []string {
	f, err := parser.ParseFile(token.NewFileSet(), h.File, nil, 0)
	if err != nil {
		return []string{h.Name}
	}
	var out []string
	for _, d := range f.Decls {
		if fd, ok := d.(*ast.FuncDecl); ok && strings.HasPrefix(fd.Name.Name, "Verif_") {
			out = append(out, fd.Name.Name)
		}
	}
	return out
}

func packageName(rel string) (string, error) {
	ents, err := os.ReadDir(filepath.Join(*fRepo, rel))
	if err != nil {
		return "", err
	}
	for _, e := range ents {
		if strings.HasSuffix(e.Name(), ".go") && !strings.HasSuffix(e.Name(), "_test.go") {
			f, err := parser.ParseFile(token.NewFileSet(), filepath.Join(*fRepo, rel, e.Name()), nil, parser.PackageClauseOnly)
			if err == nil {
				return f.Name.Name, nil
			}
		}
	}
	return "", fmt.Errorf("no package in %s", rel)
}

// hookFor rewrites the file declaring target so that calls go through a hook variable.
func hookFor(target string, i int, edited map[string]string) (pkgRel, hook, file, code string, err error) {
	recv, name := "", ""
	t := target
	ptr := false
	if strings.HasPrefix(t, "(") {
		k := strings.Index(t, ")")
		inner := t[1:k]
		if strings.HasPrefix(inner, "*") {
			ptr = true
			inner = inner[1:]
		}
		name = t[k+2:]
		dot := strings.LastIndex(inner, ".")
		recv = inner[dot+1:]
		t = inner[:dot]
	} else {
		dot := strings.LastIndex(t, ".")
		name = t[dot+1:]
		t = t[:dot]
	}
	if !strings.HasPrefix(t, module+"/") {
		return "", "", "", "", fmt.Errorf("outside the repository")
	}
	pkgRel = strings.TrimPrefix(t, module+"/")
	dir := filepath.Join(*fRepo, pkgRel)
	ents, err := os.ReadDir(dir)
	if err != nil {
		return
	}
	for _, e := range ents {
		if !strings.HasSuffix(e.Name(), ".go") || strings.HasSuffix(e.Name(), "_test.go") {
			continue
		}
		p := filepath.Join(dir, e.Name())
		src, rerr := os.ReadFile(p)
		if rerr != nil {
			continue
		}
		if c, ok := edited[p]; ok {
			src = []byte(c)
		}
		fs := token.NewFileSet()
		f, perr := parser.ParseFile(fs, p, src, parser.ParseComments)
		if perr != nil {
			continue
		}
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Name.Name != name || fd.Body == nil {
				continue
			}
			r := ""
			isPtr := false
			if fd.Recv != nil {
				ty := fd.Recv.List[0].Type
				if s, ok := ty.(*ast.StarExpr); ok {
					isPtr = true
					ty = s.X
				}
				if id, ok := ty.(*ast.Ident); ok {
					r = id.Name
				}
			}
			if r != recv || isPtr != ptr {
				continue
			}
			hook = fmt.Sprintf("VerifHook%d_%s", i, name)
			str := func(n ast.Node) string {
				var b bytes.Buffer
				printer.Fprint(&b, token.NewFileSet(), n)
				return b.String()
			}
			var ps, as, tys []string
			add := func(typ string) {
				n := fmt.Sprintf("zzp%d", len(ps))
				ps = append(ps, n+" "+typ)
				a := n
				if strings.HasPrefix(typ, "...") {
					a += "..."
				}
				as = append(as, a)
				tys = append(tys, typ)
			}
			rdecl := ""
			if fd.Recv != nil {
				rt := str(fd.Recv.List[0].Type)
				tys = append(tys, rt)
				rdecl = "(zzr " + rt + ") "
			}
			for _, fl := range fd.Type.Params.List {
				n := len(fl.Names)
				if n == 0 {
					n = 1
				}
				for k := 0; k < n; k++ {
					add(str(fl.Type))
				}
			}
			res := ""
			if fd.Type.Results != nil {
				var rs []string
				for _, fl := range fd.Type.Results.List {
					n := len(fl.Names)
					if n == 0 {
						n = 1
					}
					for k := 0; k < n; k++ {
						rs = append(rs, str(fl.Type))
					}
				}
				res = " (" + strings.Join(rs, ", ") + ")"
			}
			ret := "return "
			if res == "" {
				ret = ""
			}
			orig := name + "_verifOrig"
			call := orig
			hargs := strings.Join(as, ", ")
			if rdecl != "" {
				call = "zzr." + orig
				hargs = "zzr"
				if len(as) > 0 {
					hargs += ", " + strings.Join(as, ", ")
				}
			}
			pos := fs.Position(fd.Name.Pos()).Offset
			code = string(src[:pos]) + orig + string(src[pos+len(name):])
			extra := fmt.Sprintf("\n\nvar %s func(%s)%s\n\nfunc %s%s(%s)%s {\n\tif %s != nil {\n\t\t%s%s(%s)\n\t\t%s\n\t}\n\t%s%s(%s)\n}\n", hook, strings.Join(tys, ", "), res, rdecl, name, strings.Join(ps, ", "), res, hook, ret, hook, hargs, map[bool]string{true: "return", false: ""}[res == ""], ret, call, strings.Join(as, ", "))
			return pkgRel, hook, p, code + extra, nil
		}
	}
	return "", "", "", "", fmt.Errorf("declaration not found")
}

// runNative executes one assignment; returns the output and whether it timed out.
func runNative(h *harness, ce *ceData) (string, bool, error) {
	bin, err := buildNative(h, ce.HashTab)
	if err != nil {
		return "", false, err
	}
	binMu.Lock()
	nrep++
	id := nrep
	binMu.Unlock()
	dir := filepath.Join(scratch, fmt.Sprintf("run%d", id))
	os.MkdirAll(filepath.Join(dir, "home"), 0o755)
	defer os.RemoveAll(dir)
	j, _ := json.Marshal(ce)
	df := filepath.Join(dir, "data.json")
	os.WriteFile(df, j, 0o644)
	ctx, cancel := context.WithTimeout(context.Background(), 25*time.Second)
	defer cancel()
	c := osexec.CommandContext(ctx, bin, "-test.run", "TestVerifReplay$", "-test.timeout", "0")
	c.Dir = dir
	c.Env = []string{"HOME=" + filepath.Join(dir, "home"), "TMPDIR=" + dir, "PATH=/usr/bin:/bin", "VERIF_REPLAY=" + df, "VERIF_HARNESS=" + h.Name, "VERIF_SCRATCH=" + dir, "GORACE=halt_on_error=0"}
	if ce.HashTab {
		c.Env = append(c.Env, "VERIF_HASHTAB=1")
	}
	c.SysProcAttr = &syscall.SysProcAttr{Setpgid: true, Pdeathsig: syscall.SIGKILL}
	c.Cancel = func() error { return syscall.Kill(-c.Process.Pid, syscall.SIGKILL) }
	c.WaitDelay = 2 * time.Second
	var out bytes.Buffer
	c.Stdout, c.Stderr = &out, &out
	c.Run()
	return out.String(), ctx.Err() != nil, nil
}

// failing summarises how the native run failed, or "".
func failing(out string, timeout bool, kind string) string {
	var ls []string
	for _, l := range strings.Split(out, "\n") {
		if strings.HasPrefix(l, "VERIF-REPLAY: ASSUME") {
			return ""
		}
		if strings.HasPrefix(l, "VERIF-REPLAY: FAIL") || strings.HasPrefix(l, "VERIF-REPLAY: PANIC") {
			ls = append(ls, strings.TrimPrefix(l, "VERIF-REPLAY: "))
		}
	}
	if strings.Contains(out, "WARNING: DATA RACE") {
		ls = append(ls, "DATA RACE")
	}
	if strings.Contains(out, "fatal error:") || strings.Contains(out, "unexpected fault address") {
		k := strings.Index(out, "fatal error:")
		if k < 0 {
			k = strings.Index(out, "unexpected fault address")
		}
		ls = append(ls, short(out[k:], 200))
	}
	if timeout {
		ls = append(ls, "does not terminate within 25 s")
	}
	return strings.Join(ls, "; ")
}

func replay(h *harness, ce *ceData, kind string) (bool, string) {
	out, to, err := runNative(h, ce)
	if err != nil {
		return false, err.Error()
	}
	f := failing(out, to, kind)
	if f == "" {
		return false, "native run passes: " + short(out, 300)
	}
	return true, f
}

func saveReplay(h *harness, ce *ceData, native string) string {
	ce.Native = native
	dir := filepath.Join(*fVerif, "evidence", "replay")
	os.MkdirAll(dir, 0o755)
	outMu.Lock()
	defer outMu.Unlock()
	for i := 1; ; i++ {
		p := filepath.Join(dir, fmt.Sprintf("%s-%s-%d.json", h.Prop, h.Name, i))
		if i < 50 {
			if _, err := os.Stat(p); err == nil {
				continue
			}
		}
		j, _ := json.MarshalIndent(ce, "", " ")
		os.WriteFile(p, append(j, '\n'), 0o644)
		return p
	}
}

func replaySaved(p string) int {
	b, err := os.ReadFile(p)
	if err != nil {
		die("%v", err)
	}
	var ce ceData
	if err := json.Unmarshal(b, &ce); err != nil {
		die("%v", err)
	}
	*fProp = ce.Property
	hs, err := discover(*fVerif, ce.Property)
	if err != nil {
		die("%v", err)
	}
	for _, h := range hs {
		if h.Name == ce.Harness {
			ok, out := replay(h, &ce, ce.Kind)
			fmt.Printf("reproduces=%v: %s\n", ok, out)
			cleanup()
			if ok {
				return 1
			}
			return 0
		}
	}
	die("harness %s not found", ce.Harness)
	return 2
}

// queueWitness runs a witness input of a verified harness through the compiled code; an
// assertion that fails there is a violation with a concrete input.
func queueWitness(h *harness, ce *ceData, r *result) {
	out, to, err := runNative(h, ce)
	if err != nil {
		r.unconf = append(r.unconf, "witness not run: "+short(err.Error(), 300))
		return
	}
	if f := failing(out, to, "assert"); f != "" {
		v := &violation{H: h, Kind: "witness", Msg: short(f, 200), Native: f, Summary: "a witness input fails natively: " + short(f, 300)}
		v.Known = isKnown(h.Prop, h, "witness: "+f)
		if v.Known == "" {
			v.File = saveReplay(h, ce, f)
		}
		r.viol = append(r.viol, v)
		return
	}
	if strings.Contains(out, "VERIF-REPLAY: END") && !strings.Contains(out, "VERIF-REPLAY: ASSUME") {
		r.validated++
	}
}

var (
	tabOnce sync.Once
	tabFile string
	tabErr  error
)

// tableModules prepares copies of the external hash modules that answer with the
// solver's values where it chose one, and a go.mod that uses them.
func tableModules() (string, error) {
	tabOnce.Do(func() { tabFile, tabErr = makeTableModules() })
	return tabFile, tabErr
}

func makeTableModules() (string, error) {
	dir := filepath.Join(scratch, "tabmod")
	gomod, err := os.ReadFile(filepath.Join(*fRepo, "go.mod"))
	if err != nil {
		return "", err
	}
	gosum, _ := os.ReadFile(filepath.Join(*fRepo, "go.sum"))
	repl := string(gomod) + "\n"
	table, err := os.ReadFile(filepath.Join(*fVerif, "harness_lib", "table.go.txt"))
	if err != nil {
		return "", err
	}
	for _, m := range []struct{ mod, pkg, sub string }{{"github.com/dchest/blake2b", "blake2b", ""}, {"golang.org/x/crypto", "sha3", "sha3"}} {
		c := osexec.Command("go", "list", "-m", "-f", "{{.Dir}}", m.mod)
		c.Dir = *fRepo
		o, err := c.Output()
		if err != nil {
			return "", fmt.Errorf("go list %s: %v", m.mod, err)
		}
		src := strings.TrimSpace(string(o))
		dst := filepath.Join(dir, m.pkg)
		if err := copyTree(filepath.Join(src, m.sub), filepath.Join(dst, m.sub, "real"), "package "+m.pkg, "package real"); err != nil {
			return "", err
		}
		if m.sub != "" {
			// sibling packages
			ents, _ := os.ReadDir(src)
			for _, e := range ents {
				if e.IsDir() && e.Name() != m.sub {
					if err := copyTree(filepath.Join(src, e.Name()), filepath.Join(dst, e.Name()), "", ""); err != nil {
						return "", err
					}
				}
			}
		}
		b, err := os.ReadFile(filepath.Join(*fVerif, "harness_lib", m.pkg, m.pkg+".go"))
		if err != nil {
			return "", err
		}
		os.WriteFile(filepath.Join(dst, m.sub, m.pkg+".go"), b, 0o644)
		os.WriteFile(filepath.Join(dst, m.sub, "table.go"), []byte(strings.Replace(string(table), "package PKG", "package "+m.pkg, 1)), 0o644)
		gm, err := os.ReadFile(filepath.Join(src, "go.mod"))
		if err != nil {
			gm = []byte("module " + m.mod + "\n\ngo 1.17\n")
		}
		os.WriteFile(filepath.Join(dst, "go.mod"), gm, 0o644)
		repl += fmt.Sprintf("replace %s => %s\n", m.mod, dst)
	}
	mf := filepath.Join(dir, "verif.mod")
	os.WriteFile(filepath.Join(dir, "verif.sum"), gosum, 0o644)
	return mf, os.WriteFile(mf, []byte(repl), 0o644)
}

func copyTree(src, dst, from, to string) error {
	return filepath.Walk(src, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		rel, _ := filepath.Rel(src, p)
		if fi.IsDir() {
			if fi.Name() == "testdata" {
				return filepath.SkipDir
			}
			return os.MkdirAll(filepath.Join(dst, rel), 0o755)
		}
		if strings.HasSuffix(p, "_test.go") || !(strings.HasSuffix(p, ".go") || strings.HasSuffix(p, ".s")) {
			return nil
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return err
		}
		if from != "" {
			b = []byte(strings.Replace(string(b), from, to, 1))
		}
		return os.WriteFile(filepath.Join(dst, rel), b, 0o644)
	})
}
