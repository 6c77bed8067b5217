package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"verifengine/exec"
)

type stubDir struct{ Target, Fn string }

type harness struct {
	Prop, Name string
	Rel        string // package directory relative to the module
	File       string // harness source
	Doc        string
	Stubs      []stubDir
	Thorough   bool
	Race       bool
	Budget     int
}

// sources lists every harness source file by package directory.
var sources = map[string][]string{} // rel -> files to overlay

// fakes lists, per package directory, imports of the code under test that are replaced by
// stand-ins (path=name under verifsym/fake); faked the harness files that need them.
var fakes, faked = map[string][]string{}, map[string][]string{}

// fakeImports returns the files of the package with the imports replaced.
func fakeImports(rel string) (map[string]string, error) {
	out := map[string]string{}
	if len(fakes[rel]) == 0 {
		return out, nil
	}
	dir := filepath.Join(*fRepo, rel)
	ents, err := os.ReadDir(dir)
	if err != nil {
		return nil, err
	}
	for _, e := range ents {
		p := filepath.Join(dir, e.Name())
		if !strings.HasSuffix(p, ".go") || strings.HasSuffix(p, "_test.go") {
			continue
		}
		b, err := os.ReadFile(p)
		if err != nil {
			return nil, err
		}
		f, err := parser.ParseFile(token.NewFileSet(), p, b, parser.ImportsOnly)
		if err != nil {
			return nil, err
		}
		s := string(b)
		for i := len(f.Imports) - 1; i >= 0; i-- {
			im := f.Imports[i]
			for _, fk := range fakes[rel] {
				k := strings.LastIndexByte(fk, '=')
				if im.Path.Value == strconv.Quote(fk[:k]) {
					at := int(im.Path.Pos()) - 1
					s = s[:at] + strconv.Quote(symPkg+"/fake/"+fk[k+1:]) + s[at+len(im.Path.Value):]
				}
			}
		}
		if s != string(b) {
			out[p] = s
		}
	}
	return out, nil
}

var fset = token.NewFileSet()

func discover(verif, prop string) ([]*harness, error) {
	root := filepath.Join(verif, "harness")
	var out []*harness
	want := "Verif_" + prop + "_"
	common := map[string][]string{}
	err := filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err != nil {
			return err
		}
		if fi.IsDir() || !strings.HasSuffix(p, ".go") {
			return nil
		}
		rel, _ := filepath.Rel(root, filepath.Dir(p))
		if rel == "verifsym" || strings.HasPrefix(rel, "verifsym/") {
			return nil
		}
		f, err := parser.ParseFile(fset, p, nil, parser.ParseComments)
		if err != nil {
			return err
		}
		any, mine := false, false
		for _, d := range f.Decls {
			fd, ok := d.(*ast.FuncDecl)
			if !ok || fd.Recv != nil || !strings.HasPrefix(fd.Name.Name, "Verif_") {
				continue
			}
			any = true
			if !strings.HasPrefix(fd.Name.Name, want) {
				continue
			}
			mine = true
			h := &harness{Prop: prop, Name: fd.Name.Name, Rel: rel, File: p}
			var doc []string
			if fd.Doc != nil {
				for _, c := range fd.Doc.List {
					t := strings.TrimSpace(strings.TrimPrefix(c.Text, "//"))
					w := strings.Fields(t)
					switch {
					case strings.HasPrefix(c.Text, "//verif:stub") && len(w) == 3:
						h.Stubs = append(h.Stubs, stubDir{expandName(w[1]), w[2]})
					case strings.HasPrefix(c.Text, "//verif:thorough"):
						h.Thorough = true
					case strings.HasPrefix(c.Text, "//verif:race"):
						h.Race = true
					default:
						doc = append(doc, t)
					}
				}
			}
			h.Doc = strings.Join(doc, " ")
			h.Doc = strings.TrimPrefix(h.Doc, h.Name+" ")
			out = append(out, h)
		}
		if mine {
			sources[rel] = append(sources[rel], p)
			for _, cg := range f.Comments {
				for _, c := range cg.List {
					if w := strings.Fields(c.Text); len(w) > 1 && w[0] == "//verif:fake" {
						fakes[rel] = append(fakes[rel], w[1:]...)
						faked[rel] = append(faked[rel], p)
					}
					if w := strings.Fields(c.Text); len(w) > 1 && w[0] == "//verif:include" {
						g, err := include(verif, prop, rel, w[1:])
						if err != nil {
							logf("include %s: %v", w[1], err)
							continue
						}
						sources[rel] = append(sources[rel], g)
					}
				}
			}
		} else if !any {
			common[rel] = append(common[rel], p)
		}
		return nil
	})
	for rel, fs := range common {
		sources[rel] = append(sources[rel], fs...)
	}
	sort.SliceStable(out, func(i, j int) bool { return out[i].Rel < out[j].Rel })
	return out, err
}

// include copies a file of the package that is not part of this platform's build, without its
// build constraint and with identifiers renamed (old=new), so that harnesses can call it.
func include(verif, prop, rel string, w []string) (string, error) {
	b, err := os.ReadFile(filepath.Join(*fRepo, rel, w[0]))
	if err != nil {
		return "", err
	}
	var out []string
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "//go:build") || strings.HasPrefix(l, "// +build") {
			l = ""
		}
		out = append(out, l)
	}
	s := strings.Join(out, "\n")
	for _, r := range w[1:] {
		if i := strings.IndexByte(r, '='); i > 0 {
			s = regexp.MustCompile(`\b`+r[:i]+`\b`).ReplaceAllString(s, r[i+1:])
		}
	}
	dir := filepath.Join(verif, "evidence", "include", prop)
	if err := os.MkdirAll(dir, 0o755); err != nil {
		return "", err
	}
	g := filepath.Join(dir, w[0])
	return g, os.WriteFile(g, []byte(s), 0o644)
}

// expandName turns internal/x.F or (*internal/x.T).M into full names.
func expandName(s string) string {
	pre := ""
	for _, p := range []string{"(*", "("} {
		if strings.HasPrefix(s, p) {
			pre, s = p, s[len(p):]
			break
		}
	}
	{
		first := strings.SplitN(strings.SplitN(s, "/", 2)[0], ".", 2)[0]
		if _, err := os.Stat(filepath.Join(*fRepo, first)); err == nil {
			s = module + "/" + s
		}
	}
	return pre + s
}

func overlayPath(rel, file string) string {
	return filepath.Join(*fRepo, rel, "zz_verif_"+filepath.Base(file))
}

// symOverlay maps the places of the sym package and the stand-ins to their files.
func symOverlay() map[string]string {
	out := map[string]string{}
	root := filepath.Join(*fVerif, "harness", "verifsym")
	filepath.Walk(root, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() && strings.HasSuffix(p, ".go") {
			r, _ := filepath.Rel(root, p)
			out[filepath.Join(*fRepo, "internal", "verifsym", r)] = p
		}
		return nil
	})
	return out
}

// buildOverlay maps overlay paths to file contents.
func buildOverlay(skip map[string]string) (map[string][]byte, error) {
	ov := map[string][]byte{}
	for dst, src := range symOverlay() {
		b, err := os.ReadFile(src)
		if err != nil {
			return nil, err
		}
		ov[dst] = b
	}
	for rel := range fakes {
		fs, err := fakeImports(rel)
		if err != nil {
			return nil, err
		}
		for p, s := range fs {
			ov[p] = []byte(s)
		}
	}
	for rel, fs := range sources {
		for _, f := range fs {
			if skip[f] != "" {
				continue
			}
			b, err := os.ReadFile(f)
			if err != nil {
				return nil, err
			}
			ov[overlayPath(rel, f)] = b
		}
	}
	return ov, nil
}

var errFile = regexp.MustCompile(`zz_verif_([A-Za-z0-9_]+\.go)`)

// loadAll loads the packages, dropping harness files that do not type-check.
func loadAll(hs []*harness) (*exec.Loader, map[string]string, error) {
	dropped := map[string]string{}
	rels := map[string]bool{}
	for _, h := range hs {
		rels[h.Rel] = true
	}
	for rel := range sources {
		if !rels[rel] {
			delete(sources, rel)
		}
	}
	for try := 0; ; try++ {
		ov, err := buildOverlay(dropped)
		if err != nil {
			return nil, nil, err
		}
		var pats []string
		for r := range rels {
			pats = append(pats, "./"+r)
		}
		sort.Strings(pats)
		ld, err := exec.Load(*fRepo, ov, nil, pats...)
		if err == nil {
			return ld, dropped, nil
		}
		if ld == nil || try > 6 {
			return nil, nil, err
		}
		n := 0
		for _, e := range ld.Errs {
			for _, m := range errFile.FindAllStringSubmatch(e, -1) {
				for rel, fs := range sources {
					for _, f := range fs {
						if filepath.Base(f) == m[1] && strings.Contains(e, "/"+rel+"/") && dropped[f] == "" {
							dropped[f] = short(e, 300)
							n++
						}
					}
				}
			}
		}
		if n == 0 {
			// code that uses more of a replaced package than its stand-in offers
			for rel, fs := range faked {
				for _, f := range fs {
					if dropped[f] == "" {
						dropped[f] = "stand-in packages: " + short(err.Error(), 300)
						n++
					}
				}
				delete(fakes, rel)
			}
		}
		if n == 0 {
			return nil, nil, fmt.Errorf("load: %v", short(err.Error(), 2000))
		}
	}
}
