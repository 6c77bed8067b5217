package exec

import (
	"fmt"
	"go/types"
	"os"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Loader owns the shared SSA program.
type Loader struct {
	Prog *ssa.Program
	Pkgs map[string]*ssa.Package
	mu   sync.Mutex
	blt  map[*ssa.Package]bool
	Errs []string
}

// Load type-checks patterns in dir with overlay and creates the SSA program.
func Load(dir string, overlay map[string][]byte, env []string, patterns ...string) (*Loader, error) {
	cfg := &packages.Config{
		Mode:    packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports | packages.NeedDeps | packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo | packages.NeedModule,
		Dir:     dir,
		Overlay: overlay,
		Env:     append(os.Environ(), env...),
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	l := &Loader{Pkgs: map[string]*ssa.Package{}, blt: map[*ssa.Package]bool{}}
	for _, p := range pkgs {
		for _, e := range p.Errors {
			l.Errs = append(l.Errs, fmt.Sprintf("%s: %s", p.PkgPath, e.Error()))
		}
	}
	if len(l.Errs) > 0 {
		return l, fmt.Errorf("%s", strings.Join(l.Errs, "; "))
	}
	prog, _ := ssautil.AllPackages(pkgs, ssa.InstantiateGenerics)
	l.Prog = prog
	for _, p := range prog.AllPackages() {
		l.Pkgs[p.Pkg.Path()] = p
	}
	return l, nil
}

func (l *Loader) buildPkg(p *ssa.Package) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if !l.blt[p] {
		p.Build()
		l.blt[p] = true
	}
}

func (l *Loader) build(fn *ssa.Function) {
	p := fn.Pkg
	if p == nil {
		if o := fn.Origin(); o != nil {
			p = o.Pkg
		}
	}
	if p == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		p = l.Prog.Package(fn.Object().Pkg())
	}
	if p != nil {
		l.buildPkg(p)
	}
}

func (l *Loader) method(t types.Type, pkg *types.Package, name string) *ssa.Function {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.Prog.LookupMethod(t, pkg, name)
}
