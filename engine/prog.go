package main

import (
	"fmt"
	"go/types"
	"os/exec"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

type Prog struct {
	ssa    *ssa.Program
	pkgs   map[string]*ssa.Package
	meth   sync.Map
	impl   sync.Map
	errors []string
}

type methKey struct {
	t    types.Type
	name string
}

const modPath = "github.com/TopoSimplify/plugin"

func loadProg(repo string, overlay map[string][]byte, extra []string) (*Prog, error) {
	cfg := &packages.Config{Dir: repo, Mode: packages.LoadSyntax | packages.NeedModule, Overlay: overlay}
	cfg.BuildFlags = []string{"-tags=verif"}
	cfg.Env = append(goEnv(), "GOFLAGS=-mod=readonly")
	pats := append([]string{"sort", "slices", "cmp", "errors", "iter", "math/bits",
		"container/heap", "container/list", "maps", "strings", "bytes", "bufio", "unicode/utf8", "io", "io/ioutil", "fmt"}, extra...)
	c := exec.Command("go", "list", "-e", "-deps", "-f", "{{if not .Standard}}{{.ImportPath}}{{end}}", "./...")
	c.Dir, c.Env = repo, cfg.Env
	out, err := c.Output()
	if err != nil {
		return nil, fmt.Errorf("go list: %v", err)
	}
	for _, l := range strings.Fields(string(out)) {
		if strings.HasSuffix(l, "/constdp/app") || strings.HasSuffix(l, "/dp/example") || strings.HasPrefix(l, "github.com/franela") {
			continue // stand-alone scripts, test library
		}
		pats = append(pats, l)
	}
	ps, err := packages.Load(cfg, pats...)
	if err != nil {
		return nil, err
	}
	pr := &Prog{pkgs: map[string]*ssa.Package{}}
	var good []*packages.Package
	for _, p := range ps {
		if len(p.Errors) > 0 {
			for _, e := range p.Errors {
				pr.errors = append(pr.errors, fmt.Sprintf("%s: %v", p.PkgPath, e))
			}
			if p.Types == nil || p.IllTyped {
				continue
			}
		}
		good = append(good, p)
	}
	prog, sp := ssautil.Packages(good, ssa.InstantiateGenerics)
	for _, p := range sp {
		if p != nil {
			p.Build()
			pr.pkgs[p.Pkg.Path()] = p
		}
	}
	pr.ssa = prog
	return pr, nil
}

func (pr *Prog) pkg(path string) *ssa.Package { return pr.pkgs[path] }

// typ is a named type of a package, which need not have been built.
func (pr *Prog) typ(path, name string) types.Type {
	pk := pr.pkgs[path]
	if pk == nil {
		pk = pr.ssa.ImportedPackage(path)
	}
	if pk == nil || pk.Type(name) == nil {
		return nil
	}
	return pk.Type(name).Type()
}

func (pr *Prog) method(t types.Type, m *types.Func) *ssa.Function {
	return pr.find(t, m.Name(), m.Pkg())
}

func (pr *Prog) methodByName(t types.Type, name string) *ssa.Function {
	return pr.find(t, name, nil)
}

func (pr *Prog) find(t types.Type, name string, pkg *types.Package) *ssa.Function {
	k := methKey{t, name}
	if v, ok := pr.meth.Load(k); ok {
		f, _ := v.(*ssa.Function)
		return f
	}
	var fn *ssa.Function
	sel := pr.ssa.MethodSets.MethodSet(t).Lookup(pkg, name)
	if sel == nil && pkg == nil {
		ms := pr.ssa.MethodSets.MethodSet(t)
		for i := 0; i < ms.Len(); i++ {
			if ms.At(i).Obj().Name() == name {
				sel = ms.At(i)
			}
		}
	}
	if sel != nil {
		fn = pr.ssa.MethodValue(sel)
	}
	pr.meth.Store(k, fn)
	return fn
}

type implKey struct{ t, i types.Type }

func (pr *Prog) implements(t, i types.Type) bool {
	k := implKey{t, i}
	if v, ok := pr.impl.Load(k); ok {
		return v.(bool)
	}
	r := types.Implements(t, i.Underlying().(*types.Interface))
	pr.impl.Store(k, r)
	return r
}

// harnesses lists the exported H* functions of a package.
func (pr *Prog) harnesses(path string) []string {
	var r []string
	p := pr.pkgs[path]
	if p == nil {
		return nil
	}
	for n, m := range p.Members {
		f, ok := m.(*ssa.Function)
		if ok && strings.HasPrefix(n, "H") && len(n) > 1 && n[1] >= 'A' && n[1] <= 'Z' && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 0 {
			r = append(r, n)
		}
	}
	sort.Strings(r)
	return r
}
