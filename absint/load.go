package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Program is the type-checked and SSA-built form of the repository under analysis.
type Program struct {
	Prog     *ssa.Program
	Pkgs     []*ssa.Package // repository packages, sorted by path
	Types    map[string]*packages.Package
	Mod      string
	Files    int
	Funcs    int
	AllFuncs []*ssa.Function
	constG   map[*ssa.Global]bool
	mu       sync.Mutex
}

// LoadProgram loads every package of the repository's module from its current source.
func LoadProgram(dir string) (*Program, error) {
	cfg := &packages.Config{
		Dir: dir,
		Mode: packages.NeedName | packages.NeedFiles | packages.NeedCompiledGoFiles | packages.NeedImports |
			packages.NeedTypes | packages.NeedTypesSizes | packages.NeedSyntax | packages.NeedTypesInfo |
			packages.NeedDeps | packages.NeedModule | packages.NeedExportFile,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"),
	}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	for _, p := range pkgs {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	}
	if len(errs) > 0 {
		return nil, fmt.Errorf("type-check failed: %s", strings.Join(errs, "; "))
	}
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	r := &Program{Prog: prog, Types: map[string]*packages.Package{}, constG: map[*ssa.Global]bool{}}
	for i, p := range pkgs {
		if spkgs[i] == nil {
			return nil, fmt.Errorf("no SSA for %s", p.PkgPath)
		}
		r.Pkgs = append(r.Pkgs, spkgs[i])
		r.Types[p.PkgPath] = p
		r.Files += len(p.CompiledGoFiles)
		if p.Module != nil {
			r.Mod = p.Module.Path
		}
	}
	sort.Slice(r.Pkgs, func(i, j int) bool { return r.Pkgs[i].Pkg.Path() < r.Pkgs[j].Pkg.Path() })
	for f := range ssautil.AllFunctions(prog) {
		if r.InRepo(f) && len(f.Blocks) > 0 {
			r.Funcs++
			r.AllFuncs = append(r.AllFuncs, f)
		}
	}
	sort.Slice(r.AllFuncs, func(i, j int) bool { return r.AllFuncs[i].String() < r.AllFuncs[j].String() })
	return r, nil
}

// InRepo reports whether a function belongs to the analysed module.
func (p *Program) InRepo(f *ssa.Function) bool {
	for f.Parent() != nil {
		f = f.Parent()
	}
	pkg := f.Pkg
	if pkg == nil {
		if o := f.Object(); o != nil && o.Pkg() != nil {
			return strings.HasPrefix(o.Pkg().Path(), p.Mod)
		}
		// synthetic wrappers: look at the receiver
		if s := f.Signature.Recv(); s != nil {
			return strings.Contains(s.Type().String(), p.Mod)
		}
		return false
	}
	return strings.HasPrefix(pkg.Pkg.Path(), p.Mod)
}

// Pkg finds a repository package by its path relative to the module.
func (p *Program) Pkg(rel string) *ssa.Package {
	for _, q := range p.Pkgs {
		if q.Pkg.Path() == p.Mod+"/"+rel {
			return q
		}
	}
	return nil
}

// Method finds a method of a named type of the package (pointer or value receiver).
func (p *Program) Method(rel, typ, name string) *ssa.Function {
	q := p.Pkg(rel)
	if q == nil {
		return nil
	}
	t, ok := q.Members[typ].(*ssa.Type)
	if !ok {
		return nil
	}
	return p.MethodOf(t.Type().(*types.Named), name)
}

func (p *Program) MethodOf(n *types.Named, name string) *ssa.Function {
	for i := 0; i < n.NumMethods(); i++ {
		if n.Method(i).Name() == name {
			return p.Prog.FuncValue(n.Method(i))
		}
	}
	return nil
}

func (p *Program) Func(rel, name string) *ssa.Function {
	q := p.Pkg(rel)
	if q == nil {
		return nil
	}
	return q.Func(name)
}
