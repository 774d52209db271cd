package main

import (
	"embed"
	"fmt"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

//go:embed harness/*.txt
var harnessFS embed.FS

// Program is the type-checked program in SSA form.
type Program struct {
	prog  *ssa.Program
	pkgs  map[string]*ssa.Package // by import path
	order []*ssa.Package          // imports first
	tpk   []*packages.Package
}

const modPath = "github.com/opencoff/sigtool"

// loadProgram type-checks the tree at repo, with the driver files laid over
// it (they are never written to the tree).
func loadProgram(repo string, drivers bool) (*Program, error) {
	ov := map[string][]byte{}
	if drivers {
		ents, _ := harnessFS.ReadDir("harness")
		for _, e := range ents {
			b, _ := harnessFS.ReadFile("harness/" + e.Name())
			// sign_x.go.txt goes to sign/zz_verif_x.go
			n := strings.TrimSuffix(e.Name(), ".txt")
			i := strings.IndexByte(n, '_')
			dir := strings.ReplaceAll(n[:i], "-", "/")
			ov[filepath.Join(repo, dir, "zz_verif_"+n[i+1:])] = b
		}
	}
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: repo, Overlay: ov,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off", "CGO_ENABLED=0")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			if len(errs) < 10 {
				errs = append(errs, e.Error())
			}
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("%s", strings.Join(errs, "\n"))
	}
	prog, pk := ssautil.Packages(ps, ssa.InstantiateGenerics)
	prog.Build()
	p := &Program{prog: prog, pkgs: map[string]*ssa.Package{}, tpk: ps}
	for i, s := range pk {
		if s != nil {
			p.pkgs[ps[i].PkgPath] = s
		}
	}
	seen := map[*types.Package]bool{}
	var visit func(t *types.Package)
	visit = func(t *types.Package) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, q := range t.Imports() {
			visit(q)
		}
		if s := p.pkgs[t.Path()]; s != nil {
			p.order = append(p.order, s)
		}
	}
	var paths []string
	for k := range p.pkgs {
		paths = append(paths, k)
	}
	sort.Strings(paths)
	for _, k := range paths {
		visit(p.pkgs[k].Pkg)
	}
	return p, nil
}

func (p *Program) pkg(name string) *ssa.Package {
	for path, s := range p.pkgs {
		if s.Pkg.Name() == name || strings.HasSuffix(path, "/"+name) {
			return s
		}
	}
	return nil
}

func (p *Program) fn(pkg, name string) *ssa.Function {
	s := p.pkg(pkg)
	if s == nil {
		return nil
	}
	return s.Func(name)
}

// newExec makes an analyser for the program.
func newExec(p *Program) *Exec {
	x := &Exec{prog: p.prog, fset: p.prog.Fset, mods: map[*ssa.Package]bool{}, model: findModel,
		obs: map[string]*Ob{}, fninfo: map[*ssa.Function]*fnInfo{}, covFn: map[string]bool{}, covCal: map[string]bool{}}
	for _, s := range p.pkgs {
		x.mods[s] = true
	}
	return x
}

// initState evaluates the package initialisers.
func (p *Program) initState(x *Exec) *State {
	st := newState()
	st.objs["rands"] = &Obj{name: "rands", kind: "ghost"}
	for _, s := range p.order {
		f := s.Func("init")
		if f == nil {
			continue
		}
		rec := x.rec
		x.rec = false
		outs := x.callFn(st, f, nil, nil, "init:"+s.Pkg.Path())
		x.rec = rec
		for _, o := range outs {
			if o.kind == "" {
				st = o.st
				break
			}
		}
		st.log = nil
	}
	return st
}

// mutableGlobals are package variables that are assigned outside of init.
func (p *Program) mutableGlobals() map[*ssa.Global]bool {
	r := map[*ssa.Global]bool{}
	for f := range ssautil.AllFunctions(p.prog) {
		if f.Pkg == nil || p.pkgs[f.Pkg.Pkg.Path()] == nil || (f.Name() == "init" && f.Parent() == nil) {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					if g, ok := s.Addr.(*ssa.Global); ok && p.pkgs[g.Pkg.Pkg.Path()] != nil {
						r[g] = true
					}
				}
			}
		}
	}
	return r
}

// forgetGlobals makes the assigned package variables unknown.
func (p *Program) forgetGlobals(st *State) {
	var gs []*ssa.Global
	for g := range p.mutableGlobals() {
		gs = append(gs, g)
	}
	sort.Slice(gs, func(i, j int) bool { return gs[i].RelString(nil) < gs[j].RelString(nil) })
	for _, g := range gs {
		t := g.Type().Underlying().(*types.Pointer).Elem()
		st.store("g:"+g.RelString(nil)+"|", t, makeSym(st, t, "global:"+g.Name()))
	}
}
