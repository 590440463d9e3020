package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Loaded is the type-checked program in SSA form.
type Loaded struct {
	dir       string
	fset      *token.FileSet
	prog      *ssa.Program
	pkgs      []*packages.Package
	spkgs     []*ssa.Package
	byPath    map[string]*ssa.Package
	opaque    map[string]bool
	concrete  []types.Type
	addrTaken []*ssa.Function
	allFns    map[*ssa.Function]bool
	allFuncs  []*ssa.Function
}

func repoDir() string {
	if d := os.Getenv("FLATE_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// load type-checks the packages of the module (without tests).
func load(dir string, env []string, patterns ...string) (*Loaded, error) {
	cfg := &packages.Config{
		Mode:  packages.LoadSyntax,
		Dir:   dir,
		Env:   append(append(os.Environ(), "GOFLAGS=-mod=readonly -buildvcs=false", "GOPROXY=off", "GOTOOLCHAIN=local", "GOWORK=off"), env...),
		Tests: false,
	}
	if len(patterns) == 0 {
		patterns = []string{"./..."}
	}
	pkgs, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(pkgs, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("type errors: %s", strings.Join(errs, "; "))
	}
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	prog, spkgs := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	L := &Loaded{dir: dir, prog: prog, pkgs: pkgs, byPath: map[string]*ssa.Package{},
		opaque: map[string]bool{modPath + "/internal/adler32": true, modPath + "/internal/crc32": true}}
	for i, sp := range spkgs {
		if sp == nil {
			return nil, fmt.Errorf("no SSA for %s", pkgs[i].PkgPath)
		}
		sp.Build()
		L.byPath[pkgs[i].PkgPath] = sp
	}
	L.spkgs = spkgs
	L.fset = prog.Fset
	// functions
	L.allFns = ssautil.AllFunctions(prog)
	for fn := range L.allFns {
		if fn.Pkg != nil && inModule(fn.Pkg.Pkg) && len(fn.Blocks) > 0 {
			L.allFuncs = append(L.allFuncs, fn)
		} else if fn.Pkg == nil && len(fn.Blocks) > 0 && fn.Parent() == nil && fn.Synthetic != "" && strings.Contains(fn.String(), modPath) {
			L.allFuncs = append(L.allFuncs, fn)
		}
	}
	sort.Slice(L.allFuncs, func(i, j int) bool {
		if a, b := L.allFuncs[i].String(), L.allFuncs[j].String(); a != b {
			return a < b
		}
		return L.allFuncs[i].Pos() < L.allFuncs[j].Pos()
	})
	taken := map[*ssa.Function]bool{}
	for _, fn := range L.allFuncs {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				var callee ssa.Value
				if c, ok := in.(ssa.CallInstruction); ok {
					callee = c.Common().Value
				}
				for _, op := range in.Operands(nil) {
					if op == nil || *op == nil {
						continue
					}
					if f, ok := (*op).(*ssa.Function); ok {
						if f == callee {
							n := 0
							for _, o2 := range in.Operands(nil) {
								if o2 != nil && *o2 == callee {
									n++
								}
							}
							if n == 1 {
								continue
							}
						}
						taken[f] = true
					}
				}
			}
		}
	}
	for _, fn := range L.allFuncs {
		if taken[fn] {
			L.addrTaken = append(L.addrTaken, fn)
		}
	}
	// concrete types of the module
	for _, sp := range spkgs {
		var names []string
		for n := range sp.Members {
			names = append(names, n)
		}
		sort.Strings(names)
		for _, n := range names {
			if t, ok := sp.Members[n].(*ssa.Type); ok {
				T := t.Type()
				if _, isI := T.Underlying().(*types.Interface); isI {
					continue
				}
				L.concrete = append(L.concrete, T, types.NewPointer(T))
			}
		}
	}
	return L, nil
}

func (L *Loaded) posString(p token.Pos) string {
	if p == token.NoPos {
		return ""
	}
	q := L.fset.Position(p)
	if r, err := filepath.Rel(L.dir, q.Filename); err == nil && !strings.HasPrefix(r, "..") {
		q.Filename = r
	}
	return fmt.Sprintf("%s:%d", q.Filename, q.Line)
}

// fn finds a function or method: "Name", "(*T).Name" in package path.
func (L *Loaded) fn(pkg, name string) *ssa.Function {
	for _, f := range L.allFuncs {
		if f.Pkg != nil && f.Pkg.Pkg.Path() == pkg {
			if f.RelString(f.Pkg.Pkg) == name {
				return f
			}
		}
	}
	return nil
}

func (L *Loaded) rootFn(name string) *ssa.Function { return L.fn(modPath, name) }
