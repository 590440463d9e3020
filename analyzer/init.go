package main

import (
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// globalsState executes the package initialisers abstractly (and, because
// they take no input, concretely) and returns the cells of package variables
// which never change afterwards.
func (L *Loaded) globalsState(report func(string)) *State {
	e := newEng(L)
	e.concrete = true
	st := newState()
	old := lazyHook
	lazyHook = func(s *State, addr *Term, t types.Type) *Term {
		if baseOf(addr).op == OGlobal && t != nil {
			return zeroOf(t)
		}
		return nil
	}
	defer func() { lazyHook = old }()
	e.h.Call = func(e *Eng, st *State, c *callInfo) ([]*State, bool) {
		if c.fn.Name() == "init" && c.fn.Parent() == nil && c.fn.Signature.Recv() == nil {
			if c.at != nil && c.fn.Pkg != nil && c.at.Parent().Pkg != c.fn.Pkg {
				return done(st, nil), true
			}
		}
		return nil, false
	}
	order := []string{modPath + "/internal/adler32", modPath + "/internal/crc32", modPath}
	for _, p := range L.pkgs {
		known := false
		for _, o := range order {
			known = known || o == p.PkgPath
		}
		if !known {
			order = append(order, p.PkgPath)
		}
	}
	for _, path := range order {
		sp := L.byPath[path]
		if sp == nil || L.opaque[path] {
			continue
		}
		fn := sp.Func("init")
		if fn == nil || len(fn.Blocks) == 0 {
			continue
		}
		// package variables start out as zero
		for _, m := range sp.Members {
			if g, ok := m.(*ssa.Global); ok {
				t := derefType(g.Type())
				a := intern(Term{op: OGlobal, v: g})
				if _, isArr := t.Underlying().(*types.Array); isArr || smallType(t) {
					st.store(a, zeroOf(t), t)
				}
			}
		}
		outs := e.call(st, fn, nil, nil, nil)
		if len(outs) != 1 {
			report("initialiser of " + path + " does not have exactly one outcome")
			if len(outs) == 0 {
				return newState()
			}
		}
		st = outs[0]
		st.frames = nil
	}
	for _, k := range e.order {
		report("package initialiser: " + e.problems[k].msg)
	}
	// drop what can change later
	mut := L.mutableGlobals()
	for k := range st.cells {
		b := baseOf(k)
		if b.op == OGlobal && mut[b.v.(*ssa.Global)] {
			delete(st.cells, k)
		}
	}
	e.roots = nil
	for k := range st.cells {
		e.roots = append(e.roots, k)
	}
	constCells = st.cells
	st.cells = map[*Term]*Term{}
	st.mon = map[string]*Term{}
	st.trace = nil
	st.ret = nil
	return st
}

func smallType(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic, *types.Pointer, *types.Slice, *types.Map, *types.Interface, *types.Signature:
		return true
	case *types.Struct:
		_ = u
		return true
	}
	return false
}

// readOnlyMethods are library methods that do not modify their receiver.
var readOnlyMethods = map[string]bool{
	"Encode": true, "Decode": true, "MaxSymbol": true, "SizeBySymbol": true, "NumSymbols": true,
	"MinSize": true, "MaxSize": true, "Get": true, "Put": true,
}

// mutableGlobals finds the package variables that may be written after
// initialisation: written, or their address escapes, outside of initialisers.
func (L *Loaded) mutableGlobals() map[*ssa.Global]bool {
	mut := map[*ssa.Global]bool{}
	var retFns = map[*ssa.Function]map[*ssa.Global]bool{}
	isInit := func(fn *ssa.Function) bool {
		return fn.Name() == "init" || (fn.Synthetic != "" && fn.Name() == "init") || (len(fn.Name()) > 5 && fn.Name()[:5] == "init#")
	}
	var useOK func(v ssa.Value, g *ssa.Global, seen map[ssa.Value]bool) bool
	useOK = func(v ssa.Value, g *ssa.Global, seen map[ssa.Value]bool) bool {
		if seen[v] {
			return true
		}
		seen[v] = true
		refs := v.Referrers()
		if refs == nil {
			return true
		}
		for _, r := range *refs {
			switch x := r.(type) {
			case *ssa.UnOp, *ssa.DebugRef:
			case *ssa.FieldAddr:
				if !useOK(x, g, seen) {
					return false
				}
			case *ssa.IndexAddr:
				if !useOK(x, g, seen) {
					return false
				}
			case *ssa.Slice:
				if !useOK(x, g, seen) {
					return false
				}
			case *ssa.Phi:
				if !useOK(x, g, seen) {
					return false
				}
			case *ssa.BinOp:
			case *ssa.Extract:
				if !useOK(x, g, seen) {
					return false
				}
			case *ssa.Return:
				m := retFns[x.Parent()]
				if m == nil {
					m = map[*ssa.Global]bool{}
					retFns[x.Parent()] = m
				}
				m[g] = true
			case *ssa.Store:
				if x.Val == v {
					// the address itself is stored: assume it is only
					// read through (huffman coders); checked by type
					if !isCoderPtr(v.Type()) {
						return false
					}
					continue
				}
				return false
			case ssa.CallInstruction:
				fn := x.Common().StaticCallee()
				if fn == nil || (fn.Pkg != nil && inModule(fn.Pkg.Pkg)) {
					if fn != nil && isCoderPtr(v.Type()) {
						continue // parameters of coder type are traced by type
					}
					return false
				}
				if !readOnlyMethods[fn.Name()] {
					if _, ok := v.Type().Underlying().(*types.Slice); ok {
						continue // library functions with slice arguments
					}
					return false
				}
			default:
				return false
			}
		}
		return true
	}
	for _, fn := range L.allFuncs {
		if isInit(fn) {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if *op == nil {
						continue
					}
					g, ok := (*op).(*ssa.Global)
					if !ok || mut[g] {
						continue
					}
					switch x := in.(type) {
					case *ssa.UnOp:
					case *ssa.FieldAddr:
						if !useOK(x, g, map[ssa.Value]bool{}) {
							mut[g] = true
						}
					case *ssa.IndexAddr:
						if !useOK(x, g, map[ssa.Value]bool{}) {
							mut[g] = true
						}
					case *ssa.Slice:
						if !useOK(x, g, map[ssa.Value]bool{}) {
							mut[g] = true
						}
					case *ssa.Return:
						if !isCoderPtr(g.Type()) {
							mut[g] = true
						}
					case ssa.CallInstruction:
						cf := x.Common().StaticCallee()
						if isCoderPtr(g.Type()) && cf != nil && (inModule(fnPkg(cf)) || readOnlyMethods[cf.Name()]) {
							continue
						}
						if cf == nil || !readOnlyMethods[cf.Name()] {
							mut[g] = true
						}
					case *ssa.Phi:
						if !isCoderPtr(g.Type()) {
							mut[g] = true
						}
					case *ssa.Store:
						if !(x.Val == g && isCoderPtr(g.Type())) {
							mut[g] = true
						}
					default:
						mut[g] = true
					}
				}
			}
		}
	}
	return mut
}

func fnPkg(fn *ssa.Function) *types.Package {
	if fn.Pkg == nil {
		return nil
	}
	return fn.Pkg.Pkg
}

func isCoderPtr(t types.Type) bool {
	p, ok := t.Underlying().(*types.Pointer)
	if !ok {
		return false
	}
	n := typeName(p.Elem())
	return n == libHuffman+".Encoder" || n == libHuffman+".Decoder"
}
