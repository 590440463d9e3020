package main

import (
	"fmt"
	"go/types"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// effects is what a function may do, including its callees.
type effects struct {
	event  string // why the function must be analysed in place
	stores map[string]bool
	loop   bool // some body has a loop
	deps   []*ssa.Function
}

func tkey(t types.Type) string { return types.TypeString(t, nil) }

func ownerKey(t types.Type) string {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		t = p.Elem()
	}
	return tkey(t)
}

// addrKey classifies the target of a store.
func addrKey(v ssa.Value, out map[string]bool) {
	if localAddr(v) {
		return
	}
	switch x := v.(type) {
	case *ssa.FieldAddr:
		st := x.X.Type().Underlying().(*types.Pointer).Elem()
		out[ownerKey(x.X.Type())+"."+st.Underlying().(*types.Struct).Field(x.Field).Name()] = true
	case *ssa.IndexAddr:
		switch u := x.X.Type().Underlying().(type) {
		case *types.Slice:
			out["[]"+tkey(u.Elem())] = true
		case *types.Pointer:
			if _, ok := x.X.(*ssa.Alloc); ok {
				return
			}
			out["[]"+tkey(u.Elem().Underlying().(*types.Array).Elem())] = true
		}
	case *ssa.Alloc:
	case *ssa.Global:
		out["G:"+x.String()] = true
	default:
		if p, ok := v.Type().Underlying().(*types.Pointer); ok {
			out["*"+tkey(p.Elem())] = true
		}
	}
}

// localAddr: the address is inside of a variable of the function.
func localAddr(v ssa.Value) bool {
	for {
		switch x := v.(type) {
		case *ssa.FieldAddr:
			v = x.X
		case *ssa.IndexAddr:
			if _, ok := x.X.Type().Underlying().(*types.Pointer); !ok {
				return false
			}
			v = x.X
		case *ssa.Alloc:
			return true
		default:
			return false
		}
	}
}

var pureInvokes = map[string]bool{"Error": true, "String": true, "GoString": true}

// localEffects inspects one body.
func (e *Eng) localEffects(fn *ssa.Function) *effects {
	ef := &effects{stores: map[string]bool{}}
	ev := func(f string, a ...interface{}) {
		if ef.event == "" {
			ef.event = fmt.Sprintf(f, a...)
		}
	}
	argStores := func(args []ssa.Value, sig *types.Signature, name string) {
		for _, a := range args {
			switch u := a.Type().Underlying().(type) {
			case *types.Pointer:
				ef.stores["*"+tkey(u.Elem())] = true
			case *types.Slice:
				if _, isI := u.Elem().Underlying().(*types.Interface); !isI {
					ef.stores["[]"+tkey(u.Elem())] = true
				}
			case *types.Interface:
				if mi, ok := a.(*ssa.MakeInterface); ok {
					ms := e.prog.MethodSets.MethodSet(mi.X.Type())
					for i := 0; i < ms.Len(); i++ {
						if m := e.prog.MethodValue(ms.At(i)); m != nil {
							ef.deps = append(ef.deps, m)
						}
					}
				} else if !types.Identical(a.Type(), types.Universe.Lookup("error").Type()) {
					ev("%s is given an interface", name)
				}
			case *types.Signature:
				ev("%s is given a function", name)
			}
		}
	}
	call := func(cc *ssa.CallCommon) {
		if cc.IsInvoke() {
			n, ok := types.Unalias(cc.Value.Type()).(*types.Named)
			if pureInvokes[cc.Method.Name()] {
				return
			}
			if ok && n.Obj().Pkg() != nil && inModule(n.Obj().Pkg()) && !n.Obj().Exported() && !cc.Method.Exported() {
				iface := n.Underlying().(*types.Interface)
				for _, t := range e.L.concrete {
					if types.Implements(t, iface) {
						if f := e.prog.LookupMethod(t, cc.Method.Pkg(), cc.Method.Name()); f != nil {
							ef.deps = append(ef.deps, f)
						}
					}
				}
				return
			}
			ev("calls the interface method %s", cc.Method.Name())
			return
		}
		switch f := cc.Value.(type) {
		case *ssa.Builtin:
			switch f.Name() {
			case "append", "copy", "clear":
				if u, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
					ef.stores["[]"+tkey(u.Elem())] = true
				}
			case "delete":
				ev("map")
			case "panic", "recover":
				ev("panic")
			}
			return
		}
		if g := cc.StaticCallee(); g != nil {
			if e.inlinable(g) {
				ef.deps = append(ef.deps, g)
				return
			}
			p := ""
			if k := fnPkg(g); k != nil {
				p = k.Path()
			}
			switch p {
			case "sync", "io", "os", "sync/atomic", "github.com/chronos-tachyon/bufferpool":
				ev("calls %s", g.String())
			case "fmt", "errors", "strings", "strconv", "math", "math/bits", "unicode/utf8", "time", "unicode":
				return
			case libAssert:
				return
			}
			argStores(cc.Args, g.Signature, g.String())
			return
		}
		if optionStruct(cc.Signature()) != nil {
			ev("calls an unknown option")
			return
		}
		n := 0
		for _, c := range e.L.addrTaken {
			if types.Identical(c.Signature, cc.Signature()) {
				ef.deps = append(ef.deps, c)
				n++
			}
		}
		if n == 0 {
			ev("calls an unknown function value")
		}
	}
	for _, b := range fn.Blocks {
		for _, in := range b.Instrs {
			switch x := in.(type) {
			case *ssa.Store:
				if !localAddr(x.Addr) {
					switch x.Val.Type().Underlying().(type) {
					case *types.Slice:
					default:
						if !noPointers(x.Val.Type()) {
							ev("stores a reference")
						}
					}
				}
				addrKey(x.Addr, ef.stores)
			case *ssa.MapUpdate:
				ev("map update")
			case *ssa.Send, *ssa.Select, *ssa.Go:
				ev("concurrency")
			case *ssa.UnOp:
				if x.Op.String() == "<-" {
					ev("concurrency")
				}
			case *ssa.Panic:
			case *ssa.Defer:
				call(&x.Call)
			case *ssa.Call:
				call(&x.Call)
			}
		}
	}
	return ef
}

// effectsOf returns the transitive effects.
func (e *Eng) effectsOf(fn *ssa.Function) *effects {
	if r, ok := e.effMemo[fn]; ok {
		return r
	}
	if e.effMemo == nil {
		e.effMemo = map[*ssa.Function]*effects{}
		e.effLocal = map[*ssa.Function]*effects{}
	}
	seen := map[*ssa.Function]bool{}
	r := &effects{stores: map[string]bool{}}
	var visit func(f *ssa.Function)
	visit = func(f *ssa.Function) {
		if seen[f] {
			return
		}
		seen[f] = true
		if len(f.Blocks) == 0 {
			if r.event == "" {
				r.event = "calls " + f.String()
			}
			return
		}
		l := e.effLocal[f]
		if l == nil {
			l = e.localEffects(f)
			e.effLocal[f] = l
		}
		if l.event != "" && r.event == "" {
			r.event = fnName(f) + ": " + l.event
		}
		for k := range l.stores {
			r.stores[k] = true
		}
		if len(e.info(f).head) > 0 {
			r.loop = true
		}
		for _, d := range l.deps {
			visit(d)
		}
	}
	visit(fn)
	e.effMemo[fn] = r
	return r
}

// noPointers: values of the type cannot refer to existing objects.
func noPointers(t types.Type) bool {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return true
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if !noPointers(u.Field(i).Type()) {
				return false
			}
		}
		return true
	case *types.Array:
		return noPointers(u.Elem())
	case *types.Tuple:
		for i := 0; i < u.Len(); i++ {
			if !noPointers(u.At(i).Type()) {
				return false
			}
		}
		return true
	case *types.Interface:
		return types.Identical(t, types.Universe.Lookup("error").Type())
	}
	return false
}

// summarised tells whether calls of fn are replaced by their effects.
func (e *Eng) summarised(fn *ssa.Function) bool {
	if e.protect == nil {
		return false
	}
	if r, ok := e.summMemo[fn]; ok {
		return r
	}
	if e.summMemo == nil {
		e.summMemo = map[*ssa.Function]bool{}
	}
	ef := e.effectsOf(fn)
	r := ef.event == "" && (fn.Signature.Results().Len() == 0 || noPointers(resultTypeOf(fn.Signature)))
	if r {
		for k := range ef.stores {
			if e.protect(k) {
				r = false
				break
			}
		}
	}
	// functions without loops are analysed
	if r && !ef.loop {
		r = false
	}
	e.summMemo[fn] = r
	return r
}

// applyEffects forgets what a summarised call may have changed.
func (e *Eng) applyEffects(st *State, fn *ssa.Function) {
	ef := e.effectsOf(fn)
	if len(ef.stores) == 0 {
		return
	}
	objs := map[*Term]bool{}
	var scan func(t *Term)
	seen := map[*Term]bool{}
	scan = func(t *Term) {
		if t == nil || seen[t] {
			return
		}
		seen[t] = true
		if t.op == OObj || t.op == OGlobal || t.op == OSym && t.ty != nil {
			objs[t] = true
		}
		for _, a := range t.args {
			scan(a)
		}
	}
	for k, v := range st.cells {
		scan(k)
		scan(v)
	}
	for _, f := range st.frames {
		for _, v := range f.regs {
			scan(v)
		}
		for _, d := range f.defers {
			scan(d.fn)
			for _, a := range d.args {
				scan(a)
			}
		}
	}
	for _, v := range st.mon {
		scan(v)
	}
	for _, o := range sortedKeys(objs) {
		t := e.cellType(o)
		if t == nil {
			continue
		}
		if o.op == OGlobal {
			if _, ok := constCells[o]; ok {
				continue
			}
			if ef.stores["G:"+o.v.(*ssa.Global).String()] {
				e.forgetAt(st, o, t, nil)
				continue
			}
		}
		e.forgetAt(st, o, t, ef.stores)
	}
}

// forgetAt forgets the cells below addr that are in the set (nil: all).
func (e *Eng) forgetAt(st *State, addr *Term, t types.Type, set map[string]bool) {
	if set != nil && set["*"+tkey(t)] {
		set = nil
	}
	if set != nil && !touches(t, set, 0) {
		return
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		if set == nil {
			if _, isExt := extShapes[typeName(t)]; isExt {
				for _, c := range shape(t) {
					st.cells[mkField(addr, c.name)] = mkSym(c.name, c.ty)
				}
				return
			}
		}
		k := tkey(t)
		for _, c := range shape(t) {
			s := set
			if s != nil && s[k+"."+c.name] {
				s = nil
			}
			if c.ty == nil {
				if s == nil {
					st.cells[mkField(addr, c.name)] = mkSym(c.name, nil)
				}
				continue
			}
			e.forgetAt(st, mkField(addr, c.name), c.ty, s)
		}
	case *types.Array:
		s := set
		if s != nil && s["[]"+tkey(u.Elem())] {
			s = nil
		}
		st.havocContents(addr, mkSym("content", nil))
	case *types.Slice:
		if addr.op == OObj { // a backing array
			st.havocContents(addr, mkSym("content", nil))
			return
		}
		if set == nil {
			st.store(addr, st.freshOf(t, leafName(addr)), t)
		}
	default:
		if set == nil {
			st.store(addr, st.freshOf(t, leafName(addr)), t)
		}
	}
}

// touches: some part of the type is in the set.
func touches(t types.Type, set map[string]bool, depth int) bool {
	if set["*"+tkey(t)] {
		return true
	}
	if depth > 6 {
		return true
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		k := tkey(t)
		for i := 0; i < u.NumFields(); i++ {
			if set[k+"."+u.Field(i).Name()] || touches(u.Field(i).Type(), set, depth+1) {
				return true
			}
		}
	case *types.Array:
		return set["[]"+tkey(u.Elem())] || touches(u.Elem(), set, depth+1)
	case *types.Slice:
		return set["[]"+tkey(u.Elem())]
	}
	return false
}

func sortedStrings(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}
