package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var initSyms = map[*Term]*Term{}

// initSym is the unknown initial content of a cell.
func initSym(addr *Term, t types.Type) *Term {
	if s, ok := initSyms[addr]; ok {
		return s
	}
	s := mkSym(leafName(addr), t)
	initSyms[addr] = s
	return s
}

// ----------------------------------------------------------------- keys

// enumType tells whether a type is a named integer type with constants.
var enumMemo = map[types.Type]bool{}

func isEnum(t types.Type) bool {
	if r, ok := enumMemo[t]; ok {
		return r
	}
	r := false
	if n, ok := types.Unalias(t).(*types.Named); ok && inModule(n.Obj().Pkg()) {
		if _, _, isInt := intInfo(t); isInt {
			sc := n.Obj().Pkg().Scope()
			for _, nm := range sc.Names() {
				if c, ok := sc.Lookup(nm).(*types.Const); ok && types.Identical(c.Type(), t) {
					r = true
					break
				}
			}
		}
	}
	enumMemo[t] = r
	return r
}

// class is the part of a value that distinguishes states.
func (e *Eng) class(s *State, v *Term, t types.Type) string {
	if t == nil {
		switch v.op {
		case OBool, ONil:
			return v.String()
		}
		return ""
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			if v == tTrue {
				return "T"
			}
			if v == tFalse {
				return "F"
			}
			return "?"
		case u.Info()&types.IsInteger != 0:
			if v.op == OInt && ((isEnum(t) && !(e.noKeyType != nil && e.noKeyType(t))) || (e.keyBytes && u.Kind() == types.Uint8)) {
				return fmt.Sprint(v.k)
			}
			return ""
		case u.Info()&types.IsString != 0:
			if v.op == OStr {
				return v.s
			}
			return ""
		}
		return ""
	case *types.Struct:
		if v.op == OStruct {
			cs := shape(t)
			var b strings.Builder
			for i, a := range v.args {
				b.WriteString(e.class(s, a, cs[i].ty))
			}
			return b.String()
		}
		return ""
	case *types.Tuple:
		if v.op == OTuple {
			var b strings.Builder
			for i, a := range v.args {
				b.WriteString(e.class(s, a, u.At(i).Type()))
				b.WriteByte(';')
			}
			return b.String()
		}
		return ""
	case *types.Pointer, *types.Interface, *types.Slice, *types.Signature, *types.Map:
		if _, ok := u.(*types.Slice); ok && e.lite {
			return ""
		}
		switch v.op {
		case ONil:
			return "n"
		case OApp:
			if v.s == "gval" {
				return "g" + fmt.Sprint(v.id)
			}
			return "?"
		case OIface:
			return "i" + typeKey(v.ty)
		case OFunc, OGlobal:
			return "f" + fmt.Sprint(v.id)
		case OClosure:
			return fmt.Sprintf("c%p", v.v)
		case OField:
			if b := baseOf(v); b.op != OObj || b.k == 0 {
				return "a" + fmt.Sprint(v.id)
			}
			return "o"
		case OSlice, OObj, OIndex:
			return "o"
		}
		if s.truth(tEq(v, tNil)) == -1 {
			return "o"
		}
		return "?"
	}
	return ""
}

// constPhi: the value is one of a few constants that depend on the path.
func (e *Eng) constPhi(v ssa.Value) bool {
	p, ok := v.(*ssa.Phi)
	if !ok {
		return false
	}
	if r, ok := e.phiMemo[p]; ok {
		return r
	}
	set := map[string]bool{}
	r := true
	for _, x := range p.Edges {
		c, ok := x.(*ssa.Const)
		if !ok || c.Value == nil {
			r = false
			break
		}
		set[c.Value.String()] = true
	}
	if len(set) < 3 || len(set) > 32 {
		r = false
	}
	if e.phiMemo == nil {
		e.phiMemo = map[*ssa.Phi]bool{}
	}
	e.phiMemo[p] = r
	return r
}

func (e *Eng) stateKey(s *State) string {
	var parts []string
	for i, f := range s.frames {
		for k, v := range f.regs {
			c := e.class(s, v, k.Type())
			if c == "" && v.op == OInt && e.constPhi(k) {
				c = fmt.Sprint(v.k)
			}
			if c != "" {
				parts = append(parts, fmt.Sprintf("%d.%s=%s", i, k.Name(), c))
			}
		}
		if len(f.defers) > 0 {
			d := ""
			for _, x := range f.defers {
				d += fmt.Sprintf("%p,", x.instr)
			}
			parts = append(parts, fmt.Sprintf("%d:defer=%s", i, d))
		}
	}
	for k, v := range s.cells {
		if e.noKeyCell != nil && e.noKeyCell(k) || hasIndex(k) || baseOf(k).op == OObj && baseOf(k).k != 0 {
			continue
		}
		var ty types.Type
		if v.op == OBool {
			ty = tyBool
		} else {
			ty = e.cellType(k)
		}
		c := ""
		if ty != nil {
			c = e.class(s, v, ty)
		} else if v.op == ONil {
			c = "n"
		}
		if c != "" && c != "?" {
			parts = append(parts, fmt.Sprintf("c%d=%s", k.id, c))
		}
	}
	for k, v := range s.mon {
		if k == "$ret" {
			continue
		}
		if strings.HasPrefix(k, "$$") {
			parts = append(parts, "m"+k)
		} else if v.op == OInt || v.op == OBool || v.op == OStr || v.op == ONil {
			parts = append(parts, "m"+k+"="+v.String())
		} else if v.op == OTuple {
			parts = append(parts, fmt.Sprintf("m%s=#%d", k, len(v.args)))
		} else {
			parts = append(parts, "m"+k+"=*")
		}
	}
	if e.extraKey != nil {
		parts = append(parts, e.extraKey(s))
	}
	sort.Strings(parts)
	return strings.Join(parts, " ")
}

// cellType finds the static type of a cell from its address.
func (e *Eng) cellType(a *Term) types.Type {
	if t, ok := e.cellTypes[a]; ok {
		return t
	}
	t := e.cellType1(a)
	e.cellTypes[a] = t
	return t
}

func (e *Eng) cellType1(a *Term) types.Type {
	switch a.op {
	case OGlobal:
		return a.v.(*ssa.Global).Type().Underlying().(*types.Pointer).Elem()
	case OObj:
		return a.ty
	case OSym, OApp:
		if a.ty != nil {
			if p, ok := a.ty.Underlying().(*types.Pointer); ok {
				return p.Elem()
			}
		}
		return nil
	case OField:
		b := e.cellType(a.args[0])
		if b == nil {
			return nil
		}
		if _, ok := b.Underlying().(*types.Struct); !ok {
			return nil
		}
		for _, c := range shape(b) {
			if c.name == a.s {
				return c.ty
			}
		}
		return nil
	case OIndex:
		b := e.cellType(a.args[0])
		if b == nil {
			return nil
		}
		switch u := b.Underlying().(type) {
		case *types.Array:
			return u.Elem()
		case *types.Slice:
			return u.Elem()
		}
	}
	return nil
}

// normalise prepares a state for comparison: garbage collection, resolution
// of decided booleans.
func (e *Eng) normalise(s *State) {
	if e.tidy != nil {
		e.tidy(s)
	}
	for _, f := range s.frames {
		for k, v := range f.regs {
			if v.op == OApp && isBoolType(k.Type()) {
				switch s.truth(v) {
				case 1:
					f.regs[k] = tTrue
				case -1:
					f.regs[k] = tFalse
				}
			} else if v.op == OTuple {
				f.regs[k] = s.resolveTuple(v)
			}
		}
	}
	for k, v := range s.cells {
		if v.op == OApp && v.ty == nil && (v.s == "le0" || v.s == "eq0" || v.s == "not" || v.s == "eq" || v.s == "and&&") {
			switch s.truth(v) {
			case 1:
				s.cells[k] = tTrue
			case -1:
				s.cells[k] = tFalse
			}
		}
	}
	if e.normHook != nil {
		e.normHook(s)
	}
	e.gc(s)
}

func (s *State) resolveTuple(v *Term) *Term {
	changed := false
	na := make([]*Term, len(v.args))
	for i, a := range v.args {
		na[i] = a
		if a.op == OApp && a.ty == nil && (a.s == "le0" || a.s == "eq0" || a.s == "not" || a.s == "eq" || a.s == "and&&") {
			switch s.truth(a) {
			case 1:
				na[i], changed = tTrue, true
			case -1:
				na[i], changed = tFalse, true
			}
		}
	}
	if changed {
		return mkTuple(na...)
	}
	return v
}

func isBoolType(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsBoolean != 0
}

// gc removes cells of unreachable objects and facts on dead symbols.
func (e *Eng) gc(s *State) {
	seen := map[*Term]bool{}
	objs := map[*Term]bool{}
	var mark func(t *Term)
	var work []*Term
	mark = func(t *Term) {
		if !t.hasSy && t.op != OClosure {
			return
		}
		if seen[t] {
			return
		}
		seen[t] = true
		if (t.op == OObj || isPooled(t)) && !objs[t] {
			objs[t] = true
			work = append(work, t)
		}
		for _, a := range t.args {
			mark(a)
		}
	}
	byBase := map[*Term][]*Term{}
	for k, v := range s.cells {
		b := baseOf(k)
		for b.op == OApp && strings.HasPrefix(b.s, "as:") {
			b = b.args[0]
		}
		if b.op == OObj || isPooled(b) {
			byBase[b] = append(byBase[b], k)
		} else {
			mark(k)
			mark(v)
		}
	}
	for _, f := range s.frames {
		for _, v := range f.regs {
			mark(v)
		}
		for _, d := range f.defers {
			if d.fn != nil {
				mark(d.fn)
			}
			for _, a := range d.args {
				mark(a)
			}
		}
	}
	for _, v := range s.mon {
		mark(v)
	}
	for _, r := range e.roots {
		mark(r)
	}
	for len(work) > 0 {
		o := work[len(work)-1]
		work = work[:len(work)-1]
		for _, k := range byBase[o] {
			mark(k)
			mark(s.cells[k])
		}
	}
	for b, ks := range byBase {
		if !objs[b] {
			for _, k := range ks {
				delete(s.cells, k)
			}
		}
	}
	alive := func(t *Term) bool {
		ok := true
		var walk func(t *Term)
		walk = func(t *Term) {
			if !ok || !t.hasSy {
				return
			}
			if t.op == OSym || t.op == OObj {
				if !seen[t] {
					ok = false
				}
				return
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		walk(t)
		return ok
	}
	for f := range s.facts {
		if !alive(f) {
			s.delFact(f)
		}
	}
	for a := range s.iv {
		if !alive(a) {
			delete(s.iv, a)
		}
	}
}

// ---------------------------------------------------------------- match

// isPooled: an object obtained from a sync.Pool.
func isPooled(t *Term) bool { return t.op == OSym && strings.HasPrefix(t.s, "nn:pool") }

// match tells whether S is an instance of I (S is subsumed by I).
func (e *Eng) match(I, S *State) bool {
	m := &matcher{sub: map[*Term]*Term{}}
	if len(I.frames) != len(S.frames) || len(I.mon) != len(S.mon) {
		e.why("if len(I.frames) != len(S.frames) || len(I.mon) != len(S.mon) { ")
		return false
	}
	for i, f := range I.frames {
		g := S.frames[i]
		if len(f.regs) != len(g.regs) || len(f.defers) != len(g.defers) {
			e.why("if len(f.regs) != len(g.regs) || len(f.defers) != len(g.defers) { ")
			return false
		}
		for _, k := range regOrder(f) {
			v := f.regs[k]
			w, ok := g.regs[k]
			if !ok || !m.match(v, w) {
				e.why("if !ok || !m.match(v, w) { %v %v %v", k, v, w)
				return false
			}
		}
		for j, d := range f.defers {
			d2 := g.defers[j]
			if d.instr != d2.instr || len(d.args) != len(d2.args) || (d.fn == nil) != (d2.fn == nil) {
				e.why("if d.instr != d2.instr || len(d.args) != len(d2.args) || (d.fn == nil) != (d2.fn == nil) { ")
				return false
			}
			if d.fn != nil && !m.match(d.fn, d2.fn) {
				e.why("if d.fn != nil && !m.match(d.fn, d2.fn) { ")
				return false
			}
			for x := range d.args {
				if !m.match(d.args[x], d2.args[x]) {
					e.why("if !m.match(d.args[x], d2.args[x]) { ")
					return false
				}
			}
		}
	}
	for _, k := range monOrder(I.mon) {
		v := I.mon[k]
		w, ok := S.mon[k]
		if !ok || !m.match(v, w) {
			e.why("if !ok || !m.match(v, w) { %v %v %v", k, v, w)
			return false
		}
	}
	// elements that only S knows are covered by unknown contents in I
	fresh := map[*Term]*Term{}
	for k, w := range S.cells {
		if _, ok := I.cells[k]; ok {
			continue
		}
		if arr := arrayOf(k); arr != nil {
			d := mkIndex(arr, tAny)
			if c, ok := I.cells[d]; ok && c.op == OSym && (c.taint || !w.taint) && fresh[d] == nil {
				fresh[d] = mkSym("content", nil)
			}
		}
	}
	done := map[*Term]bool{}
	var later []*Term
	for _, k := range sortedKeys(I.cells) {
		v := I.cells[k]
		w, ok := S.cells[k]
		if !ok {
			if k.op == OIndex && k.args[1] == tAny && v.op == OSym {
				w = mkSym("content", nil)
			} else if baseOf(k).op != OObj && !hasIndex(k) && baseOf(k).op != OSym {
				w = initSym(k, e.cellType(k))
			} else if k.hasSy && baseOf(k) != k {
				later = append(later, k)
				continue
			} else {
				e.why("missing cell %v", k)
				return false
			}
		}
		if x := fresh[k]; x != nil {
			w = x
		}
		done[k] = true
		if !m.match(v, w) {
			e.why("cell %v: %v vs %v", k, v, w)
			return false
		}
	}
	for _, k := range later {
		k2 := substMemo{}
		for a, b := range m.sub {
			k2[a] = b
		}
		ks := k2.apply(k)
		w, ok := S.cells[ks]
		if !ok {
			if k.op == OIndex && k.args[1] == tAny && baseOf(ks).op == OSym && I.cells[k].op == OSym {
				continue
			}
			if baseOf(ks).op == OObj || hasIndex(ks) {
				e.why("missing cell %v (%v)", k, ks)
				return false
			}
			w = initSym(ks, e.cellType(k))
		}
		done[ks] = true
		if !m.match(I.cells[k], w) {
			e.why("cell %v: %v vs %v", k, I.cells[k], w)
			return false
		}
	}
	known := map[*Term]bool{}
	// extra cells in S: only allowed if I knows nothing about them
	for k, w := range S.cells {
		if done[k] {
			continue
		}
		if arr := arrayOf(k); arr != nil && fresh[mkIndex(arr, tAny)] != nil {
			continue
		}
		if baseOf(k).op == OSym && k.op == OIndex && k.args[1] == tAny && w.op == OSym && !w.taint {
			continue // unknown contents of an unknown array
		}
		if b := baseOf(k); b.op == OObj {
			kn, ok := known[b]
			if !ok {
				kn = I.mentions(b)
				known[b] = kn
			}
			if !kn {
				continue // I does not know which object this is
			}
			e.why("extra cell %v", k)
			return false
		}
		if k.op == OGlobal && lazyHook != nil && lazyHook(S, k, e.cellType(k)) == w {
			continue
		}
		if iv, ok := initSyms[k]; !ok || iv != w {
			e.why("extra cell %v = %v", k, w)
			return false
		}
	}
	if !m.finish() {
		e.why("sums")
		return false
	}
	sm := substMemo{}
	for a, b := range m.sub {
		sm[a] = b
	}
	for a, i := range I.iv {
		b := sm.apply(a)
		j := S.ival(b)
		if j.lo < i.lo || j.hi > i.hi {
			if j.hi > i.hi && !S.proveLE0(tAddK(b, -i.hi)) || j.lo < i.lo && !S.proveLE0(tSub(mkInt(i.lo), b)) {
				e.why("range %v %v %v %v", a, b, i, j)
				return false
			}
		}
	}
	for f := range I.facts {
		if S.truth(sm.apply(f)) != 1 {
			e.why("if S.truth(sm.apply(f)) != 1 { %v %v", f, sm.apply(f))
			return false
		}
	}
	return true
}

// arrayOf returns the array of the innermost index of an address.
// foldElems forgets elements at symbolic indices.
func (s *State) foldElems() {
	for _, k := range sortedKeys(s.cells) {
		sym := false
		var arr *Term
		for a := k; a.op == OField || a.op == OIndex; a = a.args[0] {
			if a.op == OIndex && a.args[1] != tAny && !a.args[1].isConst() {
				sym, arr = true, a.args[0]
			}
		}
		if !sym {
			continue
		}
		c := mkSym("content", nil)
		if s.cells[k].taint {
			c.taint = true
		}
		if old := s.cells[mkIndex(arr, tAny)]; old != nil && old.taint {
			c.taint = true
		}
		delete(s.cells, k)
		s.cells[mkIndex(arr, tAny)] = c
	}
}

func arrayOf(a *Term) *Term {
	for a.op == OField || a.op == OIndex {
		if a.op == OIndex {
			return a.args[0]
		}
		a = a.args[0]
	}
	return nil
}

// symIndex: the address has an index that is not a constant.
func symIndex(a *Term) bool {
	for ; a.op == OField || a.op == OIndex; a = a.args[0] {
		if a.op == OIndex && a.args[1].op != OInt {
			return true
		}
	}
	return false
}

func hasIndex(a *Term) bool {
	for a.op == OField || a.op == OIndex {
		if a.op == OIndex {
			return true
		}
		a = a.args[0]
	}
	return false
}

type matcher struct {
	sub   map[*Term]*Term
	later [][2]*Term // sums with several unbound symbols
	last  bool
}

// finish solves the deferred sums.
func (m *matcher) finish() bool {
	for len(m.later) > 0 {
		l := m.later
		m.later = nil
		for _, x := range l {
			if !m.match(x[0], x[1]) {
				if whyOn {
					fmt.Println("SUM", x[0], x[1], m.sub)
				}
				return false
			}
		}
		if len(m.later) >= len(l) {
			m.last = true
		}
	}
	return true
}

func (m *matcher) match(p, t *Term) bool {
	if !p.hasSy {
		return p == t
	}
	if p.op == OSym {
		if b, ok := m.sub[p]; ok {
			return b == t
		}
		if t.taint && !p.taint {
			return false
		}
		m.sub[p] = t
		return true
	}
	if p.op == OLin {
		// solve for one unbound symbol
		l := toLin(t)
		var un *Term
		var uc int64
		for i, a := range p.args {
			if a.op == OSym {
				b, ok := m.sub[a]
				if ok {
					l = linComb(l, -p.coef[i], toLin(b))
					continue
				}
				if un != nil {
					if !m.last {
						m.later = append(m.later, [2]*Term{p, t})
						return true
					}
					// bind one more symbol to an atom of the same name, or to zero
					b = tZero
					for k, x := range l.atoms {
						if x.op == OSym && x.s == a.s && l.coefs[k] == p.coef[i] {
							b = x
						}
					}
					m.sub[a] = b
					l = linComb(l, -p.coef[i], toLin(b))
					continue
				}
				un, uc = a, p.coef[i]
				continue
			}
			l = linComb(l, -p.coef[i], toLin(a))
		}
		l = linComb(l, -1, lin{c: p.k})
		if un == nil {
			return len(l.atoms) == 0 && l.c == 0
		}
		if uc == 1 {
			m.sub[un] = l.term()
			return true
		}
		if uc == -1 {
			m.sub[un] = linComb(lin{}, -1, l).term()
			return true
		}
		if l.c%uc != 0 {
			return false
		}
		q := lin{c: l.c / uc, atoms: l.atoms}
		for _, c := range l.coefs {
			if c%uc != 0 {
				return false
			}
			q.coefs = append(q.coefs, c/uc)
		}
		m.sub[un] = q.term()
		return true
	}
	if p.op != t.op || p.k != t.k || p.s != t.s || p.v != t.v || len(p.args) != len(t.args) || typeKey(p.ty) != typeKey(t.ty) {
		return false
	}
	for i := range p.args {
		if !m.match(p.args[i], t.args[i]) {
			return false
		}
	}
	return true
}

// ----------------------------------------------------------------- join

type mu struct {
	a, b, m *Term
	isInt   bool
}

type joiner struct {
	e     *Eng
	A, B  *State
	pairs map[[2]*Term]*Term
	mus   []mu
	n     int

	nonNeg []*Term // facts about merged sums
}

func isIntTerm(t *Term) bool {
	if t.op == OInt || t.op == OLin {
		return true
	}
	_, _, ok := intInfo(t.ty)
	return ok
}

// relMax: at the heads of loops values that change should become single
// symbols, elsewhere their relations are kept.
func (j *joiner) relMax() int {
	if j.e.lite {
		return 1
	}
	return 3
}

var dbgSym = os.Getenv("VSYM")
var dbgIv = os.Getenv("VIV") != ""

func (j *joiner) join(a, b *Term, ty types.Type) *Term {
	sums := j.e.lite && a.op == OLin && (j.e.forceSums[a] || j.n > 3 && len(a.args) >= 3 || j.n > 8 && len(a.args) >= 2)
	if a == b && !sums {
		return a
	}
	if m, ok := j.pairs[[2]*Term{a, b}]; ok {
		return m
	}
	var r *Term
	switch {
	case j.n < j.relMax() && a.op == OLin && b.op == OLin && a.k == b.k && len(a.args) == len(b.args) && eqCoefs(a.coef, b.coef) && oneDiff(a, b):
		l := lin{c: a.k}
		for i := range a.args {
			l = linComb(l, a.coef[i], toLin(j.join(a.args[i], b.args[i], a.args[i].ty)))
		}
		r = l.term()
	case a.op == b.op && a.op != OSym && a.op != OInt && a.op != OLin && a.op != OBool && a.op != OStr && a.op != OObj &&
		a.op != OFunc && a.op != OGlobal && a.op != OFloat &&
		a.k == b.k && a.s == b.s && a.v == b.v && len(a.args) == len(b.args) && len(a.args) > 0 && typeKey(a.ty) == typeKey(b.ty):
		na := make([]*Term, len(a.args))
		for i := range a.args {
			na[i] = j.join(a.args[i], b.args[i], argType(a, i))
		}
		r = rebuild(a, na)
	}
	if r == nil && !sums && isIntTerm(a) && isIntTerm(b) {
		// a constant distance to an earlier merged value
		d := toLin(a)
		for _, m := range j.mus {
			if !m.isInt || (m.a.op == OInt && m.b.op == OInt && !(a.op == OInt && b.op == OInt)) {
				continue
			}
			x, y := linComb(d, -1, toLin(m.a)), linComb(toLin(b), -1, toLin(m.b))
			if lx := x.term(); lx == y.term() && (j.n < j.relMax() || (j.n < 10 && len(x.atoms) == 0)) {
				r = tAdd(m.m, lx)
				break
			}
		}
		// a constant sum with an earlier merged value
		if r == nil {
			for _, m := range j.mus {
				if !m.isInt || m.a.op == OInt && m.b.op == OInt {
					continue
				}
				x, y := linComb(d, 1, toLin(m.a)), linComb(toLin(b), 1, toLin(m.b))
				if lx := x.term(); lx == y.term() && (j.n < j.relMax() || (j.n < 10 && len(x.atoms) == 0)) {
					r = tSub(lx, m.m)
					break
				}
			}
		}
		// the sum or difference of two earlier merged values
		if r == nil && (a.op == OLin || b.op == OLin) {
			for _, m := range j.mus {
				if !m.isInt || m.a.op == OInt && m.b.op == OInt {
					continue
				}
				x, y := linComb(d, -1, toLin(m.a)), linComb(toLin(b), -1, toLin(m.b))
				if len(x.atoms) > 2 || len(y.atoms) > 2 {
					continue
				}
				xt, yt := x.term(), y.term()
				if q, ok := j.pairs[[2]*Term{xt, yt}]; ok && q.op == OSym {
					r = tAdd(m.m, q)
					break
				}
				if q, ok := j.pairs[[2]*Term{tScale(xt, -1), tScale(yt, -1)}]; ok && q.op == OSym {
					r = tSub(m.m, q)
					break
				}
			}
		}
		if r != nil && !(r.op == OSym || r.op == OLin) {
			r = nil
		}
		if r != nil && r.op == OLin && j.A.proveLE0(tScale(a, -1)) && j.B.proveLE0(tScale(b, -1)) {
			j.nonNeg = append(j.nonNeg, tLE0(tScale(r, -1)))
		}
	}
	if r == nil {
		name := "m"
		for _, t := range []*Term{a, b} {
			if t.op == OSym {
				name = strings.TrimPrefix(t.s, "nn:")
			}
		}
		if neverNil(a) && neverNil(b) || (isPtrLike(ty) && j.A.truth(tEq(a, tNil)) == -1 && j.B.truth(tEq(b, tNil)) == -1) {
			name = "nn:" + name
		}
		mty := ty
		if isIntTerm(a) && isIntTerm(b) {
			if mty == nil {
				mty = tyInt
			}
			if _, _, ok := intInfo(mty); !ok {
				mty = tyInt
			}
			if a.ty != nil && b.ty != nil && typeKey(a.ty) == typeKey(b.ty) {
				mty = a.ty
			}
		} else if ty == nil && a.ty != nil && b.ty != nil && typeKey(a.ty) == typeKey(b.ty) {
			mty = a.ty
		}
		r = mkSym(name, mty)
		if a.taint || b.taint {
			r.taint = true
		}
		j.mus = append(j.mus, mu{a, b, r, isIntTerm(a) && isIntTerm(b)})
		if g := j.e.notThis; g != nil && isPtrLike(ty) && j.A.truth(tEq(a, g)) == -1 && j.B.truth(tEq(b, g)) == -1 {
			j.nonNeg = append(j.nonNeg, tNot(tEq(r, g)))
		}
		if dbgSym != "" && strings.HasSuffix(fmt.Sprint(r), dbgSym) {
			fmt.Fprintln(os.Stderr, "SYM", j.n, r, "=", a, "|", b)
			for _, m := range j.mus {
				fmt.Fprintln(os.Stderr, "   MU", m.m, "=", m.a, "|", m.b)
			}
		}
	}
	j.pairs[[2]*Term{a, b}] = r
	return r
}

func isPtrLike(t types.Type) bool {
	if t == nil {
		return false
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Interface, *types.Slice, *types.Signature, *types.Map:
		return true
	}
	return false
}

func argType(t *Term, i int) types.Type {
	switch t.op {
	case OStruct:
		cs := shape(t.ty)
		if i < len(cs) {
			return cs[i].ty
		}
	case OIface:
		return t.ty
	case OSlice:
		if i > 0 {
			return tyInt
		}
	case OIndex:
		if i == 1 {
			return tyInt
		}
	case OArray:
		return t.ty.Underlying().(*types.Array).Elem()
	}
	return t.args[i].ty
}

func eqCoefs(a, b []int64) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// oneDiff: at most one atom differs (otherwise the pairing is arbitrary).
func oneDiff(a, b *Term) bool {
	n := 0
	for i := range a.args {
		if a.args[i] != b.args[i] {
			n++
		}
	}
	return n <= 1
}

// join merges two states at the same program point.
func (e *Eng) join(A, B *State, widen bool, n int) *State {
	j := &joiner{e: e, A: A, B: B, pairs: map[[2]*Term]*Term{}, n: n}
	J := newState()
	J.trace = A.trace
	if B.trace != nil && (A.trace == nil || B.trace.n < A.trace.n) {
		J.trace = B.trace
	}
	for i, f := range A.frames {
		g := B.frames[i]
		nf := &Frame{fn: f.fn, ctx: f.ctx, site: f.site, ext: f.ext, regs: map[ssa.Value]*Term{}}
		for _, k := range regOrder(f) {
			v := f.regs[k]
			if w, ok := g.regs[k]; ok {
				nf.regs[k] = j.join(v, w, k.Type())
			}
		}
		for x, d := range f.defers {
			d2 := g.defers[x]
			nd := deferred{instr: d.instr}
			if d.fn != nil {
				nd.fn = j.join(d.fn, d2.fn, nil)
			}
			for y := range d.args {
				nd.args = append(nd.args, j.join(d.args[y], d2.args[y], nil))
			}
			nf.defers = append(nf.defers, nd)
		}
		J.frames = append(J.frames, nf)
	}
	for _, k := range monOrder(A.mon) {
		v := A.mon[k]
		if w, ok := B.mon[k]; ok {
			J.mon[k] = j.join(v, w, v.ty)
		}
	}
	// cells
	weak := map[*Term]bool{}
	weaken := func(k *Term) {
		for a := k; a.op == OField || a.op == OIndex; a = a.args[0] {
			if a.op == OIndex {
				weak[a.args[0]] = true
			}
		}
	}
	keys := make([]*Term, 0, len(A.cells)+len(B.cells))
	for k := range A.cells {
		keys = append(keys, k)
	}
	for k := range B.cells {
		if _, ok := A.cells[k]; !ok {
			keys = append(keys, k)
		}
	}
	sortedIDs(keys)
	var onlyA []*Term
	onlyB := map[*Term]bool{}
	for _, k := range keys {
		v, okA := A.cells[k]
		w, okB := B.cells[k]
		ty := e.cellType(k)
		switch {
		case okA && okB:
			J.cells[k] = j.join(v, w, ty)
		case baseOf(k).op != OObj && !hasIndex(k):
			if !okA {
				v = initSym(k, ty)
			} else {
				w = initSym(k, ty)
			}
			J.cells[k] = j.join(v, w, ty)
		case okA:
			onlyA = append(onlyA, k)
		default:
			onlyB[k] = true
		}
	}
	// cells with symbolic indices: pair them through the merged symbols
	for _, k := range onlyA {
		done := false
		if hasIndex(k) {
			ka, kb, ok := j.pairAddr(k)
			if ok && onlyB[kb] {
				J.cells[ka] = j.join(A.cells[k], B.cells[kb], e.cellType(k))
				delete(onlyB, kb)
				done = true
			}
		}
		if !done {
			weaken(k)
		}
	}
	for k := range onlyB {
		weaken(k)
	}
	for _, arr := range sortedKeys(weak) {
		d := mkIndex(arr, tAny)
		c := mkSym("content", nil)
		for _, S := range []*State{A, B} {
			for k, v := range S.cells {
				if v.taint && arrayOf(k) == arr {
					c.taint = true
				}
			}
		}
		J.cells[d] = c
	}
	j.facts(J, widen, n)
	return J
}

// pairAddr renames an address of A by the merged symbols.
func (j *joiner) pairAddr(k *Term) (*Term, *Term, bool) {
	ma, mb := substMemo{}, substMemo{}
	cnt := map[*Term]int{}
	for _, m := range j.mus {
		cnt[m.a]++
	}
	for _, m := range j.mus {
		if cnt[m.a] == 1 && m.a.op != OInt {
			ma[m.a] = m.m
			mb[m.a] = m.b
		}
	}
	return ma.apply(k), mb.apply(k), true
}

// facts computes the facts of the merged state.
func (j *joiner) facts(J *State, widen bool, n int) {
	A, B := j.A, j.B
	// terms that survived unchanged keep facts that hold on both sides
	toA, toB := substMemo{}, substMemo{}
	for _, m := range j.mus {
		toA[m.m] = m.a
		toB[m.m] = m.b
	}
	inst := func(m substMemo, t *Term) *Term { return m.apply(t) }
	if j.e.lite {
		for f := range A.facts {
			if B.facts[f] {
				J.facts[f] = true
			} else if f.op != OApp || f.s != "le0" {
				if B.truth(f) == 1 {
					J.facts[f] = true
				}
			}
		}
		for f := range B.facts {
			if f.op != OApp || f.s != "le0" {
				if A.truth(f) == 1 {
					J.facts[f] = true
				}
			}
		}
		if j.e.rel {
			j.liteFacts(J, widen, toA, toB)
		}
		for _, f := range j.nonNeg {
			if f.op == OApp {
				J.facts[f] = true
			}
		}
		j.intervals(J, widen)
		return
	}
	cand := map[*Term]bool{}
	// renamings A->J and B->J by unique partners; constants are not renamed
	renA, renB := substMemo{}, substMemo{}
	ca, cb := map[*Term]int{}, map[*Term]int{}
	for _, m := range j.mus {
		ca[m.a]++
		cb[m.b]++
	}
	for _, m := range j.mus {
		if (m.a.op == OSym || m.a.op == OApp) && ca[m.a] == 1 {
			renA[m.a] = m.m
		}
		if (m.b.op == OSym || m.b.op == OApp) && cb[m.b] == 1 {
			renB[m.b] = m.m
		}
	}
	for f := range A.facts {
		cand[f] = true
		if g := renA.apply(f); g != f {
			cand[g] = true
		}
	}
	if !widen {
		for f := range B.facts {
			cand[f] = true
			if g := renB.apply(f); g != f {
				cand[g] = true
			}
		}
	}
	// alternatives: every merged symbol of an atom with several partners,
	// and merged constants inside of two-atom facts
	j.altFacts(A, true, ca, cand)
	if !widen {
		j.altFacts(B, false, cb, cand)
	}
	var isMu map[*Term]bool
	if n > 8 {
		isMu = map[*Term]bool{}
		for _, m := range j.mus {
			isMu[m.m] = true
		}
	}
	for f := range cand {
		if f.op == OBool {
			continue
		}
		if isMu != nil && mentionsAny(f, isMu) && (n > 15 || hasElem(f)) {
			continue
		}
		if A.truth(inst(toA, f)) == 1 && B.truth(inst(toB, f)) == 1 {
			J.facts[f] = true
		}
	}
	j.intervals(J, widen)
	// difference bounds between merged integers and other atoms
	j.zones(J, widen, toA, toB)
}

// liteFacts keeps the bounds on one or two atoms in which merged symbols
// take part.
func (j *joiner) liteFacts(J *State, widen bool, toA, toB substMemo) {
	cand := map[*Term]bool{}
	seen := map[[2]*Term]bool{}
	propose := func(S *State, isA bool) {
		by := map[*Term][]mu{}
		for _, m := range j.mus {
			if !m.isInt {
				continue
			}
			x := m.a
			if !isA {
				x = m.b
			}
			switch x.op {
			case OSym, OApp:
				by[x] = append(by[x], m)
			case OLin:
				by[x.args[0]] = append(by[x.args[0]], m)
			}
		}
		if len(by) == 0 {
			return
		}
		for f := range S.facts {
			if f.op != OApp || f.s != "le0" {
				continue
			}
			l := toLin(f.args[0])
			if len(l.atoms) > 4 {
				continue
			}
			level := []lin{l}
			for d := 0; d < 2; d++ {
				var next []lin
				for _, l := range level {
					for i, a := range l.atoms {
						for _, m := range by[a] {
							x := m.a
							if !isA {
								x = m.b
							}
							c := l.coefs[i]
							lx := toLin(x)
							if x.op == OLin {
								if c%lx.coefs[0] != 0 || lx.atoms[0] != a {
									continue
								}
								c /= lx.coefs[0]
							}
							n := linComb(linComb(l, -c, lx), c, toLin(m.m))
							k := [2]*Term{n.term(), tZero}
							if len(n.atoms) > 4 || seen[k] {
								continue
							}
							seen[k] = true
							next = append(next, n)
							if len(n.atoms) <= 2 && len(n.atoms) > 0 {
								cand[tLE0(n.term())] = true
							}
						}
					}
				}
				level = next
				if len(level) > 60 {
					break
				}
			}
		}
	}
	propose(j.A, true)
	if !widen {
		propose(j.B, false)
	}
	var cs []*Term
	for c := range cand {
		if c.op == OApp && c.s == "le0" {
			cs = append(cs, c)
		}
	}
	sortedIDs(cs)
	if len(cs) > 300 {
		cs = cs[:300]
	}
	for _, c := range cs {
		x := c.args[0]
		if j.A.proveLE0(toA.apply(x)) && j.B.proveLE0(toB.apply(x)) {
			J.facts[c] = true
		}
	}
}

// lowIval is the range of a term, where facts may show that a sum is
// positive or not negative.
func (s *State) lowIval(t *Term) ival {
	i := s.ival(t)
	if t.op == OLin && i.lo < 1 {
		if s.proveLE0(tSub(tOne, t)) {
			i.lo = 1
		} else if i.lo < 0 && s.proveLE0(tScale(t, -1)) {
			i.lo = 0
		}
	}
	return i
}

// widenTo is the next threshold: the lengths of the arrays of the module.
func (e *Eng) widenTo(hi int64, n int) int64 {
	if n > 16 {
		return posInf
	}
	if e.ladder == nil {
		set := map[int64]bool{255: true, 65535: true}
		for fn := range e.L.allFns {
			if fn.Pkg == nil || !inModule(fn.Pkg.Pkg) {
				continue
			}
			for _, b := range fn.Blocks {
				for _, in := range b.Instrs {
					var t types.Type
					switch x := in.(type) {
					case *ssa.IndexAddr:
						t = x.X.Type()
					case *ssa.Slice:
						t = x.X.Type()
					case *ssa.Alloc:
						t = x.Type()
					default:
						continue
					}
					if p, ok := t.Underlying().(*types.Pointer); ok {
						t = p.Elem()
					}
					if a, ok := t.Underlying().(*types.Array); ok && a.Len() > 2 {
						set[a.Len()-1] = true
						set[a.Len()] = true
					}
				}
			}
		}
		e.ladder = []int64{}
		for k := range set {
			e.ladder = append(e.ladder, k)
		}
		sort.Slice(e.ladder, func(i, j int) bool { return e.ladder[i] < e.ladder[j] })
	}
	for _, k := range e.ladder {
		if k >= hi {
			return k
		}
	}
	return posInf
}

// intervals computes the ranges of merged symbols and of unchanged atoms.
func (j *joiner) intervals(J *State, widen bool) {
	A, B := j.A, j.B
	for _, m := range j.mus {
		if !m.isInt {
			continue
		}
		ia, ib := A.lowIval(m.a), B.lowIval(m.b)
		h := ia.hull(ib)
		if widen {
			if h.lo < ia.lo {
				h.lo = negInf
			}
			if h.hi > ia.hi {
				if j.e.noLadder {
					h.hi = posInf
				} else {
					h.hi = j.e.widenTo(h.hi, j.n)
				}
			}
		}
		t := typeIval(m.m.ty)
		h = h.meet(t)
		if h != t {
			J.iv[m.m] = h
		}
		if dbgIv {
			fmt.Fprintln(os.Stderr, "IV", m.m, m.a, ia, m.b, ib, "->", h, widen)
			if os.Getenv("VIV") == m.m.String() {
				for _, S := range []*State{A, B} {
					for _, f := range S.le0Facts() {
						fmt.Fprintln(os.Stderr, "  FACT", f.t)
					}
					fmt.Fprintln(os.Stderr, "  --")
				}
			}
		}
	}
	for a, ia := range A.iv {
		if ib, ok := B.iv[a]; ok {
			J.iv[a] = ia.hull(ib)
		} else {
			J.iv[a] = ia.hull(B.ival(a))
		}
	}
	for a, ib := range B.iv {
		if _, ok := A.iv[a]; !ok {
			J.iv[a] = ib.hull(A.ival(a))
		}
	}
	for a, i := range J.iv {
		if i == typeIval(a.ty) || (i.lo <= negInf && i.hi >= posInf) {
			delete(J.iv, a)
		}
	}
}

// altFacts proposes variants of the facts of one side in terms of merged
// symbols whose partner on that side is a constant or is ambiguous.
func (j *joiner) altFacts(S *State, isA bool, cnt map[*Term]int, cand map[*Term]bool) {
	for f := range S.facts {
		if f.op != OApp || f.s != "le0" {
			continue
		}
		l := toLin(f.args[0])
		for _, m := range j.mus {
			if !m.isInt {
				continue
			}
			x := m.a
			if !isA {
				x = m.b
			}
			if x.op == OInt || cnt[x] < 1 {
				continue
			}
			if x.op == OLin {
				// l contains x as a linear combination: l - c*x + c*m
				for _, c := range []int64{1, -1} {
					n := linComb(l, -c, toLin(x))
					if len(n.atoms) < len(l.atoms) {
						n = linComb(n, c, toLin(m.m))
						cand[tLE0(n.term())] = true
					}
				}
				continue
			}
			for i, a := range l.atoms {
				if a == x {
					n := linComb(l, -l.coefs[i], toLin(a))
					n = linComb(n, l.coefs[i], toLin(m.m))
					cand[tLE0(n.term())] = true
				}
			}
		}
	}
}

func (j *joiner) zones(J *State, widen bool, toA, toB substMemo) {
	if widen {
		return
	}
	var ms []mu
	for _, m := range j.mus {
		if m.isInt {
			ms = append(ms, m)
		}
	}
	if len(ms) == 0 {
		return
	}
	// other atoms: those in linear facts of either side, plus merged ones
	others := map[*Term]bool{}
	add := func(S *State, ren substMemo) {
		for f := range S.facts {
			if f.op == OApp && f.s == "le0" {
				for _, a := range toLin(f.args[0]).atoms {
					others[a] = true
				}
			}
		}
	}
	add(j.A, nil)
	add(j.B, nil)
	for _, m := range ms {
		others[m.m] = true
		for _, t := range []*Term{m.a, m.b} {
			for _, a := range toLin(t).atoms {
				others[a] = true
			}
		}
	}
	var os []*Term
	for a := range others {
		os = append(os, a)
	}
	sortedIDs(os)
	n := 0
	for _, m := range ms {
		for _, o := range os {
			if o == m.m {
				continue
			}
			n++
			if n > 400 {
				return
			}
			for _, sgn := range []int64{1, -1} {
				// sgn*(m - o) <= k
				l := linComb(lin{}, sgn, linComb(toLin(m.m), -1, toLin(o)))
				la := toLin(toA.apply(l.term()))
				lb := toLin(toB.apply(l.term()))
				ua := j.A.upper(la, negInf, 3, nil)
				if ua >= posInf/2 {
					continue
				}
				ub := j.B.upper(lb, negInf, 3, nil)
				if ub >= posInf/2 {
					continue
				}
				// a bound that follows from the ranges alone is noise
				if ua >= j.A.ival(la.term()).hi && ub >= j.B.ival(lb.term()).hi {
					continue
				}
				k := max(ua, ub)
				f := tLE0(linComb(l, -1, lin{c: k}).term())
				if f.op == OBool {
					continue
				}
				// only useful if not implied by the intervals
				if J.ival(f.args[0]).hi <= 0 {
					continue
				}
				J.facts[f] = true
			}
		}
	}
}

var valueIndexMemo = map[*ssa.Function]map[ssa.Value]int{}

// valueIndex numbers the values of a function.
func valueIndex(fn *ssa.Function) map[ssa.Value]int {
	if m, ok := valueIndexMemo[fn]; ok {
		return m
	}
	m := map[ssa.Value]int{}
	for _, p := range fn.Params {
		m[p] = len(m)
	}
	for _, p := range fn.FreeVars {
		m[p] = len(m)
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if v, ok := i.(ssa.Value); ok {
				m[v] = len(m)
			}
		}
	}
	valueIndexMemo[fn] = m
	return m
}

func regOrder(f *Frame) []ssa.Value {
	idx := valueIndex(f.fn)
	out := make([]ssa.Value, 0, len(f.regs))
	for k := range f.regs {
		out = append(out, k)
	}
	sort.Slice(out, func(i, j int) bool { return idx[out[i]] < idx[out[j]] })
	return out
}

func monOrder(m map[string]*Term) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

var whyOn bool
var whyMsg string

func (e *Eng) why(f string, a ...interface{}) {
	if whyOn {
		whyMsg = fmt.Sprintf(f, a...)
	}
}

func mentionsAny(t *Term, set map[*Term]bool) bool {
	if set[t] {
		return true
	}
	if !t.hasSy {
		return false
	}
	for _, a := range t.args {
		if mentionsAny(a, set) {
			return true
		}
	}
	return false
}

func hasElem(t *Term) bool {
	if t.op == OApp && t.s == "elem" {
		return true
	}
	for _, a := range t.args {
		if hasElem(a) {
			return true
		}
	}
	return false
}
