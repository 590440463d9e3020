package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Frame is one activation record of the abstract call stack.
type Frame struct {
	fn     *ssa.Function
	ctx    string
	regs   map[ssa.Value]*Term
	defers []deferred
	site   ssa.Instruction // call instruction in the caller
	ext    interface{}
}

type deferred struct {
	instr *ssa.Defer
	fn    *Term // function value, or nil for invoke
	args  []*Term
}

// traceNode is a linked list of notable positions for diagnostics.
type traceNode struct {
	prev *traceNode
	msg  string
	n    int
}

// State is one abstract state.
type State struct {
	frames []*Frame
	cells  map[*Term]*Term // address -> value
	iv     map[*Term]ival  // interval of atoms
	facts  map[*Term]bool  // le0/eq0/other atoms known to be true
	mon    map[string]*Term
	trace  *traceNode
	dead   bool
	ret    *Term
	hist   []substMemo // refinements since the current instruction started
	fl     []factLin   // sorted le0 facts (cache)
	flOK   bool
}

type factLin struct {
	t *Term
	l lin
}

func (s *State) addFact(c *Term) {
	if !s.facts[c] {
		s.facts[c] = true
		s.flOK = false
	}
}

func (s *State) delFact(c *Term) {
	delete(s.facts, c)
	s.flOK = false
}

// le0Facts returns the facts of the form lin <= 0 in a fixed order.
func (s *State) le0Facts() []factLin {
	if !s.flOK {
		s.fl = nil
		for f := range s.facts {
			if f.op == OApp && f.s == "le0" {
				s.fl = append(s.fl, factLin{f, toLin(f.args[0])})
			}
		}
		sort.Slice(s.fl, func(i, j int) bool { return s.fl[i].t.id < s.fl[j].t.id })
		s.flOK = true
	}
	return s.fl
}

func sortedKeys[V any](m map[*Term]V) []*Term {
	out := make([]*Term, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	return sortedIDs(out)
}

func newState() *State {
	return &State{
		cells: map[*Term]*Term{},
		iv:    map[*Term]ival{},
		facts: map[*Term]bool{},
		mon:   map[string]*Term{},
	}
}

func (s *State) clone() *State {
	n := &State{
		frames: make([]*Frame, len(s.frames)),
		cells:  make(map[*Term]*Term, len(s.cells)+4),
		iv:     make(map[*Term]ival, len(s.iv)+4),
		facts:  make(map[*Term]bool, len(s.facts)+4),
		mon:    make(map[string]*Term, len(s.mon)+1),
		trace:  s.trace,
		ret:    s.ret,
		hist:   append([]substMemo(nil), s.hist...),
	}
	for i, f := range s.frames {
		nf := &Frame{fn: f.fn, ctx: f.ctx, site: f.site, ext: f.ext}
		nf.regs = make(map[ssa.Value]*Term, len(f.regs)+4)
		for k, v := range f.regs {
			nf.regs[k] = v
		}
		nf.defers = append([]deferred(nil), f.defers...)
		n.frames[i] = nf
	}
	for k, v := range s.cells {
		n.cells[k] = v
	}
	for k, v := range s.iv {
		n.iv[k] = v
	}
	for k, v := range s.facts {
		n.facts[k] = v
	}
	for k, v := range s.mon {
		n.mon[k] = v
	}
	return n
}

// constCells are the package variables that never change after
// initialisation, shared by all states.
var constCells = map[*Term]*Term{}

func (s *State) cell(a *Term) (*Term, bool) {
	if v, ok := s.cells[a]; ok {
		return v, true
	}
	v, ok := constCells[a]
	return v, ok
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) note(format string, args ...interface{}) {
	n := 0
	if s.trace != nil {
		n = s.trace.n + 1
	}
	s.trace = &traceNode{s.trace, fmt.Sprintf(format, args...), n}
}

func (s *State) traceStrings() []string {
	var out []string
	for t := s.trace; t != nil && len(out) < 60; t = t.prev {
		out = append(out, t.msg)
	}
	for i, j := 0, len(out)-1; i < j; i, j = i+1, j-1 {
		out[i], out[j] = out[j], out[i]
	}
	return out
}

// ------------------------------------------------------------ intervals

func (s *State) atomIval(a *Term) ival {
	r := typeIval(a.ty)
	if a.op == OApp {
		r = r.meet(s.appIval(a))
	}
	if i, ok := s.iv[a]; ok {
		r = r.meet(i)
	}
	return r
}

func (s *State) appIval(a *Term) ival {
	switch a.s {
	case "len", "cap":
		return ival{0, posInf}
	case "and":
		x, y := s.ival(a.args[0]), s.ival(a.args[1])
		hi := int64(posInf)
		if x.lo >= 0 && x.hi < hi {
			hi = x.hi
		}
		if y.lo >= 0 && y.hi < hi {
			hi = y.hi
		}
		return ival{0, hi}
	case "mod":
		x, y := s.ival(a.args[0]), s.ival(a.args[1])
		if x.lo >= 0 && y.lo > 0 {
			hi := y.hi - 1
			if x.hi < hi {
				hi = x.hi
			}
			return ival{0, hi}
		}
	case "div", "shr":
		x, y := s.ival(a.args[0]), s.ival(a.args[1])
		if x.lo >= 0 {
			hi := x.hi
			if a.s == "div" && y.lo > 0 && hi < posInf {
				hi = hi / y.lo
			} else if a.s == "shr" && y.lo >= 0 && y.lo < 62 && hi < posInf {
				hi = hi >> uint(y.lo)
			}
			lo := int64(0)
			if y.hi == y.lo && x.lo < posInf {
				if a.s == "div" && y.lo > 0 {
					lo = x.lo / y.lo
				} else if a.s == "shr" && y.lo >= 0 && y.lo < 62 {
					lo = x.lo >> uint(y.lo)
				}
			}
			return ival{lo, hi}
		}
	case "or", "xor":
		x, y := s.ival(a.args[0]), s.ival(a.args[1])
		if x.lo >= 0 && y.lo >= 0 && x.hi < posInf && y.hi < posInf {
			m := x.hi | y.hi
			for b := int64(1); b <= m; b <<= 1 {
				m |= b - 1
			}
			m |= x.hi | y.hi
			lo := int64(0)
			if a.s == "or" {
				lo = x.lo
				if y.lo > lo {
					lo = y.lo
				}
			}
			return ival{lo, m}
		}
	case "min":
		r := s.ival(a.args[0])
		for _, y := range a.args[1:] {
			j := s.ival(y)
			if j.lo < r.lo {
				r.lo = j.lo
			}
			if j.hi < r.hi {
				r.hi = j.hi
			}
		}
		return r
	case "max":
		r := s.ival(a.args[0])
		for _, y := range a.args[1:] {
			j := s.ival(y)
			if j.lo > r.lo {
				r.lo = j.lo
			}
			if j.hi > r.hi {
				r.hi = j.hi
			}
		}
		return r
	case "pow2":
		x := s.ival(a.args[0])
		r := ival{1, posInf}
		if x.lo >= 0 && x.lo < 60 {
			r.lo = 1 << uint(x.lo)
		}
		if x.hi >= 0 && x.hi < 60 {
			r.hi = 1 << uint(x.hi)
		}
		return r
	case "bits":
		n := s.ival(a.args[2])
		r := ival{0, posInf}
		if n.hi >= 0 && n.hi < 61 {
			r.hi = 1<<uint(n.hi) - 1
		}
		x, lo := s.ival(a.args[0]), s.ival(a.args[1])
		if x.lo >= 0 && x.hi < posInf && lo.lo >= 0 && lo.lo < 62 {
			r.hi = min(r.hi, x.hi>>uint(lo.lo))
		}
		return r
	case "sel":
		r := s.ival(a.args[1])
		for _, y := range a.args[2:] {
			r = r.hull(s.ival(y))
		}
		return r
	case "elem":
		if h, ok := constElemHull[a.args[0]]; ok {
			return h
		}
	}
	return fullIval
}

// constElemHull gives the hull of the elements of constant contents.
var constElemHull = map[*Term]ival{}

func (s *State) ival(t *Term) ival {
	switch t.op {
	case OInt:
		return ival{t.k, t.k}
	case OLin:
		r := ival{t.k, t.k}
		for i, a := range t.args {
			x := s.atomIval(a)
			c := t.coef[i]
			lo, hi := satMul(x.lo, c), satMul(x.hi, c)
			if c < 0 {
				lo, hi = hi, lo
			}
			r.lo = satAdd(r.lo, lo)
			r.hi = satAdd(r.hi, hi)
		}
		return r
	}
	return s.atomIval(t)
}

// ------------------------------------------------------------ entailment

// proveLE0 tells whether t <= 0 is entailed.
func (s *State) proveLE0(t *Term) bool {
	if t.op == OInt {
		return t.k <= 0
	}
	if s.ival(t).hi <= 0 {
		return true
	}
	return s.upper(toLin(t), 0, 5, nil) <= 0
}

// upper computes an upper bound of l, stopping early when it is <= goal.
func (s *State) upper(l lin, goal int64, depth int, seen map[*Term]bool) int64 {
	t := l.term()
	best := s.ival(t).hi
	if best <= goal || depth == 0 || len(l.atoms) == 0 {
		return best
	}
	if seen[t] {
		return best
	}
	if seen == nil {
		seen = map[*Term]bool{}
	}
	seen[t] = true
	for _, f := range s.le0Facts() {
		fl := f.l
		// find an atom to eliminate: same sign in l and f
		for i, a := range l.atoms {
			for j, b := range fl.atoms {
				if a != b {
					continue
				}
				cl, cf := l.coefs[i], fl.coefs[j]
				if (cl > 0) != (cf > 0) {
					continue
				}
				if cl%cf != 0 {
					continue
				}
				k := cl / cf // > 0 ; l <= l - k*f  since f <= 0
				if k <= 0 {
					continue
				}
				n := linComb(l, -k, fl)
				if len(n.atoms) > len(l.atoms)+2 || len(n.atoms) > 5 {
					continue
				}
				if u := s.upper(n, goal, depth-1, seen); u < best {
					best = u
					if best <= goal {
						return best
					}
				}
			}
		}
	}
	return best
}

func (s *State) proveEq0(t *Term) bool {
	if t.op == OInt {
		return t.k == 0
	}
	return s.proveLE0(t) && s.proveLE0(tScale(t, -1))
}

// truth decides a condition: 1 true, -1 false, 0 unknown.
func (s *State) truth(c *Term) int {
	switch {
	case c == tTrue:
		return 1
	case c == tFalse:
		return -1
	}
	if s.facts[c] {
		return 1
	}
	if c.op == OApp {
		switch c.s {
		case "le0":
			if s.proveLE0(c.args[0]) {
				return 1
			}
			if s.proveLE0(tSub(tOne, c.args[0])) {
				return -1
			}
		case "eq0":
			x := c.args[0]
			if s.facts[tNot(c)] {
				return -1
			}
			i := s.ival(x)
			if i.lo > 0 || i.hi < 0 {
				return -1
			}
			if s.proveEq0(x) {
				return 1
			}
			if s.proveLE0(tSub(tOne, x)) || s.proveLE0(tAddK(x, 1)) {
				return -1
			}
			// x = a ^ a style or congruence failures
			l := toLin(x)
			g := int64(0)
			for _, k := range l.coefs {
				g = gcd(g, abs64(k))
			}
			if g > 1 && l.c%g != 0 {
				return -1
			}
		case "not":
			return -s.truth(c.args[0])
		case "and&&":
			a, b := s.truth(c.args[0]), s.truth(c.args[1])
			if a == 1 && b == 1 {
				return 1
			}
			if a == -1 || b == -1 {
				return -1
			}
		case "eq":
			if s.facts[tNot(c)] {
				return -1
			}
		}
	}
	if s.facts[tNot(c)] {
		return -1
	}
	return 0
}

// assume adds a condition; it reports false if the state becomes infeasible.
func (s *State) assume(c *Term) bool {
	switch s.truth(c) {
	case 1:
		return true
	case -1:
		s.dead = true
		return false
	}
	if c.op == OApp {
		switch c.s {
		case "and&&":
			return s.assume(c.args[0]) && s.assume(c.args[1])
		case "le0":
			return s.addLE0(c)
		case "eq0":
			return s.assumeEq0(c)
		case "eq":
			a, b := c.args[0], c.args[1]
			// prefer to replace symbols by constants or other terms
			if a.op == OSym && b.op != OSym && !contains(b, a) {
				s.subst(a, b)
				return !s.dead
			}
			if b.op == OSym && !contains(a, b) {
				s.subst(b, a)
				return !s.dead
			}
			if a.op == OSym && !contains(b, a) {
				s.subst(a, b)
				return !s.dead
			}
			if (b.op == ONil || b.op == OBool) && a.op == OApp {
				s.addFact(c)
				s.subst(a, b)
				return !s.dead
			}
			if (a.op == ONil || a.op == OBool) && b.op == OApp {
				s.addFact(c)
				s.subst(b, a)
				return !s.dead
			}
			s.addFact(c)
			return true
		case "not":
			d := c.args[0]
			if d.op == OApp && d.s == "eq0" {
				return s.assumeNe0(c, d)
			}
			if d.op == OApp && d.s == "and&&" {
				x, y := d.args[0], d.args[1]
				if s.truth(x) == 1 {
					return s.assume(tNot(y))
				}
				if s.truth(y) == 1 {
					return s.assume(tNot(x))
				}
				s.addFact(c)
				return true
			}
			if d.op == OSym {
				s.subst(d, tFalse)
				return !s.dead
			}
			if d.op == OApp && d.s != "eq" {
				s.subst(d, tFalse)
				s.addFact(c)
				return !s.dead
			}
			s.addFact(c)
			return true
		}
	}
	// opaque boolean
	if c.op == OSym {
		s.subst(c, tTrue)
		return !s.dead
	}
	s.subst(c, tTrue)
	s.addFact(c)
	return !s.dead
}

func (s *State) addLE0(c *Term) bool {
	x := c.args[0]
	l := toLin(x)
	s.addFact(c)
	s.propagate(l)
	if s.dead {
		return false
	}
	// l <= 0 together with -l <= 0 or l != 0
	if s.proveLE0(tScale(x, -1)) {
		return s.assumeEq0(tEq0(x))
	}
	if s.facts[tNot(tEq0(x))] {
		return s.assume(tLE0(tAddK(x, 1)))
	}
	return true
}

// propagate tightens intervals of the atoms of l, given l <= 0.
func (s *State) propagate(l lin) {
	for i, a := range l.atoms {
		// coef*a <= -(rest)
		rest := ival{l.c, l.c}
		for j, b := range l.atoms {
			if j == i {
				continue
			}
			x := s.atomIval(b)
			lo, hi := satMul(x.lo, l.coefs[j]), satMul(x.hi, l.coefs[j])
			if l.coefs[j] < 0 {
				lo, hi = hi, lo
			}
			rest.lo = satAdd(rest.lo, lo)
			rest.hi = satAdd(rest.hi, hi)
		}
		if rest.lo <= negInf {
			continue
		}
		cur := s.atomIval(a)
		if c := l.coefs[i]; c > 0 {
			cur.hi = min(cur.hi, floorDiv(-rest.lo, c))
		} else {
			cur.lo = max(cur.lo, ceilDiv(rest.lo, -c))
		}
		if cur.lo > cur.hi {
			s.dead = true
			return
		}
		if cur != s.atomIval(a) {
			s.iv[a] = cur
			if cur.lo == cur.hi {
				s.singleton(a, cur.lo)
				if s.dead {
					return
				}
			}
		}
	}
}

func (s *State) singleton(a *Term, k int64) {
	s.subst(a, mkInt(k))
}

func (s *State) assumeEq0(c *Term) bool {
	if c.op != OApp || c.s != "eq0" {
		return s.assume(c)
	}
	x := c.args[0]
	l := toLin(x)
	// single atom
	if len(l.atoms) == 1 {
		if l.c%l.coefs[0] != 0 {
			s.dead = true
			return false
		}
		k := -l.c / l.coefs[0]
		if i := s.atomIval(l.atoms[0]); k < i.lo || k > i.hi {
			s.dead = true
			return false
		}
		if l.atoms[0].op == OApp {
			s.addFact(tLE0(x))
			s.addFact(tLE0(tScale(x, -1)))
		}
		at := l.atoms[0]
		s.subst(at, mkInt(k))
		if s.dead {
			return false
		}
		return s.assumeQuo(at, k)
	}
	// substitute the newest symbol with coefficient +-1
	best := -1
	for i, a := range l.atoms {
		if a.op == OSym && (l.coefs[i] == 1 || l.coefs[i] == -1) {
			ok := true
			for j, b := range l.atoms {
				if j != i && contains(b, a) {
					ok = false
				}
			}
			if ok && (best < 0 || a.k > l.atoms[best].k) {
				best = i
			}
		}
	}
	if best >= 0 {
		a := l.atoms[best]
		// coef*a + rest = 0  =>  a = -coef*rest
		rest := linComb(l, -l.coefs[best], lin{0, []*Term{a}, []int64{1}})
		r := linComb(lin{}, -l.coefs[best], rest).term()
		i := s.atomIval(a)
		s.subst(a, r)
		if s.dead {
			return false
		}
		if i.lo > negInf && !s.assume(tLE0(tSub(mkInt(i.lo), r))) {
			return false
		}
		if i.hi < posInf && !s.assume(tLE0(tSub(r, mkInt(i.hi)))) {
			return false
		}
		return !s.dead
	}
	s.addFact(c)
	s.addFact(tLE0(x))
	s.addFact(tLE0(tScale(x, -1)))
	s.propagate(l)
	if !s.dead {
		s.propagate(linComb(lin{}, -1, l))
	}
	return !s.dead
}

// assumeQuo uses that the quotient q of a division by a constant is k.
func (s *State) assumeQuo(q *Term, k int64) bool {
	if q.op != OApp || k < 0 || k > 1<<20 {
		return true
	}
	var m int64
	switch {
	case q.s == "div" && q.args[1].op == OInt:
		m = q.args[1].k
	case q.s == "shr" && q.args[1].op == OInt && q.args[1].k < 40:
		m = int64(1) << uint(q.args[1].k)
	case q.s == "bits" && q.args[1].k < 40:
		if q.args[1].k+q.args[2].k < 62 {
			if i := s.ival(q.args[0]); i.lo < 0 || i.hi >= int64(1)<<uint(q.args[1].k+q.args[2].k) {
				return true
			}
		}
		m = int64(1) << uint(q.args[1].k)
	default:
		return true
	}
	x := s.resolve(q.args[0])
	if m <= 1 || m > 1<<40 || s.ival(x).lo < 0 {
		return true
	}
	return s.assume(tLE0(tAddK(x, 1-m*(k+1)))) && s.assume(tLE0(tSub(mkInt(m*k), x)))
}

func (s *State) assumeNe0(c, d *Term) bool {
	x := d.args[0]
	if s.proveLE0(x) {
		return s.assume(tLE0(tAddK(x, 1)))
	}
	if s.proveLE0(tScale(x, -1)) {
		return s.assume(tLE0(tSub(tOne, x)))
	}
	s.addFact(c)
	return true
}

// subst replaces a term everywhere.
func (s *State) subst(from, to *Term) {
	if from == to {
		return
	}
	m := substMemo{from: to}
	s.hist = append(s.hist, m)
	old := s.ivOf(from)
	for _, f := range s.frames {
		for _, k := range regOrder(f) {
			v := f.regs[k]
			if v.hasSy {
				if n := m.apply(v); n != v {
					f.regs[k] = n
				}
			}
		}
		for i := range f.defers {
			d := &f.defers[i]
			if d.fn != nil {
				d.fn = m.apply(d.fn)
			}
			changed := false
			na := make([]*Term, len(d.args))
			for j, a := range d.args {
				na[j] = m.apply(a)
				changed = changed || na[j] != a
			}
			if changed {
				d.args = na
			}
		}
	}
	var kf, kt []*Term
	for _, k := range sortedKeys(s.cells) {
		v := s.cells[k]
		nk := k
		if k.hasSy {
			nk = m.apply(k)
		}
		nv := v
		if v.hasSy {
			nv = m.apply(v)
		}
		if nk != k {
			kf = append(kf, k)
			kt = append(kt, nk, nv)
		} else if nv != v {
			s.cells[k] = nv
		}
	}
	for _, k := range kf {
		delete(s.cells, k)
	}
	for i := 0; i < len(kt); i += 2 {
		s.cells[kt[i]] = kt[i+1]
	}
	for _, k := range monOrder(s.mon) {
		v := s.mon[k]
		if v.hasSy {
			if n := m.apply(v); n != v {
				s.mon[k] = n
			}
		}
	}
	delete(s.iv, from)
	var ivf []*Term
	for _, k := range sortedKeys(s.iv) {
		if n := m.apply(k); n != k {
			ivf = append(ivf, k)
		}
	}
	var ivs []ival
	var ivn []*Term
	for _, k := range ivf {
		ivs = append(ivs, s.iv[k])
		ivn = append(ivn, m.apply(k))
		delete(s.iv, k)
	}
	var re []*Term
	for _, f := range sortedKeys(s.facts) {
		if n := m.apply(f); n != f {
			s.delFact(f)
			re = append(re, n)
		}
	}
	if from.op != OSym {
		// keep the definition of replaced applications
		switch {
		case to.op == OInt:
			s.addFact(tLE0(tSub(from, to)))
			s.addFact(tLE0(tSub(to, from)))
		}
	}
	if to.op == OInt {
		if to.k < old.lo || to.k > old.hi {
			s.dead = true
			return
		}
	}
	for i, n := range ivn {
		if n.op == OInt || n.op == OLin || n.op == OBool || n.op == ONil {
			if n.op == OInt || n.op == OLin {
				if !s.boundTerm(n, ivs[i]) {
					return
				}
			}
			continue
		}
		cur := s.atomIval(n).meet(ivs[i])
		if cur.lo > cur.hi {
			s.dead = true
			return
		}
		s.iv[n] = cur
	}
	for _, n := range re {
		if s.dead {
			return
		}
		s.assume(n)
	}
}

func (s *State) ivOf(t *Term) ival {
	if t.op == OSym || t.op == OApp {
		return s.atomIval(t)
	}
	return fullIval
}

func (s *State) boundTerm(n *Term, i ival) bool {
	if i.lo > negInf && !s.assume(tLE0(tSub(mkInt(i.lo), n))) {
		s.dead = true
		return false
	}
	if i.hi < posInf && !s.assume(tLE0(tSub(n, mkInt(i.hi)))) {
		s.dead = true
		return false
	}
	return true
}

// -------------------------------------------------------------- memory

// base returns the base object of an address.
func baseOf(addr *Term) *Term {
	for addr.op == OField || addr.op == OIndex {
		addr = addr.args[0]
	}
	return addr
}

// shape returns the components of a struct type, with the synthetic
// components of opaque library types.
type comp struct {
	name string
	ty   types.Type
}

var (
	tyUint = types.Typ[types.Uint]
	tyBool = types.Typ[types.Bool]
	tyInt  = types.Typ[types.Int]
	tyByte = types.Typ[types.Byte]
	tyStr  = types.Typ[types.String]
	tyU32  = types.Typ[types.Uint32]
	tyU16  = types.Typ[types.Uint16]
	tyU64  = types.Typ[types.Uint64]
)

const (
	libBuffer  = "github.com/chronos-tachyon/buffer/v3"
	libHuffman = "github.com/chronos-tachyon/huffman"
	libAssert  = "github.com/chronos-tachyon/assert"
	modPath    = "github.com/chronos-tachyon/flate"
)

var extShapes = map[string][]comp{
	libBuffer + ".Buffer":              {{"#len", tyUint}, {"#nbits", tyUint}, {"#rd", tyUint}},
	libBuffer + ".Window":              {{"#fill", tyUint}, {"#nbits", tyUint}, {"#gen", tyUint}},
	libBuffer + ".LZ77":                {{"#len", tyUint}, {"#opts", nil}, {"#hist", tyUint}, {"#rd", tyUint}},
	libHuffman + ".Decoder":            {{"#n", tyInt}, {"#src", nil}},
	libHuffman + ".Encoder":            {{"#n", tyInt}, {"#max", tyByte}, {"#src", nil}},
	modPath + "/internal/crc32.Hash":   {{"#h", nil}},
	modPath + "/internal/adler32.Hash": {{"#h", nil}},
	"sync.Mutex":                       {{"#held", tyBool}},
	"sync.WaitGroup":                   {{"#n", tyInt}},
}

// opaquePkgs are analysed as library code although they are in the module.
func typeName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() != nil {
			return n.Obj().Pkg().Path() + "." + n.Obj().Name()
		}
		return n.Obj().Name()
	}
	return ""
}

var shapeMemo = map[types.Type][]comp{}

func shape(t types.Type) []comp {
	if r, ok := shapeMemo[t]; ok {
		return r
	}
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	var r []comp
	name := typeName(t)
	if x, ok := extShapes[name]; ok {
		r = x
	} else {
		opaque := false
		if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && !inModule(n.Obj().Pkg()) {
			for i := 0; i < st.NumFields(); i++ {
				if !st.Field(i).Exported() {
					opaque = true
				}
			}
		}
		if opaque {
			r = []comp{{"#v", nil}}
		} else {
			r = []comp{}
			for i := 0; i < st.NumFields(); i++ {
				r = append(r, comp{st.Field(i).Name(), st.Field(i).Type()})
			}
		}
	}
	shapeMemo[t] = r
	return r
}

func inModule(p *types.Package) bool {
	return p != nil && (p.Path() == modPath || strings.HasPrefix(p.Path(), modPath+"/"))
}

// zeroOf returns the zero value of a type.
func zeroOf(t types.Type) *Term {
	if t == nil {
		return tZero
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return mkStr("")
		case u.Info()&types.IsInteger != 0:
			return tZero
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return tNil
		}
		return intern(Term{op: OFloat, s: "0"})
	case *types.Struct:
		cs := shape(t)
		args := make([]*Term, len(cs))
		for i, c := range cs {
			args[i] = zeroOf(c.ty)
		}
		return mkStruct(t, args)
	case *types.Array:
		if u.Len() <= 64 {
			args := make([]*Term, u.Len())
			for i := range args {
				args[i] = zeroOf(u.Elem())
			}
			return intern(Term{op: OArray, ty: t, args: args})
		}
		return intern(Term{op: OApp, s: "zeroarray", ty: t})
	}
	return tNil
}

// freshOf returns an unknown value of a type.
func (s *State) freshOf(t types.Type, name string) *Term {
	if t == nil {
		return mkSym(name, nil)
	}
	switch u := t.Underlying().(type) {
	case *types.Struct:
		cs := shape(t)
		args := make([]*Term, len(cs))
		for i, c := range cs {
			args[i] = s.freshOf(c.ty, name+"."+c.name)
		}
		return mkStruct(t, args)
	case *types.Array:
		if u.Len() <= 64 {
			args := make([]*Term, u.Len())
			for i := range args {
				args[i] = s.freshOf(u.Elem(), name)
			}
			return intern(Term{op: OArray, ty: t, args: args})
		}
	case *types.Tuple:
		args := make([]*Term, u.Len())
		for i := range args {
			args[i] = s.freshOf(u.At(i).Type(), name)
		}
		return mkTuple(args...)
	}
	return mkSym(name, t)
}

// load reads a value of type t at an address.
func (s *State) load(addr *Term, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		cs := shape(t)
		args := make([]*Term, len(cs))
		for i, c := range cs {
			args[i] = s.loadComp(mkField(addr, c.name), c)
		}
		return mkStruct(t, args)
	case *types.Array:
		if u.Len() <= 64 {
			args := make([]*Term, u.Len())
			for i := range args {
				args[i] = s.load(mkIndex(addr, mkInt(int64(i))), u.Elem())
			}
			return intern(Term{op: OArray, ty: t, args: args})
		}
		if v, ok := s.cell(addr); ok {
			return v
		}
		return mkSym("array", t)
	}
	return s.loadLeaf(addr, t)
}

func (s *State) loadComp(addr *Term, c comp) *Term {
	if c.ty == nil {
		return s.loadLeaf(addr, nil)
	}
	return s.load(addr, c.ty)
}

// defaultAddr is the cell that holds the content of unset elements.
var tAny = intern(Term{op: OStr, s: "*"})

func (s *State) loadLeaf(addr *Term, t types.Type) *Term {
	if v, ok := s.cell(addr); ok {
		return v
	}
	// element of an array with default contents?
	if v := s.loadDefault(addr, t); v != nil {
		return v
	}
	v := initSym(addr, t)
	if lazyHook != nil {
		if x := lazyHook(s, addr, t); x != nil {
			v = x
		}
	}
	s.cells[addr] = v
	return v
}

// lazyHook supplies initial values of cells that were never written.
var lazyHook func(s *State, addr *Term, t types.Type) *Term

func leafName(a *Term) string {
	switch a.op {
	case OField:
		return a.s
	case OIndex:
		return leafName(a.args[0]) + "[]"
	case OSym:
		return a.s
	case OObj:
		return "obj"
	}
	return "v"
}

// loadDefault handles reads below an OIndex whose cell is not present.
func (s *State) loadDefault(addr *Term, t types.Type) *Term {
	// find the innermost index component
	var path []string
	a := addr
	for a.op == OField {
		path = append(path, a.s)
		a = a.args[0]
	}
	if a.op != OIndex {
		return nil
	}
	arr, idx := a.args[0], a.args[1]
	d, ok := s.cell(mkIndex(arr, tAny))
	if !ok {
		if idx.op != OInt {
			if v := s.loadSel(arr, idx, path, t, nil); v != nil {
				return v
			}
		}
		if baseOf(arr).op == OObj || baseOf(arr).op == OGlobal {
			return nil
		}
		d = mkApp("content0", nil, arr)
	}
	// symbolic reads may see explicit cells
	if idx.op != OInt {
		if v := s.loadSel(arr, idx, path, t, d); v != nil {
			return v
		}
		for k := range s.cells {
			if k.op == OIndex && k.args[0] == arr && k.args[1] != tAny {
				if s.truth(tEq(k.args[1], idx)) != -1 {
					return mkSym("elem", t)
				}
			}
			if k.op == OField && len(path) > 0 && baseOf(k) == baseOf(addr) {
				return mkSym("elem", t)
			}
		}
	}
	if d.op == OApp && d.s == "zero" {
		return zeroOf(t)
	}
	for i := len(path) - 1; i >= 0; i-- {
		d = mkApp("fld:"+path[i], nil, d)
	}
	return mkApp("elem", t, d, idx)
}

// loadSel reads an element of a small array at a symbolic index.
func (s *State) loadSel(arr, idx *Term, path []string, t types.Type, d *Term) *Term {
	i := s.ival(idx)
	if i.lo < 0 || i.hi-i.lo > 64 {
		return nil
	}
	any := false
	for k := i.lo; k <= i.hi; k++ {
		a := mkIndex(arr, mkInt(k))
		for j := len(path) - 1; j >= 0; j-- {
			a = mkField(a, path[j])
		}
		if _, ok := s.cell(a); ok {
			any = true
		}
	}
	if !any {
		return nil
	}
	for _, k := range sortedKeys(s.cells) {
		if k.op == OIndex && k.args[0] == arr && k.args[1] != tAny && k.args[1].op != OInt {
			return nil
		}
	}
	var vs []*Term
	for k := i.lo; k <= i.hi; k++ {
		a := mkIndex(arr, mkInt(k))
		for j := len(path) - 1; j >= 0; j-- {
			a = mkField(a, path[j])
		}
		vs = append(vs, s.loadLeaf(a, t))
	}
	return mkSel(t, tSub(idx, mkInt(i.lo)), vs)
}

var tZeroContent = mkApp("zero", nil)

// store writes a value at an address.
func (s *State) store(addr, v *Term, t types.Type) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		cs := shape(t)
		if v.op == OStruct && len(v.args) == len(cs) {
			for i, c := range cs {
				s.storeComp(mkField(addr, c.name), v.args[i], c)
			}
			return
		}
		for _, c := range cs {
			s.storeComp(mkField(addr, c.name), mkSym(c.name, c.ty), c)
		}
		return
	case *types.Array:
		if v.op == OArray {
			for i, a := range v.args {
				s.store(mkIndex(addr, mkInt(int64(i))), a, u.Elem())
			}
			return
		}
		s.dropBelow(addr)
		if v.op == OApp && v.s == "zeroarray" {
			s.cells[mkIndex(addr, tAny)] = tZeroContent
		} else {
			s.cells[mkIndex(addr, tAny)] = mkSym("content", nil)
		}
		return
	}
	s.storeLeaf(addr, v)
}

func (s *State) storeComp(addr, v *Term, c comp) {
	if c.ty == nil {
		s.storeLeaf(addr, v)
		return
	}
	s.store(addr, v, c.ty)
}

func (s *State) storeLeaf(addr, v *Term) {
	// a store at a symbolic index invalidates possibly aliasing cells
	for a := addr; a.op == OField || a.op == OIndex; a = a.args[0] {
		if a.op != OIndex {
			continue
		}
		arr, idx := a.args[0], a.args[1]
		for k := range s.cells {
			ka := k
			for ka.op == OField || (ka.op == OIndex && ka.args[0] != arr) {
				ka = ka.args[0]
			}
			if ka.op != OIndex || ka.args[1] == idx || ka.args[1] == tAny {
				continue
			}
			if ka.args[1].op == OInt && idx.op == OInt {
				continue
			}
			if s.truth(tEq(ka.args[1], idx)) == -1 {
				continue
			}
			delete(s.cells, k)
			s.cells[mkIndex(arr, tAny)] = mkSym("content", nil)
		}
	}
	s.cells[addr] = v
}

// dropBelow removes all cells at or below an address.
func (s *State) dropBelow(addr *Term) {
	for k := range s.cells {
		a := k
		for {
			if a == addr {
				delete(s.cells, k)
				break
			}
			if a.op != OField && a.op != OIndex {
				break
			}
			a = a.args[0]
		}
	}
}

// havocBelow forgets all cells at or below an address.
func (s *State) havocContents(arr *Term, content *Term) {
	s.dropBelow(arr)
	s.cells[mkIndex(arr, tAny)] = content
}

// ------------------------------------------------------------ debugging

func (s *State) dump() string {
	var b strings.Builder
	for i, f := range s.frames {
		fmt.Fprintf(&b, "frame %d %s\n", i, f.fn)
		var ks []string
		for k, v := range f.regs {
			ks = append(ks, fmt.Sprintf("   %s = %v", k.Name(), v))
		}
		sort.Strings(ks)
		b.WriteString(strings.Join(ks, "\n"))
		b.WriteString("\n")
	}
	var ks []string
	for k, v := range s.cells {
		ks = append(ks, fmt.Sprintf(" [%v] = %v", k, v))
	}
	sort.Strings(ks)
	b.WriteString(strings.Join(ks, "\n"))
	ks = nil
	for k := range s.facts {
		ks = append(ks, fmt.Sprintf(" fact %v", k))
	}
	for k, v := range s.iv {
		ks = append(ks, fmt.Sprintf(" ival %v in [%d,%d]", k, v.lo, v.hi))
	}
	for k, v := range s.mon {
		ks = append(ks, fmt.Sprintf(" mon %s = %v", k, v))
	}
	sort.Strings(ks)
	b.WriteString("\n" + strings.Join(ks, "\n") + "\n")
	return b.String()
}
