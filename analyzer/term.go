package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"math"
	"math/bits"
	"sort"
	"strconv"
	"strings"
)

// Op is the kind of a Term.
type Op uint8

const (
	OInt     Op = iota // k
	OBool              // k: 0/1
	OStr               // s
	OFloat             // s
	ONil               //
	OSym               // k: unique id, s: name
	OLin               // k + sum coef[i]*args[i]
	OApp               // s(args...)
	OObj               // allocated object: s (site@ctx), k generation
	OGlobal            // v: *ssa.Global
	OField             // address args[0].s
	OIndex             // address args[0][args[1]]
	OFunc              // v: *ssa.Function
	OClosure           // v: *ssa.Function, args: bindings
	OTuple             // args
	OStruct            // ty, args (fields in order)
	OArray             // ty, args (elements in order)
	OIface             // ty: dynamic type, args[0]: value
	OSlice             // args: base address, offset, len, cap
)

// Term is a hash-consed symbolic value.
type Term struct {
	id    int
	op    Op
	k     int64
	s     string
	args  []*Term
	coef  []int64
	ty    types.Type
	v     interface{}
	taint bool // contains a stale symbol
	hasSy bool // contains symbols (for fast substitution)
}

var (
	internTab   = map[string]*Term{}
	termCount   int
	symCount    int64
	typeKeys    = map[types.Type]string{}
	typeKeyTabl = map[string]types.Type{}
)

func typeKey(t types.Type) string {
	if t == nil {
		return ""
	}
	if k, ok := typeKeys[t]; ok {
		return k
	}
	k := types.TypeString(t, nil)
	typeKeys[t] = k
	return k
}

func intern(t Term) *Term {
	var b strings.Builder
	b.WriteByte(byte('A' + t.op))
	b.WriteString(strconv.FormatInt(t.k, 36))
	b.WriteByte('|')
	b.WriteString(t.s)
	b.WriteByte('|')
	for i, a := range t.args {
		if t.coef != nil {
			b.WriteString(strconv.FormatInt(t.coef[i], 36))
			b.WriteByte('*')
		}
		b.WriteString(strconv.FormatInt(int64(a.id), 36))
		b.WriteByte(',')
	}
	if t.ty != nil {
		b.WriteByte('|')
		b.WriteString(typeKey(t.ty))
	}
	if t.v != nil {
		fmt.Fprintf(&b, "|%p", t.v)
	}
	key := b.String()
	if r, ok := internTab[key]; ok {
		return r
	}
	r := new(Term)
	*r = t
	termCount++
	r.id = termCount
	for _, a := range t.args {
		r.taint = r.taint || a.taint
		r.hasSy = r.hasSy || a.hasSy
	}
	if t.op == OSym || t.op == OApp || t.op == OObj {
		r.hasSy = true
	}
	internTab[key] = r
	return r
}

var (
	tTrue  = intern(Term{op: OBool, k: 1})
	tFalse = intern(Term{op: OBool, k: 0})
	tNil   = intern(Term{op: ONil})
	tZero  = intern(Term{op: OInt, k: 0})
	tOne   = intern(Term{op: OInt, k: 1})
	tUnit  = intern(Term{op: OTuple})
)

func mkInt(k int64) *Term { return intern(Term{op: OInt, k: k}) }
func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func mkStr(s string) *Term { return intern(Term{op: OStr, s: s}) }

// mkSym makes a fresh symbol.
func mkSym(name string, ty types.Type) *Term {
	symCount++
	return intern(Term{op: OSym, k: symCount, s: name, ty: ty})
}

// mkStale makes a fresh tainted symbol.
func mkStale(name string, ty types.Type) *Term {
	t := mkSym(name, ty)
	t.taint = true
	return t
}

func mkApp(name string, ty types.Type, args ...*Term) *Term {
	return intern(Term{op: OApp, s: name, ty: ty, args: args})
}
func mkTuple(args ...*Term) *Term { return intern(Term{op: OTuple, args: args}) }
func mkStruct(ty types.Type, args []*Term) *Term {
	return intern(Term{op: OStruct, ty: ty, args: args})
}
func mkIface(ty types.Type, v *Term) *Term {
	return intern(Term{op: OIface, ty: ty, args: []*Term{v}})
}
func mkField(base *Term, name string) *Term {
	return intern(Term{op: OField, s: name, args: []*Term{base}})
}
func mkIndex(base, idx *Term) *Term {
	return intern(Term{op: OIndex, args: []*Term{base, idx}})
}
func mkSlice(base, off, ln, cp *Term) *Term {
	return intern(Term{op: OSlice, args: []*Term{base, off, ln, cp}})
}

func (t *Term) isConst() bool {
	switch t.op {
	case OInt, OBool, OStr, ONil, OFloat, OFunc, OGlobal:
		return true
	}
	return false
}

func (t *Term) String() string {
	switch t.op {
	case OInt:
		return strconv.FormatInt(t.k, 10)
	case OBool:
		return strconv.FormatBool(t.k == 1)
	case OStr:
		return strconv.Quote(t.s)
	case OFloat:
		return t.s
	case ONil:
		return "nil"
	case OSym:
		x := ""
		if t.taint {
			x = "!"
		}
		return fmt.Sprintf("%s%s#%d", x, t.s, t.k)
	case OLin:
		var b strings.Builder
		fmt.Fprintf(&b, "(%d", t.k)
		for i, a := range t.args {
			fmt.Fprintf(&b, "%+d*%v", t.coef[i], a)
		}
		return b.String() + ")"
	case OApp:
		return t.s + argString(t.args)
	case OObj:
		return fmt.Sprintf("obj[%s.%d]", t.s, t.k)
	case OGlobal:
		return fmt.Sprintf("&%v", t.v)
	case OField:
		return t.args[0].String() + "." + t.s
	case OIndex:
		return t.args[0].String() + "[" + t.args[1].String() + "]"
	case OFunc:
		return fmt.Sprintf("func %v", t.v)
	case OClosure:
		return fmt.Sprintf("closure %v%s", t.v, argString(t.args))
	case OTuple:
		return argString(t.args)
	case OStruct:
		return types.TypeString(t.ty, func(p *types.Package) string { return p.Name() }) + "{" + strings.Trim(argString(t.args), "()") + "}"
	case OArray:
		return "array{" + strings.Trim(argString(t.args), "()") + "}"
	case OIface:
		return "iface(" + types.TypeString(t.ty, func(p *types.Package) string { return p.Name() }) + ":" + t.args[0].String() + ")"
	case OSlice:
		return fmt.Sprintf("%v[%v:+%v]", t.args[0], t.args[1], t.args[2])
	}
	return "?"
}

func argString(args []*Term) string {
	s := make([]string, len(args))
	for i, a := range args {
		s[i] = a.String()
	}
	return "(" + strings.Join(s, ", ") + ")"
}

// ---------------------------------------------------------------- linear

func isIntAtom(t *Term) bool {
	return t.op != OInt && t.op != OLin
}

type lin struct {
	c     int64
	atoms []*Term
	coefs []int64
}

func toLin(t *Term) lin {
	switch t.op {
	case OInt:
		return lin{c: t.k}
	case OLin:
		return lin{t.k, t.args, t.coef}
	}
	return lin{0, []*Term{t}, []int64{1}}
}

func (l lin) term() *Term {
	if len(l.atoms) == 0 {
		return mkInt(l.c)
	}
	if len(l.atoms) == 1 && l.c == 0 && l.coefs[0] == 1 {
		return l.atoms[0]
	}
	return intern(Term{op: OLin, k: l.c, args: l.atoms, coef: l.coefs})
}

// linComb returns x + f*y
func linComb(x lin, f int64, y lin) lin {
	r := lin{c: x.c + f*y.c}
	i, j := 0, 0
	for i < len(x.atoms) || j < len(y.atoms) {
		switch {
		case j == len(y.atoms) || (i < len(x.atoms) && x.atoms[i].id < y.atoms[j].id):
			r.atoms = append(r.atoms, x.atoms[i])
			r.coefs = append(r.coefs, x.coefs[i])
			i++
		case i == len(x.atoms) || y.atoms[j].id < x.atoms[i].id:
			if f != 0 {
				r.atoms = append(r.atoms, y.atoms[j])
				r.coefs = append(r.coefs, f*y.coefs[j])
			}
			j++
		default:
			if c := x.coefs[i] + f*y.coefs[j]; c != 0 {
				r.atoms = append(r.atoms, x.atoms[i])
				r.coefs = append(r.coefs, c)
			}
			i++
			j++
		}
	}
	return r
}

func tAdd(a, b *Term) *Term         { return linComb(toLin(a), 1, toLin(b)).term() }
func tSub(a, b *Term) *Term         { return linComb(toLin(a), -1, toLin(b)).term() }
func tScale(a *Term, f int64) *Term { return linComb(lin{}, f, toLin(a)).term() }
func tAddK(a *Term, k int64) *Term  { return linComb(toLin(a), 1, lin{c: k}).term() }

const (
	posInf = math.MaxInt64 / 4
	negInf = -posInf
)

func satAdd(a, b int64) int64 {
	if a >= posInf || b >= posInf {
		return posInf
	}
	if a <= negInf || b <= negInf {
		return negInf
	}
	c := a + b
	if c > posInf {
		return posInf
	}
	if c < negInf {
		return negInf
	}
	return c
}

func satMul(a, f int64) int64 {
	if a == 0 || f == 0 {
		return 0
	}
	neg := (a < 0) != (f < 0)
	hi, lo := bits.Mul64(uint64(abs64(a)), uint64(abs64(f)))
	if hi != 0 || lo > posInf {
		if neg {
			return negInf
		}
		return posInf
	}
	if neg {
		return -int64(lo)
	}
	return int64(lo)
}

func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

type ival struct{ lo, hi int64 }

var fullIval = ival{negInf, posInf}

func (i ival) meet(o ival) ival {
	if o.lo > i.lo {
		i.lo = o.lo
	}
	if o.hi < i.hi {
		i.hi = o.hi
	}
	return i
}

func (i ival) hull(o ival) ival {
	if o.lo < i.lo {
		i.lo = o.lo
	}
	if o.hi > i.hi {
		i.hi = o.hi
	}
	return i
}

// intInfo describes an integer type.
func intInfo(t types.Type) (width int, signed bool, ok bool) {
	if t == nil {
		return 0, false, false
	}
	b, isb := t.Underlying().(*types.Basic)
	if !isb {
		return 0, false, false
	}
	switch b.Kind() {
	case types.Int, types.Int64, types.UntypedInt:
		return 64, true, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32, types.UntypedRune:
		return 32, true, true
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false, true
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	}
	return 0, false, false
}

func typeIval(t types.Type) ival {
	w, signed, ok := intInfo(t)
	if !ok {
		return fullIval
	}
	if signed {
		if w == 64 {
			return fullIval
		}
		return ival{-(1 << (w - 1)), 1<<(w-1) - 1}
	}
	if w == 64 {
		return ival{0, posInf}
	}
	return ival{0, 1<<w - 1}
}

// ------------------------------------------------------------- booleans

// le0 is the condition "t <= 0".
func tLE0(t *Term) *Term {
	if t.op == OInt {
		return mkBool(t.k <= 0)
	}
	// normalise by the gcd of the coefficients
	l := toLin(t)
	g := int64(0)
	for _, c := range l.coefs {
		g = gcd(g, abs64(c))
	}
	if g > 1 {
		n := lin{atoms: l.atoms, coefs: make([]int64, len(l.coefs))}
		for i, c := range l.coefs {
			n.coefs[i] = c / g
		}
		n.c = ceilDiv(l.c, g)
		t = n.term()
	}
	return intern(Term{op: OApp, s: "le0", args: []*Term{t}})
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if (a%b != 0) && ((a < 0) != (b < 0)) {
		q--
	}
	return q
}

func ceilDiv(a, b int64) int64 { return -floorDiv(-a, b) }

// tEq0 is the condition "t == 0" for an integer t.
func tEq0(t *Term) *Term {
	if t.op == OInt {
		return mkBool(t.k == 0)
	}
	l := toLin(t)
	g := int64(0)
	for _, c := range l.coefs {
		g = gcd(g, abs64(c))
	}
	if l.c%g != 0 {
		return tFalse
	}
	if l.coefs[0] < 0 {
		g = -g
	}
	if g != 1 {
		n := lin{c: l.c / g, atoms: l.atoms, coefs: make([]int64, len(l.coefs))}
		for i, c := range l.coefs {
			n.coefs[i] = c / g
		}
		t = n.term()
	}
	return intern(Term{op: OApp, s: "eq0", args: []*Term{t}})
}

func tNot(t *Term) *Term {
	switch {
	case t == tTrue:
		return tFalse
	case t == tFalse:
		return tTrue
	case t.op == OApp && t.s == "not":
		return t.args[0]
	case t.op == OApp && t.s == "le0":
		return tLE0(tSub(tOne, t.args[0]))
	}
	return intern(Term{op: OApp, s: "not", args: []*Term{t}})
}

// neverNil tells whether the term is certainly not nil.
func neverNil(t *Term) bool {
	switch t.op {
	case OObj, OGlobal, OField, OIndex, OFunc, OClosure, OIface:
		return true
	case OApp:
		return t.s == "gval" || strings.HasPrefix(t.s, "nn:")
	case OSym:
		return strings.HasPrefix(t.s, "nn:")
	case OSlice:
		return neverNil(t.args[0])
	}
	return false
}

// tEq is equality of two values of the same type.
func tEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	intLike := func(t *Term) bool { return t.op == OInt || t.op == OLin }
	if intLike(a) || intLike(b) {
		return tEq0(tSub(a, b))
	}
	if w, _, ok := intInfo(a.ty); ok && w > 0 {
		if _, _, ok2 := intInfo(b.ty); ok2 {
			return tEq0(tSub(a, b))
		}
	}
	if a.op == OBool {
		a, b = b, a
	}
	if b.op == OBool {
		if a.op == OBool {
			return mkBool(a == b)
		}
		if b == tTrue {
			return a
		}
		return tNot(a)
	}
	if a.op == OStr {
		a, b = b, a
	}
	if b.op == OStr && a.op == OApp && a.s == "string" && len(a.args) != len(b.s) {
		return tFalse
	}
	if a.op == ONil {
		a, b = b, a
	}
	if b.op == ONil && neverNil(a) {
		return tFalse
	}
	if a.isConst() && b.isConst() {
		return tFalse
	}
	if a.op == OApp && b.op == OApp && a.s == "gval" && b.s == "gval" {
		return tFalse // distinct immutable package-level error values
	}
	if a.op == OIface && b.op == OIface {
		if !types.Identical(a.ty, b.ty) {
			return tFalse
		}
		return tEq(a.args[0], b.args[0])
	}
	if (a.op == OIface && b.op == OApp && b.s == "gval") || (b.op == OIface && a.op == OApp && a.s == "gval") {
		return tFalse
	}
	if (a.op == OStruct && b.op == OStruct || a.op == OArray && b.op == OArray) && len(a.args) == len(b.args) {
		r := tTrue
		for i := range a.args {
			r = tAnd(r, tEq(a.args[i], b.args[i]))
		}
		return r
	}
	if a.op == OObj && b.op == OObj {
		return tFalse
	}
	if a.id > b.id {
		a, b = b, a
	}
	return intern(Term{op: OApp, s: "eq", args: []*Term{a, b}})
}

func tAnd(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if b == tTrue {
		return a
	}
	if a == tFalse || b == tFalse {
		return tFalse
	}
	return intern(Term{op: OApp, s: "and&&", args: []*Term{a, b}})
}

// ----------------------------------------------------------- substitution

type substMemo map[*Term]*Term

// substTerm replaces terms according to the memo (seeded with the mapping).
func (m substMemo) apply(t *Term) *Term {
	if !t.hasSy {
		return t
	}
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.args) == 0 {
		m[t] = t
		return t
	}
	changed := false
	na := make([]*Term, len(t.args))
	for i, a := range t.args {
		na[i] = m.apply(a)
		if na[i] != a {
			changed = true
		}
	}
	r := t
	if changed {
		r = rebuild(t, na)
	}
	m[t] = r
	return r
}

// rebuild re-applies the constructor of t to new arguments.
func rebuild(t *Term, na []*Term) *Term {
	switch t.op {
	case OLin:
		l := lin{c: t.k}
		for i, a := range na {
			l = linComb(l, t.coef[i], toLin(a))
		}
		return l.term()
	case OApp:
		switch t.s {
		case "le0":
			return tLE0(na[0])
		case "eq0":
			return tEq0(na[0])
		case "not":
			return tNot(na[0])
		case "eq":
			return tEq(na[0], na[1])
		case "and&&":
			return tAnd(na[0], na[1])
		}
		if f := simpTab[t.s]; f != nil {
			return f(t.ty, na)
		}
		return intern(Term{op: OApp, s: t.s, k: t.k, ty: t.ty, args: na, v: t.v})
	}
	return intern(Term{op: t.op, k: t.k, s: t.s, args: na, coef: t.coef, ty: t.ty, v: t.v})
}

// simpTab re-simplifies applications after a substitution.
var simpTab map[string]func(ty types.Type, args []*Term) *Term

// ---------------------------------------------------------- misc

func constTerm(v constant.Value, ty types.Type) *Term {
	if v == nil {
		return zeroOf(ty)
	}
	switch v.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(v))
	case constant.String:
		return mkStr(constant.StringVal(v))
	case constant.Int:
		if k, ok := constant.Int64Val(v); ok && k < posInf && k > negInf {
			return mkInt(k)
		}
		return intern(Term{op: OApp, s: "bigconst:" + v.ExactString(), ty: ty})
	}
	return intern(Term{op: OFloat, s: v.ExactString()})
}

func sortedIDs(ts []*Term) []*Term {
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	return ts
}

func contains(t, x *Term) bool {
	if t == x {
		return true
	}
	if !t.hasSy {
		return false
	}
	for _, a := range t.args {
		if contains(a, x) {
			return true
		}
	}
	return false
}
