package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Canonical bit-level terms:
//   bits(x; lo, n)   floor(x / 2^lo) mod 2^n for a non-negative x
//   wrap(w, s; x)    x reduced to w bits (s = 1: signed)
//   and(x,y), or(x,y), xor(x,y), mul(x,y), div(x,y), mod(x,y), shl(x,y), shr(x,y)
//   sel(i; v0, ...)  table lookup

var noState = newState()

// fit reduces a mathematical integer to a type.
func (s *State) fit(t *Term, w int, signed bool, ty types.Type) *Term {
	if t.op == OInt {
		return mkInt(wrapConst(t.k, w, signed))
	}
	if w == 64 {
		if signed {
			return t
		}
		i := s.ival(t)
		if i.lo >= 0 || s.proveLE0(tScale(t, -1)) {
			return t
		}
		if i.hi < 0 || s.proveLE0(tAddK(t, 1)) {
			return mkApp("big", ty, t) // wrapped around: huge
		}
		return mkApp("uwrap", ty, t)
	}
	r := typeIval(ty)
	i := s.ival(t)
	if (i.lo >= r.lo || s.proveLE0(tSub(mkInt(r.lo), t))) && (i.hi <= r.hi || s.proveLE0(tAddK(t, -r.hi))) {
		return t
	}
	if !signed {
		return s.low(t, w, ty)
	}
	return mkApp("swrap", ty, mkInt(int64(w)), t)
}

func wrapConst(k int64, w int, signed bool) int64 {
	if w >= 64 {
		return k
	}
	m := int64(1) << uint(w)
	k &= m - 1
	if signed && k >= m/2 {
		k -= m
	}
	return k
}

// low is t mod 2^n.
func (s *State) low(t *Term, n int, ty types.Type) *Term {
	if n >= 62 {
		return t
	}
	m := int64(1) << uint(n)
	l := toLin(t)
	r := lin{c: ((l.c % m) + m) % m}
	for i, a := range l.atoms {
		c := l.coefs[i] % m
		if c == 0 {
			continue
		}
		// (x mod 2^k) mod 2^n == x mod 2^n for k >= n
		if a.op == OApp && a.s == "bits" && a.args[1] == tZero && a.args[2].k >= int64(n) {
			r = linComb(r, c, toLin(s.low(a.args[0], n, nil)))
			continue
		}
		r = linComb(r, c, lin{0, []*Term{a}, []int64{1}})
	}
	r.c = ((r.c % m) + m) % m
	x := r.term()
	if x.op == OInt {
		return mkInt(((x.k % m) + m) % m)
	}
	i := s.ival(x)
	if i.lo >= 0 && i.hi < m {
		return x
	}
	if i.lo >= 0 && i.hi < posInf && i.lo/m == i.hi/m {
		return tAddK(x, -(i.lo / m * m))
	}
	if s.proveLE0(tScale(x, -1)) && s.proveLE0(tAddK(x, 1-m)) {
		return x
	}
	if x.op == OApp && x.s == "bits" {
		nn := x.args[2].k
		if nn > int64(n) {
			nn = int64(n)
		}
		return mkApp("bits", tyU64, x.args[0], x.args[1], mkInt(nn))
	}
	return mkApp("bits", tyU64, x, tZero, mkInt(int64(n)))
}

// shr is floor(t / 2^k) of a non-negative t of width w.
func (s *State) shr(t *Term, k int, w int, ty types.Type) *Term {
	if k == 0 {
		return t
	}
	if k >= w {
		return tZero
	}
	if t.op == OInt {
		return mkInt(t.k >> uint(k))
	}
	if k < 62 {
		m := int64(1) << uint(k)
		l := toLin(t)
		var hi, lo lin
		for i, a := range l.atoms {
			one := lin{0, []*Term{a}, []int64{1}}
			if l.coefs[i]%m == 0 {
				hi = linComb(hi, l.coefs[i]/m, one)
			} else {
				lo = linComb(lo, l.coefs[i], one)
			}
		}
		hi.c = floorDiv(l.c, m)
		lo.c = l.c - hi.c*m
		lt := lo.term()
		if len(hi.atoms) > 0 || lt.op == OInt {
			i := s.ival(lt)
			if i.lo >= 0 && i.hi < m {
				return hi.term()
			}
		}
		if i := s.ival(t); i.lo >= 0 && i.hi < posInf && i.lo/m == i.hi/m {
			return mkInt(i.lo / m)
		}
	}
	if t.op == OApp && t.s == "bits" {
		n := t.args[2].k - int64(k)
		if n <= 0 {
			return tZero
		}
		return mkApp("bits", tyU64, t.args[0], mkInt(t.args[1].k+int64(k)), mkInt(n))
	}
	return mkApp("bits", tyU64, t, mkInt(int64(k)), mkInt(int64(w-k)))
}

// trailing zero bits guaranteed in a term.
func (s *State) tz(t *Term) int {
	l := toLin(t)
	g := l.c
	for _, c := range l.coefs {
		g |= c
	}
	if g == 0 {
		return 62
	}
	n := 0
	for g&1 == 0 {
		g >>= 1
		n++
	}
	return n
}

func (s *State) and(x, y *Term, w int, ty types.Type) *Term {
	if x.op == OInt {
		x, y = y, x
	}
	if y.op == OInt {
		k := y.k
		if x.op == OInt {
			return mkInt(x.k & k)
		}
		if k == 0 {
			return tZero
		}
		if k == -1 {
			return x
		}
		if k > 0 {
			// split the mask into runs of ones
			r := tZero
			for k != 0 {
				lo := 0
				for k&(1<<uint(lo)) == 0 {
					lo++
				}
				n := 0
				for lo+n < 63 && k&(1<<uint(lo+n)) != 0 {
					n++
				}
				part := s.low(s.shr(x, lo, max(w, lo+n), nil), n, nil)
				r = tAdd(r, tScale(part, 1<<uint(lo)))
				if lo+n >= 63 {
					k = 0
				} else {
					k &^= (1<<uint(n) - 1) << uint(lo)
				}
			}
			return r
		}
	}
	if x == y {
		return x
	}
	if x.id > y.id {
		x, y = y, x
	}
	return mkApp("and", ty, x, y)
}

func (s *State) or(x, y *Term, w int, ty types.Type) *Term {
	if x == tZero || x == y {
		return y
	}
	if y == tZero {
		return x
	}
	if x.op == OInt && y.op == OInt {
		return mkInt(x.k | y.k)
	}
	ix, iy := s.ival(x), s.ival(y)
	if ix.lo >= 0 && iy.lo >= 0 {
		if n := s.tz(x); n < 62 && iy.hi < 1<<uint(n) {
			return tAdd(x, y)
		}
		if n := s.tz(y); n < 62 && ix.hi < 1<<uint(n) {
			return tAdd(x, y)
		}
	}
	// disjoint constant bit
	for _, p := range [][2]*Term{{x, y}, {y, x}} {
		if p[1].op == OInt && p[1].k > 0 {
			k := p[1].k
			if z := s.and(p[0], mkInt(k), w, ty); z == tZero || s.ival(z).hi == 0 {
				return tAdd(p[0], p[1])
			}
		}
	}
	if x.id > y.id {
		x, y = y, x
	}
	return mkApp("or", ty, x, y)
}

func (s *State) mul(x, y *Term, w int, signed bool, ty types.Type) *Term {
	if x.op == OInt {
		x, y = y, x
	}
	if y.op == OInt {
		return s.fit(tScale(x, y.k), w, signed, ty)
	}
	if x.id > y.id {
		x, y = y, x
	}
	return mkApp("mul", ty, x, y)
}

func isPow2(k int64) (int, bool) {
	if k <= 0 || k&(k-1) != 0 {
		return 0, false
	}
	n := 0
	for k > 1 {
		k >>= 1
		n++
	}
	return n, true
}

func (s *State) quo(x, y *Term, w int, ty types.Type) *Term {
	if y.op == OInt && y.k != 0 {
		if x.op == OInt {
			return mkInt(x.k / y.k)
		}
		if n, ok := isPow2(y.k); ok && s.ival(x).lo >= 0 {
			return s.shr(x, n, w, ty)
		}
	}
	return mkApp("div", ty, x, y)
}

func (s *State) rem(x, y *Term, w int, ty types.Type) *Term {
	if y.op == OInt && y.k != 0 {
		if x.op == OInt {
			return mkInt(x.k % y.k)
		}
		i := s.ival(x)
		if n, ok := isPow2(y.k); ok && i.lo >= 0 {
			return s.low(x, n, ty)
		}
		if i.lo >= 0 && i.hi < y.k {
			return x
		}
	}
	return mkApp("mod", ty, x, y)
}

func (s *State) shl(x, y *Term, w int, signed bool, ty types.Type) *Term {
	if y.op == OInt {
		if y.k >= int64(w) {
			return tZero
		}
		if y.k < 62 {
			return s.fit(tScale(x, 1<<uint(y.k)), w, signed, ty)
		}
	}
	if x == tZero {
		return tZero
	}
	if x == tOne {
		if i := s.ival(y); i.lo >= 0 && i.hi < 62 && (i.hi < int64(w)) {
			return mkApp("pow2", ty, y)
		}
	}
	return mkApp("shl", ty, x, y, mkInt(int64(w)))
}

func mkSel(ty types.Type, idx *Term, vals []*Term) *Term {
	if idx.op == OInt && idx.k >= 0 && idx.k < int64(len(vals)) {
		return vals[idx.k]
	}
	same := true
	for _, v := range vals {
		same = same && v == vals[0]
	}
	if same && len(vals) > 0 {
		return vals[0]
	}
	return mkApp("sel", ty, append([]*Term{idx}, vals...)...)
}

func init() {
	simpTab = map[string]func(ty types.Type, a []*Term) *Term{
		"bits": func(ty types.Type, a []*Term) *Term {
			if a[0].op == OApp && a[0].s == "bits" || a[0].op == OInt || a[0].op == OLin {
				if noState.ival(a[0]).lo >= 0 || a[1] == tZero {
					x := a[0]
					if a[1] != tZero {
						x = noState.shr(x, int(a[1].k), int(a[1].k+a[2].k), nil)
					}
					return noState.low(x, int(a[2].k), nil)
				}
			}
			return mkApp("bits", ty, a...)
		},
		"and": func(ty types.Type, a []*Term) *Term {
			w, _, _ := intInfo(ty)
			return noState.and(a[0], a[1], w, ty)
		},
		"or": func(ty types.Type, a []*Term) *Term {
			w, _, _ := intInfo(ty)
			return noState.or(a[0], a[1], w, ty)
		},
		"mul": func(ty types.Type, a []*Term) *Term {
			w, sg, _ := intInfo(ty)
			return noState.mul(a[0], a[1], w, sg, ty)
		},
		"div": func(ty types.Type, a []*Term) *Term {
			w, _, _ := intInfo(ty)
			return noState.quo(a[0], a[1], w, ty)
		},
		"mod": func(ty types.Type, a []*Term) *Term {
			w, _, _ := intInfo(ty)
			return noState.rem(a[0], a[1], w, ty)
		},
		"shl": func(ty types.Type, a []*Term) *Term {
			w, sg, _ := intInfo(ty)
			return noState.shl(a[0], a[1], w, sg, ty)
		},
		"pow2": func(ty types.Type, a []*Term) *Term {
			if a[0].op == OInt && a[0].k >= 0 && a[0].k < 62 {
				return mkInt(1 << uint(a[0].k))
			}
			return mkApp("pow2", ty, a...)
		},
		"shr": func(ty types.Type, a []*Term) *Term {
			if a[1].op == OInt && noState.ival(a[0]).lo >= 0 {
				return noState.shr(a[0], int(a[1].k), int(a[2].k), ty)
			}
			return mkApp("shr", ty, a...)
		},
		"swrap": func(ty types.Type, a []*Term) *Term {
			w, sg, _ := intInfo(ty)
			return noState.fit(a[1], w, sg, ty)
		},
		"uwrap": func(ty types.Type, a []*Term) *Term {
			if a[0].op == OInt && a[0].k >= 0 {
				return a[0]
			}
			return mkApp("uwrap", ty, a...)
		},
		"len": func(ty types.Type, a []*Term) *Term {
			switch a[0].op {
			case OSlice:
				return a[0].args[2]
			case ONil:
				return tZero
			case OStr:
				return mkInt(int64(len(a[0].s)))
			}
			return mkApp("len", ty, a...)
		},
		"cap": func(ty types.Type, a []*Term) *Term {
			switch a[0].op {
			case OSlice:
				return a[0].args[3]
			case ONil:
				return tZero
			}
			return mkApp("cap", ty, a...)
		},
		"nn:base": func(ty types.Type, a []*Term) *Term {
			if a[0].op == OSlice {
				return a[0].args[0]
			}
			return mkApp("nn:base", ty, a...)
		},
		"sel": func(ty types.Type, a []*Term) *Term { return mkSel(ty, a[0], a[1:]) },
		"min": func(ty types.Type, a []*Term) *Term { return mkMin(noState, ty, a...) },
	}
}

// mkMin is the minimum of terms, resolved if it can be decided.
func mkMin(s *State, ty types.Type, a ...*Term) *Term {
	x := a[0]
	for _, y := range a[1:] {
		switch {
		case x == y || s.proveLE0(tSub(x, y)):
		case s.proveLE0(tSub(y, x)):
			x = y
		default:
			if x.id > y.id {
				x = mkApp("min", ty, y, x)
			} else {
				x = mkApp("min", ty, x, y)
			}
		}
	}
	return x
}

func (e *Eng) binop(st *State, x *ssa.BinOp, a, b *Term) *Term {
	xt := x.X.Type()
	w, signed, isInt := intInfo(xt)
	switch x.Op {
	case token.EQL:
		return e.eqTerm(st, a, b, xt)
	case token.NEQ:
		return tNot(e.eqTerm(st, a, b, xt))
	}
	if isInt {
		rt := x.Type()
		switch x.Op {
		case token.LSS:
			return tLE0(tAddK(tSub(a, b), 1))
		case token.LEQ:
			return tLE0(tSub(a, b))
		case token.GTR:
			return tLE0(tAddK(tSub(b, a), 1))
		case token.GEQ:
			return tLE0(tSub(b, a))
		case token.ADD:
			return st.fit(tAdd(a, b), w, signed, rt)
		case token.SUB:
			return st.fit(tSub(a, b), w, signed, rt)
		case token.MUL:
			return st.mul(a, b, w, signed, rt)
		case token.QUO, token.REM:
			if !e.oblig(st, x, "div", tNot(tEq0(b)), "division by zero") {
				return tZero
			}
			if x.Op == token.QUO {
				return st.quo(a, b, w, rt)
			}
			return st.rem(a, b, w, rt)
		case token.AND:
			return st.and(a, b, w, rt)
		case token.OR:
			return st.or(a, b, w, rt)
		case token.XOR:
			full := int64(-1)
			if !signed && w < 64 {
				full = 1<<uint(w) - 1
			}
			if a.op == OInt && a.k == full {
				a, b = b, a
			}
			if b.op == OInt && b.k == full && (w < 64 || signed) {
				return tAddK(tScale(a, -1), full)
			}
			if a.op == OInt && b.op == OInt {
				return mkInt(a.k ^ b.k)
			}
			if a == b {
				return tZero
			}
			if a.id > b.id {
				a, b = b, a
			}
			return mkApp("xor", rt, a, b)
		case token.AND_NOT:
			if b.op == OInt && a.op == OInt {
				return mkInt(a.k &^ b.k)
			}
			if b.op == OInt && w < 62 && b.k >= 0 {
				return st.and(a, mkInt((1<<uint(w)-1)&^b.k), w, rt)
			}
			return mkApp("andnot", rt, a, b)
		case token.SHL:
			return st.shl(a, b, w, signed, rt)
		case token.SHR:
			if b.op == OInt && st.ival(a).lo >= 0 {
				return st.shr(a, int(min(b.k, 64)), w, rt)
			}
			if a.op == OInt && b.op == OInt {
				return mkInt(a.k >> uint(min(b.k, 63)))
			}
			if a == tZero {
				return tZero
			}
			return mkApp("shr", rt, a, b, mkInt(int64(w)))
		}
	}
	if bt, ok := xt.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		switch x.Op {
		case token.ADD:
			if a.op == OStr && b.op == OStr {
				return mkStr(a.s + b.s)
			}
			if n := st.strLen(a); n.op == OInt && st.strLen(b).op == OInt {
				var l []*Term
				for _, p := range []*Term{a, b} {
					for k := int64(0); k < st.strLen(p).k && l != nil || k == 0; k++ {
						if k < st.strLen(p).k {
							c := strByte(p, mkInt(k))
							if c == nil || len(l) > 300 {
								return mkApp("concat", x.Type(), a, b)
							}
							l = append(l, c)
						}
					}
				}
				if l != nil {
					return mkApp("string", tyStr, l...)
				}
			}
			r := mkApp("concat", x.Type(), a, b)
			return r
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return mkApp("str"+x.Op.String(), tyBool, a, b)
		}
	}
	return mkApp("op"+x.Op.String(), x.Type(), a, b)
}

// eqTerm is the equality of two operands.
func (e *Eng) eqTerm(st *State, a, b *Term, t types.Type) *Term {
	if w, signed, ok := intInfo(t); ok {
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if x := p[0]; x.op == OApp && x.s == "xor" && p[1].op == OInt {
				if p[1].k == 0 {
					return tEq0(tSub(x.args[0], x.args[1]))
				}
				if !signed && w < 62 && p[1].k == 1<<uint(w)-1 {
					return tEq0(tAddK(tAdd(x.args[0], x.args[1]), -p[1].k))
				}
			}
		}
		return tEq0(tSub(a, b))
	}
	// strings compared with "" are length tests
	if bt, ok := t.Underlying().(*types.Basic); ok && bt.Info()&types.IsString != 0 {
		for _, p := range [][2]*Term{{a, b}, {b, a}} {
			if p[0].op == OStr && p[0].s == "" && p[1].op != OStr {
				return tEq0(st.strLen(p[1]))
			}
		}
	}
	return tEq(a, b)
}

func (e *Eng) convert(st *State, x *ssa.Convert, a *Term) *Term {
	from, to := x.X.Type(), x.Type()
	if w, signed, ok := intInfo(to); ok {
		if fw, fs, ok := intInfo(from); ok {
			if a.op == OApp && a.s == "uwrap" && w < 64 {
				return st.fit(a.args[0], w, signed, to)
			}
			if w == 64 && signed && !fs && fw == 64 {
				if a.op == OApp && (a.s == "uwrap" || a.s == "big") {
					return a.args[0]
				}
				return a
			}
			return st.fit(a, w, signed, to)
		}
		return st.freshOf(to, "conv")
	}
	switch u := to.Underlying().(type) {
	case *types.Slice:
		if fb, ok := from.Underlying().(*types.Basic); ok && fb.Info()&types.IsString != 0 {
			o := e.allocAt(st, e.siteName(st, x), types.NewSlice(u.Elem()))
			a = e.eval(st, x.X)
			n := st.strLen(a)
			st.cells[mkIndex(o, tAny)] = mkApp("strbytes", nil, a)
			if n.op == OInt && n.k <= 64 && n.k > 0 && strByte(a, mkInt(n.k-1)) != nil {
				for k := int64(0); k < n.k; k++ {
					st.store(mkIndex(o, mkInt(k)), strByte(a, mkInt(k)), u.Elem())
				}
			}
			return mkSlice(o, tZero, n, n)
		}
	case *types.Basic:
		if u.Info()&types.IsString != 0 {
			if _, ok := from.Underlying().(*types.Slice); ok {
				r := st.freshOf(to, "str")
				st.assumeLen(r, st.sliceLen(a))
				return r
			}
			if fb, ok := from.Underlying().(*types.Basic); ok && fb.Info()&types.IsString != 0 {
				return a
			}
		}
	case *types.Pointer:
		return a
	}
	return mkApp("conv:"+typeKey(to), to, a)
}

// --------------------------------------------------------------- builtins

func (e *Eng) builtin(st *State, at ssa.Instruction, name string, cc *ssa.CallCommon, args []*Term) []*State {
	switch name {
	case "len":
		switch cc.Args[0].Type().Underlying().(type) {
		case *types.Slice:
			n := st.sliceLen(args[0])
			if n.op != OInt && st.ival(n).lo < 0 && !st.assume(tLE0(tScale(n, -1))) {
				return nil // no slice has a negative length
			}
			return done(st, n)
		case *types.Basic:
			return done(st, st.strLen(args[0]))
		case *types.Array:
			return done(st, mkInt(cc.Args[0].Type().Underlying().(*types.Array).Len()))
		}
		return done(st, mkApp("len", tyInt, args[0]))
	case "cap":
		return done(st, st.sliceCap(args[0]))
	case "append":
		return e.builtinAppend(st, at, cc, args)
	case "copy":
		return e.builtinCopy(st, at, cc, args)
	case "min":
		if _, _, ok := intInfo(cc.Args[0].Type()); ok {
			return done(st, mkMin(st, cc.Args[0].Type(), args...))
		}
	case "print", "println":
		return done(st, tUnit)
	case "recover":
		return done(st, tNil)
	case "delete":
		st.cells[mkField(args[0], "#map")] = tFalse
		return done(st, tUnit)
	case "ssa:wrapnilchk":
		return done(st, args[0])
	case "ssa:deferstack":
		return done(st, tNil)
	case "clear":
		if _, ok := cc.Args[0].Type().Underlying().(*types.Slice); ok {
			st.havocContents(st.sliceBase(args[0]), mkSym("content", nil))
			return done(st, tUnit)
		}
	}
	e.undecided(st, at, "unsupported builtin %s", name)
	var t types.Type = types.NewTuple()
	if v, ok := at.(ssa.Value); ok {
		t = v.Type()
	}
	return done(st, st.freshOf(t, name))
}

func (e *Eng) builtinAppend(st *State, at ssa.Instruction, cc *ssa.CallCommon, args []*Term) []*State {
	dst := args[0]
	st0 := cc.Args[0].Type().Underlying().(*types.Slice)
	var srcLen *Term
	if len(args) < 2 {
		return done(st, dst)
	}
	src := args[1]
	isStr := false
	if _, ok := cc.Args[1].Type().Underlying().(*types.Basic); ok {
		isStr = true
		srcLen = st.strLen(src)
	} else {
		srcLen = st.sliceLen(src)
	}
	n := st.sliceLen(dst)
	total := tAdd(n, srcLen)
	if srcLen == tZero {
		return done(st, dst)
	}
	// The result is a new object (growth in place is not distinguished).
	// The contents of the destination are copied if they are explicit.
	type ent struct{ k, v *Term }
	var ents []ent
	explicit := n.op == OInt && n.k <= 64
	if explicit && dst != tNil {
		for i := int64(0); i < n.k; i++ {
			ents = append(ents, ent{mkInt(i), st.load(mkIndex(st.sliceBase(dst), tAddK(st.sliceOff(dst), i)), st0.Elem())})
		}
	}
	if explicit && !isStr && srcLen.op == OInt && srcLen.k <= 64 && src != tNil {
		for i := int64(0); i < srcLen.k; i++ {
			ents = append(ents, ent{tAddK(n, i), st.load(mkIndex(st.sliceBase(src), tAddK(st.sliceOff(src), i)), st0.Elem())})
		}
	} else if explicit && isStr && srcLen.op == OInt && srcLen.k <= 64 && srcLen.k > 0 && strByte(src, mkInt(srcLen.k-1)) != nil {
		for i := int64(0); i < srcLen.k; i++ {
			ents = append(ents, ent{tAddK(n, i), strByte(src, mkInt(i))})
		}
	} else {
		explicit = explicit && srcLen == tZero
	}
	// one element appended to a slice of unknown length: remember the last one
	var last *Term
	if !explicit && !isStr && srcLen.op == OInt && srcLen.k >= 1 && src != tNil {
		last = st.load(mkIndex(st.sliceBase(src), tAddK(st.sliceOff(src), srcLen.k-1)), st0.Elem())
	}
	content := mkSym("content", nil)
	if e.appendHook != nil {
		if c := e.appendHook(st, at, dst, src); c != nil {
			content = c
		}
	}
	o := e.allocAt(st, "append:"+e.siteName(st, at), types.NewSlice(st0.Elem()))
	// the arguments may have been renamed by the allocation; only lengths
	// are used from here on
	st.cells[mkIndex(o, tAny)] = content
	if explicit {
		st.cells[mkIndex(o, tAny)] = tZeroContent
		for _, x := range ents {
			st.store(mkIndex(o, x.k), x.v, st0.Elem())
		}
	} else if last != nil {
		st.store(mkIndex(o, tAddK(total, -1)), last, st0.Elem())
	}
	cp := mkSym("cap", tyInt)
	st.assume(tLE0(tSub(total, cp)))
	return done(st, mkSlice(o, tZero, total, cp))
}

func (e *Eng) builtinCopy(st *State, at ssa.Instruction, cc *ssa.CallCommon, args []*Term) []*State {
	dst, src := args[0], args[1]
	var sl *Term
	isStr := false
	if _, ok := cc.Args[1].Type().Underlying().(*types.Basic); ok {
		sl = st.strLen(src)
		isStr = true
	} else {
		sl = st.sliceLen(src)
	}
	n := mkMin(st, tyInt, st.sliceLen(dst), sl)
	if dst == tNil || n == tZero {
		return done(st, tZero)
	}
	et := cc.Args[0].Type().Underlying().(*types.Slice).Elem()
	if e.copyHook != nil && e.copyHook(st, at, dst, src, n) {
		return done(st, n)
	}
	if isStr && n.op == OInt && n.k <= 64 && n.k > 0 && strByte(src, mkInt(n.k-1)) != nil {
		for i := int64(0); i < n.k; i++ {
			st.store(mkIndex(st.sliceBase(dst), tAddK(st.sliceOff(dst), i)), strByte(src, mkInt(i)), et)
		}
		return done(st, n)
	}
	if n.op == OInt && (n.k <= 64 || e.concrete && n.k <= 320) && !isStr {
		vals := make([]*Term, n.k)
		for i := range vals {
			vals[i] = st.load(mkIndex(st.sliceBase(src), tAddK(st.sliceOff(src), int64(i))), et)
		}
		for i := range vals {
			st.store(mkIndex(st.sliceBase(dst), tAddK(st.sliceOff(dst), int64(i))), vals[i], et)
		}
		return done(st, n)
	}
	// A full copy at offset 0 carries the contents over.
	content := mkSym("content", nil)
	if !isStr && st.sliceOff(dst) == tZero && st.sliceOff(src) == tZero {
		content = mkApp("copyof", nil, st.contentOf(st.sliceBase(src)), n)
	}
	st.havocContents(st.sliceBase(dst), content)
	return done(st, n)
}

// contentOf is an opaque description of the contents of an array object.
func (s *State) contentOf(base *Term) *Term {
	for k := range s.cells {
		if k.op == OIndex && k.args[0] == base && k.args[1] != tAny {
			return mkSym("content", nil)
		}
	}
	if c, ok := s.cell(mkIndex(base, tAny)); ok {
		return c
	}
	return mkApp("content0", nil, base)
}
