package main

import (
	"fmt"
	"go/types"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C14: the enumerations.  Every function of an enumeration is interpreted
// with an unknown value; the outcomes partition the values, and each part is
// compared with the set of declared values.

// ranged are the enumerations that are numeric scales: the documented values
// are a default and a range.
var ranged = map[string]struct {
	def    int64
	lo, hi string // names of the constants which bound the range
}{
	"CompressLevel": {-1, "NoCompression", "BestCompression"},
	"MemoryLevel":   {0, "SmallestMemory", "FastestMemory"},
	"WindowBits":    {0, "MinWindowBits", "MaxWindowBits"},
}

type enumRun struct {
	c    *Ctx
	e    *Eng
	base *State
	nOut int
}

func (r *enumRun) call(fn *ssa.Function, args ...*Term) []*State {
	st := r.base.clone()
	st.mon["$x"] = args[0]
	outs := r.e.call(st, fn, args, nil, nil)
	r.nOut += len(outs)
	r.c.counts["functions analysed"]++
	r.c.counts["outcomes"] += len(outs)
	return outs
}

// iargs returns the values inside of a variadic argument.
func iargs(st *State, v *Term) ([]*Term, bool) {
	n := st.sliceLen(v)
	if !n.isConst() {
		return nil, false
	}
	var out []*Term
	for i := int64(0); i < n.k; i++ {
		x := st.loadLeaf(mkIndex(st.sliceBase(v), tAddK(st.sliceOff(v), i)), nil)
		if x == nil || x.op != OIface {
			return nil, false
		}
		out = append(out, x.args[0])
	}
	return out, true
}

func (r *enumRun) rows(st *State, c *callInfo, data *Term) []map[string]*Term {
	n := st.sliceLen(data)
	if !n.isConst() {
		r.e.undecided(st, c.at, "the table of an enumeration has no constant length")
		return nil
	}
	var out []map[string]*Term
	for i := int64(0); i < n.k; i++ {
		row := map[string]*Term{}
		a := mkIndex(st.sliceBase(data), tAddK(st.sliceOff(data), i))
		for _, f := range []string{"GoName", "Name"} {
			row[f] = st.loadLeaf(mkField(a, f), tyStr)
		}
		for _, f := range []string{"JSON", "Aliases"} {
			row[f] = st.load(mkField(a, f), sliceTypeOf(f))
		}
		row["#addr"] = a
		out = append(out, row)
	}
	return out
}

func sliceTypeOf(f string) types.Type {
	if f == "JSON" {
		return types.NewSlice(tyByte)
	}
	return types.NewSlice(tyStr)
}

// bytesConst is the text of a constant byte slice.
func bytesConst(st *State, v *Term) (string, bool) {
	if v == tNil {
		return "", false
	}
	if v.op == OApp && v.s == "json" {
		return "", false
	}
	n := st.sliceLen(v)
	if !n.isConst() {
		return "", false
	}
	if d, ok := st.cell(mkIndex(st.sliceBase(v), tAny)); ok && d.op == OApp && d.s == "strbytes" && d.args[0].op == OStr {
		s, off := d.args[0].s, st.sliceOff(v)
		if off.isConst() && off.k >= 0 && off.k+n.k <= int64(len(s)) {
			return s[off.k : off.k+n.k], true
		}
	}
	var sb strings.Builder
	for i := int64(0); i < n.k; i++ {
		x := st.loadLeaf(mkIndex(st.sliceBase(v), tAddK(st.sliceOff(v), i)), tyByte)
		switch {
		case x == nil:
			return "", false
		case x.op == OInt:
			sb.WriteByte(byte(x.k))
		case x.op == OApp && x.s == "strelem" && x.args[0].op == OStr && x.args[1].op == OInt && int(x.args[1].k) < len(x.args[0].s):
			sb.WriteByte(x.args[0].s[x.args[1].k])
		default:
			return "", false
		}
	}
	return sb.String(), true
}

// texts of one row.
func (r *enumRun) rowTexts(st *State, row map[string]*Term) []string {
	var out []string
	for _, f := range []string{"Name", "GoName"} {
		if row[f] != nil && row[f].op == OStr {
			out = append(out, row[f].s)
		}
	}
	al := row["Aliases"]
	if al == tNil {
		return out
	}
	n := st.sliceLen(al)
	for i := int64(0); n.isConst() && i < n.k; i++ {
		x := st.loadLeaf(mkIndex(st.sliceBase(al), tAddK(st.sliceOff(al), i)), tyStr)
		if x != nil && x.op == OStr {
			out = append(out, x.s)
		}
	}
	return out
}

func (r *enumRun) ext(e *Eng, st *State, c *callInfo) ([]*State, bool) {
	name := c.name
	if i := strings.LastIndexByte(name, '/'); i >= 0 {
		name = name[i+1:]
	}
	each := func(data, idx *Term, f func(s *State, row map[string]*Term) *Term) []*State {
		rows := r.rows(st, c, data)
		var outs []*State
		for i, row := range rows {
			s := st.clone()
			if !s.assume(tEq0(tAddK(idx, -int64(i)))) || s.dead {
				continue
			}
			s.ret = f(s, row)
			outs = append(outs, s)
		}
		// beyond the table: a panic
		s := st.clone()
		if s.assume(tLE0(tAddK(tScale(idx, -1), int64(len(rows))))) && !s.dead {
			s.mon["$panic"] = tTrue
			s.ret = s.freshOf(resultTypeOf(c.sig), "panic")
			outs = append(outs, s)
		}
		return outs
	}
	switch name {
	case "enumhelper.DereferenceEnumData":
		rt := c.resultType()
		return each(c.args[1], c.args[2], func(s *State, row map[string]*Term) *Term {
			return s.load(row["#addr"], rt)
		}), true
	case "enumhelper.MarshalEnumToJSON":
		return each(c.args[1], c.args[2], func(s *State, row map[string]*Term) *Term {
			if row["JSON"] == tNil {
				return mkTuple(mkApp("json", nil, row["Name"]), tNil)
			}
			return mkTuple(row["JSON"], tNil)
		}), true
	case "enumhelper.ParseEnum":
		rows := r.rows(st, c, c.args[1])
		str := c.args[2]
		var outs []*State
		for i, row := range rows {
			for _, t := range r.rowTexts(st, row) {
				if str.op == OStr {
					if strings.EqualFold(str.s, t) {
						st.ret = mkTuple(mkInt(int64(i)), tNil)
						return []*State{st}, true
					}
					continue
				}
			}
			if str.op != OStr {
				s := st.clone()
				s.ret = mkTuple(mkInt(int64(i)), tNil)
				outs = append(outs, s)
			}
		}
		st.ret = mkTuple(tZero, freshErr("enumhelper.InvalidEnumNameError"))
		return append(outs, st), true
	case "fmt.Sprintf", "fmt.Sprint":
		vals, ok := iargs(st, c.args[len(c.args)-1])
		if ok && (name == "fmt.Sprint" || c.args[0].op == OStr) {
			as := vals
			if name == "fmt.Sprintf" {
				as = append([]*Term{c.args[0]}, vals...)
			} else {
				as = append([]*Term{mkStr(strings.Repeat("%v", len(vals)))}, vals...)
			}
			return done(st, mkApp("sprintf", tyStr, as...)), true
		}
	case "strconv.Itoa", "strconv.FormatInt", "strconv.FormatUint":
		if len(c.args) == 1 || c.args[1] == mkInt(10) {
			return done(st, mkApp("sprintf", tyStr, mkStr("%d"), c.args[0])), true
		}
	case "json.Marshal":
		v := c.args[0]
		if v.op == OIface {
			v = v.args[0]
		}
		return done(st, mkTuple(mkApp("json", nil, v), tNil)), true
	case "strings.EqualFold":
		a, b := c.args[0], c.args[1]
		if a.op == OStr && b.op == OStr {
			return done(st, mkBool(strings.EqualFold(a.s, b.s))), true
		}
		s := st.clone()
		s.ret, st.ret = tTrue, tFalse
		return []*State{s, st}, true
	case "strings.ToLower", "strings.ToUpper", "strings.TrimSpace":
		if a := c.args[0]; a.op == OStr {
			f := map[string]func(string) string{"strings.ToLower": strings.ToLower, "strings.ToUpper": strings.ToUpper, "strings.TrimSpace": strings.TrimSpace}[name]
			return done(st, mkStr(f(a.s))), true
		}
	case "strconv.ParseUint", "strconv.ParseInt", "strconv.Atoi":
		signed := name != "strconv.ParseUint"
		bits := int64(64)
		base := int64(10)
		if len(c.args) == 3 {
			if !c.args[1].isConst() || !c.args[2].isConst() {
				return nil, false
			}
			base = c.args[1].k
			if c.args[2].k != 0 {
				bits = c.args[2].k
			}
		}
		rt := c.sig.Results().At(0).Type()
		bad := func(s *State) *State {
			// on error the value is unspecified here
			s.ret = mkTuple(s.freshOf(rt, "bad"), freshErr(name))
			return s
		}
		if a := c.args[0]; a.op == OStr {
			var v int64
			var err error
			if signed {
				v, err = strconv.ParseInt(a.s, int(base), int(bits))
			} else {
				var u uint64
				u, err = strconv.ParseUint(a.s, int(base), int(bits))
				if u > 1<<62 {
					return nil, false
				}
				v = int64(u)
			}
			if err != nil {
				return []*State{bad(st)}, true
			}
			return done(st, mkTuple(mkInt(v), tNil)), true
		}
		s := st.clone()
		v := s.freshOf(rt, "num")
		if bits < 63 {
			lo, hi := int64(0), int64(1)<<bits-1
			if signed {
				lo, hi = -(int64(1) << (bits - 1)), int64(1)<<(bits-1)-1
			}
			s.assume(tLE0(tSub(mkInt(lo), v)))
			s.assume(tLE0(tSub(v, mkInt(hi))))
		}
		s.mon["$num"] = v
		s.ret = mkTuple(v, tNil)
		return []*State{s, bad(st)}, true
	}
	return nil, false
}

// pin restricts a state to the value v of the unknown.
func pin(s *State, x string, v int64) *State {
	t := s.clone()
	if !t.assume(tEq0(tAddK(t.mon[x], -v))) || t.dead {
		return nil
	}
	return t
}

// textOf is the text that a string term has in a state.
func textOf(st *State, t *Term) (string, bool) {
	t = st.resolve(t)
	switch {
	case t.op == OStr:
		return t.s, true
	case t.op == OApp && (t.s == "strcat" || t.s == "concat"):
		out := ""
		for _, a := range t.args {
			s, ok := textOf(st, a)
			if !ok {
				return "", false
			}
			out += s
		}
		return out, true
	case t.op == OApp && t.s == "sprintf":
		f, ok := textOf(st, t.args[0])
		if !ok {
			return "", false
		}
		var as []interface{}
		for _, a := range t.args[1:] {
			a = st.resolve(a)
			if iv := st.ival(a); a.op != OStr && iv.lo == iv.hi {
				as = append(as, iv.lo)
			} else if s, ok := textOf(st, a); ok {
				as = append(as, s)
			} else {
				return "", false
			}
		}
		return fmt.Sprintf(f, as...), true
	}
	return "", false
}

func letters(s string) string {
	var sb strings.Builder
	for _, c := range strings.ToLower(s) {
		if c >= 'a' && c <= 'z' || c >= '0' && c <= '9' {
			sb.WriteRune(c)
		}
	}
	return sb.String()
}

func enumProperty(c *Ctx) {
	L := c.L
	e := newEng(L)
	e.verbose = c.verbose
	e.split, e.concrete = true, true
	e.maxKeys = 5000
	base := L.globalsState(func(s string) { panic(abort{s}) })
	lazyHook = e.defaultLazy
	r := &enumRun{c: c, e: e, base: base}
	e.h.Ext = r.ext
	e.h.Panic = func(st *State, at ssa.Instruction, what string) {}
	sp := L.byPath[modPath]
	if sp == nil {
		panic(abort{"root package not found"})
	}
	for _, name := range sp.Pkg.Scope().Names() {
		tn, ok := sp.Pkg.Scope().Lookup(name).(*types.TypeName)
		if !ok {
			continue
		}
		T := tn.Type()
		if b, ok := T.Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
			continue
		}
		consts := map[int64]string{}
		for _, n := range sp.Pkg.Scope().Names() {
			if k, ok := sp.Pkg.Scope().Lookup(n).(*types.Const); ok && types.Identical(k.Type(), T) {
				v, _ := constInt(ssa.NewConst(k.Val(), k.Type()))
				consts[v] = n
			}
		}
		if len(consts) == 0 || r.method(T, "String") == nil {
			continue
		}
		c.guard(name, func() { r.enum(name, T, consts) })
	}
	for _, k := range e.order {
		p := e.problems[k]
		if p.rule == "undecided" {
			c.fail(p.rule, p.where, p.pos, p.msg, p.trace...)
		}
	}
	c.floor("enumerations", 12)
	c.floor("validity tests", 9)
	c.floor("parsers", 5)
	c.floor("values", 70)
}

func (r *enumRun) method(T types.Type, name string) *ssa.Function {
	for _, t := range []types.Type{T, types.NewPointer(T)} {
		if sel := r.c.L.prog.MethodSets.MethodSet(t).Lookup(nil, name); sel != nil {
			if fn, ok := sel.Obj().(*types.Func); ok {
				return r.c.L.prog.FuncValue(fn)
			}
		}
	}
	return nil
}

func (r *enumRun) enum(name string, T types.Type, consts map[int64]string) {
	c := r.c
	c.counts["enumerations"]++
	valid := map[int64]bool{}
	for v := range consts {
		valid[v] = true
	}
	byName := map[string]int64{}
	for v, n := range consts {
		byName[n] = v
	}
	rg, isRange := ranged[name]
	if isRange {
		lo, ok1 := byName[rg.lo]
		hi, ok2 := byName[rg.hi]
		if !ok1 || !ok2 {
			panic(abort{"missing constants of " + name})
		}
		valid = map[int64]bool{rg.def: true}
		for v := lo; v <= hi; v++ {
			valid[v] = true
		}
	} else {
		for v := int64(0); v < int64(len(consts)); v++ {
			c.decide(valid[v], "C14.dense", name, "", "no constant of %s has the value %d", name, v)
		}
	}
	iv := typeIval(T)
	x := mkSym("x:"+name, T)
	// the validity test
	if fn := r.method(T, "IsValid"); fn != nil {
		c.counts["validity tests"]++
		outs := r.call(fn, x)
		for v := iv.lo; v <= iv.hi; v++ {
			yes, no := false, false
			for _, o := range outs {
				p := pin(o, "$x", v)
				if p == nil {
					continue
				}
				b := p.resolve(p.ret)
				if p.clone().assume(b) {
					yes = true
				}
				if p.clone().assume(tNot(b)) {
					no = true
				}
			}
			if yes == no {
				c.fail("C14.valid", name, c.L.posString(fn.Pos()), fmt.Sprintf("IsValid is not decided for %s(%d)", name, v))
				break
			}
			if !c.decide(yes == valid[v], "C14.valid", name, c.L.posString(fn.Pos()), "%s(%d).IsValid() is %v", name, v, yes) {
				break
			}
		}
	}
	// the textual forms
	forms := map[string]map[int64]string{}
	for _, m := range []string{"String", "GoString"} {
		fn := r.method(T, m)
		if fn == nil {
			continue
		}
		pos := c.L.posString(fn.Pos())
		outs := r.call(fn, x)
		texts := map[int64]string{}
		owner := map[string]int64{}
		for _, v := range sortedInts(valid) {
			n := 0
			for _, o := range outs {
				p := pin(o, "$x", v)
				if p == nil {
					continue
				}
				if p.mon["$panic"] != nil {
					c.fail("C14.name", name+"."+m, pos, fmt.Sprintf("%s(%d).%s() panics", name, v, m))
					continue
				}
				s, ok := textOf(p, p.ret)
				if !ok {
					c.fail("C14.name", name+"."+m, pos, fmt.Sprintf("the text of %s(%d) is not decided: %v", name, v, p.ret))
					continue
				}
				if n++; n > 1 && texts[v] != s {
					c.fail("C14.name", name+"."+m, pos, fmt.Sprintf("%s(%d) has the texts %q and %q", name, v, texts[v], s))
				}
				texts[v] = s
			}
			if n == 0 {
				c.fail("C14.name", name+"."+m, pos, fmt.Sprintf("%s(%d) has no text", name, v))
				continue
			}
			c.counts["values"]++
			s := texts[v]
			w, dup := owner[strings.ToLower(s)]
			c.decide(!dup, "C14.distinct", name+"."+m, pos, "%s(%d) and %s(%d) have the same text %q", name, w, name, v, s)
			owner[strings.ToLower(s)] = v
			c.decide(s != "", "C14.name", name+"."+m, pos, "%s(%d) has an empty text", name, v)
			r.position(name, m, pos, v, s, consts, isRange, rg.def)
		}
		forms[m] = texts
	}
	r.json(name, T, x, valid, forms, consts)
	if fn := r.method(T, "Parse"); fn != nil {
		r.parse(name, T, fn, valid, forms, consts, isRange, rg.def)
	}
}

// position: a text stands for the value it is named after.
func (r *enumRun) position(name, m, pos string, v int64, s string, consts map[int64]string, isRange bool, def int64) {
	c := r.c
	if isRange {
		num := strconv.FormatInt(v, 10)
		if v == def {
			c.decide(strings.Contains(strings.ToLower(s), "default"), "C14.position", name+"."+m, pos, "the default value of %s has the text %q", name, s)
			return
		}
		if m == "String" && v == 0 && name == "CompressLevel" {
			c.decide(s == "none" || s == num, "C14.position", name+"."+m, pos, "%s(%d) has the text %q", name, v, s)
			return
		}
		want := num
		if m == "GoString" {
			want = fmt.Sprintf("%s(%d)", name, v)
			if consts[v] == s {
				return
			}
		}
		c.decide(s == want, "C14.position", name+"."+m, pos, "%s(%d) has the text %q", name, v, s)
		return
	}
	if m == "GoString" {
		c.decide(s == consts[v] || strings.HasSuffix(s, "."+consts[v]), "C14.position", name+"."+m, pos, "%s(%d) is %s but its Go name is %q", name, v, consts[v], s)
		return
	}
	// the text resembles the name of the constant, and not that of another one
	words := strings.FieldsFunc(strings.ToLower(s), func(c rune) bool { return c == ' ' })
	like := func(id string) bool {
		id = letters(strings.TrimPrefix(id, name))
		if id == "default"+letters(name) && (s == "auto" || s == "default") {
			return true
		}
		return strings.Contains(id, letters(s)) || len(words) > 0 && strings.Contains(id, letters(words[0]))
	}
	if !like(consts[v]) {
		for w, id := range consts {
			if w != v && like(id) {
				c.fail("C14.position", name+"."+m, pos, fmt.Sprintf("%s has the text %q, which stands for %s", consts[v], s, id))
				return
			}
		}
	}
	c.ok("C14.position", name+"."+m)
}

// json: the JSON form is that of the value.
func (r *enumRun) json(name string, T types.Type, x *Term, valid map[int64]bool, forms map[string]map[int64]string, consts map[int64]string) {
	c := r.c
	fn := r.method(T, "MarshalJSON")
	if fn == nil {
		return
	}
	pos := c.L.posString(fn.Pos())
	outs := r.call(fn, x)
	for _, v := range sortedInts(valid) {
		n := 0
		for _, o := range outs {
			p := pin(o, "$x", v)
			if p == nil {
				continue
			}
			n++
			if p.mon["$panic"] != nil {
				c.fail("C14.json", name, pos, fmt.Sprintf("%s(%d).MarshalJSON() panics", name, v))
				continue
			}
			ret := p.resolve(p.ret)
			if ret.op != OTuple || ret.args[1] != tNil {
				c.fail("C14.json", name, pos, fmt.Sprintf("%s(%d).MarshalJSON() fails", name, v))
				continue
			}
			t := p.resolve(ret.args[0])
			good, what := false, t.String()
			if t.op == OApp && t.s == "json" {
				a := p.resolve(t.args[0])
				if s, ok := textOf(p, a); ok {
					what = strconv.Quote(s)
					good = s == forms["String"][v] || s == forms["GoString"][v]
				} else if iv := p.ival(a); iv.lo == iv.hi {
					what = fmt.Sprint(iv.lo)
					good = iv.lo == v
				}
			} else if s, ok := bytesConst(p, t); ok {
				what = s
				if u, err := strconv.Unquote(s); err == nil {
					good = u == forms["String"][v] || u == forms["GoString"][v]
				} else {
					good = s == fmt.Sprint(v)
				}
			}
			c.decide(good, "C14.json", name, pos, "the JSON form of %s(%d) is %s", name, v, what)
		}
		c.decide(n > 0, "C14.json", name, pos, "%s(%d) has no JSON form", name, v)
	}
}

func (r *enumRun) parse(name string, T types.Type, fn *ssa.Function, valid map[int64]bool, forms map[string]map[int64]string, consts map[int64]string, isRange bool, def int64) {
	c := r.c
	c.counts["parsers"]++
	pos := c.L.posString(fn.Pos())
	ptr := intern(Term{op: OObj, s: "parsed:" + name, ty: T})
	run := func(str *Term) []*State {
		st := r.base.clone()
		st.store(ptr, mkSym("old:"+name, T), T)
		st.mon["$p"] = ptr
		r.c.counts["functions analysed"]++
		return r.e.call(st, fn, []*Term{ptr, str}, nil, nil)
	}
	// unknown text: whatever is accepted is a valid value
	seen := map[int64]bool{}
	for _, o := range run(mkSym("str", tyStr)) {
		r.c.counts["outcomes"]++
		ret := o.resolve(o.ret)
		if o.truth(tEq(ret, tNil)) == -1 {
			if num := o.mon["$num"]; num != nil {
				for _, v := range sortedInts(valid) {
					if v == def && isRange || pin(o, "$num", v) == nil {
						continue
					}
					c.fail("C14.parse-rejects", name, pos, fmt.Sprintf("Parse rejects the number %d, which is a valid %s", v, name))
				}
			}
			continue
		}
		if o.truth(tEq(ret, tNil)) != 1 {
			c.fail("C14.parse", name, pos, "the result of Parse is not decided")
			continue
		}
		got := o.resolve(o.load(ptr, T))
		if num := o.mon["$num"]; num != nil {
			iv := o.ival(num)
			if iv.hi > 1<<16 || iv.lo < -(1<<16) {
				c.fail("C14.parse", name, pos, fmt.Sprintf("Parse accepts numbers as large as %d", iv.hi))
				continue
			}
			for v := iv.lo; v <= iv.hi; v++ {
				p := pin(o, "$num", v)
				if p == nil {
					continue
				}
				g := p.ival(p.resolve(got))
				if !c.decide(valid[v] && g.lo == v && g.hi == v, "C14.parse", name, pos, "Parse accepts the number %d and returns the value %v", v, p.resolve(got)) {
					break
				}
				seen[v] = true
			}
			continue
		}
		iv := o.ival(got)
		if c.decide(iv.lo == iv.hi && valid[iv.lo], "C14.parse", name, pos, "Parse succeeds with the value %v", got) {
			seen[iv.lo] = true
		}
	}
	for _, v := range sortedInts(valid) {
		c.decide(seen[v], "C14.parse-all", name, pos, "Parse never returns %s(%d)", name, v)
	}
	// the textual forms
	for m, texts := range forms {
		if m == "GoString" && isRange {
			continue
		}
		for v, s := range texts {
			outs := run(mkStr(s))
			if len(outs) != 1 {
				c.fail("C14.parse-form", name, pos, fmt.Sprintf("parsing %q has %d outcomes", s, len(outs)))
				continue
			}
			o := outs[0]
			iv := o.ival(o.resolve(o.load(ptr, T)))
			c.decide(o.truth(tEq(o.resolve(o.ret), tNil)) == 1 && iv.lo == v && iv.hi == v, "C14.parse-form", name+" "+s, pos,
				"parsing %q, the text of %s(%d), gives %v, %v", s, name, v, o.load(ptr, T), o.ret)
			c.counts["texts parsed"]++
		}
	}
}

func sortedInts(m map[int64]bool) []int64 {
	var out []int64
	for v := range m {
		out = append(out, v)
	}
	for i := range out {
		for j := i; j > 0 && out[j] < out[j-1]; j-- {
			out[j], out[j-1] = out[j-1], out[j]
		}
	}
	return out
}

func init() {
	register("C14", []string{"enumerations"}, func(c *Ctx) {
		enumProperty(c)
		c.explain = append(c.explain, "IsValid, String, GoString, MarshalJSON and Parse of every enumeration are interpreted abstractly with an unknown value (or text); the outcomes are compared with the declared constants.")
	})
}
