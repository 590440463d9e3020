package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C12 and C13: settings.  Options, constructors, getters and Reset are
// interpreted on every valid value of every setting; Reset of an object whose
// whole run-time state is unknown is compared, member by member, with a new
// object that was given the same settings.

type setRun struct {
	*symRun
	typ     string
	opt     *types.Struct // the settings
	optType types.Type    // type of an option
	under   *Term
}

func newSetRun(c *Ctx, typ string) *setRun {
	r := &setRun{symRun: newSymRunOf(c, typ), typ: typ}
	r.real = true
	r.bySig = r.slib
	r.optType = r.e.memberType2("Option")
	sig, ok := r.optType.Underlying().(*types.Signature)
	if ok {
		r.opt = optionStruct(sig)
	}
	if r.opt == nil {
		panic(abort{"missing anchor Option"})
	}
	r.under = mkSym("nn:under", r.fn("New" + typ).Params[0].Type())
	return r
}

func (r *setRun) slib(st *State, c *callInfo) ([]*State, bool) {
	if c.name == "("+libBuffer+".LZ77Options).Equal" {
		a, b := st.resolve(c.args[0]), st.resolve(c.args[1])
		if a == b {
			return done(st, tTrue), true
		}
		if a.op == OStruct && b.op == OStruct && len(a.args) == len(b.args) {
			fields := map[string][2]*Term{}
			for i, f := range shape(a.ty) {
				fields[f.name] = [2]*Term{a.args[i], b.args[i]}
			}
			for n, x := range fields {
				if h, ok := fields["Has"+n]; ok && !strings.HasPrefix(n, "Has") && (h[0] != tTrue || h[1] != tTrue) {
					continue
				}
				if x[0] == x[1] {
					continue
				}
				if isIntTerm(x[0]) && !(x[0].op == OInt && x[1].op == OInt) || !isIntTerm(x[0]) && !((x[0] == tTrue || x[0] == tFalse) && (x[1] == tTrue || x[1] == tFalse)) {
					return nil, false
				}
				return done(st, tFalse), true
			}
			return done(st, tTrue), true
		}
		return nil, false
	}
	return nil, false
}

// enumAll are the values to try for a setting.
func (r *setRun) values(t types.Type) (all, valid []int64) {
	iv := typeIval(t)
	for v := iv.lo; v <= iv.hi; v++ {
		all = append(all, v)
		if r.isValid(t, v) {
			valid = append(valid, v)
		}
	}
	return
}

func (r *setRun) isValid(t types.Type, v int64) bool {
	sel := r.c.L.prog.MethodSets.MethodSet(t).Lookup(nil, "IsValid")
	if sel == nil {
		panic(abort{"no validity test for " + t.String()})
	}
	outs := r.e.call(r.state(), r.c.L.prog.FuncValue(sel.Obj().(*types.Func)), []*Term{mkInt(v)}, nil, nil)
	if len(outs) != 1 || outs[0].ret != tTrue && outs[0].ret != tFalse {
		panic(abort{fmt.Sprintf("IsValid is not decided for %s(%d)", t, v)})
	}
	return outs[0].ret == tTrue
}

// maker is the function that makes the option of a setting.
func (r *setRun) maker(t types.Type) *ssa.Function {
	for _, m := range r.c.L.byPath[modPath].Members {
		f, ok := m.(*ssa.Function)
		if !ok || f.Object() == nil || !f.Object().Exported() || f.Signature.Params().Len() != 1 || f.Signature.Results().Len() != 1 {
			continue
		}
		if types.Identical(f.Signature.Results().At(0).Type(), r.optType) && types.Identical(f.Signature.Params().At(0).Type(), t) {
			return f
		}
	}
	panic(abort{"no option for " + t.String()})
}

func (r *setRun) fpos(f *ssa.Function) string { return r.c.L.posString(f.Pos()) }

// apply applies an option to arbitrary settings and returns the settings before and after.
func (r *setRun) apply(st *State, opt *Term) (outs []*State, before map[string]*Term, obj *Term) {
	sig := r.optType.Underlying().(*types.Signature)
	obj = r.e.allocAt(st, "settings", derefType(sig.Params().At(0).Type()))
	st.mon["$settings"] = obj
	before = map[string]*Term{}
	for i := 0; i < r.opt.NumFields(); i++ {
		f := r.opt.Field(i)
		before[f.Name()] = st.load(mkField(obj, f.Name()), f.Type())
		st.mon["$b"+f.Name()] = before[f.Name()]
	}
	if opt.op != OClosure && opt.op != OFunc {
		return nil, before, obj
	}
	return r.e.call(st, opt.v.(*ssa.Function), []*Term{obj}, opt.args, nil), before, obj
}

// options checks the functions that make options.
func (r *setRun) options() {
	c := r.c
	for i := 0; i < r.opt.NumFields(); i++ {
		f := r.opt.Field(i)
		m := r.maker(f.Type())
		pos := r.fpos(m)
		name := m.Name()
		c.counts["options"]++
		if _, ok := f.Type().Underlying().(*types.Basic); ok {
			all, _ := r.values(f.Type())
			for _, v := range all {
				c.counts["option values"]++
				outs := r.e.call(r.state(), m, []*Term{mkInt(v)}, nil, nil)
				if !r.isValid(f.Type(), v) {
					if !c.decide(len(outs) == 0, "C13.reject", name, pos, "%s accepts the invalid value %d", name, v) {
						break
					}
					continue
				}
				if !c.decide(len(outs) > 0, "C13.accept", name, pos, "%s refuses the valid value %d", name, v) {
					break
				}
				for _, o := range outs {
					r.changes(o, name, pos, f.Name(), func(st *State, x *Term) string {
						if st.proveEq0(tAddK(x, -v)) {
							return ""
						}
						return fmt.Sprintf("%s(%d) sets %s to %v", name, v, f.Name(), x)
					})
				}
			}
			continue
		}
		sl, ok := f.Type().Underlying().(*types.Slice)
		if !ok {
			panic(abort{"a setting of type " + f.Type().String()})
		}
		// slices: nil, and some of every small length
		outs := r.e.call(r.state(), m, []*Term{tNil}, nil, nil)
		c.decide(len(outs) > 0, "C13.accept", name+" nil", pos, "%s refuses nil", name)
		for _, o := range outs {
			r.changes(o, name, pos, f.Name(), func(st *State, x *Term) string {
				if st.truth(tEq(x, tNil)) == 1 {
					return ""
				}
				return fmt.Sprintf("%s(nil) sets %s to %v", name, f.Name(), x)
			})
		}
		if sl.Elem().Underlying() == types.Typ[types.Uint8].Underlying() {
			st := r.state()
			o := r.e.allocAt(st, "given", nil)
			st.havocContents(o, mkSym("content", nil))
			outs := r.e.call(st, m, []*Term{mkSlice(o, tZero, tZero, tZero)}, nil, nil)
			c.decide(len(outs) == 0, "C13.reject", name+" empty", pos, "%s accepts an empty slice that is not nil", name)
		}
		for n := int64(1); n <= 3; n++ {
			st := r.state()
			given, elems := r.slice(st, "given", n, sl.Elem())
			st.mon["$given"] = given
			outs := r.e.call(st, m, []*Term{given}, nil, nil)
			c.decide(len(outs) > 0, "C13.accept", fmt.Sprintf("%s %d", name, n), pos, "%s refuses %d elements", name, n)
			for _, o := range outs {
				r.changes(o, name, pos, f.Name(), func(st *State, x *Term) string {
					if why := r.copied(st, x, given, elems, sl.Elem()); why != "" {
						return fmt.Sprintf("%s: %s %s", name, f.Name(), why)
					}
					return ""
				})
			}
		}
	}
}

// slice makes a slice of unknown elements.
func (r *setRun) slice(st *State, name string, n int64, elem types.Type) (*Term, []*Term) {
	o := r.e.allocAt(st, name, nil)
	var l []*Term
	for i := int64(0); i < n; i++ {
		x := mkSym(fmt.Sprintf("nn:%s%d", name, i), elem)
		st.mon[fmt.Sprintf("$%s%d", name, i)] = x
		st.store(mkIndex(o, mkInt(i)), x, elem)
		l = append(l, x)
	}
	s := mkSlice(o, tZero, mkInt(n), mkInt(n))
	st.mon["$"+name] = s
	return s, l
}

// copied tells why a slice is not a copy.
func (r *setRun) copied(st *State, x, given *Term, elems []*Term, elem types.Type) string {
	x = st.resolve(x)
	if x == tNil {
		return "is nil"
	}
	if x.op != OSlice || st.sliceBase(x).op != OObj {
		return fmt.Sprintf("is not a new slice: %v", x)
	}
	if st.sliceBase(x) == st.sliceBase(given) {
		return "shares its elements"
	}
	if !st.proveEq0(tAddK(st.sliceLen(x), -int64(len(elems)))) {
		return fmt.Sprintf("has length %v instead of %d", st.sliceLen(x), len(elems))
	}
	for i, w := range elems {
		v := st.load(mkIndex(st.sliceBase(x), tAddK(st.sliceOff(x), int64(i))), elem)
		if !r.sameValue(st, v, st, w) {
			return fmt.Sprintf("has the element %d %v", i, v)
		}
	}
	return ""
}

// changes applies an option and checks that it changes one setting.
func (r *setRun) changes(o *State, name, pos, field string, wrong func(st *State, x *Term) string) {
	c := r.c
	opt := o.resolve(o.ret)
	outs, before, obj := r.apply(o, opt)
	if len(outs) == 0 {
		c.fail("C13.apply", name, pos, fmt.Sprintf("the option that %s returns is not applied: %v", name, opt))
		return
	}
	for _, s := range outs {
		for i := 0; i < r.opt.NumFields(); i++ {
			f := r.opt.Field(i)
			v := s.load(mkField(obj, f.Name()), f.Type())
			if f.Name() == field {
				why := wrong(s, v)
				c.decide(why == "", "C13.apply", name, pos, "%s", why)
				continue
			}
			c.decide(v == s.resolve(before[f.Name()]), "C13.others", name+" "+f.Name(), pos, "%s changes %s", name, f.Name())
		}
	}
}

// member finds the member of the object which holds a setting.
func (r *setRun) member(name string, t types.Type) bool {
	s := r.e.memberType2(r.typ).Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name && types.Identical(s.Field(i).Type(), t) {
			return true
		}
	}
	return false
}

// getters checks the methods that report settings.
func (r *setRun) getters() {
	c := r.c
	n := 0
	for i := 0; i < r.opt.NumFields(); i++ {
		f := r.opt.Field(i)
		if !r.member(f.Name(), f.Type()) {
			continue
		}
		var get *ssa.Function
		for _, m := range c.L.methods(r.typ, true) {
			s := m.Signature
			if s.Params().Len() == 0 && s.Results().Len() == 1 && types.Identical(s.Results().At(0).Type(), f.Type()) {
				get = m
			}
		}
		if get == nil {
			c.fail("C13.getter", r.typ+"."+f.Name(), "", fmt.Sprintf("no method of %s reports %s", r.typ, f.Name()))
			continue
		}
		n++
		name, pos := fnName(get), r.fpos(get)
		sl, isSlice := f.Type().Underlying().(*types.Slice)
		if !isSlice {
			st := r.state()
			v := mkSym("setting", f.Type())
			st.mon["$v"] = v
			st.setf(r.obj, f.Name(), v)
			outs := r.e.call(st, get, []*Term{r.obj}, nil, nil)
			c.decide(len(outs) > 0, "C13.getter", name, pos, "%s does not return", name)
			for _, o := range outs {
				c.decide(r.sameValue(o, o.ret, o, v), "C13.getter", name, pos, "%s returns %v instead of the setting %v", name, o.ret, v)
			}
			continue
		}
		for k := int64(0); k <= 3; k++ {
			st := r.state()
			var set *Term = tNil
			var elems []*Term
			if k > 0 {
				set, elems = r.slice(st, "set", k, sl.Elem())
			}
			st.setf(r.obj, f.Name(), set)
			outs := r.e.call(st, get, []*Term{r.obj}, nil, nil)
			c.decide(len(outs) > 0, "C13.getter", name, pos, "%s does not return", name)
			for _, o := range outs {
				if k == 0 {
					c.decide(o.truth(tEq(o.ret, tNil)) == 1 || o.proveEq0(o.sliceLen(o.ret)), "C13.getter", name+" nil", pos, "%s returns %v without a setting", name, o.ret)
					continue
				}
				why := r.copied(o, o.ret, set, elems, sl.Elem())
				c.decide(why == "", "C13.copy", name, pos, "what %s returns %s", name, why)
			}
		}
	}
	c.counts["getters"] += n
	// the underlying stream
	for _, m := range c.L.methods(r.typ, true) {
		s := m.Signature
		if s.Params().Len() != 0 || s.Results().Len() != 1 || !types.Identical(s.Results().At(0).Type(), r.under.ty) {
			continue
		}
		c.counts["getters"]++
		for _, o := range r.build(nil, nil) {
			x := o.ret
			for _, p := range r.e.call(o, m, []*Term{x}, nil, nil) {
				c.decide(r.sameValue(p, p.ret, p, r.under), "C13.getter", fnName(m), r.fpos(m), "%s returns %v instead of the underlying stream", fnName(m), p.ret)
			}
		}
	}
}

func (r *setRun) sameValue(a *State, x *Term, b *State, y *Term) bool {
	if x == nil || y == nil {
		return x == y
	}
	x, y = a.resolve(x), b.resolve(y)
	if x == y {
		return true
	}
	if a == b && isIntTerm(x) && isIntTerm(y) {
		return a.proveEq0(tSub(x, y))
	}
	return false
}

// sameSlice tells whether two slices of known length have the same elements.
func (r *setRun) sameSlice(a *State, x *Term, b *State, y *Term, t types.Type) bool {
	if t == nil || x == nil || y == nil {
		return false
	}
	sl, ok := t.Underlying().(*types.Slice)
	if !ok || x.op != OSlice || y.op != OSlice {
		return false
	}
	n := a.sliceLen(x)
	if n.op != OInt || n != b.sliceLen(y) || n.k > 64 {
		return false
	}
	for i := int64(0); i < n.k; i++ {
		v := a.load(mkIndex(a.sliceBase(x), tAddK(a.sliceOff(x), i)), sl.Elem())
		w := b.load(mkIndex(b.sliceBase(y), tAddK(b.sliceOff(y), i)), sl.Elem())
		if !r.sameValue(a, v, b, w) {
			return false
		}
	}
	return true
}

// choice is the choice of a value for a setting.
type choice struct {
	field string
	v     int64 // of a scalar; for slices: 0 is nil
}

func (r *setRun) fieldType(n string) types.Type {
	for i := 0; i < r.opt.NumFields(); i++ {
		if r.opt.Field(i).Name() == n {
			return r.opt.Field(i).Type()
		}
	}
	panic(abort{"no setting " + n})
}

// make adds options to a state.
func (r *setRun) make(st *State, tag string, cs []choice) (*State, []*Term) {
	var opts []*Term
	for i, x := range cs {
		t := r.fieldType(x.field)
		var arg *Term
		if sl, ok := t.Underlying().(*types.Slice); ok {
			arg = tNil
			if x.v > 0 {
				arg, _ = r.slice(st, fmt.Sprintf("%s%d.", tag, i), x.v, sl.Elem())
			}
		} else {
			arg = mkInt(x.v)
		}
		outs := r.e.call(st, r.maker(t), []*Term{arg}, nil, nil)
		if len(outs) != 1 {
			panic(abort{fmt.Sprintf("%d outcomes of %s", len(outs), r.maker(t))})
		}
		st = outs[0]
		k := fmt.Sprintf("$opt%s%d", tag, i)
		st.mon[k] = st.resolve(st.ret)
	}
	for i := range cs {
		opts = append(opts, st.mon[fmt.Sprintf("$opt%s%d", tag, i)])
	}
	return st, opts
}

func (r *setRun) optSlice(st *State, tag string, opts []*Term) *Term {
	if len(opts) == 0 {
		return tNil
	}
	o := r.e.allocAt(st, "options"+tag, nil)
	for i, x := range opts {
		st.storeLeaf(mkIndex(o, mkInt(int64(i))), x)
	}
	return mkSlice(o, tZero, mkInt(int64(len(opts))), mkInt(int64(len(opts))))
}

// build makes a new object with the settings a, then b.  The options exist
// in the state that is returned.
func (r *setRun) build(a, b []choice) []*State {
	st, oa := r.make(r.state(), "a", a)
	st, ob := r.make(st, "b", b)
	return r.construct(st, append(append([]*Term{}, oa...), ob...))
}

func (r *setRun) construct(st *State, opts []*Term) []*State {
	return r.e.call(st, r.fn("New"+r.typ), []*Term{r.under, r.optSlice(st, "n", opts)}, nil, nil)
}

// defaults are the documented values of settings that are not given.
func (r *setRun) defaults(x choice) int64 {
	k := r.c.L.enumConsts()
	switch x.field {
	case "format":
		if r.typ == "Writer" && x.v == k["DefaultFormat"] {
			return k["ZlibFormat"]
		}
	case "clevel":
		if r.typ == "Writer" && x.v == k["DefaultCompression"] {
			return 6
		}
	case "mlevel":
		if x.v == k["DefaultMemory"] {
			return k["FastestMemory"]
		}
	case "wbits":
		if x.v == k["DefaultWindowBits"] {
			return k["MaxWindowBits"]
		}
	}
	return x.v
}

// inEffect checks the settings of an object.
func (r *setRun) inEffect(st *State, obj *Term, rule, what, pos string, given []choice) {
	k := r.c.L.enumConsts()
	want := map[string]int64{
		"format": k["DefaultFormat"], "method": k["DefaultMethod"], "strategy": k["DefaultStrategy"],
		"clevel": k["DefaultCompression"], "mlevel": k["DefaultMemory"], "wbits": k["DefaultWindowBits"],
	}
	for _, g := range given {
		want[g.field] = g.v
	}
	for i := 0; i < r.opt.NumFields(); i++ {
		f := r.opt.Field(i)
		if !r.member(f.Name(), f.Type()) {
			continue
		}
		v := st.load(mkField(obj, f.Name()), f.Type())
		if _, ok := f.Type().Underlying().(*types.Slice); ok {
			n := want[f.Name()]
			if n == 0 {
				r.c.decide(st.truth(tEq(v, tNil)) == 1, rule, r.typ+" "+f.Name(), pos, "%s: %s is %v although it was not given", what, f.Name(), v)
			} else {
				r.c.decide(v != tNil && st.proveEq0(tAddK(st.sliceLen(v), -n)), rule, r.typ+" "+f.Name(), pos, "%s: %s is %v", what, f.Name(), v)
			}
			continue
		}
		w := r.defaults(choice{f.Name(), want[f.Name()]})
		r.c.decide(st.proveEq0(tAddK(v, -w)), rule, r.typ+" "+f.Name(), pos, "%s: %s is %v instead of %d", what, f.Name(), v, w)
	}
}

// lists of choices: nothing, every value of every setting, and some pairs
func (r *setRun) choices() [][]choice {
	var out [][]choice
	out = append(out, nil)
	for i := 0; i < r.opt.NumFields(); i++ {
		f := r.opt.Field(i)
		if _, ok := f.Type().Underlying().(*types.Slice); ok {
			out = append(out, []choice{{f.Name(), 0}}, []choice{{f.Name(), 1}}, []choice{{f.Name(), 2}})
			continue
		}
		_, valid := r.values(f.Type())
		for _, v := range valid {
			out = append(out, []choice{{f.Name(), v}})
		}
	}
	k := r.c.L.enumConsts()
	out = append(out, []choice{{"strategy", k["HuffmanOnlyStrategy"]}, {"clevel", 0}})
	out = append(out, []choice{{"wbits", 9}, {"mlevel", 2}, {"format", k["GZIPFormat"]}})
	return out
}

func (r *setRun) bases() [][]choice {
	k := r.c.L.enumConsts()
	all := []choice{{"format", k["GZIPFormat"]}, {"strategy", k["HuffmanRLEStrategy"]}, {"clevel", 3}, {"mlevel", 4}, {"wbits", 12}, {"dict", 3}, {"tracers", 1}}
	return [][]choice{nil, all, {{"strategy", k["FixedStrategy"]}, {"clevel", 0}, {"wbits", 10}, {"mlevel", 1}}}
}

func showChoices(cs []choice) string {
	var l []string
	for _, c := range cs {
		l = append(l, fmt.Sprintf("%s=%d", c.field, c.v))
	}
	if len(l) == 0 {
		return "no options"
	}
	return strings.Join(l, ",")
}

func (r *setRun) constructed() {
	f := r.fn("New" + r.typ)
	for _, a := range r.bases() {
		for _, b := range r.choices() {
			r.c.counts["objects constructed"]++
			what := fmt.Sprintf("New%s with %s and %s", r.typ, showChoices(a), showChoices(b))
			outs := r.build(a, b)
			r.c.decide(len(outs) > 0, "C13.new", f.Name(), r.fpos(f), "%s does not return", what)
			for _, o := range outs {
				r.inEffect(o, o.ret, "C13.new", what, r.fpos(f), append(append([]choice{}, a...), b...))
			}
		}
	}
}

// leaf is a part of an object.
type leaf struct {
	path string
	addr *Term
	ty   types.Type
	top  string
}

func (r *setRun) leaves(obj *Term, t types.Type, path, top string, out *[]leaf) {
	switch u := t.Underlying().(type) {
	case *types.Struct:
		for _, c := range shape(t) {
			tp := top
			if tp == "" {
				tp = c.name
			}
			a := mkField(obj, c.name)
			if c.ty == nil {
				*out = append(*out, leaf{path + "." + c.name, a, nil, tp})
				continue
			}
			r.leaves(a, c.ty, path+"."+c.name, tp, out)
		}
		return
	case *types.Array:
		if u.Len() <= 64 {
			for i := int64(0); i < u.Len(); i++ {
				r.leaves(mkIndex(obj, mkInt(i)), u.Elem(), fmt.Sprintf("%s[%d]", path, i), top, out)
			}
			return
		}
	}
	*out = append(*out, leaf{path, obj, t, top})
}

// runtime lists the members of the object that operations other than the
// constructor and Reset can change.
func (r *setRun) runtime() map[string]bool {
	out := map[string]bool{}
	T := r.e.memberType2(r.typ)
	setup := map[*ssa.Function]bool{r.fn("New" + r.typ): true, r.fn("(*" + r.typ + ").Reset"): true}
	// functions which only these use
	users := map[*ssa.Function]map[*ssa.Function]bool{}
	fns := r.c.L.rootFns()
	for fn := range fns {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				for _, op := range in.Operands(nil) {
					if f, ok := (*op).(*ssa.Function); ok {
						if users[f] == nil {
							users[f] = map[*ssa.Function]bool{}
						}
						users[f][fn] = true
					}
				}
			}
		}
	}
	for again := true; again; {
		again = false
		for fn := range fns {
			if setup[fn] || len(users[fn]) == 0 || fn.Object() != nil && fn.Object().Exported() {
				continue
			}
			all := true
			for u := range users[fn] {
				all = all && setup[u]
			}
			if all {
				setup[fn] = true
				again = true
			}
		}
	}
	for fn := range fns {
		if fn.Pkg == nil || !inModule(fn.Pkg.Pkg) || setup[fn] {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !types.Identical(derefType(fa.X.Type()), T) {
					continue
				}
				name := T.Underlying().(*types.Struct).Field(fa.Field).Name()
				if !onlyLoaded(fa) {
					out[name] = true
				}
			}
		}
	}
	return out
}

// onlyLoaded tells whether nothing is stored below an address.
func onlyLoaded(v ssa.Value) bool {
	for _, ref := range *v.Referrers() {
		switch x := ref.(type) {
		case *ssa.UnOp, *ssa.DebugRef:
			continue
		case *ssa.FieldAddr:
			if onlyLoaded(x) {
				continue
			}
		case *ssa.IndexAddr:
			if x.X == v && onlyLoaded(x) {
				continue
			}
		}
		return false
	}
	return true
}

// rootFns are the functions of the module.
func (L *Loaded) rootFns() map[*ssa.Function]bool {
	out := map[*ssa.Function]bool{}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		if f == nil || out[f] {
			return
		}
		out[f] = true
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	sp := L.byPath[modPath]
	for _, m := range sp.Members {
		switch m := m.(type) {
		case *ssa.Function:
			add(m)
		case *ssa.Type:
			for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
				ms := L.prog.MethodSets.MethodSet(t)
				for i := 0; i < ms.Len(); i++ {
					if f, ok := ms.At(i).Obj().(*types.Func); ok {
						add(L.prog.FuncValue(f))
					}
				}
			}
		}
	}
	return out
}

func (r *setRun) skip(l leaf) bool {
	for _, s := range []string{".#held", ".#n", ".#rd", ".#gen"} {
		if strings.HasSuffix(l.path, s) && !strings.Contains(l.path, "hd") {
			return true
		}
	}
	return strings.Contains(l.path, "noCopy") || l.ty != nil && strings.HasSuffix(l.ty.String(), "sync.Cond")
}

// used makes everything unknown that may have changed since construction.
func (r *setRun) used(st *State, obj *Term, ls []leaf, rt map[string]bool) {
	for _, l := range ls {
		if !rt[l.top] || r.skip(l) || strings.Contains(l.path, ".#opts") || strings.HasSuffix(l.path, ".#nbits") {
			continue
		}
		v := mkSym("used"+l.path, l.ty)
		st.storeLeaf(l.addr, v)
		r.c.counts["unknown members"]++
	}
}

func (r *setRun) reset() {
	c := r.c
	rt := r.runtime()
	r.e.syncHook = func(e *Eng, st *State, ci *callInfo, kind string, obj *Term) []*State {
		if self := st.mon["$self"]; self != nil && kind == "wg.wait" {
			// the background decoder ends
			if st.mon["$waits"] == nil {
				var ls []leaf
				r.leaves(self, r.e.memberType2(r.typ), "", "", &ls)
				r.used(st, self, ls, rt)
				st.setf(self, "readThreadWasStarted", tTrue)
				st.setf(self, "readThreadWasStopped", tTrue)
			}
		}
		return done(st, nil)
	}
	f := r.fn("(*" + r.typ + ").Reset")
	pos := r.fpos(f)
	T := r.e.memberType2(r.typ)
	stale := map[string]string{}
	for _, a := range r.bases() {
		for _, b := range r.choices() {
			what := fmt.Sprintf("Reset with %s of a %s with %s", showChoices(b), r.typ, showChoices(a))
			st, oa := r.make(r.state(), "a", a)
			st, ob := r.make(st, "b", b)
			fresh := r.construct(st.clone(), append(append([]*Term{}, oa...), ob...))
			old := r.construct(st, oa)
			if len(fresh) != 1 || len(old) != 1 {
				panic(abort{"the constructor has several outcomes"})
			}
			n := fresh[0]
			var ln []leaf
			r.leaves(n.ret, T, "", "", &ln)
			for _, life := range r.lives() {
				u := old[0].clone()
				obj := u.ret
				var ls []leaf
				r.leaves(obj, T, "", "", &ls)
				r.used(u, obj, ls, rt)
				life.f(u, obj)
				u.mon["$self"] = obj
				outs := r.e.call(u, f, []*Term{obj, r.under, r.optSlice(u, "r", ob)}, nil, nil)
				if life.may && len(outs) == 0 {
					continue
				}
				c.counts["resets"]++
				c.decide(len(outs) > 0, "C12.reset", r.typ+" "+life.name, pos, "%s (%s) does not return", what, life.name)
				for _, o := range outs {
					obj := o.mon["$self"]
					r.inEffect(o, obj, "C13.reset", what, pos, append(append([]choice{}, a...), b...))
					var lo []leaf
					r.leaves(obj, T, "", "", &lo)
					for i, l := range lo {
						if r.skip(l) {
							continue
						}
						v, w := o.load1(l), n.load1(ln[i])
						if r.sameValue(o, v, n, w) || r.sameSlice(o, v, n, w, l.ty) {
							continue
						}
						top := l.top
						if strings.HasSuffix(l.path, ".#nbits") || strings.Contains(l.path, ".#opts") {
							top += " size"
						}
						if why := stale[top]; why == "" {
							stale[top] = fmt.Sprintf("after %s (%s), %s%s is %v; a new %s has %v", what, life.name, r.typ, l.path, v, r.typ, w)
						}
					}
				}
			}
		}
	}
	var names []string
	s := T.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		names = append(names, s.Field(i).Name(), s.Field(i).Name()+" size")
	}
	sort.Strings(names)
	for _, top := range names {
		c.counts["members compared"]++
		why, bad := stale[top]
		if bad && r.typ == "Writer" && top == "header" {
			// documented to carry over
			continue
		}
		if bad && r.scratch(top) {
			c.ok("C12.scratch", r.typ+"."+top)
			continue
		}
		if bad && !strings.HasSuffix(top, " size") {
			at := r.earlyRead(top)
			if (&memberUse{r: r, T: T, name: top}).hash() && r.typ == "Writer" {
				// every header starts them afresh: C12.hash, and C07 puts
				// a header before everything else
				at = ""
			}
			if at == "" {
				c.ok("C12.overwritten", r.typ+"."+top)
				continue
			}
			why += "; it is read at " + at
		}
		c.decide(!bad, "C12.member", r.typ+"."+top, pos, "%s", why)
	}
}

func (s *State) load1(l leaf) *Term {
	if l.ty == nil {
		v, _ := s.cell(l.addr)
		if v == nil {
			return s.loadLeaf(l.addr, nil)
		}
		return v
	}
	return s.load(l.addr, l.ty)
}

type life struct {
	name string
	may  bool // Reset may refuse
	f    func(st *State, obj *Term)
}

// lives are the situations in which Reset is called.
func (r *setRun) lives() []life {
	if r.typ == "Writer" {
		var l []life
		k := r.c.L.enumConsts()
		for _, n := range sortedStrings2(k) {
			if !strings.HasSuffix(n, "WriterState") {
				continue
			}
			v := k[n]
			n := n
			l = append(l, life{n, n == "openStreamWriterState" || n == "closingStreamWriterState", func(st *State, obj *Term) { st.setf(obj, "state", mkInt(v)) }})
		}
		return l
	}
	set := func(started, stopped *Term) func(st *State, obj *Term) {
		return func(st *State, obj *Term) {
			st.setf(obj, "readThreadWasStarted", started)
			st.setf(obj, "readThreadWasStopped", stopped)
		}
	}
	return []life{
		{"not started", false, set(tFalse, tFalse)},
		{"ended", false, set(tTrue, tTrue)},
		{"running", false, set(tTrue, tFalse)},
	}
}

func sortedStrings2(m map[string]int64) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// earlyRead finds a place where an operation may read a member before it
// has written it.
func (r *setRun) earlyRead(member string) string {
	T := r.e.memberType2(r.typ)
	m := &memberUse{r: r, T: T, name: member, memo: map[*ssa.Function]*useSummary{}}
	var fns []*ssa.Function
	for _, f := range r.c.L.methods(r.typ, true) {
		if f.Name() != "Reset" {
			fns = append(fns, f)
		}
	}
	for f := range r.c.L.rootFns() {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if g, ok := in.(*ssa.Go); ok {
					if callee := g.Call.StaticCallee(); callee != nil {
						fns = append(fns, callee)
					}
				}
			}
		}
	}
	sort.Slice(fns, func(i, j int) bool { return fns[i].Pos() < fns[j].Pos() })
	for _, f := range fns {
		r.c.counts["operations searched for early reads"]++
		if s := m.summary(f); s.early != "" {
			return s.early
		}
	}
	return ""
}

type useSummary struct {
	early    string // the first read which no write precedes
	must     bool   // written when the function returns
	mustTrue bool   // written when the function does not report failure
}

type memberUse struct {
	r    *setRun
	T    types.Type
	name string
	memo map[*ssa.Function]*useSummary
}

func (m *memberUse) summary(fn *ssa.Function) *useSummary {
	if s := m.memo[fn]; s != nil {
		return s
	}
	s := &useSummary{}
	m.memo[fn] = s
	if len(fn.Blocks) == 0 {
		return s
	}
	in := map[*ssa.BasicBlock]bool{}
	for _, b := range fn.Blocks {
		in[b] = b != fn.Blocks[0]
	}
	for again := true; again; {
		again = false
		for _, b := range fn.Blocks {
			w := m.block(b, in[b], nil)
			for i, t := range b.Succs {
				if in[t] && !w && !m.known(b, i) {
					in[t] = false
					again = true
				}
			}
		}
	}
	must, mustTrue := true, true
	for _, b := range fn.Blocks {
		w := m.block(b, in[b], s)
		if ret, ok := b.Instrs[len(b.Instrs)-1].(*ssa.Return); ok && !w {
			must = false
			fails := false
			if n := len(ret.Results); n > 0 {
				if k, ok := ret.Results[n-1].(*ssa.Const); ok && k.Value != nil && k.Value.Kind() == constant.Bool && !constant.BoolVal(k.Value) {
					fails = true
				}
			}
			if !fails {
				mustTrue = false
			}
		}
	}
	s.must, s.mustTrue = must, mustTrue
	return s
}

// known tells whether the member is written if a branch is taken, because
// the branch shows that a function has succeeded.
func (m *memberUse) known(b *ssa.BasicBlock, succ int) bool {
	br, ok := b.Instrs[len(b.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	v, want := br.Cond, 0
	for {
		if u, ok := v.(*ssa.UnOp); ok && u.Op == token.NOT {
			v, want = u.X, 1-want
			continue
		}
		break
	}
	if succ != want {
		return false
	}
	if x, ok := v.(*ssa.Extract); ok {
		if t, ok := x.Tuple.Type().(*types.Tuple); !ok || x.Index != t.Len()-1 {
			return false
		}
		v = x.Tuple
	}
	call, ok := v.(*ssa.Call)
	if !ok {
		return false
	}
	callee := call.Call.StaticCallee()
	if callee == nil || callee.Pkg == nil || !inModule(callee.Pkg.Pkg) || len(callee.Blocks) == 0 {
		return false
	}
	return m.summary(callee).mustTrue
}

// use tells how an instruction uses an address of the member.
func (m *memberUse) addr(v ssa.Value) bool {
	fa, ok := v.(*ssa.FieldAddr)
	if !ok || !types.Identical(derefType(fa.X.Type()), m.T) {
		return false
	}
	return m.T.Underlying().(*types.Struct).Field(fa.Field).Name() == m.name
}

// hash tells whether the member is a checksum.
func (m *memberUse) hash() bool {
	s := m.T.Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == m.name {
			return strings.HasSuffix(typeName(s.Field(i).Type()), "32.Hash")
		}
	}
	return false
}

// scratch tells whether the member is an array that is only used through
// slices which functions fill.
func (r *setRun) scratch(member string) bool {
	T := r.e.memberType2(r.typ)
	m := &memberUse{r: r, T: T, name: member}
	n := 0
	for fn := range r.c.L.rootFns() {
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				fa, ok := in.(*ssa.FieldAddr)
				if !ok || !m.addr(fa) {
					continue
				}
				if _, ok := derefType(fa.Type()).Underlying().(*types.Array); !ok {
					return false
				}
				for _, ref := range *fa.Referrers() {
					sl, ok := ref.(*ssa.Slice)
					if !ok {
						return false
					}
					for _, ref := range *sl.Referrers() {
						if c, ok := ref.(*ssa.Call); !ok || c.Call.StaticCallee() == nil {
							return false
						}
						n++
					}
				}
			}
		}
	}
	return n > 0
}

// below tells whether a value is an address inside of the member.
func (m *memberUse) below(v ssa.Value) bool {
	switch x := v.(type) {
	case *ssa.FieldAddr:
		return m.addr(v) || m.below(x.X)
	case *ssa.IndexAddr:
		return m.below(x.X)
	}
	return false
}

func (m *memberUse) block(b *ssa.BasicBlock, written bool, s *useSummary) bool {
	read := func(in ssa.Instruction, why string) {
		if !written && s != nil && s.early == "" {
			s.early = m.r.c.L.posString(in.Pos()) + " (" + fnName(in.Parent()) + ")" + why
		}
	}
	for _, in := range b.Instrs {
		switch x := in.(type) {
		case *ssa.FieldAddr, *ssa.IndexAddr, *ssa.DebugRef:
			continue
		case *ssa.UnOp:
			if m.below(x.X) {
				read(in, "")
			}
			continue
		case *ssa.Store:
			if m.addr(x.Addr) {
				written = true
			}
			if m.below(x.Val) {
				read(in, "")
			}
			continue
		case *ssa.Go:
			continue
		case ssa.CallInstruction:
			cc := x.Common()
			callee := cc.StaticCallee()
			hit := false
			for i, a := range cc.Args {
				if !m.below(a) {
					continue
				}
				hit = true
				if i == 0 && callee != nil && m.addr(a) && (callee.Name() == "Init" || callee.Name() == "Reset" || callee.Name() == "Clear") {
					written = true
				} else if i == 0 && callee != nil && m.hash() && callee.Name() == "Write" {
					// without effect on anything else
					continue
				} else {
					read(in, "")
				}
			}
			if !hit && callee != nil && callee.Pkg != nil && inModule(callee.Pkg.Pkg) {
				t := m.summary(callee)
				if t.early != "" && !written && s != nil && s.early == "" {
					s.early = t.early
				}
				written = written || t.must
			}
			continue
		}
		for _, op := range in.Operands(nil) {
			if *op != nil && m.below(*op) {
				read(in, "")
			}
		}
	}
	return written
}

func init() {
	for _, typ := range []string{"Reader", "Writer"} {
		typ := typ
		addPart("C12", "reset "+typ, func(c *Ctx) {
			c.scope = "C12."
			r := newSetRun(c, typ)
			r.reset()
			c.floor("resets", 350)
			c.floor("members compared", 20)
			r.finish()
		})
		addPart("C13", "settings "+typ, func(c *Ctx) {
			c.scope = "C13."
			r := newSetRun(c, typ)
			r.getters()
			r.constructed()
			r.reset()
			if typ == "Reader" {
				r.options()
				c.floor("options", 8)
				c.floor("option values", 1500)
			}
			c.floor("objects constructed", 120)
			c.floor("getters", 6)
			c.floor("resets", 350)
			r.finish()
		})
	}
}
