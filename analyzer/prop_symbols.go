package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C01: the symbols of RFC 1951.  The functions which encode and decode a
// token are interpreted once for every pair of symbol classes, with unknown
// extra bits, and the symbols, numbers of extra bits and extra-bit values are
// compared with the tables of the RFC.

type symClass struct {
	sym, extra, lo, hi int64
}

// lengthClasses and distClasses are the tables of RFC 1951, section 3.2.5.
var lengthClasses = func() []symClass {
	var out []symClass
	base := int64(3)
	for s := int64(257); s <= 284; s++ {
		x := int64(0)
		if s >= 265 {
			x = (s - 261) / 4
		}
		out = append(out, symClass{s, x, base, base + 1<<uint(x) - 1})
		base += 1 << uint(x)
	}
	out[len(out)-1].hi = 257
	return append(out, symClass{285, 0, 258, 258})
}()

var distClasses = func() []symClass {
	var out []symClass
	base := int64(1)
	for s := int64(0); s < 30; s++ {
		x := int64(0)
		if s >= 4 {
			x = s/2 - 1
		}
		out = append(out, symClass{s, x, base, base + 1<<uint(x) - 1})
		base += 1 << uint(x)
	}
	return out
}()

// codeOrder is the order in which the sizes of the code length code are sent.
var codeOrder = []int64{16, 17, 18, 0, 8, 7, 9, 6, 10, 5, 11, 4, 12, 3, 13, 2, 14, 1, 15}

type symRun struct {
	c      *Ctx
	e      *Eng
	base   *State
	obj    *Term
	script func(st *State, i int64) int64 // symbols that are read; -1: stop
	known  func(i int64) (int64, bool)    // values of bits that are given
	syms   func(st *State, i int64) *Term // unknown symbols that are read

	knownByte func(pos *Term) (int64, bool) // values of bytes that are given
	result    func(st *State, what string, args ...*Term)
	hooks     map[string]func(st *State, c *callInfo) ([]*State, bool)
	stopAt    map[string]bool
	real      bool // the input functions are interpreted
	bySig     func(st *State, c *callInfo) ([]*State, bool)

	evBegin, evTrees, evEnd int64
}

func (r *symRun) fn(n string) *ssa.Function {
	f := r.c.L.fn(modPath, n)
	if f == nil {
		panic(abort{"missing anchor " + n})
	}
	return f
}

// out appends an observation.
func push(st *State, x *Term) {
	var as []*Term
	if t := st.mon["$out"]; t != nil {
		as = t.args
	}
	st.mon["$out"] = mkTuple(append(append([]*Term{}, as...), x)...)
}

func outList(st *State) []*Term {
	if t := st.mon["$out"]; t != nil {
		return t.args
	}
	return nil
}

func obs(kind string, args ...*Term) *Term { return mkApp("obs:"+kind, nil, args...) }

func (r *symRun) call(e *Eng, st *State, c *callInfo) ([]*State, bool) {
	n := c.fn.Name()
	recv := ""
	if s := c.fn.Signature.Recv(); s != nil {
		recv = typeName(derefIf(s.Type()))
	}
	if r.bySig != nil {
		if outs, ok := r.bySig(st, c); ok {
			return outs, true
		}
	}
	if h := r.hooks[n]; h != nil {
		if outs, ok := h(st, c); ok {
			return outs, true
		}
	}
	if recv == modPath+".Reader" && !r.real {
		switch n {
		case "inputBitsFill":
			if c.args[1].isConst() {
				if to := r.e.monInt(st, "$pos") + c.args[1].k; to > r.e.monInt(st, "$fill") {
					setInt(st, "$fill", to)
				}
			}
			return done(st, tTrue), true
		case "inputBitsRead", "inputBitsPeek":
			v := r.bits(st, c.args[1], c.sig.Results().At(0).Type())
			if v == nil {
				return nil, true
			}
			if n == "inputBitsRead" {
				setInt(st, "$pos", r.e.monInt(st, "$pos")+c.args[1].k)
			}
			return done(st, v), true
		case "inputBitsCommit":
			if c.args[1].isConst() {
				setInt(st, "$pos", r.e.monInt(st, "$pos")+c.args[1].k)
			}
			return done(st, nil), true
		case "readSymbol":
			i := r.e.monInt(st, "$sp")
			setInt(st, "$sp", i+1)
			st.mon["$dec"] = c.args[1]
			if r.syms != nil {
				if t := r.syms(st, i); t != nil {
					return done(st, mkTuple(t, tTrue)), true
				}
			}
			s := int64(-1)
			if r.script != nil {
				s = r.script(st, i)
			}
			if s < 0 {
				r.result(st, "stopped")
				return nil, true
			}
			return done(st, mkTuple(mkInt(s), tTrue)), true
		case "corruptf":
			r.result(st, "corrupt")
			return nil, true
		case "propagateError":
			return nil, true
		case "sendEvent":
			if r.stopAt["event"] {
				r.result(st, "event", c.args[1])
				return nil, true
			}
			return done(st, nil), true
		case "decodeBufferWriteByte":
			r.result(st, "byte", c.args[1])
			return nil, true
		case "decodeBufferWrite":
			r.result(st, "write", c.args[1])
			return nil, true
		}
	}
	if v := byteOrder(st, c.name, c.fn.Name(), c.args); v != nil {
		return done(st, v), true
	}
	if strings.HasSuffix(c.name, "Window).LookupSlice") || strings.HasSuffix(c.name, "Window).LookupByte") {
		d, l := c.args[1], tOne
		if len(c.args) > 2 {
			l = c.args[2]
		}
		r.result(st, "match", d, l)
		return nil, true
	}
	switch c.name {
	case decT + "Init":
		r.c.counts["decoder tables"]++
		k := r.e.monInt(st, "$ini")
		setInt(st, "$ini", k+1)
		st.mon[fmt.Sprintf("$tab%d", k)] = st.snapshot(c.args[1])
		st.mon[fmt.Sprintf("$tabof%d", k)] = c.args[0]
		return done(st, tNil), true
	case encV + "Encode", encT + "Encode":
		src := st.vcomp(c.args[0], nil, "#src", nil)
		sz := mkApp("codesize", tyByte, src, c.args[1])
		st.assume(tLE0(tAddK(sz, -15)))
		return done(st, codeStruct(c.resultType(), sz, mkApp("codebits", tyU32, src, c.args[1]))), true
	}
	return nil, false
}

func derefIf(t types.Type) types.Type {
	if p, ok := t.Underlying().(*types.Pointer); ok {
		return p.Elem()
	}
	return t
}

// bits is the value of the next n bits of the input, as a sum of single bits.
func (r *symRun) bits(st *State, n *Term, t types.Type) *Term {
	if !n.isConst() {
		r.e.undecided(st, nil, "an unknown number of bits is read")
		return nil
	}
	return r.field(st, r.e.monInt(st, "$pos"), n.k)
}

func (r *symRun) field(st *State, pos, n int64) *Term {
	v := tZero
	for i := int64(0); i < n; i++ {
		v = tAdd(v, tScale(r.bit(st, pos+i), 1<<uint(i)))
	}
	return v
}

func (r *symRun) bit(st *State, i int64) *Term {
	if r.known != nil {
		if v, ok := r.known(i); ok {
			return mkInt(v)
		}
	}
	b := mkApp("bit", tyByte, mkInt(i))
	st.assume(tLE0(tAddK(b, -1)))
	return b
}

// invoke observes what is written through the bit writer interface.
func (r *symRun) invoke(e *Eng, st *State, c *callInfo) ([]*State, bool) {
	if c.recv == nil {
		return nil, false
	}
	if v := byteOrder(st, c.recv.String(), c.cc.Method.Name(), c.args); v != nil {
		return done(st, v), true
	}
	if !strings.Contains(c.recv.String(), "nn:bw") {
		return nil, false
	}
	return r.written(st, c.cc.Method.Name(), c.args)
}

func (r *symRun) written(st *State, method string, args []*Term) ([]*State, bool) {
	switch method {
	case "outputBitsWriteHC":
		t := args[0]
		push(st, obs("code", st.vcomp(t, nil, "Bits", tyU32)))
		return done(st, tTrue), true
	case "outputBitsWrite":
		if args[0].op == OApp && args[0].s == "codesize" {
			push(st, obs("code", args[1]))
		} else {
			push(st, obs("bits", args[0], args[1]))
		}
		return done(st, tTrue), true
	case "outputBitsFlush":
		push(st, obs("align"))
		return done(st, tTrue), true
	case "outputBufferWriteU16", "outputBufferWriteU32":
		push(st, obs("int"+method[len(method)-2:], args...))
		return done(st, tTrue), true
	case "outputBufferWrite":
		push(st, obs("data", args[0]))
		return done(st, tTrue), true
	case "sendEvent":
		push(st, obs("event", args[0]))
		return done(st, nil), true
	}
	return nil, false
}

func newSymRun(c *Ctx) *symRun { return newSymRunOf(c, "Reader") }

func newSymRunOf(c *Ctx, typ string) *symRun {
	e := newEng(c.L)
	e.verbose = c.verbose
	e.split, e.concrete = true, true
	e.maxKeys = 3000
	r := &symRun{c: c, e: e}
	r.base = c.L.globalsState(func(s string) { panic(abort{s}) })
	lazyHook = e.defaultLazy
	e.h.Call = r.call
	e.h.Invoke = r.invoke
	e.h.Panic = func(st *State, at ssa.Instruction, what string) {}
	e.h.Oblig = func(st *State, at ssa.Instruction, kind string, cond *Term, what string) {}
	r.result = func(*State, string, ...*Term) {}
	if sp := c.L.byPath[modPath]; sp != nil {
		if m, ok := sp.Members[typ].(*ssa.Type); ok {
			r.obj = e.allocAt(r.base, strings.ToLower(typ), m.Type())
		}
	}
	if r.obj == nil {
		panic(abort{"missing anchor " + typ})
	}
	r.base.mon["$obj"] = r.obj
	k := c.L.enumConsts()
	r.evBegin, r.evTrees, r.evEnd = k["BlockBeginEvent"], k["BlockTreesEvent"], k["BlockEndEvent"]
	return r
}

func (r *symRun) state() *State {
	st := r.base.clone()
	for _, k := range []string{"$pos", "$sp", "$ini", "$fill", "$tree"} {
		setInt(st, k, 0)
	}
	return st
}

// within makes an unknown value of an interval.
func within(st *State, mon string, lo, hi int64, t types.Type) *Term {
	if lo == hi {
		st.mon[mon] = mkInt(lo)
		return st.mon[mon]
	}
	st.mon[mon] = mkSym(mon[1:], t)
	st.assume(tLE0(tSub(mkInt(lo), st.mon[mon])))
	st.assume(tLE0(tAddK(st.mon[mon], -hi)))
	return st.mon[mon]
}

func showObs(st *State) string {
	var s []string
	for _, o := range outList(st) {
		s = append(s, strings.TrimPrefix(o.String(), "obs:"))
	}
	t := strings.Join(s, " ")
	if len(t) > 300 {
		t = t[:300]
	}
	return t
}

// codeIs tells whether an observation is the code of a symbol.
func codeIs(st *State, o *Term, coder *Term, sym int64) bool {
	if o.s != "obs:code" {
		return false
	}
	b := o.args[0]
	return b.op == OApp && b.s == "codebits" && b.args[0] == coder && st.proveEq0(tAddK(b.args[1], -sym))
}

// bitsAre tells whether an observation is a bit field of a given value.
func bitsAre(st *State, o *Term, n int64, v *Term) bool {
	return o.s == "obs:bits" && st.proveEq0(tAddK(o.args[0], -n)) && st.proveEq0(tSub(o.args[1], v))
}

// encodeToken runs the encoder of a token and returns its outcomes.
func (r *symRun) encode(st *State, enc string, tok *Term) []*State {
	f := r.fn(enc)
	args := []*Term{tok, mkSym("nn:bw", f.Params[1].Type())}
	for i := 2; i < len(f.Params); i++ {
		o := r.e.allocAt(st, fmt.Sprintf("enc%d", i), derefType(f.Params[i].Type()))
		st.setf(o, "#src", coder(i))
		st.setf(o, "#n", mkInt(320))
		args = append(args, o)
	}
	return r.e.call(st, f, args, nil, nil)
}

func coder(i int) *Term { return mkApp(fmt.Sprintf("coder%d", i), nil) }

// matches: the observations are exactly those of the classes.
func encodedAs(o *State, x, d *Term, lc, dc symClass) bool {
	l := outList(o)
	take := func() *Term {
		if len(l) == 0 {
			return obs("none")
		}
		t := l[0]
		l = l[1:]
		return t
	}
	if !codeIs(o, take(), coder(2), lc.sym) {
		return false
	}
	if lc.extra > 0 && !bitsAre(o, take(), lc.extra, tAddK(x, -lc.lo)) {
		return false
	}
	if !codeIs(o, take(), coder(3), dc.sym) {
		return false
	}
	if dc.extra > 0 && !bitsAre(o, take(), dc.extra, tAddK(d, -dc.lo)) {
		return false
	}
	return len(l) == 0
}

func (r *symRun) encodeCopies() {
	c := r.c
	mk := r.fn("makeCopyToken")
	try := func(lc, dc symClass, record bool) bool {
		st := r.state()
		x := within(st, "$x", lc.lo, lc.hi, mk.Params[0].Type())
		d := within(st, "$d", dc.lo, dc.hi, mk.Params[1].Type())
		n := 0
		for _, t := range r.e.call(st, mk, []*Term{x, d}, nil, nil) {
			for _, o := range r.encode(t, "(token).encodeLLD", t.ret) {
				n++
				if !encodedAs(o, o.mon["$x"], o.mon["$d"], lc, dc) {
					if record {
						c.fail("C01.encode-copy", fmt.Sprintf("length class %d..%d, distance class %d..%d", lc.lo, lc.hi, dc.lo, dc.hi), c.L.posString(r.fn("(token).encodeLLD").Pos()),
							fmt.Sprintf("lengths %d..%d at distances %d..%d are not written as symbol %d with %d extra bits and symbol %d with %d extra bits: %s",
								lc.lo, lc.hi, dc.lo, dc.hi, lc.sym, lc.extra, dc.sym, dc.extra, showObs(o)))
					}
					return false
				}
			}
		}
		if n == 0 && record {
			c.fail("C01.encode-copy", fmt.Sprintf("length class %d..%d, distance class %d..%d", lc.lo, lc.hi, dc.lo, dc.hi), "", "no outcome")
		}
		return n > 0
	}
	// partial: the RFC class restricted to a single value
	parts := func(k symClass) []symClass {
		var out []symClass
		for v := k.lo; v <= k.hi; v++ {
			out = append(out, symClass{k.sym, k.extra, v, v})
		}
		return out
	}
	for _, lc := range lengthClasses {
		for _, dc := range distClasses {
			c.counts["symbol classes encoded"]++
			if try(lc, dc, false) {
				c.ok("C01.encode-copy", fmt.Sprintf("length symbol %d, distance symbol %d", lc.sym, dc.sym))
				continue
			}
			// finer partition, if the classes are not decided as a whole
			bad := false
			if r.e.nBlocks < 20000000 {
				for _, l1 := range parts(lc) {
					for _, d1 := range parts(dc) {
						if l1.lo != lc.lo && d1.lo != dc.lo && d1.lo != dc.hi {
							continue
						}
						if !r.point(mk, l1, d1, lc, dc) {
							bad = true
							break
						}
					}
					if bad {
						break
					}
				}
			} else {
				bad = true
			}
			if bad {
				try(lc, dc, true)
			} else {
				c.ok("C01.encode-copy", fmt.Sprintf("length symbol %d, distance symbol %d", lc.sym, dc.sym))
			}
		}
	}
}

// point decides one pair of values.
func (r *symRun) point(mk *ssa.Function, l1, d1, lc, dc symClass) bool {
	st := r.state()
	x, d := mkInt(l1.lo), mkInt(d1.lo)
	n := 0
	for _, t := range r.e.call(st, mk, []*Term{x, d}, nil, nil) {
		for _, o := range r.encode(t, "(token).encodeLLD", t.ret) {
			n++
			if !encodedAs(o, x, d, lc, dc) {
				return false
			}
		}
	}
	return n > 0
}

// simple tokens: literals, end of block, code length tokens.
func (r *symRun) encodeOthers() {
	c := r.c
	one := func(rule, name, mkName, enc string, args []*Term, st *State, good func(o *State) bool) {
		mk := r.fn(mkName)
		n := 0
		for _, t := range r.e.call(st, mk, args, nil, nil) {
			for _, o := range r.encode(t, enc, t.ret) {
				n++
				c.decide(good(o), rule, name, c.L.posString(r.fn(enc).Pos()), "%s is written as %s", name, showObs(o))
			}
		}
		c.counts["other tokens encoded"]++
		c.decide(n > 0, rule, name, c.L.posString(mk.Pos()), "%s cannot be written", name)
	}
	st := r.state()
	lit := within(st, "$x", 0, 255, tyByte)
	one("C01.encode-literal", "a literal", "makeLiteralToken", "(token).encodeLLD", []*Term{lit}, st, func(o *State) bool {
		l := outList(o)
		if len(l) != 1 || l[0].s != "obs:code" {
			return false
		}
		b := l[0].args[0]
		return b.s == "codebits" && b.args[0] == coder(2) && o.proveEq0(tSub(b.args[1], o.mon["$x"]))
	})
	one("C01.encode-stop", "the end of a block", "makeStopToken", "(token).encodeLLD", nil, r.state(), func(o *State) bool {
		l := outList(o)
		return len(l) == 1 && codeIs(o, l[0], coder(2), 256)
	})
	for v := int64(0); v < 16; v++ {
		v := v
		one("C01.encode-size", fmt.Sprintf("code length %d", v), "makeTreeLenToken", "(token).encodeX", []*Term{mkInt(v)}, r.state(), func(o *State) bool {
			l := outList(o)
			return len(l) == 1 && codeIs(o, l[0], coder(2), v)
		})
	}
	for _, k := range []struct {
		mk     string
		lo, hi int64
		sym, n int64
	}{{"makeTreeDupToken", 3, 6, 16, 2}, {"makeTreeZeroRunToken", 3, 10, 17, 3}, {"makeTreeZeroRunToken", 11, 138, 18, 7}} {
		k := k
		st := r.state()
		x := within(st, "$x", k.lo, k.hi, tyUint)
		one("C01.encode-run", fmt.Sprintf("a run (symbol %d)", k.sym), k.mk, "(token).encodeX", []*Term{x}, st, func(o *State) bool {
			l := outList(o)
			return len(l) == 2 && codeIs(o, l[0], coder(2), k.sym) && bitsAre(o, l[1], k.n, tAddK(o.mon["$x"], -k.lo))
		})
	}
}

// decode runs the loop of a Huffman block with given symbols.
func (r *symRun) decode(syms []int64, result func(st *State, what string, args ...*Term)) {
	f := r.fn("(*Reader).decodeHuffmanBlock")
	st := r.state()
	args := []*Term{r.obj}
	for _, p := range f.Params[1:] {
		args = append(args, r.e.freshArg(st, p.Type(), p.Name()))
	}
	r.script = func(st *State, i int64) int64 {
		if i < int64(len(syms)) {
			return syms[i]
		}
		return -1
	}
	r.result = result
	for _, o := range r.e.call(st, f, args, nil, nil) {
		what := "returned"
		if o.ret == tTrue {
			what = "finished"
		}
		result(o, what)
	}
	r.result = func(*State, string, ...*Term) {}
}

func (r *symRun) decodeAll() {
	c := r.c
	pos := c.L.posString(r.fn("(*Reader).decodeHuffmanBlock").Pos())
	for s := int64(0); s < 256; s++ {
		n := 0
		r.decode([]int64{s}, func(st *State, what string, args ...*Term) {
			good := (what == "byte" && st.proveEq0(tAddK(args[0], -s)))
			n++
			c.decide(good && r.e.monInt(st, "$pos") == 0, "C01.decode-literal", "literals", pos, "literal symbol %d is decoded as %s %v", s, what, args)
		})
		c.decide(n > 0, "C01.decode-literal", "literals", pos, "literal symbol %d is not decoded", s)
	}
	n := 0
	r.decode([]int64{256}, func(st *State, what string, args ...*Term) {
		n++
		c.decide(what == "finished" && r.e.monInt(st, "$pos") == 0, "C01.decode-stop", "end of block", pos, "symbol 256 does not end the block: %s %v", what, args)
	})
	c.decide(n > 0, "C01.decode-stop", "end of block", pos, "symbol 256 is not decoded")
	for s := int64(286); s < 288; s++ {
		s := s
		rej := 0
		r.decode([]int64{s, 0}, func(st *State, what string, args ...*Term) {
			rej++
			c.decide(what == "corrupt", "C01.decode-reserved", fmt.Sprintf("symbol %d", s), pos, "the reserved symbol %d is not rejected: %s %v", s, what, args)
		})
		c.decide(rej > 0, "C01.decode-reserved", fmt.Sprintf("symbol %d", s), pos, "the reserved symbol %d is not rejected", s)
	}
	for s := int64(30); s < 32; s++ {
		s := s
		rej := 0
		r.decode([]int64{257, s}, func(st *State, what string, args ...*Term) {
			rej++
			c.decide(what == "corrupt", "C01.decode-reserved", fmt.Sprintf("distance symbol %d", s), pos, "the reserved distance symbol %d is not rejected: %s %v", s, what, args)
		})
		c.decide(rej > 0, "C01.decode-reserved", fmt.Sprintf("distance symbol %d", s), pos, "the reserved distance symbol %d is not rejected", s)
	}
	for _, lc := range lengthClasses {
		for _, dc := range distClasses {
			lc, dc := lc, dc
			name := fmt.Sprintf("length symbol %d, distance symbol %d", lc.sym, dc.sym)
			n := 0
			r.decode([]int64{lc.sym, dc.sym}, func(st *State, what string, args ...*Term) {
				if what == "corrupt" && r.e.monInt(st, "$sp") == 2 && r.e.monInt(st, "$pos") == lc.extra+dc.extra {
					return // too far back
				}
				n++
				if what != "match" {
					c.fail("C01.decode-copy", name, pos, fmt.Sprintf("%s is not decoded to a match: %s %v", name, what, args))
					return
				}
				l, d := mkInt(lc.lo), mkInt(dc.lo)
				l, d = tAdd(l, r.field(st, 0, lc.extra)), tAdd(d, r.field(st, lc.extra, dc.extra))
				good := st.proveEq0(tSub(args[0], d)) && st.proveEq0(tSub(args[1], l)) && r.e.monInt(st, "$pos") == lc.extra+dc.extra
				c.decide(good, "C01.decode-copy", name, pos, "%s is decoded as distance %v, length %v after %d extra bits instead of distance %v, length %v", name, args[0], args[1], r.e.monInt(st, "$pos"), d, l)
			})
			c.counts["symbol classes decoded"]++
			c.decide(n > 0, "C01.decode-copy", name, pos, "%s is not decoded", name)
		}
	}
}

func init() {
	register("C01", []string{"encode", "decode", "trees", "blocks", "bits", "write"}, func(c *Ctx) {
		r := newSymRun(c)
		switch c.part {
		case "encode":
			r.encodeCopies()
			r.encodeOthers()
			c.floor("symbol classes encoded", 870)
			c.floor("other tokens encoded", 21)
		case "trees":
			r.treesAll()
			c.floor("tree scenarios", 300)
		case "blocks":
			r.blocksAll()
			c.floor("block headers decoded", 8)
		case "bits":
			r.bitsAll()
			c.floor("bit reads", 120)
			c.floor("bit writes", 600)
		case "write":
			r.writeBlocks()
			c.floor("blocks written", 6)
		case "decode":
			r.decodeAll()
			c.floor("symbol classes decoded", 870)
		}
		for _, k := range r.e.order {
			p := r.e.problems[k]
			if p.rule == "undecided" {
				c.fail(p.rule, p.where, p.pos, p.msg, p.trace...)
			}
		}
		c.counts["basic blocks interpreted"] += r.e.nBlocks
		sort.Strings(c.samples)
	})
}

// byteOrder is the value of a number stored in the bytes of a slice.
func byteOrder(st *State, order, method string, args []*Term) *Term {
	n := map[string]int64{"Uint16": 2, "Uint32": 4, "Uint64": 8}[method]
	lower := strings.ToLower(order)
	little, big := strings.Contains(lower, "littleendian"), strings.Contains(lower, "bigendian")
	if n == 0 || little == big || len(args) == 0 {
		return nil
	}
	p := args[len(args)-1]
	v := tZero
	for i := int64(0); i < n; i++ {
		b := st.load(mkIndex(st.sliceBase(p), tAddK(st.sliceOff(p), i)), tyByte)
		k := i
		if big {
			k = n - 1 - i
		}
		v = tAdd(v, tScale(b, 1<<uint(8*k)))
	}
	return v
}
