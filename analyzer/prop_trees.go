package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The trees of a dynamic block and the header of a block, for C01.

// treeCase is a sequence of code length symbols; a negative entry is a code
// length that is left unknown.
type treeCase struct {
	nLL, nD, nX int64
	syms        []int64 // -1: a size; 16..18 otherwise
	extra       []int64 // values of the extra bits of the run symbols
	corrupt     bool
}

func extraBits(sym int64) int64 {
	return map[int64]int64{16: 2, 17: 3, 18: 7}[sym]
}

func (r *symRun) runTrees(t treeCase) {
	c := r.c
	f := r.fn("(*Reader).readDynamicTrees")
	pos := c.L.posString(f.Pos())
	c.counts["tree scenarios"]++
	// the bits that are given: the counts and the extra bits
	start := int64(14) + 3*t.nX
	hdr := (t.nLL - 257) | (t.nD-1)<<5 | (t.nX-4)<<10
	r.known = func(i int64) (int64, bool) {
		if i < 14 {
			return hdr >> uint(i) & 1, true
		}
		p := start
		k := 0
		for _, s := range t.syms {
			if s < 16 {
				continue
			}
			n := extraBits(s)
			if i >= p && i < p+n {
				return t.extra[k] >> uint(i-p) & 1, true
			}
			p += n
			k++
		}
		return 0, false
	}
	size := func(i int64) *Term { return mkApp("size", tyByte, mkInt(i)) }
	r.syms = func(st *State, i int64) *Term {
		if i >= int64(len(t.syms)) {
			return nil
		}
		s := t.syms[i]
		if s >= 16 {
			return mkInt(s)
		}
		x := size(i)
		st.assume(tLE0(tAddK(x, -15)))
		return x
	}
	r.script = nil
	name := fmt.Sprintf("HLIT %d, HDIST %d, HCLEN %d, %d symbols", t.nLL, t.nD, t.nX, len(t.syms))
	// what is expected
	var want []*Term
	k := 0
	over := false
	for i, s := range t.syms {
		if s < 16 {
			want = append(want, size(int64(i)))
			continue
		}
		n := t.extra[k] + map[int64]int64{16: 3, 17: 3, 18: 11}[s]
		k++
		v := tZero
		if s == 16 {
			if len(want) == 0 {
				over = true
				break
			}
			v = want[len(want)-1]
		}
		for ; n > 0; n-- {
			want = append(want, v)
		}
	}
	total := t.nLL + t.nD
	corrupt := t.corrupt || over || int64(len(want)) > total
	n := 0
	r.result = func(st *State, what string, args ...*Term) {
		n++
		if corrupt {
			c.decide(what == "corrupt", "C01.trees-reject", name, pos, "%s: invalid code lengths are not rejected: %s", name, what)
			return
		}
		if what != "done" {
			c.fail("C01.trees", name, pos, fmt.Sprintf("%s: valid code lengths are not accepted: %s", name, what))
			return
		}
		// the code length code
		tab := func(i int) *Term { return st.mon[fmt.Sprintf("$tab%d", i)] }
		elem := func(a *Term, i int64) *Term {
			if a == nil || a.op != OApp || a.s != "arr" {
				return tNil
			}
			if i < int64(len(a.args)) {
				return a.args[i]
			}
			return tZero
		}
		for i := int64(0); i < 19; i++ {
			w := tZero
			if i < t.nX {
				w = r.field(st, 14+3*i, 3)
			}
			got := elem(tab(0), codeOrder[i])
			if got == tNil || !st.proveEq0(tSub(got, w)) {
				c.fail("C01.code-length-order", fmt.Sprintf("entry %d", i), pos, fmt.Sprintf("with HCLEN %d the size of code length symbol %d is %v instead of %v (entry %d)", t.nX, codeOrder[i], got, w, i))
				return
			}
		}
		c.ok("C01.code-length-order", fmt.Sprintf("HCLEN %d", t.nX))
		for i := int64(0); i < 288; i++ {
			w := tZero
			if i < t.nLL {
				w = want[i]
			}
			got := elem(tab(1), i)
			if got == tNil || !st.proveEq0(tSub(got, w)) {
				c.fail("C01.trees", "literal/length sizes", pos, fmt.Sprintf("%s: the size of literal/length symbol %d is %v instead of %v", name, i, got, w))
				return
			}
			if i >= 32 {
				continue
			}
			w = tZero
			if i < t.nD {
				w = want[t.nLL+i]
			}
			got = elem(tab(2), i)
			if got == tNil || !st.proveEq0(tSub(got, w)) {
				c.fail("C01.trees", "distance sizes", pos, fmt.Sprintf("%s: the size of distance symbol %d is %v instead of %v", name, i, got, w))
				return
			}
		}
		used := start
		k := 0
		for _, s := range t.syms {
			if s >= 16 {
				used += extraBits(s)
				k++
			}
		}
		c.decide(r.e.monInt(st, "$pos") == used, "C01.trees", "bits read", pos, "%s: %d bits are read instead of %d", name, r.e.monInt(st, "$pos"), used)
		c.ok("C01.trees", name)
	}
	st := r.state()
	args := []*Term{r.obj}
	for _, p := range f.Params[1:] {
		args = append(args, r.e.freshArg(st, p.Type(), p.Name()))
	}
	for _, o := range r.e.call(st, f, args, nil, nil) {
		if o.ret == tTrue {
			r.result(o, "done")
		} else {
			r.result(o, "returned")
		}
	}
	c.decide(n > 0, "C01.trees", "outcome", pos, "%s: no outcome", name)
	r.result = func(*State, string, ...*Term) {}
	r.known, r.syms = nil, nil
}

func sizes(n int64) []int64 {
	var out []int64
	for ; n > 0; n-- {
		out = append(out, -1)
	}
	return out
}

func (r *symRun) treesAll() {
	// every number of codes, each with sizes only
	for i := int64(0); i < 32; i++ {
		nLL, nD, nX := 257+i, i+1, 4+i%16
		r.runTrees(treeCase{nLL: nLL, nD: nD, nX: nX, syms: sizes(nLL + nD), corrupt: nLL > 286 || nD > 30})
		r.runTrees(treeCase{nLL: 257 + (i+16)%32, nD: nD, nX: 4 + (i+7)%16, syms: sizes(257 + (i+16)%32 + nD), corrupt: (i+16)%32 > 29 || nD > 30})
	}
	// every run, at the start, in the middle, across the two alphabets, up
	// to the end, and beyond it
	for _, s := range []int64{16, 17, 18} {
		lo := map[int64]int64{16: 3, 17: 3, 18: 11}[s]
		for x := int64(0); x < 1<<uint(extraBits(s)); x++ {
			n := lo + x
			total := int64(260 + 20)
			for _, at := range []int64{0, 5, 260 - n/2, total - n, total - n + 1} {
				if at < 0 || (s == 16 && at == 260-n/2 && n < 2) {
					continue
				}
				syms := append(sizes(at), s)
				if rest := total - at - n; rest > 0 && !(s == 16 && at == 0) {
					syms = append(syms, sizes(rest)...)
				}
				r.runTrees(treeCase{nLL: 260, nD: 20, nX: 4 + x%16, syms: syms, extra: []int64{x}})
			}
			// after another run
			syms := append(sizes(1), 18, s)
			if rest := total - 1 - 20 - n; rest > 0 {
				syms = append(syms, sizes(rest)...)
			}
			r.runTrees(treeCase{nLL: 260, nD: 20, nX: 19, syms: syms, extra: []int64{9, x}})
		}
	}
}

func fixedSizes() (ll, d []int64) {
	for i := 0; i < 288; i++ {
		switch {
		case i < 144:
			ll = append(ll, 8)
		case i < 256:
			ll = append(ll, 9)
		case i < 280:
			ll = append(ll, 7)
		default:
			ll = append(ll, 8)
		}
	}
	for i := 0; i < 32; i++ {
		d = append(d, 5)
	}
	return
}

func isArr(t *Term, want []int64) bool {
	if t == nil || t.op != OApp || t.s != "arr" || len(t.args) != len(want) {
		return false
	}
	for i, a := range t.args {
		if a.op != OInt || a.k != want[i] {
			return false
		}
	}
	return true
}

// srcOf is the list of sizes a coder was made from.
func (r *symRun) srcOf(st *State, p *Term) *Term {
	return st.getf(p, "#src", nil)
}

// blocksAll decodes the three header bits of a block.
func (r *symRun) blocksAll() {
	c := r.c
	f := r.fn("(*Reader).readFlateBlock")
	pos := c.L.posString(f.Pos())
	ll, d := fixedSizes()
	for i := int64(0); i < 16; i++ {
		bits, empty := i&7, i >= 8
		c.counts["block headers decoded"]++
		final, kind := bits&1, bits>>1
		if empty && (kind == 0 || kind == 3) {
			continue
		}
		name := fmt.Sprintf("BTYPE %d, BFINAL %d", kind, final)
		hdr := bits | 0<<3 | 0<<8 | 15<<13 // HLIT 257, HDIST 1, HCLEN 19
		r.known = func(i int64) (int64, bool) {
			if i < 17 {
				return hdr >> uint(i) & 1, true
			}
			return 0, false
		}
		trees := int64(0)
		if kind == 2 {
			trees = 258
		}
		r.syms = func(st *State, i int64) *Term {
			if i < trees {
				x := mkApp("size", tyByte, mkInt(i))
				st.assume(tLE0(tAddK(x, -15)))
				return x
			}
			dec := st.mon["$dec"]
			isLL := (i-trees)%2 == 0
			good := false
			switch kind {
			case 1:
				good = isArr(r.srcOf(st, dec), ll)
				if !isLL {
					good = isArr(r.srcOf(st, dec), d)
				}
			case 2:
				good = st.mon["$tabof1"] == dec
				if !isLL {
					good = st.mon["$tabof2"] == dec
				}
			}
			what := map[bool]string{true: "literal/length", false: "distance"}[isLL]
			c.decide(good, "C01.tables", fmt.Sprintf("%s symbols of blocks with BTYPE %d", what, kind), pos, "the %s symbols of a block with BTYPE %d are decoded with %v (%v)", what, kind, dec, r.srcOf(st, dec))
			if empty {
				return mkInt(256)
			}
			if i == trees {
				return mkInt(257)
			}
			if i == trees+1 {
				return mkInt(0)
			}
			return mkInt(256)
		}
		r.hooks = map[string]func(st *State, c *callInfo) ([]*State, bool){
			"sendEvent": func(st *State, ci *callInfo) ([]*State, bool) {
				ev := ci.args[1]
				b := st.vcomp(ev, nil, "Block", nil)
				if b.op == OObj || b.op == OField {
					push(st, obs("event", st.vcomp(ev, nil, "Type", nil), st.getf(b, "Type", tyByte), st.getf(b, "IsFinal", tyBool)))
				} else {
					push(st, obs("event", st.vcomp(ev, nil, "Type", nil)))
				}
				return done(st, nil), true
			},
			"LookupSlice": func(st *State, ci *callInfo) ([]*State, bool) { return nil, false },
			"decodeBufferWrite": func(st *State, ci *callInfo) ([]*State, bool) {
				push(st, obs("write", ci.args[1]))
				return done(st, tTrue), true
			},
			"decodeBufferWriteByte": func(st *State, ci *callInfo) ([]*State, bool) {
				push(st, obs("byte", ci.args[1]))
				return done(st, tTrue), true
			},
			"inputBufferRead": func(st *State, ci *callInfo) ([]*State, bool) {
				return r.readBytes(st, ci.args[1]), true
			},
		}
		n := 0
		r.result = func(st *State, what string, args ...*Term) {
			n++
			r.blockOutcome(st, name, pos, kind, final, what, args)
		}
		st := r.state()
		st.mon["$bytepos"] = tZero
		for _, o := range r.e.call(st, f, []*Term{r.obj}, nil, nil) {
			r.result(o, "returned", o.ret)
		}
		c.decide(n > 0, "C01.block-header", name, pos, "%s: no outcome", name)
	}
	r.known, r.syms, r.hooks = nil, nil, nil
}

// readBytes fills a slice with the next bytes of the input.
func (r *symRun) readBytes(st *State, p *Term) []*State {
	n := st.sliceLen(p)
	pos := st.mon["$bytepos"]
	if a, b := r.e.monInt(st, "$fill"), r.e.monInt(st, "$pos"); a > b {
		r.c.fail("C01.align", "bits before bytes", "reader.go", fmt.Sprintf("%d bits are fetched, but only %d bits are used before bytes are read", a, b))
	}
	push(st, obs("read", pos, n))
	base, off := st.sliceBase(p), st.sliceOff(p)
	switch {
	case p == tNil || n == tZero:
	case n.isConst() && n.k <= 64:
		for i := int64(0); i < n.k; i++ {
			st.store(mkIndex(base, tAddK(off, i)), r.inputByte(st, tAddK(pos, i)), tyByte)
		}
	default:
		st.havocContents(base, mkApp("input", nil, pos, n))
	}
	st.mon["$bytepos"] = tAdd(pos, n)
	return done(st, mkTuple(p, tTrue))
}

func (r *symRun) inputByte(st *State, pos *Term) *Term {
	if r.knownByte != nil {
		if v, ok := r.knownByte(pos); ok {
			return mkInt(v)
		}
	}
	// the value may have been refined since it was read
	key := "$b:" + pos.String()
	if v := st.mon[key]; v != nil {
		return v
	}
	v := mkApp("byte", tyByte, pos)
	st.mon[key] = v
	return v
}

// blockOutcome checks one way in which a block is decoded.
func (r *symRun) blockOutcome(st *State, name, pos string, kind, final int64, what string, args []*Term) {
	c := r.c
	bad := func(rule, f string, a ...interface{}) {
		c.fail(rule, name, pos, fmt.Sprintf("%s: %s: %s %v %s", name, fmt.Sprintf(f, a...), what, args, showObs(st)))
	}
	l := outList(st)
	fin := map[int64]*Term{0: tFalse, 1: tTrue}[final]
	event := func(i int, ty int64) bool {
		if i >= len(l) || l[i].s != "obs:event" || len(l[i].args) != 3 {
			return false
		}
		return l[i].args[0] == mkInt(ty) && l[i].args[1] == mkInt(kind+1) && l[i].args[2] == fin
	}
	if kind == 3 {
		c.decide(what == "corrupt", "C01.block-type", name, pos, "the reserved block type is not rejected: %s", what)
		return
	}
	if len(l) == 0 || !event(0, r.evBegin) {
		bad("C01.block-type", "the block does not begin with its type and finality")
		return
	}
	switch kind {
	case 0:
		le := func(i int64) *Term {
			return tAdd(r.inputByte(st, mkInt(i)), tScale(r.inputByte(st, mkInt(i+1)), 256))
		}
		length, inv := le(0), tSub(mkInt(65535), le(2))
		eq := tEq0(tSub(length, inv))
		read := tZero
		var written []*Term
		for _, o := range l[1:] {
			switch o.s {
			case "obs:read":
				read = tAdd(read, o.args[1])
			case "obs:write":
				written = append(written, o.args[0])
			}
		}
		if what == "corrupt" {
			c.decide(st.truth(eq) == -1, "C01.stored", name, pos, "a stored block is rejected although NLEN is the complement of LEN")
			return
		}
		if what != "returned" {
			bad("C01.stored", "unexpected outcome")
			return
		}
		if st.truth(eq) != 1 {
			bad("C01.stored", "a stored block is accepted although NLEN may not be the complement of LEN")
		}
		if !st.proveEq0(tSub(read, tAddK(length, 4))) {
			bad("C01.stored", "%v bytes are read instead of LEN+4", read)
		}
		good := false
		if len(written) == 1 {
			w := written[0]
			ct := st.contentOf(st.sliceBase(w))
			good = st.proveEq0(tSub(st.sliceLen(w), length)) && st.proveEq0(st.sliceOff(w)) &&
				ct.op == OApp && ct.s == "input" && st.proveEq0(tAddK(ct.args[0], -4))
		}
		if !good {
			bad("C01.stored", "what is delivered is not the LEN bytes after NLEN")
		}
	default:
		if what == "corrupt" {
			return // too far back: the history is unknown
		}
		if !event(1, r.evTrees) {
			bad("C01.block-type", "no trees event")
		}
		if what == "match" {
			c.decide(args[0] == mkInt(1) && args[1] == mkInt(3), "C01.block-type", name, pos, "symbols 257 and 0 are decoded as %v", args)
			return
		}
	}
	if what != "returned" {
		bad("C01.block-type", "unexpected outcome")
		return
	}
	if !event(len(l)-1, r.evEnd) {
		bad("C01.block-type", "the block does not end with its type and finality")
	}
	c.decide(args[0] == map[int64]*Term{0: tTrue, 1: tFalse}[final], "C01.final-bit", name, pos, "%s: the reader continues: %v", name, args[0])
	c.ok("C01.block-type", name)
}

// bitsAll checks the functions which take bits from bytes and put bits into
// bytes: the least significant bit comes first.
func (r *symRun) bitsAll() {
	c := r.c
	fill, read := r.fn("(*Reader).inputBitsFill"), r.fn("(*Reader).inputBitsRead")
	pos := c.L.posString(fill.Pos())
	for have := int64(0); have < 8; have++ {
		for n := int64(1); n <= 15; n++ {
			c.counts["bit reads"]++
			st := r.state()
			acc := tZero
			for i := int64(0); i < have; i++ {
				acc = tAdd(acc, tScale(r.bit(st, i), 1<<uint(i)))
			}
			st.setf(r.obj, "ibBlock", acc)
			st.setf(r.obj, "ibLen", mkInt(have))
			at := int64(0)
			r.real = true
			r.hooks = map[string]func(st *State, c *callInfo) ([]*State, bool){
				"IsEmpty": func(st *State, ci *callInfo) ([]*State, bool) { return done(st, tFalse), true },
				"ReadByte": func(st *State, ci *callInfo) ([]*State, bool) {
					k := r.e.monInt(st, "$byte")
					setInt(st, "$byte", k+1)
					at = k + 1
					v := tZero
					for i := int64(0); i < 8; i++ {
						v = tAdd(v, tScale(r.bit(st, have+8*k+i), 1<<uint(i)))
					}
					return done(st, mkTuple(v, tNil)), true
				},
			}
			name := fmt.Sprintf("%d bits with %d bits at hand", n, have)
			setInt(st, "$byte", 0)
			outs := 0
			for _, o := range r.e.call(st, fill, []*Term{r.obj, mkInt(n)}, nil, nil) {
				for _, q := range r.e.call(o, read, []*Term{r.obj, mkInt(n)}, nil, nil) {
					outs++
					w := r.field(q, 0, n)
					rest := r.field(q, n, have+8*at-n)
					c.decide(q.proveEq0(tSub(q.ret, w)), "C01.bit-order", "bits that are read", pos, "%s: %v instead of %v", name, q.ret, w)
					c.decide(q.proveEq0(tSub(q.getf(r.obj, "ibBlock", tyU64), rest)) && q.proveEq0(tAddK(q.getf(r.obj, "ibLen", tyByte), n-have-8*at)), "C01.bit-order", "bits that are kept", pos, "%s: %v are kept instead of %v", name, q.getf(r.obj, "ibBlock", tyU64), rest)
					need := (n - have + 7) / 8
					if need < 0 {
						need = 0
					}
					c.decide(at == need, "C01.bit-order", "bytes that are read", pos, "%s: %d bytes are read instead of %d", name, at, need)
				}
			}
			c.decide(outs > 0, "C01.bit-order", name, pos, "%s: no outcome", name)
		}
	}
	r.real = false
	r.hooks = nil
	r.bitsWritten()
}

func (r *symRun) bitsWritten() {
	c := r.c
	write, flush := r.fn("(*Writer).outputBitsWrite"), r.fn("(*Writer).outputBitsFlush")
	pos := c.L.posString(write.Pos())
	obj := r.e.allocAt(r.base, "writer", derefType(write.Params[0].Type()))
	r.base.mon["$wobj"] = obj
	r.hooks = map[string]func(st *State, c *callInfo) ([]*State, bool){
		"outputBufferWrite": func(st *State, ci *callInfo) ([]*State, bool) {
			p := ci.args[1]
			n := st.sliceLen(p)
			if !n.isConst() || n.k > 16 {
				r.e.undecided(st, ci.at, "an unknown number of bytes is written")
				return nil, true
			}
			for i := int64(0); i < n.k; i++ {
				push(st, obs("byte", st.load(mkIndex(st.sliceBase(p), tAddK(st.sliceOff(p), i)), tyByte)))
			}
			return done(st, tTrue), true
		},
	}
	for have := int64(0); have <= 40; have++ {
		for _, n := range []int64{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15} {
			c.counts["bit writes"]++
			st := r.state()
			st.setf(obj, "obBlock", r.field(st, 0, have))
			st.setf(obj, "obLen", mkInt(have))
			// bits beyond those that are asked for must not matter
			in := r.field(st, have, n)
			name := fmt.Sprintf("%d bits after %d bits", n, have)
			outs := 0
			for _, o := range r.e.call(st, write, []*Term{obj, mkInt(n), in}, nil, nil) {
				if o.ret == tFalse {
					continue
				}
				for _, q := range r.e.call(o, flush, []*Term{obj}, nil, nil) {
					outs++
					l := outList(q)
					good := int64(len(l)) == (have+n+7)/8
					for i := int64(0); good && i < int64(len(l)); i++ {
						w := r.field(q, 8*i, min(8, have+n-8*i))
						good = q.proveEq0(tSub(l[i].args[0], w))
					}
					c.decide(good, "C01.bit-order", "bits that are written", pos, "%s are written as %s", name, showObs(q))
				}
			}
			c.decide(outs > 0, "C01.bit-order", name, pos, "%s: no outcome", name)
		}
	}
	r.hooks = nil
}

// writeBlocks checks what the functions which write a block send, up to the
// first token.
func (r *symRun) writeBlocks() {
	c := r.c
	tree := r.treeTokens()
	for _, name := range []string{"writeStoredBlock", "writeStaticBlock", "writeDynamicBlock"} {
		f := r.fn(name)
		pos := c.L.posString(f.Pos())
		for _, fin := range []int64{0, 1} {
			c.counts["blocks written"]++
			st := r.state()
			var args []*Term
			enc := 0
			for _, p := range f.Params {
				switch {
				case p.Type().String() == "bool":
					args = append(args, map[int64]*Term{0: tFalse, 1: tTrue}[fin])
				case types.IsInterface(p.Type()):
					args = append(args, mkSym("nn:bw", p.Type()))
				case strings.HasSuffix(p.Type().String(), "huffman.Encoder"):
					o := r.e.allocAt(st, fmt.Sprintf("enc%d", enc), derefType(p.Type()))
					st.setf(o, "#src", coder(2+enc))
					st.setf(o, "#n", mkInt(map[int]int64{0: 288, 1: 32}[enc]))
					enc++
					args = append(args, o)
				default:
					a := r.e.freshArg(st, p.Type(), p.Name())
					st.mon["$arg:"+p.Name()] = a
					st.mon["$data"] = a
					args = append(args, a)
				}
			}
			treeCalls := int64(0)
			r.bySig = func(st *State, ci *callInfo) ([]*State, bool) {
				if s := ci.fn.Signature; s.Recv() == nil && s.Params().Len() == 1 && s.Params().At(0).Type().String() == "[]"+modPath+".token" {
					return done(st, r.e.genericResult(st, ci, false)), true // statistics of the tokens
				}
				if ci.fn != tree || tree == nil {
					return nil, false
				}
				k := r.e.monInt(st, "$tree")
				setInt(st, "$tree", k+1)
				treeCalls++
				want, min := coder(2), int64(257)
				if k > 0 {
					want, min = coder(3), 1
				}
				p := ci.args[1]
				ct := st.contentOf(st.sliceBase(p))
				c.decide(ct.op == OApp && ct.s == "sizes" && ct.args[0] == want && ci.args[2] == mkInt(min), "C01.trees-sent", fmt.Sprintf("alphabet %d", k), pos, "the code lengths of alphabet %d are those of %v, with at least %v entries", k, ct, ci.args[2])
				n := mkSym("count", tyUint)
				name := fmt.Sprintf("$count%d", k)
				st.mon[name] = n
				st.assume(tLE0(tSub(mkInt(min), n)))
				st.assume(tLE0(tSub(n, st.sliceLen(p))))
				return done(st, mkTuple(r.e.freshArg(st, ci.sig.Results().At(0).Type(), "xtokens"), st.mon[name])), true
			}
			tok := func(what string) func(st *State, ci *callInfo) ([]*State, bool) {
				return func(st *State, ci *callInfo) ([]*State, bool) {
					var src []*Term
					for _, a := range ci.args[2:] {
						src = append(src, r.srcOf(st, a))
					}
					r.result(st, what, src...)
					return nil, true
				}
			}
			r.hooks = map[string]func(st *State, c *callInfo) ([]*State, bool){
				"encodeX":   tok("code length"),
				"encodeLLD": tok("token"),
				"Init": func(st *State, ci *callInfo) ([]*State, bool) {
					if ci.name != encT+"Init" {
						return nil, false
					}
					o := ci.args[0]
					st.setf(o, "#src", coder(9))
					st.setf(o, "#n", ci.args[1])
					st.setf(o, "#max", mkInt(7))
					return done(st, tNil), true
				},
				"SizeBySymbol": func(st *State, ci *callInfo) ([]*State, bool) {
					if src := st.vcomp(ci.args[0], nil, "#src", nil); src != coder(9) {
						return nil, false
					}
					o := r.e.allocAt(st, "sizesX", types.NewSlice(tyByte))
					for i := int64(0); i < 19; i++ {
						x := mkApp("xsize", tyByte, mkInt(i))
						st.store(mkIndex(o, mkInt(i)), x, tyByte)
					}
					return done(st, mkSlice(o, tZero, mkInt(19), mkInt(19))), true
				},
			}
			n := 0
			r.result = func(st *State, what string, args ...*Term) {
				n++
				r.blockWritten(st, name, pos, fin, what, args)
			}
			for _, o := range r.e.call(st, f, args, nil, nil) {
				if o.ret != tFalse {
					r.result(o, "returned")
				}
			}
			c.decide(n > 0, "C01.block-written", name, pos, "%s: no outcome", name)
			r.result = func(*State, string, ...*Term) {}
			r.hooks, r.bySig = nil, nil
		}
	}
}

// treeTokens is the function which turns code lengths into tokens.
func (r *symRun) treeTokens() *ssa.Function {
	var out *ssa.Function
	sp := r.c.L.byPath[modPath]
	for _, n := range sortedMembers(sp) {
		f, ok := sp.Members[n].(*ssa.Function)
		if !ok {
			continue
		}
		s := f.Signature
		if s.Recv() == nil && s.Params().Len() == 3 && s.Results().Len() == 2 && f.Parent() == nil &&
			s.Params().At(0).Type().String() == "[]"+modPath+".token" && s.Params().At(1).Type().String() == "[]byte" &&
			s.Results().At(0).Type().String() == "[]"+modPath+".token" {
			out = f
		}
	}
	return out
}

func (r *symRun) blockWritten(st *State, name, pos string, fin int64, what string, args []*Term) {
	c := r.c
	var l []*Term
	for _, o := range outList(st) {
		if o.s != "obs:event" {
			l = append(l, o)
		}
	}
	i := 0
	bits := func(n int64, v *Term) bool {
		if i >= len(l) {
			return false
		}
		i++
		return bitsAre(st, l[i-1], n, v)
	}
	fail := func(f string, a ...interface{}) {
		c.fail("C01.block-written", name, pos, fmt.Sprintf("%s (final %d): %s: %s", name, fin, fmt.Sprintf(f, a...), showObs(st)))
	}
	ll, d := fixedSizes()
	switch name {
	case "writeStoredBlock":
		data := st.mon["$data"]
		n := st.sliceLen(data)
		num := func(v *Term) bool {
			if i >= len(l) || l[i].s != "obs:int16" || len(l[i].args) != 2 {
				return false
			}
			i++
			return strings.Contains(strings.ToLower(l[i-1].args[0].String()), "littleendian") && st.proveEq0(tSub(l[i-1].args[1], v))
		}
		if !bits(3, mkInt(fin)) {
			fail("the block header is not %d", fin)
			return
		}
		if i >= len(l) || l[i].s != "obs:align" {
			fail("the length is not byte aligned")
			return
		}
		i++
		if !num(n) || !num(tSub(mkInt(65535), n)) {
			fail("LEN and NLEN are not the length and its complement")
			return
		}
		if i != len(l)-1 || l[i].s != "obs:data" || l[i].args[0] != data {
			fail("LEN and NLEN are not followed by the data")
			return
		}
		c.decide(what == "returned", "C01.block-written", name, pos, "unexpected outcome %s", what)
	case "writeStaticBlock":
		if !bits(3, mkInt(2|fin)) {
			fail("the block header is not %d", 2|fin)
			return
		}
		if i != len(l) || what == "code length" {
			fail("something is sent between the block header and the tokens")
			return
		}
		if what == "token" {
			c.decide(len(args) == 2 && isArr(args[0], ll) && isArr(args[1], d), "C01.fixed-codes", name, pos, "the tokens are not encoded with the fixed codes")
		}
	case "writeDynamicBlock":
		if !bits(3, mkInt(4|fin)) {
			fail("the block header is not %d", 4|fin)
			return
		}
		n0, n1 := st.mon["$count0"], st.mon["$count1"]
		if n0 == nil || n1 == nil {
			fail("the code lengths are not sent")
			return
		}
		if !bits(5, tAddK(n0, -257)) || !bits(5, tAddK(n1, -1)) {
			fail("HLIT and HDIST are not the numbers of code lengths %v and %v", n0, n1)
			return
		}
		nX := int64(len(l) - i - 1)
		if !bits(4, mkInt(nX-4)) {
			fail("HCLEN does not announce the %d code length code lengths that follow", nX)
			return
		}
		for k := int64(0); k < 19; k++ {
			x := mkApp("xsize", tyByte, mkInt(codeOrder[k]))
			if k < nX {
				if !bits(3, x) {
					fail("code length code length %d is not that of symbol %d", k, codeOrder[k])
					return
				}
			} else if !st.proveEq0(x) {
				fail("the size of code length symbol %d is not sent, but may be nonzero", codeOrder[k])
				return
			}
		}
		if what == "code length" {
			c.decide(len(args) == 1 && args[0] == coder(9), "C01.trees-sent", "code length code", pos, "code lengths are encoded with %v", args)
		}
		if what == "token" {
			c.decide(len(args) == 2 && args[0] == coder(2) && args[1] == coder(3), "C01.trees-sent", "codes of the tokens", pos, "the tokens are encoded with %v", args)
		}
	}
	c.ok("C01.block-written", fmt.Sprintf("%s, final %d, %s", name, fin, what))
}

func sortedMembers(p *ssa.Package) []string {
	var out []string
	for n := range p.Members {
		out = append(out, n)
	}
	sort.Strings(out)
	return out
}
