package main

import (
	"golang.org/x/tools/go/ssa"
)

// The way of the decoded data: decode buffer and window, then the output
// buffer, the checksums and the counters.

func isZero(st *State, t *Term) bool { return st.truth(tEq0(t)) == 1 }

// unwrapped is the value without reduction modulo 2^64.
func unwrapped(t *Term) *Term {
	switch {
	case t == nil:
	case t.op == OApp && t.s == "uwrap":
		return unwrapped(t.args[0])
	case t.op == OLin:
		r := mkInt(t.k)
		for i, a := range t.args {
			r = tAdd(r, tScale(unwrapped(a), t.coef[i]))
		}
		return r
	}
	return t
}

// same: equal modulo 2^64
func same(st *State, a, b *Term) bool {
	a, b = unwrapped(a), unwrapped(b)
	return a != nil && b != nil && (a == b || isIntTerm(a) && isIntTerm(b) && st.truth(tEq0(tSub(a, b))) == 1)
}

// settle: what was delivered must have been counted by now.
func (r *readerRun) settle(st *State, where string) {
	mv := st.mon["$$mv"]
	if mv == nil {
		return
	}
	mf := r.e.monInt(st, "$mf")
	if !isZero(st, mv) {
		for i, n := range []string{"the Adler-32", "the CRC-32", "the length of the stream", "the buffer of decoded data"} {
			k := int64(1) << i
			rule := "C03.coverage"
			if i == 3 {
				rule = "C05.delivered"
			}
			r.check(st, mf&k != 0, rule, n+" "+where, "data was delivered, but %s was not updated", n)
		}
	}
	delete(st.mon, "$$mv")
	delete(st.mon, "$$mo")
	setInt(st, "$mf", 0)
}

// settleWindow: what was decoded must be in the window by now.
func (r *readerRun) settleWindow(st *State, where string) {
	if n := st.mon["$$wv"]; n != nil && !isZero(st, n) {
		r.bad(st, "C17.window", where, "decoded data was not written to the window")
	}
	delete(st.mon, "$$wv")
	delete(st.mon, "$$wb")
	if n := st.mon["$$hn"]; n != nil && !isZero(st, n) {
		h, size := r.cell(st, "historyLen"), tPow2(st.getf(r.field("window"), "#nbits", tyUint))
		r.check(st, h != nil && st.truth(tLE0(tSub(size, h))) == 1, "C17.history", where, "the window has grown, but not the length of the history")
	}
	delete(st.mon, "$$hn")
}

// tidy forgets what is settled.
func (r *readerRun) tidy(st *State) {
	if r.api {
		return
	}
	if mv := st.mon["$$mv"]; mv != nil && (r.e.monInt(st, "$mf") == 15 || isZero(st, mv)) {
		delete(st.mon, "$$mv")
		delete(st.mon, "$$mo")
		setInt(st, "$mf", 0)
	}
	if n := st.mon["$$wv"]; n != nil && isZero(st, n) {
		delete(st.mon, "$$wv")
		delete(st.mon, "$$wb")
	}
	if n := st.mon["$$hn"]; n != nil && isZero(st, n) {
		delete(st.mon, "$$hn")
	}
}

func (r *readerRun) counted(st *State, at ssa.Instruction, v *Term) {
	fn := fnName(at.Parent())
	old := r.cell(st, "outputBytesStream")
	mv := st.mon["$$mv"]
	switch {
	case isZero(st, v):
		ph := r.e.monInt(st, "$ph")
		r.check(st, ph == rpIdle || ph == rpHeader || ph == rpEnded, "C03.coverage", fn+" count", "the length of the stream is set to 0 %s", rpNames[ph])
	case mv != nil && same(st, tSub(v, old), mv) && r.e.monInt(st, "$mf")&4 == 0:
		r.ok("C03.coverage", fn+" count")
		setInt(st, "$mf", r.e.monInt(st, "$mf")|4)
	default:
		r.bad(st, "C03.coverage", fn+" count", "the length of the stream changes from %v to %v, but %v bytes were delivered", old, v, mv)
	}
}

func (r *readerRun) history(st *State, at ssa.Instruction, v *Term) {
	fn := fnName(at.Parent())
	old := r.cell(st, "historyLen")
	if old == nil {
		old = tZero
	}
	if isZero(st, v) {
		r.check(st, r.e.monInt(st, "$ph") <= rpHeader, "C17.history", fn+" zero", "the history is forgotten in the middle of a stream")
		setInt(st, "$h0", 0)
		return
	}
	size := tPow2(st.getf(r.field("window"), "#nbits", tyUint))
	n := st.mon["$$hn"]
	if n == nil {
		n = tZero
	}
	sum := tAdd(old, n)
	switch {
	case same(st, v, sum):
	case same(st, v, size) && st.truth(tLE0(tSub(size, sum))) == 1:
	default:
		r.bad(st, "C17.history", fn, "the length of the history changes from %v to %v, but %v bytes were added", old, v, n)
		return
	}
	r.ok("C17.history", fn)
	delete(st.mon, "$$hn")
}

// firstBlock: the first block of a stream begins.
func (r *readerRun) firstBlock(st *State, at string) {
	delete(st.mon, "$$ld")
	if r.e.monInt(st, "$fb") != 1 {
		return
	}
	setInt(st, "$fb", 0)
	r.check(st, r.e.monInt(st, "$ha") == 1, "C03.coverage", at+" Adler-32", "the Adler-32 may cover data from before the stream")
	r.check(st, r.e.monInt(st, "$hc") == 1, "C03.coverage", at+" CRC-32", "the CRC-32 may cover data from before the stream")
	r.check(st, isZero(st, r.cell(st, "outputBytesStream")), "C03.coverage", at+" length", "the length of the stream does not start at 0")
	r.check(st, isZero(st, r.flen(st, "decodeBuffer")), "C03.coverage", at+" buffer", "there is decoded data from before the stream")
	wd := r.e.monInt(st, "$wd")
	switch st.truth(tEq(r.cell(st, "dict"), tNil)) {
	case 1:
		r.check(st, wd == 1, "C17.start", at, "the window is not empty at the start of a stream without a dictionary")
	case -1:
		r.check(st, wd == 2, "C17.start", at, "the window does not hold exactly the dictionary at the start of a stream")
	default:
		r.bad(st, "C17.start", at, "it is not known whether there is a dictionary")
	}
	setInt(st, "$ha", 0)
	setInt(st, "$hc", 0)
	setInt(st, "$wd", 0)
	r.check(st, r.e.monInt(st, "$h0") == 0, "C17.start", at+" history", "the length of the history is not reset at the start of a stream")
}

// view: data that was looked up must still be in the window.
func (r *readerRun) view(st *State, c *callInfo, p *Term) {
	var gen *Term
	if p.op == OSlice {
		p = st.sliceBase(p)
	}
	if p.op == OApp && p.s == "nn:winview" {
		gen = p.args[0]
	} else {
		return
	}
	now := mkBuf(st, r.field("window"), "#gen")
	r.check(st, gen == now, "C17.view", r.at(st), "data of the window is used after the window was written to")
}

// data observes the library operations on the decoded data.
func (r *readerRun) data(st *State, c *callInfo, kind, f string, args []*Term) {
	at := r.at(st)
	mf := r.e.monInt(st, "$mf")
	if kind == "win.lookup" {
		r.settleWindow(st, at)
		// the history does not shrink in the middle of a stream
		good := st.truth(tLE0(tSub(args[0], r.cell(st, "historyLen")))) == 1 || st.mon["$$ld"] != nil && same(st, args[0], st.mon["$$ld"])
		if r.check(st, good, "C17.distance", at, "the distance %v may be larger than the history", args[0]) {
			st.mon["$$ld"] = args[0]
		}
		return
	}
	if kind == "dec.found" {
		delete(st.mon, "$$ld")
	}
	switch kind + " " + f {
	case "buf.write outputBuffer":
		r.settle(st, at)
		p := st.resolve(c.args[1])
		db := r.field("decodeBuffer")
		if p.op == OSlice || p == tNil {
			good := isZero(st, args[1]) || st.sliceBase(p) == fifoOf(db) && same(st, st.sliceOff(p), st.getf(db, "#rd", tyUint))
			r.check(st, good, "C05.order", at, "other data than the next decoded data is delivered")
			st.mon["$$mv"] = args[1]
			st.mon["$$mo"] = st.sliceOff(p)
			setInt(st, "$mf", 0)
		} else {
			r.bad(st, "undecided", at, "the data delivered is not understood")
		}
	case "buf.read decodeBuffer":
		mv := st.mon["$$mv"]
		if r.check(st, mv != nil && same(st, args[len(args)-1], mv), "C05.delivered", at+" removed", "%v bytes are removed from the decoded data, but %v were delivered", args[len(args)-1], mv) {
			setInt(st, "$mf", mf|8)
		}
	case "buf.clear decodeBuffer":
		r.check(st, isZero(st, r.flen(st, "decodeBuffer")) || r.e.monInt(st, "$stop") == 1, "C05.delivered", at+" cleared", "decoded data is dropped although the Reader was not closed")
	case "hash.reset outputBytesAdler32", "hash.reset outputBytesCRC32":
		ph := r.e.monInt(st, "$ph")
		good := ph == rpIdle || ph == rpHeader || ph == rpBetween && r.e.monInt(st, "$fb") == 1
		r.check(st, good, "C03.coverage", at+" reset "+f, "%s is reset %s", f, rpNames[ph])
		if good {
			setInt(st, hashMark(f), 1)
		}
	case "hash.write outputBytesAdler32", "hash.write outputBytesCRC32":
		bit := int64(1)
		if f == "outputBytesCRC32" {
			bit = 2
		}
		p := st.resolve(c.args[1])
		mv := st.mon["$$mv"]
		good := mv != nil && mf&bit == 0 && p.op == OSlice && same(st, args[len(args)-1], mv) && (isZero(st, mv) ||
			st.sliceBase(p) == fifoOf(r.field("decodeBuffer")) && same(st, st.sliceOff(p), st.mon["$$mo"]))
		r.check(st, good, "C03.coverage", at+" "+f, "%s is updated with %v, but the %v bytes at %v were delivered", f, p, mv, st.mon["$$mo"])
		setInt(st, "$mf", mf|bit)
		setInt(st, hashMark(f), 0)
	case "buf.write decodeBuffer":
		r.settleWindow(st, at)
		r.check(st, r.e.monInt(st, "$ph") == rpBlock || r.e.monInt(st, "$ph") == rpBody, "C17.window", at+" phase", "data is decoded %s", rpNames[r.e.monInt(st, "$ph")])
		p := st.resolve(c.args[1])
		r.view(st, c, p)
		st.mon["$$wv"] = args[1]
		st.mon["$$wb"] = p
	case "win.write window":
		p := st.resolve(c.args[1])
		n := args[1]
		ph := r.e.monInt(st, "$ph")
		if wv := st.mon["$$wv"]; wv != nil && !(isZero(st, wv) && !isZero(st, n)) {
			q := st.mon["$$wb"]
			good := same(st, n, wv)
			if p.op == OSlice && q.op == OSlice {
				good = good && (isZero(st, n) || st.sliceBase(p) == st.sliceBase(q) && same(st, st.sliceOff(p), st.sliceOff(q)))
			} else {
				good = good && p == q
			}
			r.check(st, good, "C17.window", at, "%v (%v bytes) is written to the window, but %v (%v bytes) was decoded", p, n, q, wv)
			if p.op == OSlice && !isZero(st, n) {
				b := st.sliceBase(p)
				r.check(st, !(b.op == OApp && b.s == "nn:winview"), "C17.view", at+" window", "the window is written with a view of itself")
			}
			delete(st.mon, "$$wv")
			delete(st.mon, "$$wb")
		} else if !isZero(st, n) || ph <= rpHeader {
			good := ph <= rpHeader && r.e.monInt(st, "$wd") == 1 && (p == r.cell(st, "dict") || same(st, n, st.sliceLen(r.cell(st, "dict"))) && st.sliceBase(p) == st.sliceBase(r.cell(st, "dict")))
			r.check(st, good, "C17.window", at+" other", "other data than decoded data or the dictionary is written to the window: %v %s", p, rpNames[ph])
			setInt(st, "$wd", 2)
		}
		if h := st.mon["$$hn"]; h != nil && !isZero(st, h) {
			r.bad(st, "C17.history", at, "the window is written again before the length of the history was updated")
		}
		st.mon["$$hn"] = n
	case "win.clear window":
		ph := r.e.monInt(st, "$ph")
		r.check(st, ph <= rpHeader, "C17.window", at+" clear", "the window is cleared %s", rpNames[ph])
		setInt(st, "$wd", 1)
		setInt(st, "$h0", 1)
	}
}

func hashMark(f string) string {
	if f == "outputBytesCRC32" {
		return "$hc"
	}
	return "$ha"
}
