package main

import (
	"fmt"
	"os"

	"golang.org/x/tools/go/ssa"
)

// The operations of a Reader, applied in every order while the background
// decoder runs.  What the decoder does in the meantime is seen whenever an
// operation acquires a lock that the decoder needs for it.

// notDecoders are the fields that the decoder must not change.
var notDecoders = map[string]bool{
	"format": true, "mlevel": true, "wbits": true, "dict": true, "tracers": true, "r": true,
	"cv1": true, "cv2": true, "wg": true, "mu1": true, "mu2": true,
	"readThreadWasStarted": true, "stopIsForced": true,
}

// toDecoder are the fields through which operations talk to a running decoder.
var toDecoder = map[string]bool{
	"outputError": true, "outputErrorWasSet": true, "stopIsForced": true, "outputBuffer": true, "readThreadWasStarted": true,
}

// topField is the field of the Reader that a cell is part of.
func (r *readerRun) topField(k *Term) string {
	for k.op == OField || k.op == OIndex {
		if k.args[0] == r.obj {
			return k.s
		}
		k = k.args[0]
	}
	return ""
}

// progress: the decoder has worked for a while.
func (r *readerRun) progress(st *State) {
	keep := map[string]bool{"outputError": true, "outputErrorWasSet": true, "readThreadWasStopped": true}
	for _, k := range sortedKeys(st.cells) {
		f := r.topField(k)
		if f == "" || notDecoders[f] || keep[f] || k.s == "#nbits" || k.s == "#held" {
			continue
		}
		if f == "outputBuffer" && k.s == "#len" {
			r.fill(st)
			continue
		}
		if k.s == "#len" {
			n := mkSym("len", tyUint)
			st.assume(tLE0(tScale(n, -1)))
			st.assume(tLE0(tSub(n, tPow2(st.getf(k.args[0], "#nbits", tyUint)))))
			st.cells[k] = n
			continue
		}
		if t := r.e.cellType(k); t != nil {
			st.cells[k] = st.freshOf(t, "dec:"+f)
		} else {
			st.cells[k] = mkSym("dec:"+f, nil)
		}
	}
}

// fill: the decoder may have added data to the output buffer.
func (r *readerRun) fill(st *State) {
	b := r.field("outputBuffer")
	old := r.flen(st, "outputBuffer")
	n := mkSym("outlen", tyUint)
	st.assume(tLE0(tSub(old, n)))
	st.assume(tLE0(tSub(n, tPow2(st.getf(b, "#nbits", tyUint)))))
	st.setf(b, "#len", n)
}

func (r *readerRun) fails(st *State) {
	err := freshErr("decerr")
	st.assume(tNot(tEq(err, tNil)))
	st.cells[r.field("outputError")] = err
}

// acquiredAPI: an operation has acquired a lock while the decoder runs.
func (r *readerRun) acquiredAPI(st *State, obj *Term) []*State {
	if r.e.monInt(st, "$run") != 1 {
		return done(st, nil)
	}
	finish := func(s *State) {
		setInt(s, "$run", 2)
		setInt(s, "$pub", 0)
		s.cells[r.field("outputErrorWasSet")] = tTrue
		s.cells[r.field("readThreadWasStopped")] = tTrue
	}
	switch leafName(obj) {
	case "mu1":
		r.progress(st)
		if r.e.monInt(st, "$pub") == 1 {
			finish(st)
			return done(st, nil)
		}
		s2 := st.clone()
		r.fails(s2)
		finish(s2)
		return append(done(st, nil), done(s2, nil)...)
	case "mu2":
		if heldOf(st, r.field("mu1")) || r.e.monInt(st, "$pub") == 1 {
			return done(st, nil)
		}
		r.fill(st)
		s2 := st.clone()
		r.fails(s2)
		setInt(s2, "$pub", 1)
		return append(done(st, nil), done(s2, nil)...)
	}
	return done(st, nil)
}

// threadEnded: the decoder was asked to stop and has stopped.
func (r *readerRun) threadEnded(st *State) {
	r.progress(st)
	setInt(st, "$run", 2)
	setInt(st, "$pub", 0)
	st.cells[r.field("readThreadWasStopped")] = tTrue
}

func (r *readerRun) goStmt(e *Eng, st *State, c *callInfo) {
	fn := r.at(st)
	if c.fn != r.thread {
		r.bad(st, "C11.start", fn, "starts another goroutine than the background decoder")
		return
	}
	r.check(st, r.e.monInt(st, "$run") == 0 && heldOf(st, r.field("mu1")), "C11.start", fn, "the background decoder is started although it may already have been started, or without holding mu1")
	r.check(st, r.cell(st, "readThreadWasStarted") == tTrue, "C11.start", fn+" mark", "the background decoder is started without being marked as started")
	r.check(st, r.e.monInt(st, "$wg") == 1, "C11.start", fn+" Add", "the background decoder is started without WaitGroup.Add(1)")
	setInt(st, "$wg", 0)
	setInt(st, "$run", 1)
}

// storeAPI: an operation changes the Reader.
func (r *readerRun) storeAPI(st *State, at ssa.Instruction, addr, v *Term) {
	f := r.topField(addr)
	fn := r.at(st)
	if f == "" || st.mon["$op"] == nil {
		return
	}
	op := st.mon["$op"].s
	if r.e.monInt(st, "$run") == 1 && !toDecoder[f] {
		r.bad(st, "C11.interference", fn+" "+f, "the field %s is changed while the background decoder runs", f)
	}
	if f == "outputErrorWasSet" && v == tTrue {
		setInt(st, "$ask1", 1)
	}
	if f == "stopIsForced" && v == tTrue {
		setInt(st, "$ask2", 1)
	}
	if r.e.monInt(st, "$ask1") == 1 && r.e.monInt(st, "$ask2") == 1 {
		setInt(st, "$stop", 1)
	}
	if f == "outputError" {
		switch op {
		case "Reset":
		default:
			// only a running decoder that has not failed may be cancelled
			good := v != tNil && r.e.monInt(st, "$run") == 1 && st.truth(tEq(r.cell(st, "outputError"), tNil)) == 1
			r.check(st, good, "C05.lasting", fn, "the reported error is replaced by %v", v)
		}
	}
}

func (r *readerRun) afterOp(st *State, op *ssa.Function, ret *Term) bool {
	name := op.Name()
	pos := fnName(op)
	r.blockingAs(st, "returning", pos)
	if !r.check(st, r.heldSet(st) == "", "C10.return-locked", pos, "%s returns while holding %s", name, r.heldSet(st)) {
		return false
	}
	// data that is left will be read, and then the decoder is woken
	setInt(st, "$w2", 0)
	run := r.e.monInt(st, "$run")
	ln := r.flen(st, "outputBuffer")
	switch name {
	case "Read":
		if ret == nil || ret.op != OTuple || len(ret.args) != 2 {
			r.bad(st, "undecided", pos, "the results of Read are not understood")
			break
		}
		n, err := ret.args[0], ret.args[1]
		if st.truth(tEq(err, tNil)) == 1 {
			got := st.mon["$got"]
			r.check(st, got != nil && st.truth(tEq0(tSub(n, got))) == 1, "C05.count", pos, "Read reports %v bytes and no error, but took %v from the buffer", n, got)
		} else {
			r.check(st, n == tZero && st.mon["$got"] == nil, "C05.data-before-error", pos, "an error is reported together with data")
			r.check(st, st.truth(tEq(err, r.cell(st, "outputError"))) == 1, "C05.lasting", pos, "Read reports %v instead of the error of the decoder", err)
			r.check(st, st.truth(tEq0(ln)) == 1, "C05.data-before-error", pos+" buffer", "an error is reported although there may be data that was not read")
		}
		r.check(st, run != 0, "C11.start", pos, "Read does not start the background decoder")
	case "Close":
		r.check(st, run != 1, "C11.running-after", pos, "the background decoder may still run after Close")
	case "Reset":
		r.check(st, run != 1, "C11.running-after", pos, "the background decoder may still run after Reset")
		setInt(st, "$run", 0)
	}
	if r.e.monInt(st, "$run") != 0 {
		r.progress(st)
	} else {
		ln := r.flen(st, "outputBuffer")
		r.progress(st)
		if ln == tZero {
			st.setf(r.field("outputBuffer"), "#len", tZero)
		}
	}
	for _, k := range sortedKeys(st.cells) {
		// what belongs to the caller does not matter any more
		if b := baseOf(k); b.op == OApp || b.op == OGlobal && (b.v.(*ssa.Global).Pkg == nil || !inModule(b.v.(*ssa.Global).Pkg.Pkg)) {
			delete(st.cells, k)
		}
	}
	for _, k := range []string{"$got", "$op", "$ask1", "$ask2", "$stop", "$wn", "$asked"} {
		delete(st.mon, k)
	}
	setInt(st, "$stop", 0)
	if r.e.monInt(st, "$run") != 1 {
		setInt(st, "$pub", 0)
	}
	return true
}

// runAPI applies the operations in every order.
func (r *readerRun) runAPI() []*State {
	e := r.e
	outs := r.newObjects()
	r.api = true
	e.h.Go = r.goStmt
	e.h.Oblig, e.h.Panic = nil, nil
	cl := &client{e: e}
	cl.ops = r.c.L.methods("Reader", true)
	cl.before = func(st *State, op *ssa.Function) {
		st.mon["$op"] = mkStr(op.Name())
		setInt(st, "$race", 1)
	}
	cl.after = r.afterOp
	for _, st := range outs {
		setInt(st, "$run", 0)
		setInt(st, "$pub", 0)
		setInt(st, "$stop", 0)
		setInt(st, "$w1", 0)
		setInt(st, "$w2", 0)
		setInt(st, "$wg", 0)
		setInt(st, "$race", 1)
		st.mon["$er"] = tNil
	}
	cl.run(outs)
	r.c.counts["states of the operations"] += len(cl.states)
	r.c.counts["operations applied"] += cl.nCalls
	if e.verbose > 0 {
		fmt.Fprintln(os.Stderr, "API done", len(cl.states), cl.nCalls)
	}
	r.api = false
	e.h.Go = nil
	var sts []*State
	for _, k := range sortedInv(cl.states) {
		sts = append(sts, cl.states[k].st)
	}
	return sts
}

var readerFormats = []string{"DefaultFormat", "RawFormat", "ZlibFormat", "GZIPFormat"}

const readerExplain = "Every path of every operation sequence of a Reader (most general client; unknown options; a background decoder that may have done anything it can whenever a lock is acquired), and every path of the background decoder over unknown input and arbitrary read errors, are explored abstractly."

func readerParts(id string) {
	for _, f := range readerFormats {
		f := f
		addPart(id, "reader "+f, func(c *Ctx) {
			c.scope = id + "."
			c.format = f
			r := newReaderRun(c)
			r.runAPI()
			r.runThread()
			r.races()
			c.take(r.e, id+".")
			c.explain = append(c.explain, readerExplain)
			c.floor("states of the operations", 3)
			c.floor("operations applied", 30)
			c.floor("initial states", 1)
			c.floor("final states", 1)
		})
	}
}

func init() {
	for _, id := range []string{"C03", "C05", "C08", "C09", "C10", "C11", "C17"} {
		readerParts(id)
	}
	register("Rall", readerFormats, func(c *Ctx) {
		c.format = c.part
		r := newReaderRun(c)
		r.runAPI()
		r.runThread()
		r.races()
		c.take(r.e, "")
	})
	register("Rapi", readerFormats, func(c *Ctx) {
		c.format = c.part
		r := newReaderRun(c)
		r.runAPI()
		c.take(r.e, "")
	})
}
