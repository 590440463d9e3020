package main

import (
	"fmt"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// phases of the event grammar of a Reader
const (
	rpIdle = iota
	rpHeader
	rpBetween
	rpBlock
	rpBody
	rpFinished
	rpEnded
)

var rpNames = []string{"outside of a stream", "in the header", "between blocks", "in a block before its trees", "in a block after its trees", "after the final block", "in the trailer"}

// readerRun analyses the background decoder and the operations of a Reader.
type readerRun struct {
	c      *Ctx
	e      *Eng
	send   *ssa.Function
	thread *ssa.Function
	enum   map[string]int64
	obj    *Term
	locks  map[string]map[string]bool // field -> lock sets seen, as strings
	writes map[string]bool
	where  map[string]string
	api    bool // the operations are analysed, not the decoder
}

func newReaderRun(c *Ctx) *readerRun {
	var r *readerRun
	e := newEng(c.L)
	e.verbose = c.verbose
	e.lite = true
	e.notThis = e.gval("io", "EOF")
	e.rel = true
	e.noKeyType = keepEnum("Format", "BlockType")
	keep := map[string]bool{"outputErrorWasSet": true, "stopIsForced": true, "inputError": true, "format": true, "actualFormat": c.format != "DefaultFormat",
		"readThreadWasStarted": true, "readThreadWasStopped": true, "closed": true, "outputError": true, "#held": true, "r": true}
	e.noKeyCell = func(k *Term) bool {
		return k.op != OField || !keep[k.s] || r.api && k.s == "format"
	}
	e.extraKey = func(s *State) string {
		if r.obj != nil && r.flen(s, "inputBuffer") == tZero {
			return "empty"
		}
		return ""
	}
	e.protect = func(k string) bool {
		return strings.HasPrefix(k, modPath+".Reader.") || k == "*"+modPath+".Reader" || strings.HasPrefix(k, "*"+libBuffer) || strings.HasSuffix(k, ".Hash")
	}
	r = &readerRun{c: c, e: e, enum: c.L.enumConsts(), locks: map[string]map[string]bool{}, writes: map[string]bool{}, where: map[string]string{}}
	e.tidy = r.tidy
	r.send, r.thread = r.anchor("sendEvent"), r.anchor("readThread")
	return r
}

func (r *readerRun) anchor(n string) *ssa.Function {
	f := r.c.L.fn(modPath, "(*Reader)."+n)
	if f == nil {
		r.c.fail("anchor", "(*Reader)."+n, "", "the function was not found")
		panic(abort{"missing anchor " + n})
	}
	return f
}

func (r *readerRun) bad(st *State, rule, construct, format string, args ...interface{}) {
	var at ssa.Instruction
	for i := len(st.frames) - 1; i >= 0; i-- {
		if st.frames[i].site != nil {
			at = st.frames[i].site
			break
		}
	}
	r.e.report(st, at, rule, construct, format, args...)
}

func (r *readerRun) ok(rule, construct string) {
	r.c.ok(rule, construct)
	r.c.counts[rule]++
}

func (r *readerRun) check(st *State, good bool, rule, construct, format string, args ...interface{}) bool {
	if good {
		r.ok(rule, construct)
	} else {
		r.bad(st, rule, construct, format, args...)
	}
	return good
}

// where the innermost call comes from, without the event sender
func (r *readerRun) at(st *State) string {
	for i := len(st.frames) - 1; i >= 0; i-- {
		if f := st.frames[i].fn; f != r.send {
			return fnName(f)
		}
	}
	return "?"
}

func (r *readerRun) field(n string) *Term { return mkField(r.obj, n) }

func (r *readerRun) cell(st *State, n string) *Term { return st.getf(r.obj, n, nil) }

func (r *readerRun) flen(st *State, n string) *Term { return st.getf(r.field(n), "#len", tyUint) }

func heldOf(st *State, m *Term) bool { return st.cells[mkField(m, "#held")] == tTrue }

func (r *readerRun) heldSet(st *State) string {
	s := ""
	for _, k := range sortedKeys(st.cells) {
		if k.op == OField && k.s == "#held" && st.cells[k] == tTrue && baseOf(k) == r.obj {
			s += leafName(k.args[0]) + " "
		}
	}
	return s
}

// ------------------------------------------------------------------ locks

func (r *readerRun) sync(e *Eng, st *State, c *callInfo, kind string, obj *Term) []*State {
	fn := fnName(st.top().fn)
	switch kind {
	case "lock":
		if heldOf(st, obj) {
			r.bad(st, "C10.double-lock", fn+" "+leafName(obj), "%s is locked while it is held", leafName(obj))
			st.dead = true
			return nil
		}
		r.blocking(st, "lock "+leafName(obj))
		if obj == r.field("mu1") && heldOf(st, r.field("mu2")) {
			r.bad(st, "C10.order", fn, "mu1 is locked while mu2 is held")
			st.dead = true
			return nil
		}
		r.ok("C10.lock", fn+" "+leafName(obj))
		st.cells[mkField(obj, "#held")] = tTrue
		return r.acquired(st, obj)
	case "unlock":
		if !heldOf(st, obj) {
			r.bad(st, "C10.unlock", fn+" "+leafName(obj), "%s is unlocked but not held", leafName(obj))
			st.dead = true
			return nil
		}
		r.ok("C10.unlock", fn+" "+leafName(obj))
		st.cells[mkField(obj, "#held")] = tFalse
		return done(st, nil)
	case "cond.wait":
		return r.wait(st, obj)
	case "cond.signal", "cond.broadcast":
		n := r.condName(st, obj)
		if n == "cv1" {
			if w := e.monInt(st, "$w1"); w == 1 || kind == "cond.broadcast" {
				setInt(st, "$w1", 0)
			}
		} else if n == "cv2" {
			setInt(st, "$w2", 0)
		}
		r.c.counts[kind+" "+n]++
	case "wg.add":
		r.check(st, c.args[1] == tOne, "C11.start", fn+" Add", "WaitGroup.Add(%v) for one goroutine", c.args[1])
		st.mon["$wg"] = mkInt(e.monInt(st, "$wg") + 1)
	case "wg.done":
		st.mon["$wg"] = mkInt(e.monInt(st, "$wg") - 1)
	case "wg.wait":
		r.blocking(st, "WaitGroup.Wait")
		if !r.check(st, r.heldSet(st) == "", "C10.wait-locked", fn, "waits for the background decoder while holding %s", r.heldSet(st)) {
			return nil
		}
		// the decoder has stopped
		if e.monInt(st, "$run") == 1 {
			if e.monInt(st, "$stop") != 1 {
				r.bad(st, "C11.stop", fn, "waits for the background decoder without having asked it to stop")
			} else {
				r.ok("C11.stop", fn)
			}
			setInt(st, "$run", 0)
			r.threadEnded(st)
		}
	}
	return done(st, nil)
}

func (r *readerRun) condName(st *State, obj *Term) string {
	for _, n := range []string{"cv1", "cv2"} {
		if r.cell(st, n) == obj {
			return n
		}
	}
	return "?"
}

// blocking: the goroutine may have to wait here; the wake-ups that it owes
// must have been delivered.
func (r *readerRun) blocking(st *State, what string) { r.blockingAs(st, what, r.at(st)) }

func (r *readerRun) blockingAs(st *State, what, fn string) {
	if w := r.e.monInt(st, "$w1"); w > 0 {
		if n := st.mon["$wn"]; w == 1 && n != nil && st.truth(tEq0(n)) == 1 {
			setInt(st, "$w1", 0)
			return
		}
		r.bad(st, "C11.wake-reader", fn+" "+what, "data or an error was published, but blocked readers are not woken (%s) before %s", []string{"", "Signal", "Broadcast"}[w], what)
		setInt(st, "$w1", 0)
	} else {
		r.ok("C11.wake-reader", fn+" "+what)
	}
	if r.e.monInt(st, "$w2") > 0 && st.truth(tEq0(r.flen(st, "outputBuffer"))) != -1 {
		r.bad(st, "C11.wake-decoder", fn+" "+what, "room was made, but the blocked decoder is not woken before %s", what)
		setInt(st, "$w2", 0)
	} else {
		r.ok("C11.wake-decoder", fn+" "+what)
	}
}

// acquired: other goroutines may have changed what the lock protects.
func (r *readerRun) acquired(st *State, obj *Term) []*State {
	if r.e.monInt(st, "$run") != 1 {
		return done(st, nil)
	}
	if r.api {
		return r.acquiredAPI(st, obj)
	}
	switch leafName(obj) {
	case "mu1":
		// Close or Reset may have asked the decoder to stop
		if r.e.monInt(st, "$first") == 1 {
			setInt(st, "$first", 0)
		}
		s2 := st.clone()
		outs := done(st, nil)
		if r.e.monInt(s2, "$stop") != 1 {
			r.stopped(s2)
			outs = append(outs, done(s2, nil)...)
		}
		return outs
	case "mu2":
		r.drained(st)
	}
	return done(st, nil)
}

// stopped is what the stop request of another goroutine does to the decoder's
// state; the analysis of the operations checks that it does not more.
func (r *readerRun) stopped(st *State) {
	setInt(st, "$stop", 1)
	st.cells[r.field("outputErrorWasSet")] = tTrue
	st.cells[r.field("stopIsForced")] = tTrue
	st.cells[r.field("outputError")] = mkSym("nn:canceled", ifaceErr())
	st.setf(r.field("outputBuffer"), "#len", tZero)
}

// drained: readers may have taken data out of the output buffer.
func (r *readerRun) drained(st *State) {
	ln := r.flen(st, "outputBuffer")
	if ln == tZero {
		return
	}
	n := mkSym("outlen", tyUint)
	st.assume(tLE0(tSub(n, ln)))
	st.setf(r.field("outputBuffer"), "#len", n)
}

func (r *readerRun) wait(st *State, obj *Term) []*State {
	n := r.condName(st, obj)
	fn := r.at(st)
	mu := st.getf(obj, "L", nil)
	lk := r.field("mu2")
	if mu.op == OIface {
		lk = mu.args[0]
	}
	if !heldOf(st, lk) {
		r.bad(st, "C10.wait-unlocked", fn, "waits on %s without holding its mutex", n)
		return nil
	}
	if !r.check(st, strings.TrimSpace(r.heldSet(st)) == leafName(lk), "C10.wait-locked", fn, "waits on %s while holding %s", n, r.heldSet(st)) {
		return nil
	}
	r.blocking(st, "waiting on "+n)
	b := r.field("outputBuffer")
	ln := r.flen(st, "outputBuffer")
	size := tPow2(st.getf(b, "#nbits", tyUint))
	if r.api {
		good := n == "cv1" && st.truth(tEq0(ln)) == 1 && st.truth(tEq(r.cell(st, "outputError"), tNil)) == 1
		r.check(st, good, "C11.wait", fn, "waits on %s although it is not known that there is neither data nor an error", n)
		r.check(st, r.e.monInt(st, "$run") == 1 || r.e.monInt(st, "$run") == 2, "C11.wait-running", fn, "waits although no background decoder was started")
		return r.acquiredAPI(st, lk)
	}
	good := n == "cv2" && st.truth(tEq0(tSub(ln, size))) == 1
	r.check(st, good, "C11.wait", fn, "waits on %s although the output buffer is not known to be full", n)
	r.check(st, r.e.monInt(st, "$stop") != 1, "C11.wait-stopped", fn, "waits for readers after it was asked to stop")
	r.drained(st)
	return done(st, nil)
}

// --------------------------------------------------------------- accesses

func fieldOf(obj, addr *Term) string {
	for addr.op == OField || addr.op == OIndex {
		if addr.args[0] == obj {
			return addr.s
		}
		addr = addr.args[0]
	}
	return ""
}

func (r *readerRun) touchField(st *State, at ssa.Instruction, addr *Term, write bool) {
	if r.obj == nil || r.e.monInt(st, "$race") != 1 {
		return
	}
	f := fieldOf(r.obj, addr)
	if f == "" || strings.HasPrefix(f, "#") {
		return
	}
	m := r.locks[f]
	if m == nil {
		m = map[string]bool{}
		r.locks[f] = m
	}
	hs := r.heldSet(st)
	m[hs] = true
	if write {
		r.writes[f] = true
	}
	k := f + "|" + hs
	if r.where[k] == "" && at != nil {
		r.where[k] = fnName(at.Parent()) + " " + r.e.pos(at)
	}
}

// races: fields that are written must have a common lock.
func (r *readerRun) races() {
	for f, sets := range r.locks {
		r.c.counts["fields accessed"]++
		if !r.writes[f] {
			continue
		}
		var common map[string]bool
		for hs := range sets {
			cur := map[string]bool{}
			for _, l := range strings.Fields(hs) {
				if common == nil || common[l] {
					cur[l] = true
				}
			}
			common = cur
		}
		if len(common) == 0 {
			for hs := range sets {
				if len(strings.Fields(hs)) < 2 {
					w := r.where[f+"|"+hs]
					r.c.fail("C10.guarded", f+" "+strings.SplitN(w, " ", 2)[0], w, fmt.Sprintf("the field %s is accessed here with locks {%s}; no lock is common to all accesses of this field", f, strings.TrimSpace(hs)))
				}
			}
		} else {
			r.ok("C10.guarded", f)
		}
	}
}

func (r *readerRun) store(st *State, at ssa.Instruction, addr, v *Term) {
	r.touchField(st, at, addr, true)
	if r.api && r.obj != nil {
		r.storeAPI(st, at, addr, v)
	} else if f := ""; r.obj != nil && r.e.monInt(st, "$run") == 1 {
		if f = r.topField(addr); notDecoders[f] {
			r.bad(st, "C11.interference", fnName(at.Parent())+" "+f, "the background decoder changes the field %s", f)
		}
	}
	if r.obj == nil || r.e.monInt(st, "$race") != 1 {
		return
	}
	switch {
	case addr == r.field("outputError"):
		r.publish(st, at, v)
	case addr == r.field("outputBytesStream") && !r.api:
		r.counted(st, at, v)
	case addr == r.field("historyLen") && !r.api:
		r.history(st, at, v)
	}
}

func (r *readerRun) load(st *State, at ssa.Instruction, addr *Term) {
	r.touchField(st, at, addr, false)
}

// ext sees library calls that work on fields through a pointer.
func (r *readerRun) ext(e *Eng, st *State, c *callInfo) ([]*State, bool) {
	if strings.HasPrefix(c.name, bufV) && len(c.cc.Args) > 0 && r.obj != nil {
		if ld, ok := c.cc.Args[0].(*ssa.UnOp); ok && e.eval(st, ld.X) == r.field("inputBuffer") {
			setInt(st, "$asked", 1)
		}
	}
	for _, a := range c.args {
		if a != nil && a.op == OField && r.obj != nil && baseOf(a) == r.obj {
			if strings.HasPrefix(c.name, "(*sync.") {
				continue
			}
			r.touchField(st, c.at, a, true)
		}
	}
	return nil, false
}

// ----------------------------------------------------------------- decoder

// publish: an error is announced to the readers.
func (r *readerRun) publish(st *State, at ssa.Instruction, v *Term) {
	fn := fnName(at.Parent())
	if v == tNil {
		return
	}
	setInt(st, "$w1", 2)
	if r.api {
		return
	}
	if r.e.monInt(st, "$oe") == 1 || r.e.monInt(st, "$stop") == 1 {
		r.bad(st, "C05.first-error", fn, "an error is set although one was set before")
		return
	}
	r.ok("C05.first-error", fn)
	setInt(st, "$oe", 1)
	r.settle(st, fn)
	if ln := r.flen(st, "decodeBuffer"); st.truth(tEq0(ln)) != 1 {
		r.bad(st, "C05.data-first", fn, "an error is published while decoded data is still buffered")
	} else {
		r.ok("C05.data-first", fn)
	}
	corrupt := v.op == OIface && strings.HasSuffix(typeName(v.ty), "CorruptInputError")
	ph := r.e.monInt(st, "$ph")
	er := st.mon["$er"]
	eof := r.e.gval("io", "EOF")
	uneof := r.e.gval("io", "ErrUnexpectedEOF")
	at2 := fn + " " + rpNames[ph]
	switch {
	case ph == rpIdle:
		// between streams: the end of the input, or its error
		r.check(st, st.truth(tEq0(r.flen(st, "inputBuffer"))) == 1, "C08.stops-early", at2, "decoding ends between streams although there is more input")
		r.check(st, er != tNil && st.truth(tEq(v, er)) == 1, "C05.error", at2, "the error %v of the underlying reader is reported as %v", er, v)
	case er != tNil && r.e.monInt(st, "$asked") == 1 && st.truth(tEq0(r.flen(st, "inputBuffer"))) == 1:
		if st.truth(tEq(er, eof)) == 1 {
			r.check(st, v == uneof, "C05.truncated", at2, "truncated input is reported as %v", v)
		} else {
			r.check(st, st.truth(tEq(v, er)) == 1, "C05.error", at2, "the error %v of the underlying reader is reported as %v", er, v)
			r.check(st, st.truth(tEq(er, eof)) == -1, "C05.truncated", at2, "truncated input may be reported as the end of the data")
		}
	default:
		r.check(st, corrupt, "C03.clean-end", at2, "decoding ends in the middle of a stream with %v", v)
	}
}

// lib observes the library operations.
func (r *readerRun) lib(st *State, c *callInfo, kind string, obj *Term, args []*Term) {
	if r.obj == nil {
		return
	}
	f := fieldOf(r.obj, obj)
	r.c.counts[kind+" "+f]++
	if !r.api && r.e.monInt(st, "$race") == 1 {
		r.data(st, c, kind, f, args)
	}
	switch kind {
	case "io.read":
		r.blocking(st, "reading")
		if f != "inputBuffer" {
			return
		}
		fn := r.at(st)
		r.check(st, r.e.monInt(st, "$stop") != 1, "C11.read-stopped", fn, "the underlying reader is read after the decoder was asked to stop")
		r.check(st, st.mon["$er"] == tNil || st.truth(tEq(st.mon["$er"], tNil)) == 1, "C05.read-after-error", fn, "the underlying reader is read again after it failed")
	case "io.readerr":
		if f == "inputBuffer" {
			st.mon["$er"] = args[1]
		}
	case "buf.write":
		switch f {
		case "outputBuffer":
			r.check(st, r.e.monInt(st, "$oe") != 1, "C05.after-error", r.at(st), "data is delivered after an error was published")
			r.check(st, r.api || r.e.monInt(st, "$stop") != 1, "C05.after-error", r.at(st)+" stopped", "data is delivered after the Reader was closed or reset")
			if r.e.monInt(st, "$w1") < 1 {
				setInt(st, "$w1", 1)
				st.mon["$wn"] = args[1]
			}
		}
	case "buf.clear", "buf.read":
		if f == "inputBuffer" {
			setInt(st, "$asked", 0)
		}
		if f == "outputBuffer" && r.api && r.e.monInt(st, "$run") == 1 {
			setInt(st, "$w2", 1)
			if kind == "buf.read" {
				setInt(st, "$w1", 1)
				st.mon["$wn"] = r.flen(st, "outputBuffer")
			}
		}
		if f == "outputBuffer" && r.api && kind == "buf.read" {
			st.mon["$got"] = args[len(args)-1]
		}
	}
}

func (r *readerRun) event(st *State, ev *Term) {
	ph := r.e.monInt(st, "$ph")
	ty := st.vcomp(ev, nil, "Type", nil)
	at := r.at(st)
	r.settle(st, at)
	r.settleWindow(st, at)
	if ty.op != OInt {
		r.bad(st, "C09.event", at, "the type of the event is not a constant")
		return
	}
	name := fmt.Sprint(ty.k)
	for n, k := range r.enum {
		if k == ty.k && strings.HasSuffix(n, "Event") {
			name = n
		}
	}
	r.c.counts["event "+name]++
	r.check(st, r.e.monInt(st, "$oe") != 1, "C09.after-error", at+" "+name, "%s is sent after an error was published", name)
	if name == "StreamEndEvent" || name == "StreamCloseEvent" {
		r.check(st, r.e.monInt(st, "$stop") != 1, "C09.after-error", at+" stopped "+name, "%s is sent although decoding was stopped", name)
	}
	has := func(f string) bool { return st.truth(tEq(st.vcomp(ev, nil, f, nil), tNil)) == -1 }
	need := func(f string) {
		r.check(st, has(f), "C09.payload", at+" "+name+" "+f, "the %s data of %s is missing", f, name)
	}
	next := func(to int64, from ...int64) {
		good := false
		for _, x := range from {
			good = good || ph == x
		}
		r.check(st, good, "C09.order", at+" "+name+" "+rpNames[ph], "%s is sent %s", name, rpNames[ph])
		setInt(st, "$ph", to)
	}
	blk := func() (bt, fin *Term) {
		p := st.vcomp(ev, nil, "Block", nil)
		return st.loadLeaf(mkField(p, "Type"), nil), st.loadLeaf(mkField(p, "IsFinal"), tyBool)
	}
	same := func() {
		if !has("Block") {
			return
		}
		bt, fin := blk()
		good := st.truth(tEq0(tSub(bt, st.mon["$bt"]))) == 1 && (fin == st.mon["$fin"] || st.truth(fin) != 0 && st.truth(fin) == st.truth(st.mon["$fin"]))
		r.check(st, good, "C09.same-block", at+" "+name, "%s describes another block (%v, %v) than the BlockBeginEvent (%v, %v)", name, bt, fin, st.mon["$bt"], st.mon["$fin"])
	}
	stored := func() int { return st.truth(tEq0(tAddK(st.mon["$bt"], -r.enum["StoredBlock"]))) }
	switch name {
	case "StreamBeginEvent":
		next(rpHeader, rpIdle)
	case "StreamHeaderEvent":
		need("Header")
		next(rpBetween, rpHeader)
		setInt(st, "$fb", 1)
	case "BlockBeginEvent":
		need("Block")
		next(rpBlock, rpBetween)
		r.firstBlock(st, at)
		st.mon["$bt"], st.mon["$fin"] = blk()
	case "BlockTreesEvent":
		need("Block")
		need("Trees")
		same()
		r.check(st, stored() == -1, "C09.trees", at, "trees are announced for a block that may be a stored block")
		next(rpBody, rpBlock)
	case "BlockEndEvent":
		need("Block")
		same()
		if ph == rpBlock {
			r.check(st, stored() == 1, "C09.trees", at+" "+name, "a block that may be a Huffman block ends without a trees event")
		}
		to := int64(rpBetween)
		switch st.truth(st.mon["$fin"]) {
		case 1:
			to = rpFinished
		case 0:
			r.bad(st, "undecided", at+" finality", "the finality of the block is not known")
		}
		next(to, rpBlock, rpBody)
		st.mon["$bt"], st.mon["$fin"] = tZero, tFalse
	case "StreamEndEvent":
		need("Footer")
		next(rpEnded, rpFinished)
		r.check(st, st.truth(tEq0(r.flen(st, "decodeBuffer"))) == 1, "C03.coverage", at, "the trailer is checked while decoded data has not been delivered and counted")
		setInt(st, "$wd", 0)
	case "StreamCloseEvent":
		next(rpIdle, rpEnded)
	default:
		r.bad(st, "C09.event", at, "unknown event type %s", name)
	}
}

// call observes the events; the end of a block is split by its finality.
func (r *readerRun) call(e *Eng, st *State, c *callInfo) ([]*State, bool) {
	if r.obj == nil {
		return nil, false
	}
	if strings.Contains(c.name, "encoding/binary.") && byteOrder(st.clone(), c.name, c.fn.Name(), c.args) != nil {
		// the number is unknown, and has no relation to other values
		x := mkSym("num", c.resultType())
		p := c.args[len(c.args)-1]
		n := int64(2)
		if strings.HasSuffix(c.fn.Name(), "32") {
			n = 4
		}
		if !e.oblig(st, c.at, "index", tLE0(tSub(mkInt(n), st.sliceLen(p))), "index out of range") {
			return nil, true
		}
		return done(st, x), true
	}
	if c.fn != r.send {
		return nil, false
	}
	ss := []*State{st}
	ty := st.vcomp(c.args[1], nil, "Type", nil)
	if fin := st.mon["$fin"]; ty == mkInt(r.enum["BlockEndEvent"]) && fin != nil && st.truth(fin) == 0 {
		ss = nil
		y, n := fork(st, fin)
		for _, s := range []*State{y, n} {
			if s != nil {
				ss = append(ss, s)
			}
		}
	}
	var outs []*State
	for _, s := range ss {
		as := make([]*Term, len(c.args))
		for i, a := range c.args {
			as[i] = s.resolve(a)
		}
		r.event(s, as[1])
		outs = append(outs, e.call(s, c.fn, as, nil, c.at)...)
	}
	return outs, true
}

func (r *readerRun) oblig(st *State, at ssa.Instruction, kind string, cond *Term, what string) {
	if cl, ok := at.(ssa.CallInstruction); ok && kind == "nil" && cl.Common().IsInvoke() && typeName(cl.Common().Value.Type()) == modPath+".Tracer" {
		return // tracers are not data
	}
	k := fnName(at.Parent()) + " " + kind
	if st.truth(cond) == 1 {
		r.ok("C02.panic", k)
		return
	}
	r.e.report(st, at, "C02.panic", k, "%s is not excluded: %v", what, cond)
}

func (r *readerRun) panics(st *State, at ssa.Instruction, what string) {
	r.e.report(st, at, "C02.panic", fnName(at.Parent())+" "+what, "%s is reachable", what)
}

// newObjects are the Readers that NewReader makes, one per option choice.
func (r *readerRun) newObjects() []*State {
	e, L := r.e, r.c.L
	st := L.globalsState(func(s string) { panic(abort{s}) })
	lazyHook = e.defaultLazy
	ctor := L.rootFn("NewReader")
	if ctor == nil {
		panic(abort{"missing anchor NewReader"})
	}
	e.evHook = r.lib
	e.syncHook = r.sync
	e.h.Call = r.call
	e.h.Store = r.store
	e.h.Load = r.load
	e.h.Ext = r.ext
	cl := &client{e: e}
	args := cl.callArgs(st, ctor, nil)
	st.assume(tNot(tEq(args[0], tNil)))
	var outs []*State
	for _, o := range e.call(st, ctor, args, nil, nil) {
		o.mon["$obj"] = o.ret
		if r.obj != nil && r.obj != o.ret {
			panic(abort{"NewReader returns different objects"})
		}
		r.obj = o.ret
		o.ret, o.frames, o.hist = nil, nil, nil
		outs = append(outs, o)
	}
	if f := r.c.format; f != "" {
		k, ok := r.enum[f]
		if !ok {
			panic(abort{"missing anchor " + f})
		}
		var sel []*State
		for _, o := range outs {
			if o.getf(r.obj, "format", nil) == mkInt(k) {
				sel = append(sel, o)
			}
		}
		outs = sel
	}
	return outs
}

// begin: the decoder has been started.
func (r *readerRun) begin(st *State) {
	st.cells[r.field("readThreadWasStarted")] = tTrue
	setInt(st, "$race", 1)
	setInt(st, "$run", 1)
	setInt(st, "$first", 1)
	setInt(st, "$wg", 1)
	setInt(st, "$ph", rpIdle)
	setInt(st, "$oe", 0)
	setInt(st, "$stop", 0)
	setInt(st, "$w1", 0)
	setInt(st, "$w2", 0)
	st.mon["$er"] = tNil
	st.mon["$bt"], st.mon["$fin"] = tZero, tFalse
	for _, k := range []string{"$mf", "$fb", "$ha", "$hc", "$wd", "$h0"} {
		setInt(st, k, 0)
	}
}

// runThread analyses the background decoder.
func (r *readerRun) runThread() {
	e := r.e
	outs := r.newObjects()
	e.h.Oblig = r.oblig
	e.h.Panic = r.panics
	r.c.counts["initial states"] = len(outs)
	for _, st := range outs {
		r.begin(st)
		ends := e.call(st, r.thread, []*Term{r.obj}, nil, nil)
		r.c.counts["final states"] += len(ends)
		for _, o := range ends {
			r.ended(o)
		}
		if e.verbose > 0 {
			fmt.Fprintf(os.Stderr, "initial state done, %d ends, %d blocks\n", len(ends), e.nBlocks)
		}
	}
}

func (r *readerRun) ended(o *State) {
	r.blocking(o, "the end of the decoder")
	r.check(o, r.heldSet(o) == "", "C10.return-locked", "decoder", "the background decoder ends while holding %s", r.heldSet(o))
	r.check(o, r.e.monInt(o, "$wg") == 0, "C11.done", "decoder", "the background decoder does not call Done exactly once")
	r.check(o, r.e.monInt(o, "$oe") == 1 || r.e.monInt(o, "$stop") == 1, "C11.publishes", "decoder", "the background decoder ends without publishing an error")
	r.check(o, r.cell(o, "readThreadWasStopped") == tTrue, "C11.marks-stopped", "decoder", "the background decoder ends without marking itself as stopped")
}
