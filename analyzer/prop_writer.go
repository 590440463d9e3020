package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// phases of the output grammar
const (
	phIdle = iota
	phHeader
	phBetween
	phBlock
	phTrees
	phBody
	phFinished
	phTrailer
	_
	phError
)

var phNames = []string{"no stream", "in the header", "between blocks", "block begun", "before the trees", "in a block", "after the final block", "in the trailer", "", "after an error"}

// life cycle as seen by the client
const (
	lcOpen = iota
	lcFailed
	lcClosed
)

// writerRun explores the most general client of a Writer.
type writerRun struct {
	c     *Ctx
	e     *Eng
	sink  map[*ssa.Function]bool
	send  *ssa.Function
	bits  *ssa.Function
	byts  *ssa.Function
	enum  map[string]int64 // constants of the root package
	names map[string]string
	lz    []string // LZ77 fields
	out   []string // Buffer fields
	cs    map[string]bool
	okN   map[string]int
}

func (L *Loaded) enumConsts() map[string]int64 {
	r := map[string]int64{}
	sp := L.byPath[modPath]
	for n, m := range sp.Members {
		if nc, ok := m.(*ssa.NamedConst); ok {
			if k, ok := constInt(nc.Value); ok {
				r[n] = k
			}
		}
	}
	return r
}

func constInt(c *ssa.Const) (int64, bool) {
	if c.Value == nil {
		return 0, false
	}
	if b, ok := c.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
		return 0, false
	}
	if !c.IsNil() {
		return c.Int64(), true
	}
	return 0, false
}

func (e *Eng) monInt(st *State, k string) int64 {
	if v, ok := st.mon[k]; ok && v.op == OInt {
		return v.k
	}
	return -1
}

func setInt(st *State, k string, v int64) { st.mon[k] = mkInt(v) }

func ifaceErr() types.Type { return types.Universe.Lookup("error").Type() }

func newWriterRun(c *Ctx) *writerRun {
	L := c.L
	e := newEng(L)
	e.verbose = c.verbose
	e.lite = true
	e.noLadder = true
	e.noKeyType = keepEnum("Format")
	e.noKeyCell = func(k *Term) bool {
		t := e.cellType(k)
		if t == nil {
			return false
		}
		_, isF := t.Underlying().(*types.Signature)
		return isF
	}
	e.protect = func(k string) bool {
		return strings.HasPrefix(k, modPath+".Writer.") || k == "*"+modPath+".Writer" || strings.HasPrefix(k, "*"+libBuffer) || strings.HasSuffix(k, ".Hash")
	}
	w := &writerRun{c: c, e: e, enum: L.enumConsts(), sink: map[*ssa.Function]bool{}, okN: map[string]int{}}
	w.anchors()
	return w
}

func (w *writerRun) method(name string) *ssa.Function {
	return w.c.L.fn(modPath, "(*Writer)."+name)
}

func (w *writerRun) anchors() {
	c := w.c
	get := func(n string) *ssa.Function {
		f := w.method(n)
		if f == nil {
			c.fail("anchor", "(*Writer)."+n, "", "the function was not found")
			panic(abort{"missing anchor " + n})
		}
		return f
	}
	w.send, w.bits, w.byts = get("sendEvent"), get("outputBitsWrite"), get("outputBufferWrite")
	for _, n := range []string{"outputBitsWrite", "outputBufferWrite", "outputBitsFlush"} {
		w.sink[get(n)] = true
	}
	// everything else that the bit sink consists of: methods of Writer that
	// write the bit accumulator or call the sink, but are not told data
	if f := w.method("outputBitsFlushWholeBytes"); f != nil {
		w.sink[f] = true
	}
	t := c.L.byPath[modPath].Type("Writer").Type()
	for _, x := range shape(t) {
		switch typeName(x.ty) {
		case libBuffer + ".LZ77":
			w.lz = append(w.lz, x.name)
		case libBuffer + ".Buffer":
			w.out = append(w.out, x.name)
		}
	}
	if len(w.lz) == 0 || len(w.out) == 0 {
		panic(abort{"the Writer has no LZ77 or Buffer field"})
	}
}

func (w *writerRun) inSink(st *State) bool {
	for _, f := range st.frames[:len(st.frames)-1] {
		if w.sink[f.fn] {
			return true
		}
	}
	return false
}

func (w *writerRun) bad(st *State, rule, construct, format string, args ...interface{}) {
	var at ssa.Instruction
	for i := len(st.frames) - 1; i >= 0; i-- {
		if st.frames[i].site != nil {
			at = st.frames[i].site
			break
		}
	}
	w.e.report(st, at, rule, construct, format, args...)
}

func (w *writerRun) caller(st *State) string {
	for i := len(st.frames) - 1; i >= 0; i-- {
		f := st.frames[i].fn
		if !w.sink[f] && f != w.send {
			return fnName(f)
		}
	}
	return "?"
}

func (w *writerRun) touch(st *State) { setInt(st, "$act", 1) }

// enter observes the calls of the anchors.
func (w *writerRun) enter(st *State, fn *ssa.Function, args []*Term) {
	switch {
	case fn == w.send:
		w.event(st, args[1])
	case w.sink[fn] && !w.inSink(st):
		switch fn {
		case w.bits:
			w.emit(st, args[1], args[2], nil)
		case w.byts:
			w.emit(st, nil, nil, args[1])
		}
	}
}

func (w *writerRun) ok(rule, construct string) {
	w.c.ok(rule, construct)
	w.c.counts[rule]++
}

// emit: bits or bytes are appended to the output.
func (w *writerRun) emit(st *State, n, bits, buf *Term) {
	w.touch(st)
	ph := w.e.monInt(st, "$ph")
	at := w.caller(st)
	what := "bits"
	if buf != nil {
		what = "bytes"
	}
	good := true
	switch ph {
	case phHeader, phTrailer:
		if buf == nil {
			good = false
		} else {
			l := st.sliceLen(buf)
			sum := tAdd(st.mon["$len"], l)
			if sum.op != OInt && st.ival(sum).lo >= 10 || sum.op == OInt && sum.k > 10 {
				sum = mkInt(10) // ten bytes or more
			}
			st.mon["$len"] = sum
		}
	case phBlock:
		if buf != nil || n != mkInt(3) {
			w.bad(st, "C07.block-header", at, "a block does not start with its 3 header bits")
			good = false
			break
		}
		w.ok("C07.block-header", at)
		bt, fin := st.mon["$bt"], st.mon["$fin"]
		want := -1
		if bt.op == OInt && fin.op == OBool {
			for i, nm := range []string{"StoredBlock", "StaticBlock", "DynamicBlock"} {
				if bt.k == w.enum[nm] {
					want = i << 1
				}
			}
			if fin == tTrue {
				want |= 1
			}
		}
		if want < 0 || bits != mkInt(int64(want)) {
			w.bad(st, "C01.block-type-bits", at, "the block header bits are %v for a block of type %v, final %v", bits, bt, fin)
		} else {
			w.ok("C01.block-type-bits", fmt.Sprintf("%s type %d", at, want))
		}
		if want >= 0 && want>>1 != 0 {
			setInt(st, "$ph", phTrees)
		} else {
			setInt(st, "$ph", phBody)
		}
	case phTrees, phBody, phError:
	default:
		good = false
	}
	if !good {
		w.bad(st, "C07.framing", at+" "+phNames[ph], "%s are written %s", what, phNames[ph])
	} else {
		w.ok("C07.framing", at+" "+phNames[ph])
	}
}

// event: a trace event is sent.
func (w *writerRun) event(st *State, ev *Term) {
	w.touch(st)
	ph := w.e.monInt(st, "$ph")
	ty := st.vcomp(ev, nil, "Type", nil)
	at := w.caller(st)
	if ty.op != OInt {
		w.bad(st, "C09.event", at, "the type of the event is not a constant")
		return
	}
	name := fmt.Sprint(ty.k)
	for n, k := range w.enum {
		if k == ty.k && strings.HasSuffix(n, "Event") {
			name = n
		}
	}
	has := func(f string) bool { return st.truth(tEq(st.vcomp(ev, nil, f, nil), tNil)) == -1 }
	need := func(f string, req bool) {
		if has(f) != req {
			w.bad(st, "C09.payload", at+" "+name, "the %s data of %s is present: %v", f, name, !req)
		} else {
			w.ok("C09.payload", at+" "+name+" "+f)
		}
	}
	next := func(from, to int64) {
		if ph != from {
			w.bad(st, "C09.order", at+" "+name+" "+phNames[ph], "%s is sent %s", name, phNames[ph])
			w.bad(st, "C07.framing", at+" "+name+" "+phNames[ph], "%s happens %s", name, phNames[ph])
		} else {
			w.ok("C09.order", at+" "+name)
		}
		setInt(st, "$ph", to)
	}
	blk := func() (bt, fin *Term) {
		p := st.vcomp(ev, nil, "Block", nil)
		return st.loadLeaf(mkField(p, "Type"), nil), st.loadLeaf(mkField(p, "IsFinal"), tyBool)
	}
	sameBlock := func() {
		if !has("Block") {
			return
		}
		bt, fin := blk()
		if bt != st.mon["$bt"] || fin != st.mon["$fin"] {
			w.bad(st, "C09.same-block", at+" "+name, "%s describes another block than the BlockBeginEvent", name)
		} else {
			w.ok("C09.same-block", at+" "+name)
		}
	}
	w.c.counts["event "+name]++
	if ph == phError {
		w.bad(st, "C09.after-error", at+" "+name, "%s is sent after the underlying writer failed", name)
		return
	}
	switch name {
	case "StreamBeginEvent":
		next(phIdle, phHeader)
		st.mon["$len"] = tZero
		setInt(st, "$any", 1)
	case "StreamHeaderEvent":
		need("Header", true)
		w.headerLen(st, at)
		next(phHeader, phBetween)
	case "BlockBeginEvent":
		need("Block", true)
		next(phBetween, phBlock)
		bt, fin := blk()
		st.mon["$bt"], st.mon["$fin"] = bt, fin
		if bt.op != OInt || fin.op != OBool {
			w.bad(st, "C09.payload", at+" block", "the block type %v or finality %v is not known", bt, fin)
		}
	case "BlockTreesEvent":
		need("Block", true)
		need("Trees", true)
		sameBlock()
		next(phTrees, phBody)
	case "BlockEndEvent":
		need("Block", true)
		sameBlock()
		to := int64(phBetween)
		if st.mon["$fin"] == tTrue {
			to = phFinished
		}
		next(phBody, to)
		st.mon["$bt"], st.mon["$fin"] = tZero, tFalse
	case "StreamEndEvent":
		w.settle(st, at)
		need("Footer", true)
		next(phFinished, phTrailer)
		st.mon["$len"] = tZero
	case "StreamCloseEvent":
		w.trailerLen(st, at)
		next(phTrailer, phIdle)
		st.mon["$len"] = tZero
	default:
		w.bad(st, "C09.event", at, "unknown event type %s", name)
	}
}

func (w *writerRun) format(st *State) string {
	v := st.getf(st.mon["$obj"], "format", nil)
	for _, n := range []string{"RawFormat", "ZlibFormat", "GZIPFormat"} {
		if v == mkInt(w.enum[n]) {
			return n
		}
	}
	return ""
}

func (w *writerRun) headerLen(st *State, at string) {
	l := st.mon["$len"]
	lo := st.ival(l).lo
	good := false
	switch w.format(st) {
	case "RawFormat":
		good = l == tZero
	case "ZlibFormat":
		good = lo >= 2 && st.ival(l).hi <= 6
	case "GZIPFormat":
		good = lo >= 10
	}
	if !good {
		w.bad(st, "C07.header", at+" "+w.format(st), "a header of %v bytes is written for format %q", l, w.format(st))
	} else {
		w.ok("C07.header", at+" "+w.format(st))
	}
}

func (w *writerRun) trailerLen(st *State, at string) {
	l := st.mon["$len"]
	want := map[string]int64{"RawFormat": 0, "ZlibFormat": 4, "GZIPFormat": 8}
	k, ok := want[w.format(st)]
	if !ok || l != mkInt(k) {
		w.bad(st, "C07.trailer", at+" "+w.format(st), "a trailer of %v bytes is written for format %q", l, w.format(st))
	} else {
		w.ok("C07.trailer", at+" "+w.format(st))
	}
}

func (w *writerRun) failed(st *State, er *Term) {
	if st.mon["$err"] == tNil {
		st.mon["$err"] = er
	}
	st.mon["$err2"] = er
}

// lib observes library operations.
func (w *writerRun) lib(st *State, c *callInfo, kind string, obj *Term, args []*Term) {
	switch kind {
	case "io.write":
		w.touch(st)
		setInt(st, "$fl", 0)
		setInt(st, "$sy", 0)
		w.c.counts["underlying Write"]++
		if args[1] != tNil {
			w.failed(st, args[1])
			setInt(st, "$ph", phError)
		}
	case "lz.write":
		// args: seg, n
		st.mon["$acc"] = tAdd(st.mon["$acc"], args[1])
	case "lz.wclear":
		setInt(st, "$wc", 1)
	case "lz.advance", "lz.consume":
		setInt(st, "$wc", 0)
		if kind == "lz.consume" {
			w.consumed(st, c, obj, args)
		}
	case "hash.reset", "hash.write":
		w.hashed(st, c, kind, obj, args)
	case "lz.setwindow":
		setInt(st, "$wc", 1)
	}
}

// invoke observes calls of the underlying writer's Flush and Sync.
func (w *writerRun) invoke(e *Eng, st *State, c *callInfo) ([]*State, bool) {
	m := c.cc.Method.Name()
	if m != "Flush" && m != "Sync" {
		return nil, false
	}
	w.touch(st)
	if m == "Flush" {
		setInt(st, "$fl", 1)
	} else {
		setInt(st, "$sy", 1)
	}
	w.c.counts["underlying "+m]++
	s2 := st.clone()
	er := freshErr("err" + m)
	st.ret = tNil
	if st.mon["$err"] == tNil {
		s2.mon["$err"] = er
	}
	s2.mon["$err2"] = er
	s2.ret = er
	return []*State{st, s2}, true
}

func (w *writerRun) sync(e *Eng, st *State, c *callInfo, kind string, obj *Term) []*State {
	switch kind {
	case "lock":
		k := mkField(obj, "#held")
		if st.cells[k] == tTrue {
			w.bad(st, "C10.double-lock", fnName(st.top().fn), "the mutex is locked while it is held")
			st.dead = true
			return nil
		}
		w.ok("C10.lock", fnName(st.top().fn))
		st.cells[k] = tTrue
	case "unlock":
		k := mkField(obj, "#held")
		if st.cells[k] != tTrue {
			w.bad(st, "C10.unlock", fnName(st.top().fn), "a mutex is unlocked that is not held")
			st.dead = true
			return nil
		}
		w.ok("C10.unlock", fnName(st.top().fn))
		st.cells[k] = tFalse
	}
	return done(st, nil)
}

// access checks that fields are accessed under the lock.
func (w *writerRun) access(st *State, at ssa.Instruction, addr *Term) {
	obj := st.mon["$obj"]
	if obj == nil || baseOf(addr) != obj || w.e.monInt(st, "$lc") < 0 {
		return
	}
	if w.held(st) {
		w.ok("C10.guarded", fnName(at.Parent()))
		return
	}
	w.e.report(st, at, "C10.guarded", fnName(at.Parent())+" "+leafName(addr), "%s is accessed without holding the mutex", leafName(addr))
}

func (w *writerRun) held(st *State) bool {
	obj := st.mon["$obj"]
	for k, v := range st.cells {
		if k.op == OField && k.s == "#held" && v == tTrue && baseOf(k) == obj {
			return true
		}
	}
	return false
}

func (w *writerRun) retErr(ret *Term) *Term {
	if ret != nil && ret.op == OTuple && len(ret.args) > 0 {
		return ret.args[len(ret.args)-1]
	}
	return ret
}

// after checks what an operation returned and left behind.
func (w *writerRun) after(st *State, op *ssa.Function, ret *Term) bool {
	e := w.e
	name := op.Name()
	lc := e.monInt(st, "$lc")
	if w.held(st) {
		w.bad(st, "C10.return-locked", name, "%s returns with the mutex held", name)
		return false
	}
	w.ok("C10.return-locked", name)
	w.settle(st, name)
	acted := e.monInt(st, "$act") != 0
	err := w.retErr(ret)
	ferr, ferr2 := st.mon["$err"], st.mon["$err2"]
	if ferr != tNil {
		// the documented ignorable error of Sync
		for _, x := range []*Term{ferr} {
			for f, b := range st.facts {
				if b && f.op == OApp && f.s == "errors.Is" && f.args[0] == x && e.monInt(st, "$sy") == 1 {
					ferr = tNil
				}
			}
		}
	}
	isErr := func(x *Term) bool { return st.truth(tEq(err, x)) == 1 }
	closedErr := e.gval("io/fs", "ErrClosed")
	switch name {
	case "Write", "Flush", "Close":
		switch {
		case lc == lcClosed:
			if !isErr(closedErr) {
				w.bad(st, "C07.closed", name, "%s on a closed Writer returns %v", name, err)
			} else {
				w.ok("C07.closed", name)
			}
			if acted {
				w.bad(st, "C07.closed", name+" output", "%s on a closed Writer produces output", name)
			}
		case lc == lcFailed:
			if !isErr(st.mon["$e"]) {
				w.bad(st, "C06.sticky", name, "%s after a failure returns %v instead of the first error", name, err)
			} else {
				w.ok("C06.sticky", name)
			}
			if acted {
				w.bad(st, "C06.sticky", name+" output", "%s after a failure produces output", name)
			}
			if name == "Close" {
				setInt(st, "$lc", lcClosed)
				st.mon["$e"] = tNil
			}
		case ferr != tNil:
			if !isErr(ferr) && !isErr(ferr2) {
				w.bad(st, "C06.reported", name, "%s returns %v although the underlying writer failed", name, err)
			} else {
				w.ok("C06.reported", name)
			}
			setInt(st, "$lc", lcFailed)
			setInt(st, "$ph", phError)
			st.mon["$e"] = err
			if name == "Close" {
				setInt(st, "$lc", lcClosed)
				st.mon["$e"] = tNil
			}
		default:
			if err != tNil && st.truth(tEq(err, tNil)) != 1 {
				w.bad(st, "C06.spurious", name, "%s returns the error %v although nothing failed", name, err)
			} else {
				w.ok("C06.spurious", name)
			}
			w.success(st, op, name, ret)
			if name == "Close" {
				setInt(st, "$lc", lcClosed)
			}
		}
	case "Reset":
		setInt(st, "$lc", lcOpen)
		setInt(st, "$ph", phIdle)
		setInt(st, "$any", 0)
		setInt(st, "$wc", 0)
		st.mon["$e"] = tNil
		st.mon["$bt"], st.mon["$fin"] = tZero, tFalse
		if acted {
			w.bad(st, "C07.reset", name, "Reset produces output")
		}
	default:
		if acted {
			w.bad(st, "C07.passive", name, "%s produces output", name)
		}
	}
	for _, k := range []string{"$err", "$err2", "$act", "$len", "$acc", "$arg", "$fl", "$sy"} {
		delete(st.mon, k)
	}
	return true
}

// success checks the guarantees of a successful operation.
func (w *writerRun) success(st *State, op *ssa.Function, name string, ret *Term) {
	e := w.e
	obj := st.mon["$obj"]
	ph := e.monInt(st, "$ph")
	zero := func(t *Term) bool { return st.truth(tEq0(t)) == 1 }
	switch name {
	case "Write":
		n := ret.args[0]
		ln := st.sliceLen(st.mon["$arg"])
		if !zero(tSub(n, ln)) {
			w.bad(st, "C06.accepted", name, "Write reports %v of %v bytes without an error", n, ln)
		} else {
			w.ok("C06.accepted", name)
		}
		if !st.proveLE0(tSub(ln, st.mon["$acc"])) {
			w.bad(st, "C06.accepted", name+" buffered", "Write reports success but has buffered %v of %v bytes", st.mon["$acc"], ln)
		} else {
			w.ok("C06.accepted", name+" buffered")
		}
		return
	}
	ft := int64(-1)
	if name == "Close" {
		ft = w.enum["FinishFlush"]
	} else if t := st.mon["$arg"]; t.op == OInt {
		ft = t.k
	} else {
		w.bad(st, "C16.kind", name, "Flush does not distinguish the flush type %v", t)
		return
	}
	if ft == w.enum["FinishFlush"] {
		if ph != phIdle {
			w.bad(st, "C07.finished", name, "%s(FinishFlush) leaves a stream open: %s", name, phNames[ph])
		} else {
			w.ok("C07.finished", name)
		}
		if name == "Close" && e.monInt(st, "$any") != 1 {
			w.bad(st, "C07.empty", name, "Close succeeds without having written any stream")
		} else {
			w.ok("C07.empty", name)
		}
	}
	kind := fmt.Sprintf("%s(%s)", name, w.flushName(ft))
	for _, f := range w.lz {
		if !zero(st.getf(mkField(obj, f), "#len", tyUint)) {
			w.bad(st, "C16.encoded", kind, "input (%v bytes) remains buffered after a successful %s", st.getf(mkField(obj, f), "#len", tyUint), kind)
		} else {
			w.ok("C16.encoded", kind)
		}
	}
	for _, f := range w.out {
		if !zero(st.getf(mkField(obj, f), "#len", tyUint)) {
			w.bad(st, "C16.handed-over", kind, "output remains buffered after a successful %s", kind)
		} else {
			w.ok("C16.handed-over", kind)
		}
	}
	ob := st.getf(obj, "obLen", nil)
	switch ft {
	case w.enum["BlockFlush"]:
	case w.enum["PartialFlush"]:
		if st.ival(ob).hi > 7 && !st.proveLE0(tAddK(ob, -7)) {
			w.bad(st, "C16.bits", kind, "up to %v bits remain after a successful %s", st.ival(ob).hi, kind)
		} else {
			w.ok("C16.bits", kind)
		}
	default:
		if !zero(ob) {
			w.bad(st, "C16.bits", kind, "the output is not byte-aligned after a successful %s", kind)
		} else {
			w.ok("C16.bits", kind)
		}
	}
	if ft == w.enum["FullFlush"] || ft == w.enum["FinishFlush"] {
		if e.monInt(st, "$wc") == 0 && ph != phIdle {
			w.bad(st, "C16.independent", kind, "the window is not cleared by a successful %s", kind)
		} else {
			w.ok("C16.independent", kind)
		}
	}
	for i, f := range []string{"flushWriter", "syncWriter"} {
		t := w.c.L.byPath[modPath].Type(f)
		if t == nil {
			panic(abort{"missing anchor " + f})
		}
		uw := st.getf(obj, "w", nil)
		is := mkApp("is:"+typeKey(t.Type()), tyBool, uw)
		if st.truth(is) != -1 && e.monInt(st, []string{"$fl", "$sy"}[i]) != 1 {
			w.bad(st, "C16.underlying", kind+" "+f, "the underlying writer's %s is not called after the last write of %s", strings.TrimSuffix(f, "Writer"), kind)
		} else {
			w.ok("C16.underlying", kind+" "+f)
		}
	}
}

func (w *writerRun) flushName(k int64) string {
	for n, v := range w.enum {
		if v == k && strings.HasSuffix(n, "Flush") {
			return n
		}
	}
	return fmt.Sprint(k)
}

func (w *writerRun) before(st *State, op *ssa.Function) {
	st.mon["$err"], st.mon["$err2"] = tNil, tNil
	setInt(st, "$act", 0)
	st.mon["$len"] = tZero
	st.mon["$acc"] = tZero
	setInt(st, "$fl", 0)
	setInt(st, "$sy", 0)
}

// run explores all operations.
func (w *writerRun) run() {
	e, L := w.e, w.c.L
	st := L.globalsState(func(s string) { panic(abort{s}) })
	lazyHook = e.defaultLazy
	ctor := L.rootFn("NewWriter")
	if ctor == nil {
		panic(abort{"missing anchor NewWriter"})
	}
	e.h.Enter = w.enter
	e.evHook = w.lib
	e.h.Invoke = w.invoke
	e.syncHook = w.sync
	e.h.Store = func(st *State, at ssa.Instruction, addr, v *Term) {
		w.access(st, at, addr)
		if obj := st.mon["$obj"]; obj != nil && addr == mkField(obj, "inputBytesStream") {
			w.counted(st, at, v)
		}
	}
	e.tidy = w.tidy
	e.h.Load = w.access
	c := &client{e: e, before: w.before, after: w.after}
	if f := w.c.format; f != "" {
		k, ok := w.enum[f]
		if !ok {
			panic(abort{"missing anchor " + f})
		}
		c.mine = func(s *State) bool { return s.getf(s.mon["$obj"], "format", nil) == mkInt(k) }
	}
	for _, m := range L.methods("Writer", true) {
		c.ops = append(c.ops, m)
	}
	c.argHook = func(st *State, op *ssa.Function, args []*Term) []*State {
		switch op.Name() {
		case "Write":
			st.mon["$arg"] = args[1]
		case "Flush":
			// one state for every flush type
			var outs []*State
			for _, n := range []string{"BlockFlush", "PartialFlush", "SyncFlush", "FullFlush", "FinishFlush"} {
				s := st.clone()
				if s.assume(tEq0(tAddK(args[1], -w.enum[n]))) && !s.dead {
					s.mon["$arg"] = mkInt(w.enum[n])
					outs = append(outs, s)
				}
			}
			return outs
		}
		return []*State{st}
	}
	args := c.callArgs(st, ctor, nil)
	st.assume(tNot(tEq(args[0], tNil)))
	for _, k := range []string{"$e"} {
		st.mon[k] = tNil
	}
	w.before(st, nil)
	setInt(st, "$ph", phIdle)
	setInt(st, "$any", 0)
	setInt(st, "$wc", 0)
	st.mon["$bt"], st.mon["$fin"] = tZero, tFalse
	outs := e.call(st, ctor, args, nil, nil)
	for _, o := range outs {
		o.mon["$obj"] = o.ret
		setInt(o, "$lc", lcOpen)
		for _, k := range []string{"$err", "$err2", "$act", "$len", "$acc", "$arg", "$fl", "$sy"} {
			delete(o.mon, k)
		}
	}
	// a Writer that was used before: what Reset leaves behind
	for _, o := range outs {
		s := o.clone()
		for k, v := range s.cells {
			if leafName(k) == "#h" && baseOf(k) == s.mon["$obj"] {
				s.cells[k] = s.freshOf(nil, "hash")
				_ = v
			}
		}
		outs = append(outs, s)
	}
	c.run(outs)
	w.c.counts["client states"] = len(c.states)
	w.c.counts["operations analysed"] = c.nCalls
	w.c.counts["basic blocks interpreted"] = e.nBlocks
	w.c.counts["functions"] = len(e.fnSeen)
	w.c.counts["calls inlined"] = e.nCalls
}

// The way of the data: what is taken from the input buffer must be counted
// and covered by both checksums, exactly once, before the trailer.

// consumed: data is taken from the input buffer.
func (w *writerRun) consumed(st *State, c *callInfo, obj *Term, args []*Term) {
	at := w.caller(st)
	w.settle(st, at)
	ph := w.e.monInt(st, "$ph")
	if ph == phIdle || ph == phHeader || ph == phTrailer || ph == phFinished {
		w.bad(st, "C04.coverage", at+" "+phNames[ph], "data is taken from the input buffer %s", phNames[ph])
	}
	st.mon["$$mv"] = args[1]
	st.mon["$$mb"], st.mon["$$mo"] = fifoOf(obj), args[0]
	if c.fn.Name() == "Read" {
		if p := st.resolve(c.args[1]); p.op == OSlice || p == tNil {
			st.mon["$$mb"], st.mon["$$mo"] = st.sliceBase(p), st.sliceOff(p)
		}
	}
	setInt(st, "$mf", 0)
}

func (w *writerRun) hashed(st *State, c *callInfo, kind string, obj *Term, args []*Term) {
	o := st.mon["$obj"]
	if o == nil {
		return
	}
	bit, f := int64(0), ""
	switch obj {
	case mkField(o, "inputBytesAdler32"):
		bit, f = 1, "the Adler-32"
	case mkField(o, "inputBytesCRC32"):
		bit, f = 2, "the CRC-32"
	default:
		return
	}
	at := w.caller(st)
	if kind == "hash.reset" {
		if ph := w.e.monInt(st, "$ph"); ph != phIdle && ph != phHeader && ph != phError && !(ph == phBetween && isZero(st, st.getf(o, "inputBytesStream", tyU64))) {
			w.bad(st, "C04.coverage", at+" reset "+f, "%s is reset %s", f, phNames[ph])
		} else {
			w.ok("C04.coverage", at+" reset "+f)
		}
		return
	}
	n := args[len(args)-1]
	mv, mf := st.mon["$$mv"], w.e.monInt(st, "$mf")
	p := st.resolve(c.args[1])
	good := isZero(st, n) && mv == nil
	if mv != nil && mf&bit == 0 && same(st, n, mv) {
		good = isZero(st, mv) || p.op == OSlice && st.sliceBase(p) == st.mon["$$mb"] && same(st, st.sliceOff(p), st.mon["$$mo"])
	}
	if good {
		w.ok("C04.coverage", at+" "+f)
	} else {
		w.bad(st, "C04.coverage", at+" "+f, "%s is updated with %v, but the %v bytes at %v of %v were taken from the input buffer", f, p, mv, st.mon["$$mo"], st.mon["$$mb"])
	}
	if mv != nil {
		setInt(st, "$mf", mf|bit)
	}
}

func (w *writerRun) counted(st *State, at ssa.Instruction, v *Term) {
	fn := fnName(at.Parent())
	old := st.getf(st.mon["$obj"], "inputBytesStream", tyU64)
	mv, mf := st.mon["$$mv"], w.e.monInt(st, "$mf")
	ph := w.e.monInt(st, "$ph")
	switch {
	case mv != nil && mf&4 == 0 && same(st, tSub(v, old), mv):
		setInt(st, "$mf", mf|4)
	case isZero(st, v) && (ph == phIdle || ph == phHeader || ph == phError):
	case same(st, v, old):
	default:
		w.bad(st, "C04.coverage", fn+" count", "the length of the stream changes from %v to %v %s, but %v bytes were taken from the input buffer", old, v, phNames[ph], mv)
		return
	}
	w.ok("C04.coverage", fn+" count")
}

// settle: what was taken must have been counted by now.
func (w *writerRun) settle(st *State, where string) {
	mv := st.mon["$$mv"]
	if mv != nil && !isZero(st, mv) && w.e.monInt(st, "$ph") != phError {
		for i, n := range []string{"the Adler-32", "the CRC-32", "the length of the stream"} {
			if w.e.monInt(st, "$mf")&(1<<i) == 0 {
				w.bad(st, "C04.coverage", n+" "+where, "data was taken from the input buffer, but %s was not updated", n)
			} else {
				w.ok("C04.coverage", n+" "+where)
			}
		}
	}
	w.forget(st)
}

func (w *writerRun) forget(st *State) {
	for _, k := range []string{"$$mv", "$$mb", "$$mo", "$mf"} {
		delete(st.mon, k)
	}
}

func (w *writerRun) tidy(st *State) {
	if mv := st.mon["$$mv"]; mv != nil && (w.e.monInt(st, "$mf") == 7 || isZero(st, mv)) {
		w.forget(st)
	}
}

// writerProps are decided by one exploration per format.
var writerProps = map[string]string{
	"C04": "Every path of every operation sequence of a Writer is explored abstractly (most general client; unknown options) while the bytes that leave the input buffer are followed into both checksums and the length of the stream.",
	"C06": "Every path of every operation sequence of a Writer is explored abstractly (most general client; unknown options, unknown underlying writer that may fail in every call) and every failure of the underlying writer is followed to the result of the operation and of all later operations.",
	"C07": "Every path of every operation sequence of a Writer is explored abstractly (most general client; unknown options) while an automaton of the output grammar observes each stream header, block header, trailer and event.",
	"C09": "Every path of every operation sequence of a Writer is explored abstractly (most general client; unknown options, unknown underlying writer that may fail in every call) while an automaton of the event grammar observes each event.",
	"C10": "Every path of every operation sequence of a Writer is explored abstractly (most general client; unknown options, unknown underlying writer that may fail in every call) with the set of held locks.",
	"C16": "Every path of every operation sequence of a Writer is explored abstractly (most general client; unknown options) and after every successful Flush or Close the buffers, the bit accumulator, the match window and the calls of the underlying writer are compared with the guarantee of the flush type.",
}

func init() {
	for id, explain := range writerProps {
		id, explain := id, explain
		for _, f := range []string{"RawFormat", "ZlibFormat", "GZIPFormat"} {
			f := f
			addPart(id, "writer "+f, func(c *Ctx) {
				c.format = f
				w := newWriterRun(c)
				w.run()
				c.take(w.e, id+".")
				c.explain = append(c.explain, explain)
				for k := range c.oblig {
					if !strings.HasPrefix(k, id+".") && c.oblig[k] {
						delete(c.oblig, k)
					}
				}
				c.floor("client states", 20)
				c.floor("underlying Write", 50)
				c.floor("event StreamBeginEvent", 2)
				c.floor("event BlockBeginEvent", 4)
				c.floor("event StreamCloseEvent", 2)
			})
		}
	}
	register("Wall", []string{"RawFormat", "ZlibFormat", "GZIPFormat"}, func(c *Ctx) {
		c.format = c.part
		w := newWriterRun(c)
		w.run()
		c.take(w.e, "")
	})
}
