package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Headers and trailers of a Writer, for C04, C14 and C15: writeHeader and
// writeFooter are interpreted on every combination of settings that matters,
// with unknown contents, and the bytes that reach the output buffer are
// compared with RFC 1950 and RFC 1952.

type wheadRun struct {
	*headRun
	mtime bool // the header has a modification time
	one   bool // the output buffer takes one byte first
	wide  bool // the modification time may be out of range
	why   string
}

func newWheadRun(c *Ctx) *wheadRun {
	w := &wheadRun{headRun: &headRun{symRun: newSymRunOf(c, "Writer"), enum: c.L.enumConsts()}}
	w.real = true
	w.hooks = map[string]func(st *State, c *callInfo) ([]*State, bool){}
	w.bySig = w.wlib
	return w
}

// wlib models the libraries a header is written with.
func (w *wheadRun) wlib(st *State, c *callInfo) ([]*State, bool) {
	n := c.fn.Name()
	recv := ""
	if s := c.fn.Signature.Recv(); s != nil {
		recv = typeName(derefIf(s.Type()))
	}
	switch recv {
	case libBuffer + ".Buffer":
		if !w.isField(c.args[0], "output") {
			return nil, false
		}
		switch n {
		case "Write":
			p := c.args[1]
			k := st.sliceLen(p)
			if w.one && w.e.monInt(st, "$short") == 0 && k.op == OInt && k.k >= 2 {
				setInt(st, "$short", 1)
				p = mkSlice(st.sliceBase(p), st.sliceOff(p), tOne, tOne)
				k = tOne
			}
			addTo(st, "$w", w.bytesOf(st, p)...)
			return done(st, mkTuple(k, tNil)), true
		case "WriteTo":
			return done(st, mkTuple(mkSym("written", types.Typ[types.Int64]), tNil)), true
		case "IsEmpty":
			return done(st, mkApp("nn:outempty", tyBool, mkSym("x", nil))), true
		}
		w.e.undecided(st, c.at, "the output buffer is used by %s", n)
		return nil, true
	case libBuffer + ".LZ77":
		switch n {
		case "WindowClear":
			st.mon["$win"] = tNil
			return done(st, nil), true
		case "SetWindow":
			st.mon["$win"] = c.args[1]
			return done(st, nil), true
		case "PrepareBulkRead":
			o := w.e.allocAt(st, "bulk", nil)
			st.havocContents(o, mkSym("content", nil))
			return done(st, mkSlice(o, tZero, tOne, tOne)), true
		case "Len", "IsEmpty", "IsFull":
			return nil, false
		}
		w.e.undecided(st, c.at, "the input buffer is used by %s", n)
		return nil, true
	case "time.Time":
		switch n {
		case "IsZero":
			return done(st, mkBool(!w.mtime)), true
		case "Unix":
			t := mkSym("unix", types.Typ[types.Int64])
			if u := st.mon["$unix"]; u != nil {
				return done(st, u), true
			}
			st.mon["$unix"] = t
			if !w.wide {
				st.assume(tLE0(tScale(t, -1)))
				st.assume(tLE0(tAddK(t, -0xfffffffe)))
			}
			return done(st, st.mon["$unix"]), true
		}
	case modPath + ".ExtraData":
		if n == "AsBytes" && st.mon["$xdata"] != nil {
			return done(st, st.mon["$xdata"]), true
		}
	case modPath + ".Writer":
		if n == "sendEvent" {
			ev := c.args[1]
			push(st, obs("event", st.vcomp(ev, nil, "Type", nil), st.vcomp(ev, nil, "Header", nil), st.vcomp(ev, nil, "Footer", nil), mkTuple(st.mon["$w"].args...)))
			return done(st, nil), true
		}
	}
	if n == "Parse" {
		return nil, false
	}
	return w.lib(st, c)
}

func (w *wheadRun) newWriter(format string) *State {
	st := w.state()
	setInt(st, "$short", 0)
	st.mon["$w"] = mkTuple()
	st.mon["$win"] = mkSym("earlier", nil)
	st.setf(w.obj, "format", mkInt(w.enum[format]))
	st.setf(w.obj, "obLen", tZero)
	st.setf(w.obj, "dict", tNil)
	st.setf(w.obj, "wbits", mkInt(15))
	st.setf(w.obj, "clevel", mkInt(6))
	st.setf(w.obj, "strategy", mkInt(w.enum["DefaultStrategy"]))
	st.setf(w.obj, "err", tNil)
	for _, s := range []string{"inputBytesAdler32", "inputBytesCRC32", "outputBytesCRC32"} {
		st.mon["$sum:"+s] = mkTuple(mkSym("earlier", nil))
	}
	return st
}

// set sets a member of the header.
func (w *wheadRun) set(st *State, f string, v *Term) {
	st.setf(mkField(w.obj, "header"), f, v)
}

func (w *wheadRun) plainHeader(st *State) {
	w.set(st, "FileName", mkStr(""))
	w.set(st, "Comment", mkStr(""))
	w.set(st, "DataType", mkInt(w.enum["BinaryData"]))
	w.set(st, "OSType", mkInt(w.enum["OSTypeUnix"]))
	st.setf(mkField(mkField(w.obj, "header"), "ExtraData"), "Records", tNil)
}

// str makes an unknown string of a given length without NUL bytes.
func (w *wheadRun) str(st *State, name string, n int64) *Term {
	if n == 0 {
		return mkStr("")
	}
	var l []*Term
	for i := int64(0); i < n; i++ {
		b := mkApp("chr:"+name, tyByte, mkInt(i))
		st.assume(tLE0(tSub(tOne, b)))
		st.assume(tLE0(tAddK(b, -255)))
		l = append(l, b)
	}
	return mkApp("string", tyStr, l...)
}

func (w *wheadRun) pos(n string) string { return w.c.L.posString(w.fn(n).Pos()) }

// number lists the bytes of a number.
func (w *wheadRun) number(st *State, v *Term, n int, big bool) []*Term {
	var l []*Term
	for i := 0; i < n; i++ {
		sh := i
		if big {
			sh = n - 1 - i
		}
		l = append(l, st.low(st.shr(v, 8*sh, 8*n, nil), 8, tyByte))
	}
	return l
}

func (w *wheadRun) equal(st *State, a, b *Term) bool {
	return a == b || isIntTerm(a) && isIntTerm(b) && st.proveEq0(tSub(a, b))
}

func (w *wheadRun) equalAll(st *State, a, b []*Term) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if !w.equal(st, a[i], b[i]) {
			return false
		}
	}
	return true
}

// started checks what every header must have done.
func (w *wheadRun) started(st *State, name, pos string, dict *Term) {
	c := w.c
	for _, s := range []string{"inputBytesAdler32", "inputBytesCRC32"} {
		c.decide(len(st.mon["$sum:"+s].args) == 0, "C04.start", name+" "+s, pos, "%s: %s does not start afresh with the stream", name, s)
		c.decide(len(st.mon["$sum:"+s].args) == 0, "C12.hash", name+" "+s, pos, "%s: %s still covers earlier data", name, s)
	}
	c.decide(st.proveEq0(st.getf(w.obj, "inputBytesStream", tyU64)), "C04.start", name+" length", pos, "%s: the length of the stream does not start at 0", name)
	win := st.mon["$win"]
	if dict == nil {
		c.decide(win == tNil, "C04.dictionary", name, pos, "%s: the stream starts with history %v although there is no dictionary", name, win)
	} else {
		c.decide(win == dict, "C04.dictionary", name, pos, "%s: the history at the start of the stream is %v instead of the dictionary", name, win)
	}
}

// write runs writeHeader or writeFooter.
func (w *wheadRun) write(st *State, fn string, f func(st *State, ok bool)) {
	n := 0
	for _, one := range []bool{false, true} {
		w.one = one
		for _, o := range w.e.call(st.clone(), w.fn(fn), []*Term{w.obj}, nil, nil) {
			if o.ret != tTrue {
				w.c.fail("C15.written", fn, w.pos(fn), fmt.Sprintf("%s gives up although nothing failed", fn))
				continue
			}
			n++
			f(o, true)
		}
	}
	if n == 0 {
		w.c.fail("C15.written", fn, w.pos(fn), fmt.Sprintf("%s does not return", fn))
	}
}

// headerEvent finds the header in the StreamHeaderEvent; it must be the last event.
func (w *wheadRun) headerEvent(st *State) *Term {
	l := outList(st)
	if len(l) == 0 || l[len(l)-1].args[0] != mkInt(w.enum["StreamHeaderEvent"]) {
		return nil
	}
	return l[len(l)-1].args[1]
}

func (w *wheadRun) strategies() []string {
	return []string{"DefaultStrategy", "HuffmanOnlyStrategy", "HuffmanRLEStrategy", "FixedStrategy"}
}

// zlibHeaders: every setting that can influence a zlib header.
func (w *wheadRun) zlibHeaders() {
	c := w.c
	pos := w.pos("(*Writer).writeHeader")
	for wb := int64(8); wb <= 15; wb++ {
		for cl := int64(0); cl <= 9; cl++ {
			for _, sn := range w.strategies() {
				for _, dict := range []bool{false, true} {
					c.counts["zlib headers written"]++
					name := fmt.Sprintf("window bits %d, level %d, %s, dictionary %v", wb, cl, sn, dict)
					st := w.newWriter("ZlibFormat")
					w.plainHeader(st)
					st.setf(w.obj, "wbits", mkInt(wb))
					st.setf(w.obj, "clevel", mkInt(cl))
					st.setf(w.obj, "strategy", mkInt(w.enum[sn]))
					var d *Term
					if dict {
						d = w.dictionary(st)
					}
					w.write(st, "(*Writer).writeHeader", func(st *State, ok bool) {
						if dict {
							d = st.mon["$dict"]
						}
						w.started(st, name, pos, d)
						b := st.mon["$w"].args
						good := len(b) >= 2 && b[0].op == OInt && b[1].op == OInt
						if !c.decide(good, "C04.zlib", name, pos, "%s: the header is %v", name, b) {
							return
						}
						cmf, flg := b[0].k, b[1].k
						c.decide(cmf&15 == 8 && cmf>>4 == wb-8, "C15.zlib", name, pos, "%s: CMF is %#02x", name, cmf)
						c.decide((cmf*256+flg)%31 == 0, "C04.zlib", name+" check", pos, "%s: the header %#02x %#02x is not divisible by 31", name, cmf, flg)
						c.decide(flg&0x20 != 0 == dict, "C04.zlib", name+" FDICT", pos, "%s: FLG is %#02x", name, flg)
						var want []*Term
						if dict {
							want = w.number(st, mkApp("adler32", tyU32, d), 4, true)
						}
						c.decide(w.equalAll(st, b[2:], want), "C04.zlib", name+" DICTID", pos, "%s: %v follows CMF and FLG instead of %v", name, b[2:], want)
						c.decide(w.headerEvent(st) != nil, "C09.header", name, pos, "%s: no StreamHeaderEvent ends the header", name)
					})
				}
			}
		}
	}
}

func (w *wheadRun) dictionary(st *State) *Term {
	o := w.e.allocAt(st, "dict", nil)
	n := mkSym("dictlen", tyInt)
	st.mon["$dict"] = mkSlice(o, tZero, n, n)
	st.assume(tLE0(tScale(n, -1)))
	st.setf(w.obj, "dict", st.mon["$dict"])
	return st.mon["$dict"]
}

// rawHeaders: a raw stream has no header.
func (w *wheadRun) rawHeaders() {
	c := w.c
	pos := w.pos("(*Writer).writeHeader")
	for _, dict := range []bool{false, true} {
		name := fmt.Sprintf("raw, dictionary %v", dict)
		c.counts["raw headers written"]++
		st := w.newWriter("RawFormat")
		w.plainHeader(st)
		var d *Term
		if dict {
			d = w.dictionary(st)
		}
		w.write(st, "(*Writer).writeHeader", func(st *State, ok bool) {
			if dict {
				d = st.mon["$dict"]
			}
			w.started(st, name, pos, d)
			c.decide(len(st.mon["$w"].args) == 0, "C07.raw", name, pos, "%s: a raw stream starts with %v", name, st.mon["$w"].args)
		})
	}
}

type gzipCase struct {
	name, comment    int64
	data             string
	os               string
	extra, mtime     bool
	level            int64
	strategy         string
	checkOS, checkXF bool
}

func (w *wheadRun) gzipHeader(g gzipCase) {
	c := w.c
	pos := w.pos("(*Writer).writeHeader")
	c.counts["gzip headers written"]++
	name := fmt.Sprintf("name of %d, comment of %d bytes, %s, %s, extra %v, time %v, level %d, %s", g.name, g.comment, g.data, g.os, g.extra, g.mtime, g.level, g.strategy)
	st := w.newWriter("GZIPFormat")
	w.plainHeader(st)
	w.mtime = g.mtime
	w.set(st, "FileName", w.str(st, "name", g.name))
	w.set(st, "Comment", w.str(st, "comment", g.comment))
	w.set(st, "DataType", mkInt(w.enum[g.data]))
	w.set(st, "OSType", mkInt(w.enum[g.os]))
	st.setf(w.obj, "clevel", mkInt(g.level))
	st.setf(w.obj, "strategy", mkInt(w.enum[g.strategy]))
	if g.extra {
		o := w.e.allocAt(st, "records", nil)
		k := mkSym("records", tyInt)
		st.mon["$records"] = mkSlice(o, tZero, k, k)
		st.assume(tLE0(tSub(tOne, k)))
		st.setf(mkField(mkField(w.obj, "header"), "ExtraData"), "Records", st.mon["$records"])
		x := w.e.allocAt(st, "xdata", nil)
		st.havocContents(x, mkApp("nn:xdata", nil))
		n := mkSym("xlen", tyInt)
		st.mon["$xdata"] = mkSlice(x, tZero, n, n)
		st.assume(tLE0(tSub(mkInt(4), n)))
		st.assume(tLE0(tAddK(st.sliceLen(st.mon["$xdata"]), -65535)))
	}
	w.write(st, "(*Writer).writeHeader", func(st *State, ok bool) {
		w.started(st, name, pos, nil)
		b := st.mon["$w"].args
		if !c.decide(len(b) >= 10 && b[3].op == OInt, "C15.layout", name, pos, "%s: the header is %v", name, b) {
			return
		}
		c.decide(b[0] == mkInt(0x1f) && b[1] == mkInt(0x8b) && b[2] == mkInt(8), "C15.magic", name, pos, "%s: the header starts with %v %v %v", name, b[0], b[1], b[2])
		ev := w.headerEvent(st)
		c.decide(ev != nil, "C09.header", name, pos, "%s: no StreamHeaderEvent ends the header", name)
		flg := b[3].k
		text := g.data == "TextData"
		if g.data == "UnknownData" {
			text = ev != nil && w.hdr(st, ev, "DataType") == mkInt(w.enum["TextData"])
		}
		want := int64(2)
		for bit, set := range map[int64]bool{1: text, 4: g.extra, 8: g.name > 0, 16: g.comment > 0} {
			if set {
				want |= bit
			}
		}
		c.decide(flg == want, "C15.flags", name, pos, "%s: the flags are %#02x instead of %#02x", name, flg, want)
		mt := []*Term{tZero, tZero, tZero, tZero}
		if g.mtime {
			u := st.mon["$unix"]
			if u == nil {
				u = mkSym("unread", types.Typ[types.Int64])
			}
			mt = w.number(st, u, 4, false)
		}
		c.decide(w.equalAll(st, b[4:8], mt), "C15.mtime", name, pos, "%s: the modification time is %v instead of %v", name, b[4:8], mt)
		xfl := int64(0)
		switch {
		case g.strategy == "HuffmanOnlyStrategy" || g.strategy == "HuffmanRLEStrategy":
			xfl = 4
		case g.level < 2:
			xfl = 4
		case g.level == 9:
			xfl = 2
		}
		c.decide(b[8] == mkInt(xfl), "C15.xfl", name, pos, "%s: the extra flags are %v instead of %d", name, b[8], xfl)
		os := int64(3) // the default
		for k, v := range rfcOS {
			if v == g.os {
				os = k
			}
		}
		c.decide(b[9] == mkInt(os) || g.os == "OSTypeUnknown" && b[9] == mkInt(255), "C14.os-code", name, pos, "%s: the OS code is %v instead of %d", name, b[9], os)
		// the optional fields
		var opt []*Term
		if g.extra {
			x := st.mon["$xdata"]
			opt = append(opt, w.number(st, st.sliceLen(x), 2, false)...)
			opt = append(opt, mkApp("part", nil, st.contentOf(st.sliceBase(x)), st.sliceOff(x), st.sliceLen(x)))
		}
		for _, s := range []struct {
			n string
			k int64
		}{{"name", g.name}, {"comment", g.comment}} {
			if s.k > 0 {
				opt = append(opt, w.str(st, s.n, s.k).args...)
				opt = append(opt, tZero)
			}
		}
		rest := b[10:]
		if !c.decide(len(rest) == len(opt)+2, "C15.layout", name+" length", pos, "%s: the optional fields are %v instead of %v and the checksum", name, rest, opt) {
			return
		}
		c.decide(w.equalAll(st, rest[:len(opt)], opt), "C15.layout", name+" fields", pos, "%s: the optional fields are %v instead of %v", name, rest[:len(opt)], opt)
		sum := mkApp("sum:outputBytesCRC32", tyU32, mkTuple(b[:len(b)-2]...))
		c.decide(w.equalAll(st, b[len(b)-2:], w.number(st, sum, 2, false)), "C04.header-crc", name, pos, "%s: the header ends with %v instead of the CRC-16 of the bytes before, %v", name, b[len(b)-2:], w.number(st, sum, 2, false))
		c.decide(w.equalAll(st, b[len(b)-2:], w.number(st, sum, 2, false)), "C12.hash", name+" header", pos, "%s: the CRC-16 of the header covers %v", name, b[len(b)-2:])
	})
}

func (w *wheadRun) gzipHeaders() {
	base := gzipCase{data: "BinaryData", os: "OSTypeUnix", level: 6, strategy: "DefaultStrategy"}
	for n := int64(0); n < 3; n++ {
		for k := int64(0); k < 3; k++ {
			for _, d := range []string{"BinaryData", "TextData", "UnknownData"} {
				for i := 0; i < 4; i++ {
					g := base
					g.name, g.comment, g.data, g.extra, g.mtime = n, k, d, i&1 != 0, i&2 != 0
					w.gzipHeader(g)
				}
			}
		}
	}
	for cl := int64(0); cl <= 9; cl++ {
		for _, s := range w.strategies() {
			g := base
			g.level, g.strategy = cl, s
			w.gzipHeader(g)
		}
	}
	w.osCodes()
}

func (w *wheadRun) osCodes() {
	g := gzipCase{data: "BinaryData", level: 6, strategy: "DefaultStrategy"}
	for _, o := range rfcOS {
		g.os = o
		w.gzipHeader(g)
	}
	g.os = "OSTypeUnknown"
	w.gzipHeader(g)
}

// trailers: the checksums and the length at the end of a stream.
func (w *wheadRun) trailers() {
	c := w.c
	pos := w.pos("(*Writer).writeFooter")
	for _, format := range []string{"RawFormat", "ZlibFormat", "GZIPFormat"} {
		c.counts["trailers written"]++
		st := w.newWriter(format)
		for _, s := range []string{"inputBytesAdler32", "inputBytesCRC32"} {
			st.mon["$sum:"+s] = mkTuple(mkSym("data", nil))
		}
		n := mkSym("inlen", tyU64)
		st.mon["$n"] = n
		st.setf(w.obj, "inputBytesStream", n)
		w.write(st, "(*Writer).writeFooter", func(st *State, ok bool) {
			a := mkApp("sum:inputBytesAdler32", tyU32, st.mon["$sum:inputBytesAdler32"])
			r := mkApp("sum:inputBytesCRC32", tyU32, st.mon["$sum:inputBytesCRC32"])
			var want []*Term
			switch format {
			case "ZlibFormat":
				want = w.number(st, a, 4, true)
			case "GZIPFormat":
				want = append(w.number(st, r, 4, false), w.number(st, st.low(st.mon["$n"], 32, tyU32), 4, false)...)
			}
			b := st.mon["$w"].args
			c.decide(w.equalAll(st, b, want), "C04.trailer", format, pos, "%s: the trailer is %v instead of %v", format, b, want)
			found := false
			for _, o := range outList(st) {
				if f := o.args[2]; o.args[0] == mkInt(w.enum["StreamEndEvent"]) {
					found = true
					ga, gc := st.load(mkField(f, "Adler32"), tyU32), st.load(mkField(f, "CRC32"), tyU32)
					c.decide(w.equal(st, ga, a) && w.equal(st, gc, r), "C04.event", format, pos, "%s: the event reports the checksums %v and %v", format, ga, gc)
				}
			}
			c.decide(found, "C04.event", format+" sent", pos, "%s: no StreamEndEvent is sent", format)
		})
	}
}

// givenHeader makes a header value.
func (w *wheadRun) givenHeader(st *State, f func(o *Term)) *Term {
	t := w.e.memberType2("Header")
	o := w.e.allocAt(st, "given", t)
	for _, n := range []string{"FileName", "Comment"} {
		st.setf(o, n, mkStr(""))
	}
	st.setf(o, "DataType", mkInt(w.enum["UnknownData"]))
	st.setf(o, "OSType", mkInt(w.enum["OSTypeUnknown"]))
	st.setf(mkField(o, "ExtraData"), "Records", tNil)
	f(o)
	return st.load(o, t)
}

// refused checks that SetHeader accepts a header only under a condition.
func (w *wheadRun) refused(name string, prep func(st *State, o *Term), cond func(st *State) *Term) {
	c := w.c
	f := w.fn("(*Writer).SetHeader")
	pos := w.pos("(*Writer).SetHeader")
	st := w.newWriter("GZIPFormat")
	w.real = true
	w.set0(st)
	h := w.givenHeader(st, func(o *Term) { prep(st, o) })
	c.counts["headers given"]++
	n := 0
	for _, o := range w.e.call(st, f, []*Term{w.obj, h}, nil, nil) {
		n++
		if o.truth(tEq(o.ret, tNil)) == -1 {
			kept := o.load(mkField(mkField(w.obj, "header"), "FileName"), tyStr) == o.mon["$old"]
			c.decide(kept, "C15.refuse", name+" kept", pos, "%s: the header is refused but stored: %v", name, o.load(mkField(mkField(w.obj, "header"), "FileName"), tyStr))
			continue
		}
		k := cond(o)
		c.decide(k != nil && o.truth(k) == 1, "C15.refuse", name, pos, "%s: the header is accepted", name)
	}
	if n == 0 {
		c.fail("C15.refuse", name, pos, name+": SetHeader does not return")
	}
}

// long tries a string of unknown length, or some lengths if a loop over the
// string is too much.
func (w *wheadRun) long(f string) {
	never := func(*State) *Term { return tFalse }
	defer func() {
		w.e.concrete = true
		switch x := recover().(type) {
		case nil:
		case abort:
			for _, n := range []int64{256, 257, 300} {
				n := n
				w.refused(fmt.Sprintf("%s of %d bytes", f, n), func(st *State, o *Term) { st.setf(o, f, w.str(st, f, n)) }, never)
			}
		default:
			panic(x)
		}
	}()
	w.e.concrete = false
	w.refused(f+" of more than 255 bytes", func(st *State, o *Term) {
		v := mkSym("long", tyStr)
		st.assume(tLE0(tSub(mkInt(256), st.strLen(v))))
		st.setf(o, f, v)
	}, never)
}

func (w *wheadRun) set0(st *State) {
	st.mon["$old"] = mkSym("oldname", tyStr)
	w.set(st, "FileName", st.mon["$old"])
}

// given: what SetHeader must refuse.
func (w *wheadRun) given() {
	never := func(*State) *Term { return tFalse }
	for _, f := range []string{"FileName", "Comment"} {
		f := f
		for n := int64(1); n <= 3; n++ {
			for z := int64(0); z < n; z++ {
				z, n := z, n
				w.refused(fmt.Sprintf("%s of %d bytes with a NUL at %d", f, n, z), func(st *State, o *Term) {
					l := append([]*Term{}, w.str(st, f, n).args...)
					l[z] = tZero
					st.setf(o, f, mkApp("string", tyStr, l...))
				}, never)
			}
		}
		w.long(f)
	}
	w.mtime = true
	w.wide = true
	w.refused("modification time", func(st *State, o *Term) {}, func(st *State) *Term {
		u := st.mon["$unix"]
		if u == nil {
			return nil
		}
		return tAnd(tLE0(tScale(u, -1)), tLE0(tAddK(u, -0xffffffff)))
	})
	w.mtime, w.wide = false, false
	w.refused("OS type", func(st *State, o *Term) {
		st.mon["$os"] = mkSym("os", tyByte)
		st.assume(tLE0(tAddK(st.mon["$os"], -255)))
		st.setf(o, "OSType", st.mon["$os"])
	}, func(st *State) *Term { return tLE0(tAddK(st.mon["$os"], -w.enum["OSTypeAcornRISCOS"])) })
	for k := int64(1); k <= 3; k++ {
		k := k
		w.refused(fmt.Sprintf("%d extra records", k), func(st *State, o *Term) {
			recs := w.records(st, k, func(i int64) *Term {
				x := w.e.allocAt(st, fmt.Sprintf("rec%d", i), nil)
				n := mkSym("reclen", tyInt)
				st.mon[fmt.Sprintf("$rec%d", i)] = n
				st.assume(tLE0(tScale(n, -1)))
				st.assume(tLE0(tAddK(n, -1<<40)))
				return mkSlice(x, tZero, n, n)
			})
			st.setf(mkField(o, "ExtraData"), "Records", recs)
		}, func(st *State) *Term {
			v := mkInt(4*k - 65535)
			for i := int64(0); i < k; i++ {
				v = tAdd(v, st.mon[fmt.Sprintf("$rec%d", i)])
			}
			return tLE0(v)
		})
	}
}

// records makes a list of records.
func (w *wheadRun) records(st *State, k int64, data func(i int64) *Term) *Term {
	o := w.e.allocAt(st, "records", nil)
	for i := int64(0); i < k; i++ {
		r := mkIndex(o, mkInt(i))
		for j := int64(0); j < 2; j++ {
			st.store(mkIndex(mkField(r, "ID"), mkInt(j)), mkApp("id", tyByte, mkInt(2*i+j)), tyByte)
		}
		st.setf(r, "Bytes", data(i))
	}
	return mkSlice(o, tZero, mkInt(k), mkInt(k))
}

// extraData: the layout of the extra field.
func (w *wheadRun) extraData() {
	c := w.c
	f := w.fn("(*ExtraData).AsBytes")
	pos := w.pos("(*ExtraData).AsBytes")
	for code := int64(0); code < 40; code++ {
		var lens []int64
		for x := code; x > 0; x /= 3 {
			lens = append(lens, (x-1)%3)
			x--
		}
		name := fmt.Sprintf("records of %v bytes", lens)
		st := w.state()
		xd := w.e.allocAt(st, "xd", w.e.memberType2("ExtraData"))
		st.setf(xd, "Records", w.records(st, int64(len(lens)), func(i int64) *Term {
			x := w.e.allocAt(st, fmt.Sprintf("rec%d", i), nil)
			for j := int64(0); j < lens[i]; j++ {
				st.store(mkIndex(x, mkInt(j)), mkApp("data", tyByte, mkInt(i), mkInt(j)), tyByte)
			}
			return mkSlice(x, tZero, mkInt(lens[i]), mkInt(lens[i]))
		}))
		var want []*Term
		for i, n := range lens {
			want = append(want, mkApp("id", tyByte, mkInt(int64(2*i))), mkApp("id", tyByte, mkInt(int64(2*i+1))), mkInt(n), tZero)
			for j := int64(0); j < n; j++ {
				want = append(want, mkApp("data", tyByte, mkInt(int64(i)), mkInt(j)))
			}
		}
		c.counts["extra fields encoded"]++
		n := 0
		for _, o := range w.e.call(st, f, []*Term{xd}, nil, nil) {
			n++
			b := w.bytesOf(o, o.ret)
			c.decide(w.equalAll(o, b, want), "C15.extra", name, pos, "%s: encoded as %v instead of %v", name, b, want)
		}
		c.decide(n > 0, "C15.extra", name+" returns", pos, "%s: AsBytes does not return", name)
	}
	f = w.fn("(*ExtraData).Parse")
	pos = w.pos("(*ExtraData).Parse")
	for k := int64(0); k <= 13; k++ {
		w.parse(k, 0, map[int64]*Term{}, "", f, pos)
	}
}

// parse tries every layout of the records from a position on.
func (w *wheadRun) parse(k, p int64, known map[int64]*Term, desc string, f *ssa.Function, pos string) {
	with := func(lo, hi *Term) map[int64]*Term {
		m := map[int64]*Term{p + 2: lo, p + 3: hi}
		for i, t := range known {
			m[i] = t
		}
		return m
	}
	if p+4 <= k {
		for n := int64(0); p+4+n <= k; n++ {
			w.parse(k, p+4+n, with(mkInt(n), tZero), fmt.Sprintf("%s %d", desc, n), f, pos)
		}
		known = with(nil, tZero)
		known[-1] = mkInt(p)
		w.parseOne(k, known, desc+" beyond the end", f, pos)
		known = with(nil, nil)
		known[-2] = mkInt(p)
		w.parseOne(k, known, desc+" far beyond the end", f, pos)
		return
	}
	w.parseOne(k, known, desc, f, pos)
}

func (w *wheadRun) parseOne(k int64, known map[int64]*Term, desc string, f *ssa.Function, pos string) {
	c := w.c
	name := fmt.Sprintf("an extra field of %d bytes with records of%s", k, desc)
	st := w.state()
	st.mon["$xd"] = w.e.allocAt(st, "xd", w.e.memberType2("ExtraData"))
	raw := w.e.allocAt(st, "raw", nil)
	st.mon["$raw"] = raw
	for i := int64(0); i < k; i++ {
		b := known[i]
		if b == nil {
			b = mkApp("raw", tyByte, mkInt(i))
			st.assume(tLE0(tAddK(b, -255)))
			if p := known[-1]; p != nil && i == p.k+2 {
				st.assume(tLE0(tSub(mkInt(k-p.k-3), b)))
			}
			if p := known[-2]; p != nil && i == p.k+3 {
				st.assume(tLE0(tSub(tOne, b)))
			}
		}
		st.store(mkIndex(raw, mkInt(i)), b, tyByte)
	}
	c.counts["extra fields decoded"]++
	n := 0
	for _, o := range w.e.call(st, f, []*Term{st.mon["$xd"], mkSlice(raw, tZero, mkInt(k), mkInt(k))}, nil, nil) {
		n++
		c.decide(w.parsed(o, o.mon["$xd"], o.mon["$raw"], k), "C15.extra", name, pos, "%s: %s", name, w.why)
	}
	c.decide(n > 0, "C15.extra", name+" returns", pos, "%s: Parse does not return", name)
}

// parsed compares the records with the bytes.
func (w *wheadRun) parsed(st *State, xd, raw *Term, k int64) bool {
	recs := st.load(mkField(xd, "Records"), w.e.memberType("ExtraData", "Records"))
	cnt := st.sliceLen(recs)
	if recs == tNil {
		cnt = tZero
	}
	if cnt.op != OInt {
		w.why = fmt.Sprintf("the number of records is %v", cnt)
		return false
	}
	num := func(p int64) *Term {
		return tAdd(st.load(mkIndex(raw, mkInt(p)), tyByte), tScale(st.load(mkIndex(raw, mkInt(p+1)), tyByte), 256))
	}
	p := int64(0)
	for i := int64(0); i < cnt.k; i++ {
		if p+4 > k {
			w.why = fmt.Sprintf("there is a record at %d", p)
			return false
		}
		n := num(p + 2)
		size := int64(-1)
		for x := int64(0); p+4+x <= k; x++ {
			if st.proveEq0(tAddK(n, -x)) {
				size = x
			}
		}
		r := mkIndex(st.sliceBase(recs), tAddK(st.sliceOff(recs), i))
		d := st.load(mkField(r, "Bytes"), w.e.memberType("ExtraDataRecord", "Bytes"))
		id := func(j int64) *Term { return st.load(mkIndex(mkField(r, "ID"), mkInt(j)), tyByte) }
		if id(0) != st.load(mkIndex(raw, mkInt(p)), tyByte) || id(1) != st.load(mkIndex(raw, mkInt(p+1)), tyByte) {
			w.why = fmt.Sprintf("record %d has the ID %v %v", i, id(0), id(1))
			return false
		}
		l := st.sliceLen(d)
		if !st.proveEq0(tSub(l, n)) || st.truth(tLE0(tAddK(n, p+4-k))) != 1 {
			w.why = fmt.Sprintf("record %d has %v bytes of %v", i, l, n)
			return false
		}
		if l != tZero && !(st.sliceBase(d) == raw && st.proveEq0(tAddK(st.sliceOff(d), -p-4))) {
			got := w.bytesOf(st, d)
			for j, b := range got {
				if b != st.load(mkIndex(raw, mkInt(p+4+int64(j))), tyByte) {
					w.why = fmt.Sprintf("record %d holds %v", i, d)
					return false
				}
			}
		}
		if size < 0 {
			if i+1 == cnt.k && st.truth(tLE0(tAddK(n, p+4-k))) == 1 && st.truth(tLE0(tSub(mkInt(k-p-7), n))) == 1 {
				return true // no room for another record
			}
			w.why = fmt.Sprintf("the length of record %d is not known", i)
			return false
		}
		p += 4 + size
	}
	if p+4 <= k && st.truth(tLE0(tAddK(num(p+2), p+4-k))) != -1 {
		w.why = fmt.Sprintf("the record at %d is ignored", p)
		return false
	}
	return true
}

// wheadParts adds the headers of a Writer to a property.
func wheadParts(id string, parts ...string) {
	for _, p := range parts {
		p := p
		addPart(id, "write "+p, func(c *Ctx) {
			c.scope = id + "."
			w := newWheadRun(c)
			switch p {
			case "zlib":
				w.zlibHeaders()
				c.floor("zlib headers written", 640)
			case "gzip":
				w.gzipHeaders()
				c.floor("gzip headers written", 100)
			case "raw":
				w.rawHeaders()
				c.floor("raw headers written", 2)
			case "os":
				w.osCodes()
				c.floor("gzip headers written", 15)
			case "given":
				w.given()
				c.floor("headers given", 19)
			case "extra":
				w.extraData()
				c.floor("extra fields encoded", 40)
				c.floor("extra fields decoded", 100)
			case "trailer":
				w.trailers()
				c.floor("trailers written", 3)
			}
			w.finish()
		})
	}
}

func init() {
	wheadParts("C04", "zlib", "gzip", "raw", "trailer")
	wheadParts("C15", "zlib", "gzip", "given", "extra")
	wheadParts("C14", "os")
	wheadParts("C12", "zlib", "gzip", "raw")
}
