package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

// Headers and trailers of a Reader, for C03, C04, C08, C14 and C15: readHeader
// and readFooter are interpreted on an input whose bytes are unknown, except
// for those which select a case.

type headRun struct {
	*symRun
	header  *ssa.Function
	enum    map[string]int64
	strs    map[string]bool
	nonzero func(st *State, pos *Term) bool
	short   bool // the buffer may hold less than is asked for
	rule    string
}

func newHeadRun(c *Ctx) *headRun {
	h := &headRun{symRun: newSymRun(c), enum: c.L.enumConsts()}
	h.real = true
	h.hooks = map[string]func(st *State, c *callInfo) ([]*State, bool){}
	h.bySig = h.lib
	return h
}

func (h *headRun) in(st *State) *Term { return st.mon["$bytepos"] }

func (h *headRun) nextByte(st *State, pos *Term) *Term {
	v := h.inputByte(st, pos)
	if h.nonzero != nil && v.op != OInt {
		if h.nonzero(st, pos) {
			st.assume(tLE0(tSub(tOne, v)))
		}
	}
	return v
}

// fillSlice puts the next bytes of the input into a slice.
func (h *headRun) fillSlice(st *State, p *Term, pos *Term) {
	n := st.sliceLen(p)
	base, off := st.sliceBase(p), st.sliceOff(p)
	switch {
	case p == tNil || n == tZero:
	case n.isConst() && n.k <= 64:
		for i := int64(0); i < n.k; i++ {
			st.store(mkIndex(base, tAddK(off, i)), h.nextByte(st, tAddK(pos, i)), tyByte)
		}
	default:
		st.havocContents(base, mkApp("input", nil, pos, n))
	}
}

// bytesOf lists the bytes of a slice, for checksums.
func (h *headRun) bytesOf(st *State, p *Term) []*Term {
	n := st.sliceLen(p)
	if p == tNil || n == tZero {
		return nil
	}
	base, off := st.sliceBase(p), st.sliceOff(p)
	if n.isConst() && n.k <= 64 {
		var out []*Term
		for i := int64(0); i < n.k; i++ {
			out = append(out, st.load(mkIndex(base, tAddK(off, i)), tyByte))
		}
		return out
	}
	return []*Term{mkApp("part", nil, st.contentOf(base), off, n)}
}

func addTo(st *State, key string, ts ...*Term) {
	var as []*Term
	if t := st.mon[key]; t != nil {
		as = t.args
	}
	st.mon[key] = mkTuple(append(append([]*Term{}, as...), ts...)...)
}

func (h *headRun) isField(p *Term, name string) bool {
	return p.op == OField && p.args[0] == h.obj && p == mkField(h.obj, name)
}

// lib models the libraries a header is read with.
func (h *headRun) lib(st *State, c *callInfo) ([]*State, bool) {
	n := c.fn.Name()
	recv := ""
	if s := c.fn.Signature.Recv(); s != nil {
		recv = typeName(derefIf(s.Type()))
	}
	switch {
	case recv == libBuffer+".Buffer" && len(c.args) > 0:
		in := h.isField(c.args[0], "inputBuffer")
		if !in {
			return nil, false
		}
		switch n {
		case "IsEmpty":
			return done(st, tFalse), true
		case "ReadByte":
			v := h.nextByte(st, h.in(st))
			st.mon["$bytepos"] = tAddK(h.in(st), 1)
			return done(st, mkTuple(v, tNil)), true
		case "Read":
			h.fillSlice(st, c.args[1], h.in(st))
			n := st.sliceLen(c.args[1])
			st.mon["$bytepos"] = tAdd(h.in(st), n)
			return done(st, mkTuple(n, tNil)), true
		case "PrepareBulkRead":
			if !c.args[1].isConst() {
				return nil, false
			}
			setInt(st, "$fresh", h.e.monInt(st, "$filled"))
			mk := func(st *State, n int64) *State {
				o := h.e.allocAt(st, "bulk", nil)
				p := mkSlice(o, tZero, mkInt(n), mkInt(n))
				h.fillSlice(st, p, h.in(st))
				st.ret = p
				return st
			}
			var outs []*State
			if h.short {
				for k := int64(0); k < c.args[1].k; k++ {
					s2 := st.clone()
					setInt(s2, "$short", 1)
					outs = append(outs, mk(s2, k))
				}
			}
			setInt(st, "$short", 0)
			return append(outs, mk(st, c.args[1].k)), true
		}
		h.e.undecided(st, c.at, "the input buffer is used by %s", n)
		return nil, true
	case recv == modPath+"/internal/crc32.Hash" || recv == modPath+"/internal/adler32.Hash":
		f := "?"
		for _, x := range []string{"inputBytesCRC32", "outputBytesCRC32", "outputBytesAdler32", "inputBytesAdler32"} {
			if h.isField(c.args[0], x) {
				f = x
			}
		}
		key := "$sum:" + f
		switch n {
		case "Reset":
			st.mon[key] = mkTuple()
			return done(st, nil), true
		case "Write":
			addTo(st, key, h.bytesOf(st, c.args[1])...)
			return done(st, mkTuple(st.sliceLen(c.args[1]), tNil)), true
		case "Sum32":
			return done(st, mkApp("sum:"+f, tyU32, st.mon[key])), true
		}
	case recv == "bytes.Buffer":
		key := "$bb:" + c.args[0].String()
		switch n {
		case "WriteByte":
			addTo(st, key, c.args[1])
			return done(st, tNil), true
		case "String":
			v := st.mon[key]
			if v == nil {
				return done(st, mkStr("")), true
			}
			return done(st, mkApp("string", tyStr, v.args...)), true
		case "Reset":
			delete(st.mon, key)
		}
	case recv == modPath+".ExtraData" && n == "Parse":
		p := c.args[1]
		push(st, obs("parse", c.args[0], st.contentOf(st.sliceBase(p)), st.sliceOff(p), st.sliceLen(p)))
		return done(st, nil), true
	}
	switch c.name {
	case "github.com/chronos-tachyon/bufferpool.Get":
		o := h.e.allocAt(st, "bb", nil)
		st.mon["$bb:"+o.String()] = mkTuple()
		return done(st, o), true
	case modPath + "/internal/adler32.Checksum":
		p := c.args[0]
		return done(st, mkApp("adler32", tyU32, p)), true
	case modPath + "/internal/crc32.Checksum":
		p := c.args[0]
		return done(st, mkApp("crc32", tyU32, p)), true
	}
	if recv == modPath+".Reader" {
		switch n {
		case "corruptf":
			h.result(st, "corrupt")
			return nil, true
		case "propagateError":
			return nil, true
		case "sendEvent":
			ev := c.args[1]
			ty := st.vcomp(ev, nil, "Type", nil)
			if ty == mkInt(h.enum["StreamHeaderEvent"]) {
				h.result(st, "header", st.vcomp(ev, nil, "Header", nil))
				return nil, true
			}
			push(st, obs("event", ty))
			return done(st, nil), true
		case "inputBufferFill":
			setInt(st, "$filled", 1)
			return done(st, nil), true
		}
	}
	return nil, false
}

// inputBE and inputLE are the numbers in the input at a position.
func (h *headRun) inputNum(st *State, pos *Term, n int64, big bool) *Term {
	v := tZero
	for i := int64(0); i < n; i++ {
		k := i
		if big {
			k = n - 1 - i
		}
		v = tAdd(v, tScale(h.inputByte(st, tAddK(pos, i)), 1<<uint(8*k)))
	}
	return v
}

func (h *headRun) newState(format string) *State {
	st := h.state()
	st.mon["$bytepos"] = tZero
	setInt(st, "$short", 0)
	setInt(st, "$filled", 0)
	st.setf(h.obj, "format", mkInt(h.enum[format]))
	st.mon["$sum:inputBytesCRC32"] = mkTuple(mkSym("earlier", nil))
	return st
}

func (h *headRun) run(st *State, name string, result func(st *State, what string, args ...*Term)) {
	f := h.fn(name)
	h.result = result
	for _, o := range h.e.call(st, f, []*Term{h.obj}, nil, nil) {
		result(o, "returned", o.ret)
	}
	h.result = func(*State, string, ...*Term) {}
}

// hdr loads a member of the header of an event.
func (h *headRun) hdr(st *State, p *Term, f string) *Term {
	return st.load(mkField(p, f), h.e.memberType("Header", f))
}

// memberType is the type of a member of a structure of the root package.
func (e *Eng) memberType(typ, f string) types.Type {
	sp := e.prog.ImportedPackage(modPath)
	if m, ok := sp.Members[typ].(*ssa.Type); ok {
		if s, ok := m.Type().Underlying().(*types.Struct); ok {
			for i := 0; i < s.NumFields(); i++ {
				if s.Field(i).Name() == f {
					return s.Field(i).Type()
				}
			}
		}
	}
	panic(abort{"missing anchor " + typ + "." + f})
}

// memberType2 is a type of the root package.
func (e *Eng) memberType2(typ string) types.Type {
	if m, ok := e.prog.ImportedPackage(modPath).Members[typ].(*ssa.Type); ok {
		return m.Type()
	}
	panic(abort{"missing anchor " + typ})
}

// rfcOS is the table of operating systems of RFC 1952.
var rfcOS = map[int64]string{
	0: "OSTypeFAT", 1: "OSTypeAmiga", 2: "OSTypeVMS", 3: "OSTypeUnix", 4: "OSTypeVMCMS",
	5: "OSTypeAtariTOS", 6: "OSTypeHPFS", 7: "OSTypeMacintosh", 8: "OSTypeZSystem", 9: "OSTypeCPM",
	10: "OSTypeTOPS20", 11: "OSTypeNTFS", 12: "OSTypeQDOS", 13: "OSTypeAcornRISCOS",
}

// readGZIP checks what is made of a gzip header.  The flags are given, the
// names have a given number of (unknown) bytes, the extra field has an unknown
// length, everything else is unknown.
func (h *headRun) readGZIP() {
	c := h.c
	for flags := int64(0); flags < 256; flags++ {
		lens := []int64{0}
		if flags&0x18 != 0 && flags&0xe0 == 0 {
			lens = []int64{0, 1, 2}
		}
		for _, k := range lens {
			if flags&4 == 0 {
				h.gzipCase(flags, k, -1, 0)
				continue
			}
			for x := int64(0); x < 3; x++ {
				h.gzipCase(flags, k, -1, x)
			}
		}
	}
	for os := int64(0); os < 256; os++ {
		h.gzipCase(2, 0, os, 0)
	}
	c.counts["gzip headers read"] += 0
}

func (h *headRun) gzipCase(flags, strlen, os, xcase int64) {
	c := h.c
	c.counts["gzip headers read"]++
	pos := c.L.posString(h.fn("(*Reader).readHeader").Pos())
	name := fmt.Sprintf("FLG %#02x", flags)
	if os >= 0 {
		name = fmt.Sprintf("OS %d", os)
	}
	st := h.newState("GZIPFormat")
	st.setf(h.obj, "dict", tNil)
	hasX, hasN, hasC, hasH := flags&4 != 0, flags&8 != 0, flags&16 != 0, flags&2 != 0
	xlen := func(st *State) *Term { return h.inputNum(st, mkInt(10), 2, false) }
	x0, x1 := mkApp("byte", tyByte, mkInt(10)), mkApp("byte", tyByte, mkInt(11))
	start0 := mkInt(10)
	if hasX {
		switch xcase {
		case 0:
			start0 = mkInt(12)
		case 1:
			start0 = tAdd(tAddK(x0, 12), tScale(x1, 256))
		case 2:
			start0 = tAdd(mkInt(12), tScale(x1, 256))
		}
	}
	strStart := func(st *State) *Term { return start0 }
	h.known, h.knownByte = nil, nil
	h.knownByte = func(p *Term) (int64, bool) {
		switch {
		case p == mkInt(3):
			return flags, true
		case p == mkInt(9) && os >= 0:
			return os, true
		case hasX && p == mkInt(10) && xcase != 1:
			return 0, true
		case hasX && p == mkInt(11) && xcase == 0:
			return 0, true
		}
		// the end of the names
		if !hasN && !hasC {
			return 0, false
		}
		d := tSub(p, strStart(st))
		if d.op == OInt && d.k >= 0 {
			if d.k == strlen || hasN && hasC && d.k == 2*strlen+1 {
				return 0, true
			}
		}
		return 0, false
	}
	h.nonzero = func(st *State, p *Term) bool {
		if hasX && (p == mkInt(10) && xcase == 1 || p == mkInt(11) && xcase == 2) {
			return true
		}
		if !hasN && !hasC {
			return false
		}
		d := tSub(p, strStart(st))
		last := strlen
		if hasN && hasC {
			last = 2*strlen + 1
		}
		return d.op == OInt && d.k >= 0 && d.k < last
	}
	accepted := 0
	h.run(st, "(*Reader).readHeader", func(st *State, what string, args ...*Term) {
		b := func(i int64) *Term { return h.inputByte(st, mkInt(i)) }
		magic := tAnd(tAnd(tEq0(tAddK(b(0), -0x1f)), tEq0(tAddK(b(1), -0x8b))), tEq0(tAddK(b(2), -8)))
		// the position after all optional fields
		at := strStart(st)
		var fname, comment *Term
		str := func() *Term {
			var l []*Term
			for i := int64(0); i < strlen; i++ {
				l = append(l, h.inputByte(st, tAddK(at, i)))
			}
			at = tAddK(at, strlen+1)
			return mkApp("string", tyStr, l...)
		}
		fname, comment = mkStr(""), mkStr("")
		if hasN {
			fname = str()
		}
		if hasC {
			comment = str()
		}
		end := at
		// the checksum of everything before
		var sum []*Term
		for i := int64(0); i < 10; i++ {
			sum = append(sum, b(i))
		}
		if hasX {
			sum = append(sum, b(10), b(11))
			if n := xlen(st); n.op != OInt || n.k != 0 {
				sum = append(sum, mkApp("part", nil, mkApp("input", nil, mkInt(12), n), tZero, n))
			}
		}
		for p := strStart(st); p != at; p = tAddK(p, 1) {
			sum = append(sum, h.inputByte(st, p))
		}
		crcOK := tTrue
		if hasH {
			crc := mkApp("sum:inputBytesCRC32", tyU32, mkTuple(sum...))
			crcOK = tEq0(tSub(st.low(crc, 16, tyU16), h.inputNum(st, at, 2, false)))
			end = tAddK(at, 2)
		}
		fail := func(rule, f string, a ...interface{}) {
			c.fail(rule, name, pos, fmt.Sprintf("%s: %s", name, fmt.Sprintf(f, a...)))
		}
		switch what {
		case "corrupt":
			if flags&0xe0 != 0 || st.truth(magic) == -1 || st.truth(crcOK) == -1 {
				return
			}
			fail("C15.rejects", "a valid header is rejected as corrupt")
			return
		case "returned":
			if args[0] != tFalse {
				fail("C03.header", "the header is accepted without a StreamHeaderEvent")
			}
			return
		}
		accepted++
		if flags&0xe0 != 0 {
			fail("C03.header", "reserved flags are accepted")
			return
		}
		if st.truth(magic) != 1 {
			fail("C03.header", "the header is accepted without the gzip magic and method 8")
		}
		if st.truth(crcOK) != 1 {
			fail("C03.header-crc", "the header is accepted although the CRC-16 of the header bytes may differ: %v", st.mon["$sum:inputBytesCRC32"])
		}
		if !st.proveEq0(tSub(h.in(st), end)) {
			fail("C15.position", "the header ends after %v bytes instead of %v", h.in(st), end)
		}
		p := args[0]
		same := func(f string, want *Term) {
			if got := h.hdr(st, p, f); got != want {
				fail("C15.member", "%s is %v instead of %v", f, got, want)
			}
		}
		same("FileName", fname)
		same("Comment", comment)
		same("DataType", mkInt(h.enum[map[bool]string{true: "TextData", false: "BinaryData"}[flags&1 != 0]]))
		level, want := h.hdr(st, p, "CompressLevel"), h.enum["DefaultCompression"]
		if st.proveEq0(tAddK(b(8), -2)) {
			want = 9
		} else if st.proveEq0(tAddK(b(8), -4)) {
			want = 1
		} else if st.truth(tEq0(tAddK(b(8), -2))) != -1 || st.truth(tEq0(tAddK(b(8), -4))) != -1 {
			want = -99
		}
		if level != mkInt(want) {
			fail("C15.member", "the compression level is %v for extra flags %v", level, b(8))
		}
		mtime := h.inputNum(st, mkInt(4), 4, false)
		tm := h.hdr(st, p, "LastModified")
		set := tm.op == OStruct && len(tm.args) == 1 && tm.args[0].op == OApp && tm.args[0].s == "time.Unix"
		if set && !(st.proveEq0(tSub(tm.args[0].args[0], mtime)) && tm.args[0].args[1] == tZero) {
			fail("C15.member", "the modification time is %v instead of %v", tm, mtime)
		}
		if !set && st.truth(tEq0(mtime)) != 1 {
			fail("C15.member", "the modification time is %v though MTIME may be nonzero", tm)
		}
		if os >= 0 {
			want, ok := rfcOS[os]
			if !ok {
				want = "OSTypeUnknown"
			}
			k, known := h.enum[want]
			if !known {
				panic(abort{"missing anchor " + want})
			}
			got := h.hdr(st, p, "OSType")
			c.decide(got == mkInt(k), "C14.os-code", name, pos, "the OS code %d is read as %v instead of %s (%d)", os, got, want, k)
		}
		// the extra field
		var parsed []*Term
		for _, o := range outList(st) {
			if o.s == "obs:parse" {
				parsed = append(parsed, o)
			}
		}
		switch {
		case !hasX && len(parsed) > 0:
			fail("C15.member", "an extra field is parsed though none is announced")
		case hasX:
			good := len(parsed) == 1 && st.proveEq0(tSub(parsed[0].args[3], xlen(st)))
			if good && st.truth(tEq0(xlen(st))) != 1 {
				ct := parsed[0].args[1]
				good = ct.op == OApp && ct.s == "input" && ct.args[0] == mkInt(12) && parsed[0].args[2] == tZero
			}
			if !good {
				fail("C15.member", "the extra field is not parsed from the XLEN bytes after the length: %v", parsed)
			}
		}
		c.ok("C15.header-read", name)
	})
	if flags&0xe0 == 0 && accepted == 0 {
		c.fail("C15.rejects", name, pos, fmt.Sprintf("%s: no header with these flags is accepted", name))
	}
	h.knownByte, h.nonzero = nil, nil
}

// zlibWanted is the condition under which a zlib header is to be accepted.
type zlibWanted struct {
	b0, b1 int64
	dict   bool
}

func (z zlibWanted) fixed() bool {
	return (z.b0*256+z.b1)%31 == 0 && z.b0&15 == 8
}

func (h *headRun) dictState(format string, dict bool) *State {
	st := h.newState(format)
	if dict {
		o := h.e.allocAt(st, "dict", nil)
		n := mkSym("dictlen", tyInt)
		st.mon["$dict"] = mkSlice(o, tZero, n, n)
		st.assume(tLE0(tScale(n, -1)))
		st.setf(h.obj, "dict", st.mon["$dict"])
	} else {
		st.setf(h.obj, "dict", tNil)
	}
	st.mon["$wbits"] = mkSym("wbits", tyByte)
	st.setf(h.obj, "wbits", st.mon["$wbits"])
	st.assume(tLE0(tAddK(st.mon["$wbits"], -15)))
	st.assume(tLE0(tSub(mkInt(8), st.mon["$wbits"])))
	st.setf(h.obj, "wbits", st.mon["$wbits"])
	return st
}

// zlibOutcome checks the end of a zlib header.
func (h *headRun) zlibOutcome(st *State, z zlibWanted, name, pos, what string, args []*Term) {
	c := h.c
	fits := tLE0(tSub(mkInt(8+z.b0>>4), st.mon["$wbits"]))
	fdict := z.b1&0x20 != 0
	sum := tTrue
	if z.dict {
		sum = tEq0(tSub(mkApp("adler32", tyU32, st.mon["$dict"]), h.inputNum(st, mkInt(2), 4, true)))
	}
	fail := func(rule, f string, a ...interface{}) {
		c.fail(rule, name, pos, fmt.Sprintf("%s: %s", name, fmt.Sprintf(f, a...)))
	}
	switch what {
	case "corrupt":
		if z.fixed() && fdict == z.dict && st.truth(fits) != -1 && st.truth(sum) != -1 {
			fail("C08.rejects", "a valid zlib header is rejected")
		}
	case "returned":
		if args[0] != tFalse {
			fail("C03.header", "the header is accepted without a StreamHeaderEvent")
		}
	case "header":
		switch {
		case !z.fixed():
			fail("C03.header", "the header is accepted though its check bits or method are wrong")
		case st.truth(fits) != 1:
			fail("C08.window", "a window larger than the Reader's is accepted")
		case fdict != z.dict:
			fail("C08.dictionary", "a stream is accepted though only one side uses a dictionary")
		case st.truth(sum) != 1:
			fail("C08.dictionary", "another dictionary is accepted")
		}
		n := int64(2)
		if fdict {
			n = 6
		}
		if h.in(st) != mkInt(n) {
			fail("C08.position", "the header ends after %v bytes instead of %d", h.in(st), n)
		}
		if f := st.getf(h.obj, "actualFormat", tyByte); f != mkInt(h.enum["ZlibFormat"]) {
			fail("C08.format", "a zlib stream is treated as format %v", f)
		}
	}
}

func (h *headRun) give(bs ...int64) {
	h.knownByte = func(p *Term) (int64, bool) {
		if p.op == OInt && p.k >= 0 && p.k < int64(len(bs)) {
			return bs[p.k], true
		}
		return 0, false
	}
}

// readZlib tries every pair of first bytes.
func (h *headRun) readZlib(dict bool) {
	c := h.c
	pos := c.L.posString(h.fn("(*Reader).readHeader").Pos())
	for b0 := int64(0); b0 < 256; b0++ {
		for b1 := int64(0); b1 < 256; b1++ {
			c.counts["zlib headers read"]++
			h.give(b0, b1)
			z := zlibWanted{b0, b1, dict}
			name := fmt.Sprintf("CMF %#02x, FLG %#02x, dictionary %v", b0, b1, dict)
			accepted := false
			h.run(h.dictState("ZlibFormat", dict), "(*Reader).readHeader", func(st *State, what string, args ...*Term) {
				accepted = accepted || what == "header"
				h.zlibOutcome(st, z, name, pos, what, args)
			})
			if z.fixed() && (b1&0x20 != 0) == dict && b0>>4 <= 7 && !accepted {
				c.fail("C08.rejects", name, pos, name+": no such stream is accepted")
			}
		}
		c.ok("C03.header", fmt.Sprintf("CMF %#02x, dictionary %v", b0, dict))
		c.ok("C08.dictionary", fmt.Sprintf("CMF %#02x, dictionary %v", b0, dict))
	}
}

// readAuto tries every pair of first bytes with automatic detection.
func (h *headRun) readAuto(format string) {
	c := h.c
	pos := c.L.posString(h.fn("(*Reader).readHeader").Pos())
	raw := mkInt(h.enum["RawFormat"])
	for b0 := int64(0); b0 < 256; b0++ {
		for b1 := int64(0); b1 < 256; b1++ {
			c.counts["streams recognised"]++
			h.give(b0, b1, 8, 0)
			z := zlibWanted{b0, b1, false}
			name := fmt.Sprintf("%s, first bytes %#02x %#02x", format, b0, b1)
			want := "raw"
			if format != "RawFormat" {
				if z.fixed() {
					want = "zlib"
				}
				if b0 == 0x1f && b1 == 0x8b {
					want = "gzip"
				}
			}
			h.short = b1 == 0x8b || b1 == 0x01
			accepted := false
			h.run(h.dictState(format, false), "(*Reader).readHeader", func(st *State, what string, args ...*Term) {
				f := st.getf(h.obj, "actualFormat", tyByte)
				if h.e.monInt(st, "$short") == 1 {
					c.decide(what == "header" && f == raw && h.in(st) == tZero, "C08.detect", "short input", pos, "a stream of less than two bytes is not treated as raw data: %s, format %v", what, f)
					c.decide(h.e.monInt(st, "$fresh") == 1, "C08.detect", "more input", pos, "the format is decided on less than two bytes although more input may follow")
					return
				}
				switch want {
				case "raw":
					c.decide(what == "header" && f == raw && h.in(st) == tZero, "C08.detect", name, pos, "%s: the stream is not treated as raw data: %s, format %v, after %v bytes", name, what, f, h.in(st))
				case "zlib":
					if what == "header" || b0>>4 <= 7 {
						h.zlibOutcome(st, z, name, pos, what, args)
					}
				case "gzip":
					c.decide(what == "header" && f == mkInt(h.enum["GZIPFormat"]) && h.in(st) == mkInt(10), "C08.detect", name, pos, "%s: the stream is not treated as gzip: %s, format %v, after %v bytes", name, what, f, h.in(st))
				}
				accepted = accepted || what == "header"
			})
			if !accepted && !(want == "zlib" && (b1&0x20 != 0 || b0>>4 > 7)) {
				c.fail("C08.detect", name, pos, name+": no such stream is accepted")
			}
		}
		c.ok("C08.detect", fmt.Sprintf("%s, first byte %#02x", format, b0))
	}
	h.short = false
}

// readGZIPOnly checks that nothing but gzip is accepted with that format.
func (h *headRun) readTrailers() {
	c := h.c
	pos := c.L.posString(h.fn("(*Reader).readFooter").Pos())
	h.knownByte = nil
	for _, format := range []string{"RawFormat", "ZlibFormat", "GZIPFormat"} {
		for _, auto := range []string{"DefaultFormat", format} {
			c.counts["trailers read"]++
			st := h.newState(auto)
			st.setf(h.obj, "actualFormat", mkInt(h.enum[format]))
			st.mon["$sum:outputBytesAdler32"] = mkTuple(mkSym("data", nil))
			st.mon["$sum:outputBytesCRC32"] = mkTuple(mkSym("data", nil))
			n := mkSym("outlen", tyU64)
			st.mon["$outlen"] = n
			st.setf(h.obj, "outputBytesStream", n)
			name := format
			accepted := false
			h.run(st, "(*Reader).readFooter", func(st *State, what string, args ...*Term) {
				sum := func(f string) *Term { return mkApp("sum:"+f, tyU32, st.mon["$sum:"+f]) }
				cond, used := tTrue, int64(0)
				switch format {
				case "ZlibFormat":
					cond = tEq0(tSub(sum("outputBytesAdler32"), h.inputNum(st, tZero, 4, true)))
					used = 4
				case "GZIPFormat":
					cond = tAnd(tEq0(tSub(sum("outputBytesCRC32"), h.inputNum(st, tZero, 4, false))),
						tEq0(tSub(st.low(st.mon["$outlen"], 32, tyU32), h.inputNum(st, mkInt(4), 4, false))))
					used = 8
				}
				switch {
				case what == "corrupt":
					c.decide(st.truth(cond) == -1, "C03.trailer", name, pos, "%s: a stream with the right trailer is rejected", name)
				case what == "returned" && args[0] == tTrue:
					accepted = true
					c.decide(st.truth(cond) == 1, "C03.trailer", name, pos, "%s: the stream ends cleanly although its trailer may not match the data", name)
					c.decide(h.in(st) == mkInt(used), "C03.trailer", name+" length", pos, "%s: the trailer has %v bytes instead of %d", name, h.in(st), used)
				case what == "returned" && args[0] != tFalse:
					c.fail("C03.trailer", name, pos, "the result is not definite")
				}
			})
			c.decide(accepted, "C03.trailer", name, pos, "%s: no trailer is accepted", name)
		}
	}
}

func headParts(id string, parts []string) {
	register(id, parts, func(c *Ctx) {
		c.scope = id + "."
		h := newHeadRun(c)
		switch c.part {
		case "gzip":
			h.readGZIP()
			c.floor("gzip headers read", 500)
		case "zlib":
			h.readZlib(false)
			c.floor("zlib headers read", 65536)
		case "zlibdict":
			h.readZlib(true)
			c.floor("zlib headers read", 65536)
		case "auto":
			h.readAuto("DefaultFormat")
			c.floor("streams recognised", 65536)
		case "raw":
			h.readAuto("RawFormat")
			c.floor("streams recognised", 65536)
		case "trailer":
			h.readTrailers()
			c.floor("trailers read", 6)
		}
		h.finish()
	})
}

func init() {
	headParts("C14", []string{"gzip"})
	headParts("C15", []string{"gzip"})
	headParts("C08", []string{"zlib", "zlibdict", "auto", "raw", "gzip"})
	headParts("C03", []string{"zlib", "zlibdict", "gzip", "trailer"})
}

func (r *symRun) finish() {
	for _, k := range r.e.order {
		p := r.e.problems[k]
		if p.rule == "undecided" {
			r.c.fail(p.rule, p.where, p.pos, p.msg, p.trace...)
		}
	}
	r.c.counts["basic blocks interpreted"] += r.e.nBlocks
}
