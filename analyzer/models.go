package main

import (
	"fmt"
	"go/types"
	"math/bits"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Models of library functions. They state the documented contracts of the
// libraries; DESIGN.md lists them as the trusted base.

type model func(e *Eng, st *State, c *callInfo) []*State

const (
	bufT  = "(*" + libBuffer + ".Buffer)."
	bufV  = "(" + libBuffer + ".Buffer)."
	winT  = "(*" + libBuffer + ".Window)."
	winV  = "(" + libBuffer + ".Window)."
	lzT   = "(*" + libBuffer + ".LZ77)."
	lzV   = "(" + libBuffer + ".LZ77)."
	encT  = "(*" + libHuffman + ".Encoder)."
	encV  = "(" + libHuffman + ".Encoder)."
	decT  = "(*" + libHuffman + ".Decoder)."
	decV  = "(" + libHuffman + ".Decoder)."
	adlT  = "(*" + modPath + "/internal/adler32.Hash)."
	crcT  = "(*" + modPath + "/internal/crc32.Hash)."
	chEmp = "empty"
)

var tEmptyChain = mkApp(chEmp, nil)

// ev announces a library operation to the property.
func (e *Eng) ev(st *State, c *callInfo, kind string, obj *Term, args ...*Term) {
	if e.evHook != nil {
		e.evHook(st, c, kind, obj, args)
	}
}

func (s *State) getf(obj *Term, name string, t types.Type) *Term {
	return s.loadLeaf(mkField(obj, name), t)
}

func (s *State) setf(obj *Term, name string, v *Term) {
	if name == "#rd" && !trackRd {
		v = tZero
	}
	s.cells[mkField(obj, name)] = v
}

// trackRd: keep the absolute read positions of streams.
var trackRd bool

// comp of a struct value.
func (s *State) vcomp(v *Term, t types.Type, name string, ct types.Type) *Term {
	if v.op == OStruct {
		for i, c := range shape(v.ty) {
			if c.name == name {
				return v.args[i]
			}
		}
	}
	return mkApp("fld:"+name, ct, v)
}

func tPow2(n *Term) *Term {
	if n.op == OInt && n.k >= 0 && n.k < 62 {
		return mkInt(1 << uint(n.k))
	}
	return mkApp("pow2", tyUint, n)
}

// gval is an immutable package-level value of a library.
func (e *Eng) gval(pkg, name string) *Term {
	p := e.prog.ImportedPackage(pkg)
	if p != nil {
		if g, ok := p.Members[name].(*ssa.Global); ok {
			return mkApp("gval", derefType(g.Type()), intern(Term{op: OGlobal, v: g}))
		}
	}
	return mkApp("gval", nil, mkStr(pkg+"."+name))
}

func freshErr(name string) *Term { return mkSym("nn:"+name, types.Universe.Lookup("error").Type()) }

// ------------------------------------------------------------------ chains

// cat appends a segment to a chain of bytes.
func (e *Eng) cat(st *State, h, seg *Term) *Term {
	if !e.chains {
		return h
	}
	if seg.s == "seg" {
		if seg.args[2] == tZero || st.truth(tEq0(seg.args[2])) == 1 {
			return h
		}
		if h.op == OApp && h.s == "cat" {
			p := h.args[1]
			if p.s == "seg" && p.args[0] == seg.args[0] && tSub(tAdd(p.args[1], p.args[2]), seg.args[1]) == tZero {
				return mkApp("cat", nil, h.args[0], mkApp("seg", nil, p.args[0], p.args[1], tAdd(p.args[2], seg.args[2])))
			}
		}
	}
	return mkApp("cat", nil, h, seg)
}

// segOf describes the bytes of a slice by their origin.
func (e *Eng) segOf(st *State, p *Term) *Term {
	n := st.sliceLen(p)
	if n == tZero {
		return mkApp("seg", nil, tNil, tZero, tZero)
	}
	base, off := st.sliceBase(p), st.sliceOff(p)
	if base.op == OApp && base.s == "nn:fifo" {
		return mkApp("seg", nil, base, off, n)
	}
	explicit := false
	for k := range st.cells {
		if k.op == OIndex && k.args[0] == base && k.args[1] != tAny {
			explicit = true
			break
		}
	}
	if n.op == OInt && n.k <= 32 && (explicit || st.cells[mkIndex(base, tAny)] == nil) {
		vals := make([]*Term, n.k)
		for i := range vals {
			vals[i] = st.load(mkIndex(base, tAddK(off, int64(i))), tyByte)
		}
		// consecutive bytes of one origin
		if s := runOf(vals); s != nil {
			return s
		}
		return mkApp("bytes", nil, vals...)
	}
	if explicit {
		return mkSym("seg", nil)
	}
	ct := st.contentOf(base)
	if ct.op == OApp && ct.s == "inseg" {
		src, shift, lo, hi := ct.args[0], ct.args[1], ct.args[2], ct.args[3]
		if st.proveLE0(tSub(lo, off)) && st.proveLE0(tSub(tAdd(off, n), hi)) {
			return mkApp("seg", nil, src, tAdd(off, shift), n)
		}
	}
	return mkApp("seg", nil, ct, off, n)
}

func runOf(vals []*Term) *Term {
	if len(vals) == 0 {
		return nil
	}
	v0 := vals[0]
	if v0.op != OApp || v0.s != "elem" {
		return nil
	}
	for i, v := range vals {
		if v.op != OApp || v.s != "elem" || v.args[0] != v0.args[0] || tSub(v.args[1], v0.args[1]) != mkInt(int64(i)) {
			return nil
		}
	}
	return mkApp("seg", nil, v0.args[0], v0.args[1], mkInt(int64(len(vals))))
}

// copyFrom records that n bytes at position pos of the source src were
// copied to the start of the slice dst.
func (e *Eng) copyFrom(st *State, dst, n, src, pos *Term) {
	if dst == tNil || n == tZero {
		return
	}
	base, off := st.sliceBase(dst), st.sliceOff(dst)
	if !e.chains {
		st.havocContents(base, mkSym("content", nil))
		return
	}
	shift := tSub(pos, off)
	explicit := false
	for k := range st.cells {
		if k.op == OIndex && k.args[0] == base && k.args[1] != tAny {
			explicit = true
			break
		}
	}
	var old *Term
	if !explicit {
		old = st.cells[mkIndex(base, tAny)]
	}
	if old != nil && old.op == OApp && old.s == "inseg" && old.args[0] == src && old.args[1] == shift {
		if tSub(old.args[3], off) == tZero {
			st.havocContents(base, mkApp("inseg", nil, src, shift, old.args[2], tAdd(off, n)))
			return
		}
	}
	st.havocContents(base, mkApp("inseg", nil, src, shift, off, tAdd(off, n)))
}

// fifoOf is the identity of the byte stream that passes through a buffer.
func fifoOf(b *Term) *Term { return mkApp("nn:fifo", nil, b) }

// ----------------------------------------------------------------- buffers

func bufInv(st *State, b *Term) (ln, nb, size *Term) {
	ln = st.getf(b, "#len", tyUint)
	nb = st.getf(b, "#nbits", tyUint)
	size = tPow2(nb)
	st.assume(tLE0(tSub(ln, size)))
	ln = st.getf(b, "#len", tyUint)
	nb = st.getf(b, "#nbits", tyUint)
	return ln, nb, tPow2(nb)
}

func (e *Eng) errFull() *Term  { return e.gval(libBuffer, "ErrFull") }
func (e *Eng) errEmpty() *Term { return e.gval(libBuffer, "ErrEmpty") }

// fork splits a state on a condition.
func fork(st *State, c *Term) (yes, no *State) {
	switch st.truth(c) {
	case 1:
		return st, nil
	case -1:
		return nil, st
	}
	s2 := st.clone()
	if !st.assume(c) || st.dead {
		st = nil
	}
	if !s2.assume(tNot(c)) || s2.dead {
		s2 = nil
	}
	return st, s2
}

// rearg re-evaluates the arguments of a call in a (possibly refined) state.
func (e *Eng) rearg(st *State, c *callInfo) []*Term { return c.args }

func mkBuf(st *State, v *Term, f string) *Term { return st.vcomp(v, nil, f, tyUint) }

var models map[string]model

func init() {
	models = map[string]model{
		// ------------------------------------------------------ Buffer
		bufV + "NumBits": func(e *Eng, st *State, c *callInfo) []*State { return done(st, mkBuf(st, c.args[0], "#nbits")) },
		bufV + "Size":    func(e *Eng, st *State, c *callInfo) []*State { return done(st, tPow2(mkBuf(st, c.args[0], "#nbits"))) },
		bufV + "Len":     func(e *Eng, st *State, c *callInfo) []*State { return done(st, mkBuf(st, c.args[0], "#len")) },
		bufV + "IsEmpty": func(e *Eng, st *State, c *callInfo) []*State { return done(st, tEq0(mkBuf(st, c.args[0], "#len"))) },
		bufV + "IsFull": func(e *Eng, st *State, c *callInfo) []*State {
			return done(st, tEq0(tSub(mkBuf(st, c.args[0], "#len"), tPow2(mkBuf(st, c.args[0], "#nbits")))))
		},
		bufT + "Init": func(e *Eng, st *State, c *callInfo) []*State {
			b := c.args[0]
			e.ev(st, c, "buf.init", b)
			st.setf(b, "#len", tZero)
			st.setf(b, "#nbits", c.args[1])
			return done(st, nil)
		},
		bufT + "Clear": func(e *Eng, st *State, c *callInfo) []*State {
			b := c.args[0]
			e.ev(st, c, "buf.clear", b)
			ln := st.getf(b, "#len", tyUint)
			st.setf(b, "#rd", tAdd(st.getf(b, "#rd", tyUint), ln))
			st.setf(b, "#len", tZero)
			return done(st, nil)
		},
		bufT + "WriteByte": func(e *Eng, st *State, c *callInfo) []*State {
			b := c.args[0]
			ln, _, size := bufInv(st, b)
			full, room := fork(st, tEq0(tSub(ln, size)))
			var outs []*State
			if room != nil {
				ln, _, _ := bufInv(room, b)
				room.setf(b, "#len", tAddK(ln, 1))
				e.ev(room, c, "buf.write", b, byteSeg(c.args[1]), tOne)
				outs = append(outs, done(room, tNil)...)
			}
			if full != nil {
				e.ev(full, c, "buf.full", b)
				outs = append(outs, done(full, e.errFull())...)
			}
			return outs
		},
		bufT + "Write": func(e *Eng, st *State, c *callInfo) []*State {
			b := c.args[0]
			var outs []*State
			ln, _, size := bufInv(st, b)
			n := st.sliceLen(c.args[1])
			fits, over := fork(st, tLE0(tSub(tAdd(ln, n), size)))
			if fits != nil {
				ln, _, _ := bufInv(fits, b)
				n := fits.resolve(n)
				p := fits.resolve(c.args[1])
				fits.setf(b, "#len", tAdd(ln, n))
				e.ev(fits, c, "buf.write", b, e.segOf(fits, p), n)
				outs = append(outs, done(fits, mkTuple(n, tNil))...)
			}
			if over != nil {
				ln, _, size := bufInv(over, b)
				nn := tSub(size, ln)
				p := over.resolve(c.args[1])
				over.setf(b, "#len", size)
				pre := mkSlice(over.sliceBase(p), over.sliceOff(p), nn, nn)
				e.ev(over, c, "buf.write", b, e.segOf(over, pre), nn)
				e.ev(over, c, "buf.full", b)
				outs = append(outs, done(over, mkTuple(nn, e.errFull()))...)
			}
			return outs
		},
		bufT + "ReadByte": func(e *Eng, st *State, c *callInfo) []*State {
			b := c.args[0]
			ln, _, _ := bufInv(st, b)
			empty, some := fork(st, tEq0(ln))
			var outs []*State
			if some != nil {
				rd := some.getf(b, "#rd", tyUint)
				ln, _, _ := bufInv(some, b)
				v := mkApp("elem", tyByte, fifoOf(b), rd)
				some.setf(b, "#len", tAddK(ln, -1))
				some.setf(b, "#rd", tAddK(rd, 1))
				e.ev(some, c, "buf.read", b, rd, tOne)
				outs = append(outs, done(some, mkTuple(v, tNil))...)
			}
			if empty != nil {
				outs = append(outs, done(empty, mkTuple(tZero, e.errEmpty()))...)
			}
			return outs
		},
		bufT + "Read": func(e *Eng, st *State, c *callInfo) []*State {
			b := c.args[0]
			ln, _, _ := bufInv(st, b)
			empty, some := fork(st, tEq0(ln))
			var outs []*State
			if some != nil {
				all, part := fork(some, tLE0(tSub(mkBufLen(some, b), some.sliceLen(some.resolve(c.args[1])))))
				for i, s := range []*State{all, part} {
					if s == nil {
						continue
					}
					ln := mkBufLen(s, b)
					p := s.resolve(c.args[1])
					nn := ln
					if i == 1 {
						nn = s.sliceLen(p)
					}
					rd := s.getf(b, "#rd", tyUint)
					e.copyFrom(s, p, nn, fifoOf(b), rd)
					s.setf(b, "#len", tSub(ln, nn))
					s.setf(b, "#rd", tAdd(rd, nn))
					e.ev(s, c, "buf.read", b, rd, nn)
					outs = append(outs, done(s, mkTuple(nn, tNil))...)
				}
			}
			if empty != nil {
				outs = append(outs, done(empty, mkTuple(tZero, e.errEmpty()))...)
			}
			return outs
		},
		bufT + "PrepareBulkRead": func(e *Eng, st *State, c *callInfo) []*State {
			b := c.args[0]
			ln, _, _ := bufInv(st, b)
			empty, some := fork(st, tEq0(ln))
			var outs []*State
			if empty != nil {
				outs = append(outs, done(empty, tNil)...)
			}
			if some != nil {
				n := mkMin(some, tyUint, mkBufLen(some, b), some.resolve(c.args[1]))
				rd := some.getf(b, "#rd", tyUint)
				cp := mkSym("cap", tyInt)
				some.assume(tLE0(tSub(n, cp)))
				outs = append(outs, done(some, mkSlice(fifoOf(b), rd, n, cp))...)
			}
			return outs
		},
		bufT + "CommitBulkRead": func(e *Eng, st *State, c *callInfo) []*State {
			b := c.args[0]
			ln, _, _ := bufInv(st, b)
			if !e.oblig(st, c.at, "assert", tLE0(tSub(c.args[1], ln)), "CommitBulkRead of more bytes than are buffered") {
				return nil
			}
			n := st.resolve(c.args[1])
			rd := st.getf(b, "#rd", tyUint)
			st.setf(b, "#len", tSub(mkBufLen(st, b), n))
			st.setf(b, "#rd", tAdd(rd, n))
			e.ev(st, c, "buf.read", b, rd, n)
			return done(st, nil)
		},
		bufT + "ReadFrom": func(e *Eng, st *State, c *callInfo) []*State {
			b := c.args[0]
			e.ev(st, c, "io.read", b, c.args[1])
			s2 := st.clone()
			var outs []*State
			{
				ln, _, size := bufInv(st, b)
				st.setf(b, "#len", size)
				e.ev(st, c, "io.readok", b, c.args[1])
				outs = append(outs, done(st, mkTuple(tSub(size, ln), tNil))...)
			}
			{
				ln, _, size := bufInv(s2, b)
				n := mkSym("n", tyInt)
				s2.assume(tLE0(tScale(n, -1)))
				s2.assume(tLE0(tSub(tAdd(ln, n), size)))
				s2.setf(b, "#len", tAdd(ln, n))
				er := freshErr("readerr")
				e.ev(s2, c, "io.readerr", b, c.args[1], er)
				outs = append(outs, done(s2, mkTuple(n, er))...)
			}
			return outs
		},
		bufT + "WriteTo": func(e *Eng, st *State, c *callInfo) []*State {
			b := c.args[0]
			ln, _, _ := bufInv(st, b)
			empty, some := fork(st, tEq0(ln))
			var outs []*State
			if empty != nil {
				outs = append(outs, done(empty, mkTuple(tZero, tNil))...)
			}
			if some != nil {
				s2 := some.clone()
				ln := mkBufLen(some, b)
				rd := some.getf(b, "#rd", tyUint)
				some.setf(b, "#rd", tAdd(rd, ln))
				some.setf(b, "#len", tZero)
				e.ev(some, c, "io.write", b, c.args[1], tNil)
				outs = append(outs, done(some, mkTuple(ln, tNil))...)
				n := mkSym("n", tyInt)
				s2.assume(tLE0(tScale(n, -1)))
				s2.assume(tLE0(tSub(n, ln)))
				s2.setf(b, "#rd", tAdd(rd, n))
				s2.setf(b, "#len", tSub(mkBufLen(s2, b), n))
				er := freshErr("writeerr")
				e.ev(s2, c, "io.write", b, c.args[1], er)
				outs = append(outs, done(s2, mkTuple(n, er))...)
			}
			return outs
		},
		// ------------------------------------------------------ Window
		winV + "NumBits": func(e *Eng, st *State, c *callInfo) []*State { return done(st, mkBuf(st, c.args[0], "#nbits")) },
		winV + "Size":    func(e *Eng, st *State, c *callInfo) []*State { return done(st, tPow2(mkBuf(st, c.args[0], "#nbits"))) },
		winT + "Init": func(e *Eng, st *State, c *callInfo) []*State {
			e.ev(st, c, "win.clear", c.args[0])
			st.setf(c.args[0], "#fill", tZero)
			st.setf(c.args[0], "#nbits", c.args[1])
			bumpGen(st, c.args[0])
			return done(st, nil)
		},
		winT + "Clear": func(e *Eng, st *State, c *callInfo) []*State {
			e.ev(st, c, "win.clear", c.args[0])
			st.setf(c.args[0], "#fill", tZero)
			bumpGen(st, c.args[0])
			return done(st, nil)
		},
		winT + "WriteByte": func(e *Eng, st *State, c *callInfo) []*State {
			winGrow(st, c.args[0], tOne)
			e.ev(st, c, "win.write", c.args[0], byteSeg(c.args[1]), tOne)
			return done(st, tNil)
		},
		winT + "Write": func(e *Eng, st *State, c *callInfo) []*State {
			n := st.sliceLen(c.args[1])
			seg := e.segOf(st, c.args[1])
			winGrow(st, c.args[0], n)
			e.ev(st, c, "win.write", c.args[0], seg, n)
			return done(st, mkTuple(n, tNil))
		},
		winV + "LookupByte": func(e *Eng, st *State, c *callInfo) []*State {
			return winLookup(e, st, c, false)
		},
		winV + "LookupSlice": func(e *Eng, st *State, c *callInfo) []*State {
			return winLookup(e, st, c, true)
		},
		// -------------------------------------------------------- LZ77
		lzV + "Len":     func(e *Eng, st *State, c *callInfo) []*State { return done(st, mkBuf(st, c.args[0], "#len")) },
		lzV + "IsEmpty": func(e *Eng, st *State, c *callInfo) []*State { return done(st, tEq0(mkBuf(st, c.args[0], "#len"))) },
		lzV + "IsFull": func(e *Eng, st *State, c *callInfo) []*State {
			return done(st, tEq0(tSub(mkBuf(st, c.args[0], "#len"), lzSize(st, mkBuf(st, c.args[0], "#opts")))))
		},
		lzV + "Options": func(e *Eng, st *State, c *callInfo) []*State {
			return done(st, st.vcomp(c.args[0], nil, "#opts", c.resultType()))
		},
		lzT + "Init": func(e *Eng, st *State, c *callInfo) []*State {
			b := c.args[0]
			e.ev(st, c, "lz.init", b, c.args[1])
			st.setf(b, "#len", tZero)
			st.setf(b, "#hist", tZero)
			st.setf(b, "#opts", c.args[1])
			return done(st, nil)
		},
		lzT + "Clear": func(e *Eng, st *State, c *callInfo) []*State {
			b := c.args[0]
			e.ev(st, c, "lz.clear", b)
			st.setf(b, "#rd", tAdd(st.getf(b, "#rd", tyUint), st.getf(b, "#len", tyUint)))
			st.setf(b, "#len", tZero)
			st.setf(b, "#hist", tZero)
			return done(st, nil)
		},
		lzT + "WindowClear": func(e *Eng, st *State, c *callInfo) []*State {
			e.ev(st, c, "lz.wclear", c.args[0])
			st.setf(c.args[0], "#hist", tZero)
			return done(st, nil)
		},
		lzT + "SetWindow": func(e *Eng, st *State, c *callInfo) []*State {
			e.ev(st, c, "lz.setwindow", c.args[0], e.segOf(st, c.args[1]))
			st.setf(c.args[0], "#hist", mkSym("hist", tyUint))
			return done(st, nil)
		},
		lzT + "Write": func(e *Eng, st *State, c *callInfo) []*State {
			b := c.args[0]
			ln, size := lzInv(st, b)
			n := st.sliceLen(c.args[1])
			fits, over := fork(st, tLE0(tSub(tAdd(ln, n), size)))
			var outs []*State
			if fits != nil {
				n := fits.resolve(n)
				fits.setf(b, "#len", tAdd(mkBufLen(fits, b), n))
				e.ev(fits, c, "lz.write", b, e.segOf(fits, fits.resolve(c.args[1])), n)
				outs = append(outs, done(fits, mkTuple(n, tNil))...)
			}
			if over != nil {
				ln, size := lzInv(over, b)
				nn := tSub(size, ln)
				p := over.resolve(c.args[1])
				over.setf(b, "#len", size)
				e.ev(over, c, "lz.write", b, e.segOf(over, mkSlice(over.sliceBase(p), over.sliceOff(p), nn, nn)), nn)
				outs = append(outs, done(over, mkTuple(nn, e.errFull()))...)
			}
			return outs
		},
		lzT + "Read": func(e *Eng, st *State, c *callInfo) []*State {
			b := c.args[0]
			ln, _ := lzInv(st, b)
			empty, some := fork(st, tEq0(ln))
			var outs []*State
			if some != nil {
				all, part := fork(some, tLE0(tSub(mkBufLen(some, b), some.sliceLen(some.resolve(c.args[1])))))
				for i, s := range []*State{all, part} {
					if s == nil {
						continue
					}
					ln := mkBufLen(s, b)
					p := s.resolve(c.args[1])
					nn := ln
					if i == 1 {
						nn = s.sliceLen(p)
					}
					lzConsume(e, s, c, b, nn)
					rd := tSub(s.getf(b, "#rd", tyUint), nn)
					e.copyFrom(s, p, nn, fifoOf(b), rd)
					outs = append(outs, done(s, mkTuple(nn, tNil))...)
				}
			}
			if empty != nil {
				outs = append(outs, done(empty, mkTuple(tZero, e.errEmpty()))...)
			}
			return outs
		},
		lzT + "PrepareBulkRead": func(e *Eng, st *State, c *callInfo) []*State {
			b := c.args[0]
			ln, _ := lzInv(st, b)
			n := mkMin(st, tyUint, ln, c.args[1])
			rd := st.getf(b, "#rd", tyUint)
			cp := mkSym("cap", tyInt)
			st.assume(tLE0(tSub(n, cp)))
			return done(st, mkSlice(fifoOf(b), rd, n, cp))
		},
		lzT + "Advance": func(e *Eng, st *State, c *callInfo) []*State {
			b := c.args[0]
			ln, _ := lzInv(st, b)
			empty, some := fork(st, tEq0(ln))
			var outs []*State
			if empty != nil {
				outs = append(outs, done(empty, mkTuple(tNil, tZero, tZero, tFalse))...)
			}
			if some != nil {
				lit := some.clone()
				for i, s := range []*State{some, lit} {
					n := tOne
					dist, mlen, found := tZero, tZero, tFalse
					if i == 0 {
						opts := s.getf(b, "#opts", nil)
						// disabled match finder
						if mx := s.vcomp(opts, nil, "MaxMatchLength", tyUint); mx == tZero {
							continue
						}
						n = mkSym("mlen", tyUint)
						s.assume(tLE0(tSub(n, mkBufLen(s, b))))
						s.assume(tLE0(tAddK(n, -258)))
						lo := int64(3)
						if mm := s.vcomp(opts, nil, "MinMatchLength", tyUint); mm.op == OInt {
							lo = mm.k
						}
						if lo < 3 {
							lo = 3
						}
						s.assume(tLE0(tSub(mkInt(lo), n)))
						dist = mkSym("mdist", tyUint)
						s.assume(tLE0(tSub(tOne, dist)))
						s.assume(tLE0(tAddK(dist, -32768)))
						if s.dead {
							continue
						}
						mlen, found = n, tTrue
						n = s.resolve(n)
						mlen = n
						dist = s.resolve(dist)
					}
					rd := s.getf(b, "#rd", tyUint)
					lzConsume(e, s, c, b, n)
					cp := mkSym("cap", tyInt)
					s.assume(tLE0(tSub(n, cp)))
					e.ev(s, c, "lz.advance", b, found, dist, mlen)
					outs = append(outs, done(s, mkTuple(mkSlice(fifoOf(b), rd, n, cp), dist, mlen, found))...)
				}
			}
			return outs
		},
		"(" + libBuffer + ".LZ77Options).Equal": func(e *Eng, st *State, c *callInfo) []*State {
			a, b := c.args[0], c.args[1]
			if a == b {
				return done(st, tTrue)
			}
			eq, ne := fork(st, mkApp("lzeq", tyBool, a, b))
			var outs []*State
			if eq != nil {
				for _, f := range []string{"BufferNumBits", "WindowNumBits", "HashNumBits", "HasMinMatchLength", "HasMaxMatchLength", "HasMaxMatchDistance"} {
					x, y := eq.vcomp(eq.resolve(a), nil, f, nil), eq.vcomp(eq.resolve(b), nil, f, nil)
					q := tEq(x, y)
					if strings.HasSuffix(f, "NumBits") {
						q = tEq0(tSub(x, y))
					}
					if x == nil || y == nil || x == y {
						continue
					}
					if !eq.assume(q) || eq.dead {
						eq.dead = true
						break
					}
				}
				if !eq.dead {
					outs = append(outs, done(eq, tTrue)...)
				}
			}
			if ne != nil {
				outs = append(outs, done(ne, tFalse)...)
			}
			return outs
		},
		// ----------------------------------------------------- Huffman
		encT + "Init": func(e *Eng, st *State, c *callInfo) []*State {
			st.setf(c.args[0], "#n", c.args[1])
			st.setf(c.args[0], "#max", mkSym("maxsize", tyByte))
			st.setf(c.args[0], "#src", mkSym("freqs", nil))
			st.assume(tLE0(tAddK(st.getf(c.args[0], "#max", tyByte), -64)))
			e.ev(st, c, "enc.init", c.args[0], c.args[1])
			return done(st, nil)
		},
		encT + "InitFromSizes": func(e *Eng, st *State, c *callInfo) []*State {
			st.setf(c.args[0], "#n", st.sliceLen(c.args[1]))
			st.setf(c.args[0], "#max", mkSym("maxsize", tyByte))
			st.setf(c.args[0], "#src", st.snapshot(c.args[1]))
			return initErr(e, st, c)
		},
		encV + "SizeBySymbol": func(e *Eng, st *State, c *callInfo) []*State {
			n := st.vcomp(c.args[0], nil, "#n", tyInt)
			o := e.allocAt(st, "sizes:"+e.siteName(st, c.at), types.NewSlice(tyByte))
			src := st.vcomp(c.args[0], nil, "#src", nil)
			st.cells[mkIndex(o, tAny)] = mkApp("sizes", nil, src)
			e.ev(st, c, "enc.sizes", o, n, src)
			return done(st, mkSlice(o, tZero, n, n))
		},
		encV + "MaxSize": func(e *Eng, st *State, c *callInfo) []*State {
			return done(st, st.vcomp(c.args[0], nil, "#max", tyByte))
		},
		encV + "Encode": func(e *Eng, st *State, c *callInfo) []*State {
			n := st.vcomp(c.args[0], nil, "#n", tyInt)
			if !e.bounds(st, c.at, c.args[1], n) {
				return nil
			}
			mx := st.vcomp(c.args[0], nil, "#max", tyByte)
			sz := mkSym("hcsize", tyByte)
			st.assume(tLE0(tSub(sz, mx)))
			// no Huffman code of this library is longer than 64 bits
			st.assume(tLE0(tAddK(sz, -64)))
			v := mkApp("hcbits", tyU32, c.args[0], c.args[1])
			r := codeStruct(c.resultType(), sz, v)
			e.ev(st, c, "enc.encode", c.args[0], c.args[1])
			return done(st, st.resolve(r))
		},
		decT + "Init": func(e *Eng, st *State, c *callInfo) []*State {
			st.setf(c.args[0], "#n", st.sliceLen(c.args[1]))
			st.setf(c.args[0], "#src", st.snapshot(c.args[1]))
			e.ev(st, c, "dec.init", c.args[0], c.args[1])
			return initErr(e, st, c)
		},
		decV + "MinSize": func(e *Eng, st *State, c *callInfo) []*State {
			r := mkApp("decmin", tyByte, st.vcomp(c.args[0], nil, "#src", nil))
			st.assume(tLE0(tAddK(r, -16)))
			return done(st, st.resolve(r))
		},
		decV + "MaxSize": func(e *Eng, st *State, c *callInfo) []*State {
			r := mkApp("decmax", tyByte, st.vcomp(c.args[0], nil, "#src", nil))
			st.assume(tLE0(tAddK(r, -16)))
			return done(st, st.resolve(r))
		},
		decV + "SizeBySymbol": func(e *Eng, st *State, c *callInfo) []*State {
			n := st.vcomp(c.args[0], nil, "#n", tyInt)
			o := e.allocAt(st, "sizes:"+e.siteName(st, c.at), types.NewSlice(tyByte))
			st.cells[mkIndex(o, tAny)] = mkApp("sizes", nil, st.vcomp(c.args[0], nil, "#src", nil))
			return done(st, mkSlice(o, tZero, n, n))
		},
		decV + "Decode": func(e *Eng, st *State, c *callInfo) []*State {
			n := st.vcomp(c.args[0], nil, "#n", tyInt)
			more := st.clone()
			none := st.clone()
			var outs []*State
			// found
			sym := mkSym("symbol", c.sig.Results().At(0).Type())
			st.assume(tLE0(tScale(sym, -1)))
			st.assume(tLE0(tAddK(tSub(sym, n), 1)))
			if !st.dead {
				sz := mkSym("sz", tyByte)
				st.assume(tLE0(tAddK(sz, -16)))
				e.ev(st, c, "dec.found", c.args[0], c.args[1])
				sym = st.resolve(sym)
				outs = append(outs, done(st, mkTuple(sym, sz, sz))...)
			}
			// longer code needed
			mn, mx := mkSym("newmin", tyByte), mkSym("newmax", tyByte)
			more.assume(tLE0(tAddK(mx, -16)))
			more.assume(tLE0(tAddK(mn, -16)))
			more.assume(tLE0(tSub(tOne, mn)))
			more.assume(tLE0(tSub(mn, mx)))
			outs = append(outs, done(more, mkTuple(mkInt(-1), mn, mx))...)
			outs = append(outs, done(none, mkTuple(mkInt(-1), tZero, tZero))...)
			return outs
		},
		libHuffman + ".MakeCode": func(e *Eng, st *State, c *callInfo) []*State {
			return done(st, codeStruct(c.resultType(), c.args[0], c.args[1]))
		},
		libHuffman + ".MakeReversedCode": func(e *Eng, st *State, c *callInfo) []*State {
			return done(st, codeStruct(c.resultType(), c.args[0], mkApp("revbits", tyU32, c.args...)))
		},
		// ---------------------------------------------------- checksums
		adlT + "Reset": hashReset,
		crcT + "Reset": hashReset,
		adlT + "Write": hashWrite,
		crcT + "Write": hashWrite,
		adlT + "Sum32": hashSum("adler32"),
		crcT + "Sum32": hashSum("crc32"),
		modPath + "/internal/adler32.Checksum": func(e *Eng, st *State, c *callInfo) []*State {
			return done(st, mkApp("adler32", tyU32, e.cat(st, tEmptyChain, e.segOf(st, c.args[0]))))
		},
		modPath + "/internal/crc32.Checksum": func(e *Eng, st *State, c *callInfo) []*State {
			return done(st, mkApp("crc32", tyU32, e.cat(st, tEmptyChain, e.segOf(st, c.args[0]))))
		},
		// ------------------------------------------------------- assert
		libAssert + ".Assert":       assertModel,
		libAssert + ".Assertf":      assertModel,
		libAssert + ".Raise":        raiseModel,
		libAssert + ".Raisef":       raiseModel,
		libAssert + ".NotNil":       notNilModel,
		libAssert + ".AssertNotNil": notNilModel,
		// ---------------------------------------------------------- sync
		"(*sync.Mutex).Lock":     lockModel("lock"),
		"(*sync.Mutex).Unlock":   lockModel("unlock"),
		"(*sync.Cond).Wait":      syncEv("cond.wait"),
		"(*sync.Cond).Signal":    syncEv("cond.signal"),
		"(*sync.Cond).Broadcast": syncEv("cond.broadcast"),
		"(*sync.WaitGroup).Add":  syncEv("wg.add"),
		"(*sync.WaitGroup).Done": syncEv("wg.done"),
		"(*sync.WaitGroup).Wait": syncEv("wg.wait"),
		"sync.NewCond": func(e *Eng, st *State, c *callInfo) []*State {
			o := e.allocAt(st, "cond:"+e.siteName(st, c.at), derefType(c.resultType()))
			l := st.resolve(c.args[0])
			st.setf(o, "L", l)
			return done(st, o)
		},
		"(*sync.Pool).Get": func(e *Eng, st *State, c *callInfo) []*State {
			nf := st.loadLeaf(mkField(c.args[0], "New"), nil)
			if nf.op == OFunc || nf.op == OClosure {
				return e.callValue(st, c.at, c.cc, nf, nil)
			}
			return done(st, st.freshOf(c.resultType(), "nn:pool"))
		},
		"(*sync.Pool).Put": pureUnit,
		// ------------------------------------------------- bytes, errors
		"github.com/chronos-tachyon/bufferpool.Get": func(e *Eng, st *State, c *callInfo) []*State {
			o := e.allocAt(st, "bytesbuf:"+e.siteName(st, c.at), derefType(c.resultType()))
			st.setf(o, "#ch", tEmptyChain)
			st.setf(o, "#n", tZero)
			return done(st, o)
		},
		"github.com/chronos-tachyon/bufferpool.Put": pureUnit,
		"(*bytes.Buffer).WriteByte": func(e *Eng, st *State, c *callInfo) []*State {
			e.ev(st, c, "bb.write", c.args[0], byteSeg(c.args[1]))
			bbAppend(e, st, c.args[0], byteSeg(c.args[1]), tOne)
			return done(st, tNil)
		},
		"(*bytes.Buffer).Write": func(e *Eng, st *State, c *callInfo) []*State {
			n := st.sliceLen(c.args[1])
			sg := e.segOf(st, c.args[1])
			e.ev(st, c, "bb.write", c.args[0], sg)
			bbAppend(e, st, c.args[0], sg, n)
			return done(st, mkTuple(n, tNil))
		},
		"(*bytes.Buffer).Grow": pureUnit,
		"(*bytes.Buffer).String": func(e *Eng, st *State, c *callInfo) []*State {
			return done(st, mkApp("bbstring", tyStr, bbChain(st, c.args[0])))
		},
		"(*bytes.Buffer).Bytes": func(e *Eng, st *State, c *callInfo) []*State {
			o := e.allocAt(st, "bbbytes:"+e.siteName(st, c.at), types.NewSlice(tyByte))
			ch := bbChain(st, c.args[0])
			st.cells[mkIndex(o, tAny)] = mkApp("bbcontent", nil, ch)
			n := st.getf(c.args[0], "#n", tyInt)
			st.assume(tLE0(tScale(n, -1)))
			return done(st, mkSlice(o, tZero, n, n))
		},
		"errors.New":  func(e *Eng, st *State, c *callInfo) []*State { return done(st, freshErr("errors.New")) },
		"fmt.Errorf":  func(e *Eng, st *State, c *callInfo) []*State { return done(st, freshErr("fmt.Errorf")) },
		"fmt.Sprintf": func(e *Eng, st *State, c *callInfo) []*State { return done(st, st.freshOf(tyStr, "sprintf")) },
		"errors.Is": func(e *Eng, st *State, c *callInfo) []*State {
			if c.args[0] == tNil {
				return done(st, mkBool(c.args[1] == tNil))
			}
			if c.args[0] == c.args[1] {
				return done(st, tTrue)
			}
			return done(st, mkApp("errors.Is", tyBool, c.args...))
		},
		"strings.IndexByte": indexByte,
		"time.Unix": func(e *Eng, st *State, c *callInfo) []*State {
			return done(st, mkStruct(c.resultType(), []*Term{mkApp("time.Unix", nil, c.args...)}))
		},
	}
	for _, en := range []string{"littleEndian", "bigEndian"} {
		big := en == "bigEndian"
		for _, w := range []int{2, 4, 8} {
			w := w
			models[fmt.Sprintf("(encoding/binary.%s).Uint%d", en, w*8)] = func(e *Eng, st *State, c *callInfo) []*State {
				p := c.args[1]
				if !e.bounds(st, c.at, mkInt(int64(w-1)), st.sliceLen(p)) {
					return nil
				}
				p = st.resolve(c.args[1])
				sum := lin{}
				for i := 0; i < w; i++ {
					sh := i
					if big {
						sh = w - 1 - i
					}
					if sh == 7 {
						return done(st, st.freshOf(tyU64, "u64"))
					}
					v := st.load(mkIndex(st.sliceBase(p), tAddK(st.sliceOff(p), int64(i))), tyByte)
					sum = linComb(sum, 1<<uint(8*sh), toLin(v))
				}
				return done(st, sum.term())
			}
			models[fmt.Sprintf("(encoding/binary.%s).PutUint%d", en, w*8)] = func(e *Eng, st *State, c *callInfo) []*State {
				p := c.args[1]
				if !e.bounds(st, c.at, mkInt(int64(w-1)), st.sliceLen(p)) {
					return nil
				}
				p, v := st.resolve(c.args[1]), st.resolve(c.args[2])
				for i := 0; i < w; i++ {
					sh := i
					if big {
						sh = w - 1 - i
					}
					b := st.low(st.shr(v, 8*sh, 8*w, nil), 8, tyByte)
					st.store(mkIndex(st.sliceBase(p), tAddK(st.sliceOff(p), int64(i))), b, tyByte)
				}
				return done(st, nil)
			}
		}
	}
}

// resolve re-normalises a term that was evaluated before the state was
// refined: decided atoms are replaced by their values.
func (s *State) resolve(t *Term) *Term {
	if !t.hasSy || len(s.hist) == 0 {
		return t
	}
	for _, h := range s.hist {
		if t.hasSy {
			t = h.apply(t)
		}
	}
	return t
}

func mkBufLen(st *State, b *Term) *Term { return st.getf(b, "#len", tyUint) }

func byteSeg(v *Term) *Term {
	if v.op == OApp && v.s == "elem" {
		return mkApp("seg", nil, v.args[0], v.args[1], tOne)
	}
	return mkApp("bytes", nil, v)
}

func bumpGen(st *State, b *Term) {
	st.setf(b, "#gen", mkSym("gen", tyUint))
}

func winGrow(st *State, b, n *Term) {
	f := st.getf(b, "#fill", tyUint)
	size := tPow2(st.getf(b, "#nbits", tyUint))
	st.setf(b, "#fill", mkMin(st, tyUint, tAdd(f, n), size))
	bumpGen(st, b)
}

func winLookup(e *Eng, st *State, c *callInfo, slice bool) []*State {
	w := c.args[0]
	size := tPow2(mkBuf(st, w, "#nbits"))
	d := c.args[1]
	bad := st.clone()
	ok := st
	ok.assume(tLE0(tSub(tOne, d)))
	ok.assume(tLE0(tSub(d, size)))
	var outs []*State
	gen := mkBuf(st, w, "#gen")
	if !ok.dead {
		if slice {
			n := mkMin(ok, tyUint, ok.resolve(c.args[1]), ok.resolve(c.args[2]))
			cp := mkSym("cap", tyInt)
			ok.assume(tLE0(tSub(n, cp)))
			e.ev(ok, c, "win.lookup", w, ok.resolve(d), n)
			outs = append(outs, done(ok, mkTuple(mkSlice(mkApp("nn:winview", nil, gen, d), tZero, n, cp), tNil))...)
		} else {
			e.ev(ok, c, "win.lookup", w, ok.resolve(d), tOne)
			outs = append(outs, done(ok, mkTuple(mkApp("winbyte", tyByte, gen, d), tNil))...)
		}
	}
	z, big := fork(bad, tEq0(d))
	er := e.gval(libBuffer, "ErrBadDistance")
	res := mkTuple(tNil, er)
	if !slice {
		res = mkTuple(tZero, er)
	}
	if z != nil {
		outs = append(outs, done(z, res)...)
	}
	if big != nil && big.assume(tLE0(tAddK(tSub(size, d), 1))) && !big.dead {
		outs = append(outs, done(big, res)...)
	}
	return outs
}

func lzSize(st *State, opts *Term) *Term {
	return tPow2(st.vcomp(opts, nil, "BufferNumBits", tyUint))
}

func lzInv(st *State, b *Term) (ln, size *Term) {
	ln = st.getf(b, "#len", tyUint)
	size = lzSize(st, st.getf(b, "#opts", nil))
	st.assume(tLE0(tSub(ln, size)))
	return st.getf(b, "#len", tyUint), lzSize(st, st.getf(b, "#opts", nil))
}

func lzConsume(e *Eng, st *State, c *callInfo, b, n *Term) {
	rd := st.getf(b, "#rd", tyUint)
	st.setf(b, "#rd", tAdd(rd, n))
	st.setf(b, "#len", tSub(mkBufLen(st, b), n))
	st.setf(b, "#hist", mkSym("hist", tyUint))
	e.ev(st, c, "lz.consume", b, rd, n)
}

func initErr(e *Eng, st *State, c *callInfo) []*State {
	s2 := st.clone()
	outs := done(st, tNil)
	e.ev(s2, c, "init.error", c.args[0])
	return append(outs, done(s2, freshErr("initerr"))...)
}

// snapshot describes the current contents of a slice.
func (s *State) snapshot(p *Term) *Term {
	if p == tNil {
		return tNil
	}
	n := s.sliceLen(p)
	base, off := s.sliceBase(p), s.sliceOff(p)
	explicit := false
	for _, k := range sortedKeys(s.cells) {
		if k.op == OIndex && k.args[0] == base && k.args[1] != tAny {
			explicit = true
			break
		}
	}
	if explicit && n.op == OInt && n.k <= 320 {
		vals := make([]*Term, n.k)
		for i := range vals {
			vals[i] = s.load(mkIndex(base, tAddK(off, int64(i))), tyByte)
		}
		return mkApp("arr", nil, vals...)
	}
	if explicit {
		return mkSym("snapshot", nil)
	}
	return mkApp("arrof", nil, s.contentOf(base), off, n)
}

func codeStruct(t types.Type, size, bitsT *Term) *Term {
	cs := shape(t)
	args := make([]*Term, len(cs))
	for i, c := range cs {
		switch c.name {
		case "Size":
			args[i] = size
		case "Bits":
			args[i] = bitsT
		default:
			args[i] = zeroOf(c.ty)
		}
	}
	return mkStruct(t, args)
}

func hashReset(e *Eng, st *State, c *callInfo) []*State {
	st.setf(c.args[0], "#h", tEmptyChain)
	e.ev(st, c, "hash.reset", c.args[0])
	return done(st, nil)
}

func hashWrite(e *Eng, st *State, c *callInfo) []*State {
	n := st.sliceLen(c.args[1])
	if e.chains {
		h := st.getf(c.args[0], "#h", nil)
		sg := e.segOf(st, c.args[1])
		st.setf(c.args[0], "#h", e.cat(st, h, sg))
		e.ev(st, c, "hash.write", c.args[0], sg, n)
	} else {
		st.setf(c.args[0], "#h", mkSym("hash", nil))
		e.ev(st, c, "hash.write", c.args[0], tNil, n)
	}
	return done(st, mkTuple(n, tNil))
}

func hashSum(kind string) model {
	return func(e *Eng, st *State, c *callInfo) []*State {
		return done(st, mkApp(kind, tyU32, st.getf(c.args[0], "#h", nil)))
	}
}

func assertModel(e *Eng, st *State, c *callInfo) []*State {
	cond := c.args[0]
	if e.h.Oblig != nil {
		e.h.Oblig(st, c.at, "assert", cond, "assertion")
	}
	if !st.assume(cond) || st.dead {
		return nil
	}
	return done(st, nil)
}

func raiseModel(e *Eng, st *State, c *callInfo) []*State {
	if e.h.Panic != nil {
		e.h.Panic(st, c.at, "assert.Raise")
	}
	return nil
}

func notNilModel(e *Eng, st *State, c *callInfo) []*State {
	// the argument is an interface holding a pointer to the variable
	v := c.args[0]
	if v == tNil {
		return nil
	}
	if v.op == OIface {
		if p, ok := v.ty.Underlying().(*types.Pointer); ok {
			if isPtrLike(p.Elem()) {
				x := st.load(v.args[0], p.Elem())
				cond := tNot(tEq(x, tNil))
				if e.h.Oblig != nil {
					e.h.Oblig(st, c.at, "assert", cond, "assert.NotNil")
				}
				if !st.assume(cond) || st.dead {
					return nil
				}
			}
		}
	}
	return done(st, nil)
}

func lockModel(kind string) model {
	return func(e *Eng, st *State, c *callInfo) []*State {
		if e.syncHook != nil {
			return e.syncHook(e, st, c, kind, c.args[0])
		}
		return done(st, nil)
	}
}

func syncEv(kind string) model {
	return func(e *Eng, st *State, c *callInfo) []*State {
		if e.syncHook != nil {
			return e.syncHook(e, st, c, kind, c.args[0])
		}
		return done(st, nil)
	}
}

func pureUnit(e *Eng, st *State, c *callInfo) []*State { return done(st, nil) }

// bytes.Buffer: a chain of the bytes written and their number.
func bbChain(st *State, b *Term) *Term {
	if v, ok := st.cells[mkField(b, "#ch")]; ok {
		return v
	}
	st.setf(b, "#ch", tEmptyChain)
	return tEmptyChain
}

func bbAppend(e *Eng, st *State, b, seg, n *Term) {
	ch := bbChain(st, b)
	if e.chains {
		st.setf(b, "#ch", e.cat(st, ch, seg))
	} else {
		st.setf(b, "#ch", mkSym("bb", nil))
	}
	l := tZero
	if v, ok := st.cells[mkField(b, "#n")]; ok {
		l = v
	}
	st.setf(b, "#n", tAdd(l, n))
}

// ------------------------------------------------------------ defaults

// modelExt handles calls of library functions.
func (e *Eng) modelExt(st *State, c *callInfo) []*State {
	if m, ok := models[c.name]; ok {
		e.counts["model "+c.name]++
		return m(e, st, c)
	}
	e.counts["generic "+c.name]++
	pkg := ""
	if c.fn != nil {
		if c.fn.Pkg != nil {
			pkg = c.fn.Pkg.Pkg.Path()
		} else if o := c.fn.Object(); o != nil && o.Pkg() != nil {
			pkg = o.Pkg().Path()
		}
	}
	if strings.HasPrefix(pkg, libBuffer) || strings.HasPrefix(pkg, libHuffman) ||
		(pkg == "sync" && !strings.Contains(c.name, "Once")) || pkg == "sync/atomic" {
		e.undecided(st, c.at, "no model of the library function %s", c.name)
	}
	if pkg == "math/bits" {
		if r := st.bitsModel(c.fn.Name(), c.args); r != nil {
			return done(st, r)
		}
	}
	pure := false
	switch pkg {
	case "strings", "strconv", "errors", "math", "math/bits", "unicode", "unicode/utf8", "time", "path/filepath", "path":
		pure = true
	}
	if pure {
		for _, a := range c.args {
			if a.op == OObj || a.op == OField {
				pure = false
			}
		}
	}
	return done(st, e.genericResult(st, c, pure))
}

// genericResult returns unknown results and forgets what the callee may have
// modified through its arguments.
func (e *Eng) genericResult(st *State, c *callInfo, pure bool) *Term {
	rt := resultTypeOf(c.sig)
	if pure {
		if tu, ok := rt.(*types.Tuple); ok {
			ts := make([]*Term, tu.Len())
			for i := range ts {
				ts[i] = mkApp(fmt.Sprintf("%s#%d", c.name, i), tu.At(i).Type(), c.args...)
			}
			return mkTuple(ts...)
		}
		if _, ok := rt.Underlying().(*types.Struct); !ok {
			return mkApp(c.name, rt, c.args...)
		}
	}
	for _, a := range c.args {
		e.havocArg(st, a, 0)
	}
	return st.freshOf(rt, shortName(c.name))
}

func shortName(s string) string {
	if i := strings.LastIndexByte(s, '.'); i >= 0 {
		return s[i+1:]
	}
	return s
}

// havocArg forgets memory that is reachable directly through an argument.
func (e *Eng) havocArg(st *State, a *Term, depth int) {
	switch a.op {
	case OSlice:
		if a.args[0].op == OObj || a.args[0].op == OField || a.args[0].op == OIndex {
			// element types that are interfaces or strings are read-only by
			// convention of variadic calls
			if t := e.cellType(a.args[0]); t != nil {
				if sl, ok := t.Underlying().(*types.Slice); ok {
					if b, ok := sl.Elem().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
						return
					}
				}
				if ar, ok := t.Underlying().(*types.Array); ok {
					if b, ok := ar.Elem().Underlying().(*types.Basic); !ok || b.Info()&types.IsInteger == 0 {
						return
					}
				}
			}
			st.havocContents(a.args[0], mkSym("content", nil))
		}
	case OIface:
		if a.args[0].op == OObj || a.args[0].op == OField {
			e.havocArg(st, a.args[0], depth+1)
		}
	case OObj, OField:
		var ks []*Term
		for k := range st.cells {
			x := k
			for x != a && (x.op == OField || x.op == OIndex) {
				x = x.args[0]
			}
			if x == a {
				ks = append(ks, k)
			}
		}
		for _, k := range ks {
			t := e.cellType(k)
			st.cells[k] = mkSym(leafName(k), t)
		}
	}
}

// modelInvoke handles calls of methods of unknown interface values.
func (e *Eng) modelInvoke(st *State, c *callInfo) []*State {
	e.counts["invoke "+c.name]++
	// module interfaces: fork over the implementations in the module
	if n, ok := types.Unalias(c.cc.Value.Type()).(*types.Named); ok && inModule(n.Obj().Pkg()) {
		if n.Obj().Exported() {
			return done(st, e.genericResult(st, c, false)) // foreign implementations (Tracer)
		}
		iface := n.Underlying().(*types.Interface)
		external := false
		for i := 0; i < iface.NumMethods(); i++ {
			_ = i
		}
		var outs []*State
		for _, t := range e.L.concrete {
			if !types.Implements(t, iface) {
				continue
			}
			fn := e.prog.LookupMethod(t, c.cc.Method.Pkg(), c.cc.Method.Name())
			if fn == nil {
				continue
			}
			// interfaces like flushWriter are implemented by foreign types
			external = external || c.cc.Method.Exported()
			s2 := st.clone()
			outs = append(outs, e.callFn(s2, c.at, c.cc, fn, nil, append([]*Term{mkApp("as:"+typeKey(t), t, c.recv)}, c.args...))...)
		}
		if !external && len(outs) > 0 {
			return outs
		}
	}
	return done(st, e.genericResult(st, c, false))
}

// modelFuncValue handles calls of unknown function values.
func (e *Eng) modelFuncValue(st *State, c *callInfo) []*State {
	e.counts["funcvalue"]++
	sig := c.sig
	var outs []*State
	seen := map[*ssa.Function]bool{}
	for _, cand := range e.L.addrTaken {
		if !types.Identical(cand.Signature, sig) {
			continue
		}
		if len(cand.FreeVars) > 0 {
			continue
		}
		f := forwardee(cand)
		if seen[f] || !e.inlinable(f) {
			continue
		}
		seen[f] = true
		outs = append(outs, e.callFn(st.clone(), c.at, c.cc, f, nil, c.args)...)
	}
	if len(seen) == 0 {
		if outs := e.modelOption(st, c); outs != nil {
			return outs
		}
		return done(st, e.genericResult(st, c, false))
	}
	return outs
}

// modelOption handles the call of an unknown function that takes a pointer
// to a struct of the module and returns nothing: any field may have been
// replaced by any valid value.
func (e *Eng) modelOption(st *State, c *callInfo) []*State {
	su := optionStruct(c.sig)
	if su == nil {
		return nil
	}
	states := []*State{st}
	for i := 0; i < su.NumFields(); i++ {
		f := su.Field(i)
		var next []*State
		for _, s := range states {
			if _, isB := f.Type().Underlying().(*types.Basic); isB {
				for _, s2 := range e.validValues(s, f.Type(), f.Name()) {
					v := s2.ret
					s2.ret = nil
					s2.store(mkField(c.args[0], f.Name()), v, f.Type())
					next = append(next, s2)
				}
				continue
			}
			v := s.freshOf(f.Type(), "opt."+f.Name())
			s.store(mkField(c.args[0], f.Name()), v, f.Type())
			if _, isS := f.Type().Underlying().(*types.Slice); isS {
				// nil or not empty
				s2 := s.clone()
				s2.store(mkField(c.args[0], f.Name()), tNil, f.Type())
				next = append(next, s2)
				l := s.sliceLen(v)
				if !s.assume(tNot(tEq(v, tNil))) || !s.assume(tNot(tEq0(l))) || s.dead {
					continue
				}
			}
			next = append(next, s)
		}
		states = next
	}
	var outs []*State
	for _, s := range states {
		outs = append(outs, done(s, nil)...)
	}
	return outs
}

// enumValues returns the declared constants of a named integer type.
func (L *Loaded) enumValues(t types.Type) []int64 {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return nil
	}
	sp := L.byPath[n.Obj().Pkg().Path()]
	if sp == nil {
		return nil
	}
	seen := map[int64]bool{}
	var vs []int64
	for _, m := range sp.Members {
		if nc, ok := m.(*ssa.NamedConst); ok && types.Identical(nc.Type(), t) {
			if k, ok := constInt(nc.Value); ok && !seen[k] {
				seen[k] = true
				vs = append(vs, k)
			}
		}
	}
	sort.Slice(vs, func(i, j int) bool { return vs[i] < vs[j] })
	return vs
}

// validValues returns states in which ret is a valid value of the type.
func (e *Eng) validValues(st *State, t types.Type, name string) []*State {
	v := st.freshOf(t, "opt."+name)
	vs := e.L.enumValues(t)
	if len(vs) == 0 {
		st.ret = v
		return []*State{st}
	}
	if e.noKeyType == nil || !e.noKeyType(t) {
		var outs []*State
		for _, k := range vs {
			s := st.clone()
			s.ret = mkInt(k)
			outs = append(outs, s)
		}
		return outs
	}
	var outs []*State
	if len(vs) > 1 && vs[1] > vs[0]+1 {
		s := st.clone()
		s.ret = mkInt(vs[0])
		outs = append(outs, s)
		vs = vs[1:]
	}
	st.assume(tLE0(tSub(mkInt(vs[0]), v)))
	st.assume(tLE0(tSub(v, mkInt(vs[len(vs)-1]))))
	st.ret = v
	return append(outs, st)
}

// optionStruct returns the struct that an option of this signature changes.
func optionStruct(sig *types.Signature) *types.Struct {
	if sig.Params().Len() != 1 || sig.Results().Len() != 0 {
		return nil
	}
	p, ok := sig.Params().At(0).Type().Underlying().(*types.Pointer)
	if !ok {
		return nil
	}
	n, ok := types.Unalias(p.Elem()).(*types.Named)
	if !ok || n.Obj().Pkg() == nil || !inModule(n.Obj().Pkg()) {
		return nil
	}
	su, _ := n.Underlying().(*types.Struct)
	return su
}

// bitsModel is the value of the bit length functions, if it is the same for
// every possible argument.
func (s *State) bitsModel(name string, args []*Term) *Term {
	if len(args) != 1 {
		return nil
	}
	w := 64
	for _, k := range []int{8, 16, 32, 64} {
		if strings.HasSuffix(name, strconv.Itoa(k)) {
			w = k
		}
	}
	i := s.ival(args[0])
	if i.lo < 0 || i.hi >= posInf {
		return nil
	}
	lo, hi := bits.Len64(uint64(i.lo)), bits.Len64(uint64(i.hi))
	switch {
	case strings.HasPrefix(name, "Len") && lo == hi:
		return mkInt(int64(lo))
	case strings.HasPrefix(name, "LeadingZeros") && lo == hi:
		return mkInt(int64(w - lo))
	case strings.HasPrefix(name, "TrailingZeros") && i.lo == i.hi:
		if i.lo == 0 {
			return mkInt(int64(w))
		}
		return mkInt(int64(bits.TrailingZeros64(uint64(i.lo))))
	case strings.HasPrefix(name, "Reverse") && !strings.HasPrefix(name, "ReverseBytes") && i.lo == i.hi:
		return mkInt(int64(bits.Reverse64(uint64(i.lo)) >> uint(64-w)))
	}
	return nil
}

func indexByte(e *Eng, st *State, c *callInfo) []*State {
	if c.args[0].op == OStr && c.args[1].op == OInt {
		return done(st, mkInt(int64(strings.IndexByte(c.args[0].s, byte(c.args[1].k)))))
	}
	if s := c.args[0]; s.op == OApp && s.s == "string" {
		r := int64(-1)
		for i, x := range s.args { // the first byte that may be equal
			if t := st.truth(tEq0(tSub(x, c.args[1]))); t != -1 {
				if t == 1 {
					r = int64(i)
				} else {
					r = -2
				}
				break
			}
		}
		if r >= -1 {
			return done(st, mkInt(r))
		}
		known := false
		for _, x := range s.args {
			known = known || st.truth(tEq0(tSub(x, c.args[1]))) == 1
		}
		if known {
			v := mkApp("indexbyte", tyInt, c.args...)
			st.assume(tLE0(tScale(v, -1)))
			st.assume(tLE0(tAddK(v, -int64(len(s.args)-1))))
			return done(st, st.resolve(v))
		}
	}
	r := mkApp("indexbyte", tyInt, c.args...)
	st.assume(tLE0(tSub(mkInt(-1), r)))
	st.assume(tLE0(tAddK(tSub(r, st.strLen(c.args[0])), 1)))
	return done(st, st.resolve(r))
}

// oneByte reduces the functions of package strings which look for one
// character to IndexByte.
func oneByte(sep func(t *Term) *Term, wrap func(st *State, t *Term) *Term) func(e *Eng, st *State, c *callInfo) []*State {
	return func(e *Eng, st *State, c *callInfo) []*State {
		b := sep(c.args[1])
		if b == nil {
			return done(st, st.freshOf(c.resultType(), "strings"))
		}
		c2 := *c
		c2.args = []*Term{c.args[0], b}
		outs := indexByte(e, st, &c2)
		for _, o := range outs {
			o.ret = wrap(o, o.ret)
		}
		return outs
	}
}

func init() {
	ch := func(t *Term) *Term {
		if t.op == OInt && t.k < 128 {
			return t
		}
		return nil
	}
	str := func(t *Term) *Term {
		if t.op == OStr && len(t.s) == 1 && t.s[0] < 128 {
			return mkInt(int64(t.s[0]))
		}
		return nil
	}
	idx := func(st *State, t *Term) *Term { return t }
	has := func(st *State, t *Term) *Term { return tLE0(tScale(t, -1)) }
	models["strings.IndexRune"] = oneByte(ch, idx)
	models["strings.Index"] = oneByte(str, idx)
	models["strings.IndexAny"] = oneByte(str, idx)
	models["strings.ContainsRune"] = oneByte(ch, has)
	models["strings.Contains"] = oneByte(str, has)
	models["strings.ContainsAny"] = oneByte(str, has)
}
