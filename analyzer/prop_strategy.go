package main

import (
	"fmt"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C18: what strategy and level allow.  The options of the match finder are
// computed for every combination of settings, and compressImpl and flushImpl
// are interpreted for every strategy and level with unknown data, watching
// the types of the blocks that are begun.

type stratRun struct {
	*setRun
	what string
	only func(kind int64) bool // the block types that are allowed
	rule string
	seen map[int64]bool
}

func (r *stratRun) lib(st *State, c *callInfo) ([]*State, bool) {
	n := c.fn.Name()
	recv := ""
	if s := c.fn.Signature.Recv(); s != nil {
		recv = typeName(derefIf(s.Type()))
	}
	k := r.c.L.enumConsts()
	unknown := func() ([]*State, bool) {
		return done(st, mkSym("ok", tyBool)), true
	}
	switch recv {
	case modPath + ".Writer":
		switch n {
		case "sendEvent":
			ev := c.args[1]
			if typ := st.vcomp(ev, nil, "Type", nil); typ != nil && typ.op == OInt && typ.k == k["BlockBeginEvent"] {
				b := st.vcomp(ev, nil, "Block", nil)
				bt := st.loadLeaf(mkField(b, "Type"), r.e.memberType2("BlockType"))
				if bt.op != OInt {
					r.e.undecided(st, c.at, "a block of unknown type is begun")
					return nil, true
				}
				st.mon["$blk"] = bt
				r.seen[bt.k] = true
				r.c.counts["blocks begun"]++
				r.c.decide(r.only(bt.k), r.rule, r.what, r.e.pos(c.at), "%s: a block of type %s is written", r.what, r.blockName(bt.k))
			}
			return done(st, nil), true
		case "outputBufferWrite":
			if b := st.mon["$blk"]; b != nil && b.op == OInt && b.k == k["StoredBlock"] {
				l := st.sliceLen(c.args[1])
				r.c.decide(st.proveLE0(tAddK(l, -65535)), "C18.stored-length", r.what, r.e.pos(c.at), "%s: a stored block may hold %v bytes", r.what, l)
			}
			return unknown()
		case "outputBufferWriteU16", "outputBufferWriteU32", "outputBitsWrite", "outputBitsWriteHC", "outputBitsFlush", "outputBitsFlushWholeBytes", "writeHeader", "writeFooter", "outputBufferFlush":
			return unknown()
		}
	case modPath + ".bitcounter":
		if n == "sendEvent" {
			return done(st, nil), true
		}
		if c.sig.Results().Len() == 1 {
			return done(st, st.freshOf(c.resultType(), "counted")), true
		}
	case libHuffman + ".Encoder":
		if n == "SizeBySymbol" {
			src := st.vcomp(c.args[0], nil, "#src", nil)
			if src != nil && strings.HasPrefix(src.s, "freqs") {
				num := st.vcomp(c.args[0], nil, "#n", tyInt)
				mx := st.vcomp(c.args[0], nil, "#max", tyByte)
				lim := int64(15)
				if num.op == OInt && num.k == 19 {
					lim = 7
				}
				r.c.counts["codes"]++
				r.c.decide(st.proveLE0(tAddK(mx, -lim)), "C18.code-length", fmt.Sprintf("%s of %v symbols", fnName(c.at.Parent()), num), r.e.pos(c.at), "a code of %v symbols may be longer than %d bits", num, lim)
			}
			return nil, false
		}
	}
	return r.slib(st, c)
}

func (r *stratRun) blockName(k int64) string {
	for n, v := range r.c.L.enumConsts() {
		if v == k && strings.HasSuffix(n, "Block") {
			return n
		}
	}
	return fmt.Sprint(k)
}

func (r *stratRun) grid() {
	c := r.c
	k := c.L.enumConsts()
	_, strategies := r.values(r.fieldType("strategy"))
	_, levels := r.values(r.fieldType("clevel"))
	_, bits := r.values(r.fieldType("wbits"))
	_, mem := r.values(r.fieldType("mlevel"))
	f := r.fn("NewWriter")
	pos := r.fpos(f)
	for _, s := range strategies {
		for _, l := range levels {
			for _, b := range bits {
				for _, m := range mem {
					if l != 0 && l != 6 && m != mem[0] {
						continue
					}
					what := showChoices([]choice{{"strategy", s}, {"clevel", l}, {"wbits", b}, {"mlevel", m}})
					outs := r.build([]choice{{"strategy", s}, {"clevel", l}, {"wbits", b}, {"mlevel", m}}, nil)
					c.decide(len(outs) > 0, "C18.new", "NewWriter", pos, "NewWriter does not return with %s", what)
					for _, o := range outs {
						c.counts["settings"]++
						w := o.getf(o.ret, "wbits", tyByte)
						opts := o.loadLeaf(mkField(mkField(o.ret, "hybrid"), "#opts"), nil)
						get := func(n string) *Term { return o.vcomp(opts, nil, n, tyUint) }
						win := get("WindowNumBits")
						c.decide(win != nil && o.proveLE0(tSub(win, w)), "C18.window", "hybridOptions", pos, "with %s, the window has 2^%v bytes instead of 2^%v", what, win, w)
						min, max := get("MinMatchLength"), get("MaxMatchLength")
						has := get("HasMaxMatchLength") == tTrue
						none := has && max == tZero
						if s == k["HuffmanOnlyStrategy"] {
							c.decide(none, "C18.huffman-only", "hybridOptions", pos, "with %s, matches of up to %v bytes are searched for", what, max)
						}
						if s == k["HuffmanRLEStrategy"] {
							d := get("MaxMatchDistance")
							c.decide(none || get("HasMaxMatchDistance") == tTrue && d != nil && o.proveLE0(tAddK(d, -1)), "C18.rle", "hybridOptions", pos, "with %s, matches at distance %v are searched for", what, d)
						}
						if !none {
							c.decide(has && o.proveLE0(tAddK(max, -258)), "C18.match-length", "hybridOptions max", pos, "with %s, matches of up to %v bytes are searched for", what, max)
							c.decide(get("HasMinMatchLength") == tTrue && o.proveLE0(tSub(mkInt(3), min)), "C18.match-length", "hybridOptions min", pos, "with %s, matches of %v bytes are searched for", what, min)
						}
					}
				}
			}
		}
	}
}

func (r *stratRun) blocks(part int) {
	c := r.c
	k := c.L.enumConsts()
	_, strategies := r.values(r.fieldType("strategy"))
	_, levels := r.values(r.fieldType("clevel"))
	r.bySig = r.lib
	r.e.h.Oblig = func(st *State, at ssa.Instruction, kind string, cond *Term, what string) {
		if kind == "assert" && fnName(at.Parent()) == "writeStoredBlock" {
			c.decide(st.truth(cond) == 1, "C18.stored-length", r.what, r.e.pos(at), "%s: a stored block may be too long: %v", r.what, cond)
		}
	}
	// The levels whose encoder is the same are looked at together.
	done := map[string]bool{}
	for i, s := range strategies {
		if i%blockParts != part {
			continue
		}
		for _, l := range levels {
			set := []choice{{"strategy", s}, {"clevel", l}}
			for _, o := range r.build(set, nil) {
				obj := o.ret
				enc := o.getf(mkField(obj, "cfg"), "compressFn", r.e.memberType("compressConfig", "compressFn"))
				lv := o.getf(obj, "clevel", r.fieldType("clevel"))
				if lv.op != OInt {
					panic(abort{"the level of a new Writer is not known"})
				}
				key := fmt.Sprint(enc, lv.k == 0)
				if done[key] {
					continue
				}
				done[key] = true
				r.what = showChoices(set)
				r.rule, r.only = "C18.allowed", func(b int64) bool {
					return b == k["StoredBlock"] || b == k["StaticBlock"] || b == k["DynamicBlock"]
				}
				switch {
				case lv.k == 0:
					r.rule, r.only = "C18.level0", func(b int64) bool { return b == k["StoredBlock"] }
				case s == k["FixedStrategy"]:
					r.rule, r.only = "C18.fixed", func(b int64) bool { return b == k["StoredBlock"] || b == k["StaticBlock"] }
				}
				st := o.clone()
				if lv.k != 0 {
					r.what += " and the like"
					for _, n := range []string{"good", "lazy", "nice", "chain"} {
						st.setf(mkField(obj, "cfg"), n, st.freshOf(tyUint, n))
					}
				}
				st.mon["$self"] = obj
				st.mon["$blk"] = tZero
				st.setf(obj, "state", mkInt(k["openStreamWriterState"]))
				st.storeLeaf(mkField(mkField(obj, "hybrid"), "#len"), mkSym("pending", tyUint))
				r.e.concrete, r.e.split = false, false
				c.counts["operations"]++
				r.seen = map[int64]bool{}
				f := r.fn("(*Writer).compressImpl")
				outs := r.e.call(st, f, []*Term{obj, mkSym("all", tyBool)}, nil, nil)
				r.e.concrete, r.e.split = true, true
				c.decide(len(outs) > 0 && len(r.seen) > 0, "C18.blocks", r.what, r.fpos(f), "%s: no block is written", r.what)
			}
		}
	}
}

func init() {
	addPart("C18", "settings", func(c *Ctx) {
		c.scope = "C18."
		r := &stratRun{setRun: newSetRun(c, "Writer"), seen: map[int64]bool{}}
		r.grid()
		c.floor("settings", 500)
		r.finish()
	})
	for i := 0; i < blockParts; i++ {
		addPart("C18", fmt.Sprintf("blocks %d", i), func(c *Ctx) {
			c.scope = "C18."
			r := &stratRun{setRun: newSetRun(c, "Writer"), seen: map[int64]bool{}}
			r.blocks(i)
			c.floor("operations", 2)
			c.floor("blocks begun", 10)
			c.floor("codes", 2)
			r.finish()
		})
	}
}

// blockParts is the number of processes that share the strategies.
const blockParts = 4
