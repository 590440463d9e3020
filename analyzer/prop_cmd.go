package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// C19: the command-line tool.  main is interpreted with unknown flags; every
// call that can fail does so on one path, and no path on which a failure is
// pending, or on which the copy was not completed and closed, may end with
// the success status.

type cmdRun struct {
	c       *Ctx
	e       *Eng
	pkg     string
	version *ssa.Global // the flag that only prints the version
	decomp  *ssa.Global
	nExit   int
}

func errIndex(sig *types.Signature) int {
	n := sig.Results().Len()
	if n > 0 && types.Identical(sig.Results().At(n-1).Type(), ifaceErr()) {
		return n - 1
	}
	return -1
}

// name of a term that stands for a library object.
func cmdObj(t *Term) string {
	if t == nil {
		return ""
	}
	for t.op == OIface {
		t = t.args[0]
	}
	if t.op == OSym || t.op == OApp || t.op == OObj || t.op == OGlobal {
		return t.String()
	}
	return ""
}

func (r *cmdRun) unwrap(t *Term) *Term {
	for t != nil && t.op == OIface {
		t = t.args[0]
	}
	return t
}

func (r *cmdRun) set(st *State, k, obj string, v *Term) { st.mon["$"+k+":"+obj] = v }

// exit checks a path that ends the program with status zero.
func (r *cmdRun) exit(st *State, where, pos string) {
	r.nExit++
	c := r.c
	if g := r.version; g != nil && st.loadLeaf(intern(Term{op: OGlobal, v: g}), tyBool) == tTrue && st.mon["$begun"] == nil {
		c.ok("C19.version", where)
		return
	}
	if p := st.mon["$pend"]; p != nil {
		c.fail("C19.error-dropped", p.s, pos, "the program can succeed after "+p.s+" failed", st.traceStrings()...)
		return
	}
	c.ok("C19.error-dropped", where)
	var open []string
	copied := ""
	for _, k := range monOrder(st.mon) {
		if strings.HasPrefix(k, "open:") || strings.HasPrefix(k, "$open:") {
			open = append(open, strings.SplitN(k, ":", 2)[1]+" ("+st.mon[k].s+")")
		}
		if strings.HasPrefix(strings.TrimPrefix(k, "$"), "copied:") {
			copied = st.mon[k].s
		}
	}
	c.decide(copied != "", "C19.copied", where, pos, "the program can succeed without copying the complete input through a compressor or decompressor")
	if g := r.decomp; g != nil && copied != "" {
		switch st.loadLeaf(intern(Term{op: OGlobal, v: g}), tyBool) {
		case tTrue:
			c.decide(copied == "reader", "C19.direction", "decompress", pos, "the program compresses although decompression was requested")
		case tFalse:
			c.decide(copied == "writer", "C19.direction", "compress", pos, "the program decompresses although compression was requested")
		}
	}
	c.decide(len(open) == 0, "C19.closed", where, pos, "the program can succeed without closing %s", strings.Join(open, ", "))
}

// libCall models every call that leaves the command.
func (r *cmdRun) libCall(st *State, c *callInfo, recv *Term) ([]*State, bool) {
	name := c.name
	full := name
	if i := strings.LastIndexByte(name, '/'); i >= 0 {
		name = name[i+1:]
	}
	if recv != nil {
		name = c.cc.Method.Name()
		full = types.TypeString(c.cc.Value.Type(), nil) + "." + name
	}
	args := c.args
	if recv != nil {
		args = append([]*Term{recv}, args...)
	}
	fresh := func(s *State) *Term { return s.freshOf(resultTypeOf(c.sig), shortName(name)) }
	arg := func(i int) string {
		if i < len(args) {
			return cmdObj(args[i])
		}
		return ""
	}
	method := shortName(name)
	// ends of the process
	switch {
	case full == "os.Exit":
		if args[0].isConst() && args[0].k != 0 {
			return nil, true
		}
		r.exit(st, "os.Exit", r.e.pos(c.at))
		return nil, true
	case strings.HasPrefix(full, "log.Fatal") || strings.HasPrefix(full, "log.Panic") || strings.HasPrefix(full, "(*log.Logger).Fatal") || strings.HasPrefix(full, "(*log.Logger).Panic") || full == "runtime.Goexit":
		return nil, true
	}
	// structured logging
	if strings.Contains(full, "rs/zerolog") {
		if rt := c.resultType(); rt != nil && strings.HasSuffix(types.TypeString(rt, nil), "zerolog.Event") {
			switch method {
			case "Fatal", "Panic":
				st.ret = mkSym("nn:zerolog-fatal", rt)
			default:
				if len(args) > 0 && strings.Contains(args[0].String(), "zerolog-fatal") {
					st.ret = args[0]
				} else {
					st.ret = mkSym("nn:zerolog-event", rt)
				}
			}
			return []*State{st}, true
		}
		if len(args) > 0 && strings.Contains(args[0].String(), "zerolog-fatal") {
			return nil, true
		}
		st.ret = fresh(st)
		return []*State{st}, true
	}
	switch {
	case strings.HasPrefix(full, "fmt.") || strings.HasPrefix(full, "strings.") || strings.HasPrefix(full, "errors."):
		if full == "errors.New" || full == "fmt.Errorf" {
			return done(st, freshErr(full)), true
		}
		return done(st, fresh(st)), true
	case full == modPath+".NewReader" || full == modPath+".NewWriter":
		kind := "reader"
		if method == "NewWriter" {
			kind = "writer"
		}
		st.mon["$begun"] = tTrue
		symCount++
		o := mkSym(fmt.Sprintf("nn:%s@%s", kind, r.e.pos(c.at)), c.resultType())
		if b := arg(0); strings.Contains(b, "nn:") {
			_ = b
		}
		r.set(st, "open", o.String(), mkStr("flate "+kind))
		r.set(st, "under", o.String(), r.unwrap(args[0]))
		return done(st, o), true
	case full == "io.LimitReader" || full == "io.NewSectionReader":
		return done(st, mkSym("nn:limited reader@"+r.e.pos(c.at), c.resultType())), true
	case full == "io.TeeReader" || full == "bufio.NewReader" || full == "bufio.NewReaderSize" || full == "io.NopCloser":
		return done(st, args[0]), true
	case full == "bufio.NewWriter" || full == "bufio.NewWriterSize":
		o := mkSym(fmt.Sprintf("nn:bufio@%s", r.e.pos(c.at)), c.resultType())
		r.set(st, "open", o.String(), mkStr("buffered writer"))
		return done(st, o), true
	case strings.HasPrefix(full, "runtime/pprof.") || strings.HasPrefix(full, "(*runtime/pprof."):
		for i := range args {
			if o := arg(i); o != "" {
				r.set(st, "prof", o, tTrue)
			}
		}
	}
	ei := errIndex(c.sig)
	if ei < 0 {
		if rt := resultTypeOf(c.sig); rt != nil {
			r.e.havoc(st, c)
			return done(st, fresh(st)), true
		}
		return done(st, nil), true
	}
	r.c.counts["fallible calls"]++
	where := strings.TrimPrefix(full, modPath+".")
	res := func(s *State, er *Term) *Term {
		rt := resultTypeOf(c.sig)
		if ei == 0 {
			return er
		}
		v := s.freshOf(rt, shortName(name))
		as := append([]*Term{}, s.resolveTuple(v).args...)
		as[ei] = er
		if tu, ok := rt.(*types.Tuple); ok && er == tNil {
			if _, isP := tu.At(0).Type().Underlying().(*types.Pointer); isP {
				as[0] = mkSym("nn:"+shortName(name)+"@"+r.e.pos(c.at), tu.At(0).Type())
			}
		}
		return mkTuple(as...)
	}
	bad := st.clone()
	bad.note("%s: %s fails", r.e.pos(c.at), where)
	er := mkSym("nn:error of "+where, ifaceErr())
	prof := false
	for i := range args {
		if o := arg(i); o != "" && st.mon["$prof:"+o] != nil {
			prof = true
		}
	}
	eofRead := method == "Read" && (recv != nil || strings.HasSuffix(full, ").Read"))
	if !prof && bad.mon["$pend"] == nil {
		bad.mon["$pend"] = mkStr(where)
	}
	bad.ret = res(bad, er)
	outs := []*State{bad}
	if eofRead {
		eof := st.clone()
		if o := arg(0); o != "" {
			r.set(eof, "eof", o, tTrue)
		}
		eof.ret = res(eof, r.e.gval("io", "EOF"))
		outs = append(outs, eof)
	}
	switch {
	case full == "io.Copy" || full == "io.CopyBuffer":
		dst, src := arg(0), arg(1)
		r.copied(st, dst, src)
	case method == "ReadFrom" && len(args) == 2:
		r.copied(st, arg(0), arg(1))
	case method == "WriteTo" && len(args) == 2 && !prof:
		r.copied(st, arg(1), arg(0))
	case method == "Close":
		delete(st.mon, "$open:"+arg(0))
	case method == "Flush" && strings.Contains(full, "bufio"):
		delete(st.mon, "$open:"+arg(0))
	}
	if method == "Write" {
		// a copy loop of its own
		for k := range st.mon {
			if strings.HasPrefix(k, "$open:") && k[6:] == arg(0) {
				r.set(st, "wrote", arg(0), tTrue)
			}
		}
	}
	st.ret = res(st, tNil)
	return append(outs, st), true
}

// copied notes that src was copied to its end.
func (r *cmdRun) copied(st *State, dst, src string) {
	if strings.Contains(src, "nn:limited reader") {
		return
	}
	r.c.counts["complete copies"]++
	for _, k := range monOrder(st.mon) {
		k := "$" + strings.TrimPrefix(k, "$")
		o, ok := strings.CutPrefix(k, "$open:")
		if !ok || st.mon[k] == nil {
			continue
		}
		switch {
		case o == dst && st.mon[k].s == "flate writer":
			if !strings.Contains(src, "flate") {
				r.set(st, "copied", o, mkStr("writer"))
			}
		case o == src && st.mon[k].s == "flate reader":
			r.set(st, "copied", o, mkStr("reader"))
		}
	}
}

// havoc forgets what a call may have changed through its arguments.
func (e *Eng) havoc(st *State, c *callInfo) {
	for _, a := range c.args {
		e.havocArg(st, a, 0)
	}
}

func (r *cmdRun) flag(long string) *ssa.Global {
	for _, fn := range r.c.L.allFuncs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != r.pkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				call, ok := in.(ssa.CallInstruction)
				if !ok {
					continue
				}
				var g *ssa.Global
				hit := false
				for _, a := range call.Common().Args {
					if mi, ok := a.(*ssa.MakeInterface); ok {
						a = mi.X
					}
					if x, ok := a.(*ssa.Global); ok {
						g = x
					}
					if k, ok := a.(*ssa.Const); ok && k.Value != nil && k.Value.ExactString() == fmt.Sprintf("%q", long) {
						hit = true
					}
				}
				if hit && g != nil {
					return g
				}
			}
		}
	}
	return nil
}

func cmdProperty(c *Ctx) {
	L := c.L
	r := &cmdRun{c: c, e: newEng(L), pkg: modPath + "/cmd/gzip"}
	e := r.e
	e.verbose = c.verbose
	st := L.globalsState(func(s string) { panic(abort{s}) })
	lazyHook = e.defaultLazy
	mainFn := L.fn(r.pkg, "main")
	if mainFn == nil {
		panic(abort{"missing anchor main"})
	}
	// variables that are handed out by the initialisers are set by the parser
	esc := map[*ssa.Global]bool{}
	for _, fn := range L.allFuncs {
		if fn.Pkg == nil || fn.Pkg.Pkg.Path() != r.pkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if mi, ok := in.(*ssa.MakeInterface); ok {
					if g, ok := mi.X.(*ssa.Global); ok {
						esc[g] = true
					}
				}
			}
		}
	}
	for k := range constCells {
		if b := baseOf(k); b.op == OGlobal && esc[b.v.(*ssa.Global)] {
			delete(constCells, k)
		}
	}
	c.counts["flag variables"] = len(esc)
	c.floor("flag variables", 20)
	r.version, r.decomp = r.flag("version"), r.flag("decompress")
	if r.version == nil || r.decomp == nil {
		panic(abort{"the flags version and decompress are not found"})
	}
	local := func(fn *ssa.Function) bool {
		for f := fn; f != nil; f = f.Parent() {
			if p := f.Pkg; p != nil {
				return p.Pkg.Path() == r.pkg && len(fn.Blocks) > 0
			}
		}
		if o := fn.Object(); o != nil && o.Pkg() != nil && o.Pkg().Path() == r.pkg {
			return len(fn.Blocks) > 0
		}
		return false
	}
	e.h.Call = func(e *Eng, st *State, ci *callInfo) ([]*State, bool) {
		if local(ci.fn) {
			c.counts["calls followed"]++
			return nil, false
		}
		return r.libCall(st, ci, nil)
	}
	e.h.Invoke = func(e *Eng, st *State, ci *callInfo) ([]*State, bool) {
		return r.libCall(st, ci, ci.recv)
	}
	e.h.Panic = func(st *State, at ssa.Instruction, what string) {}
	e.h.Oblig = func(st *State, at ssa.Instruction, kind string, cond *Term, what string) {}
	for _, g := range []*ssa.Global{r.version, r.decomp} {
		e.roots = append(e.roots, intern(Term{op: OGlobal, v: g}))
	}
	e.noKeyType = func(types.Type) bool { return true }
	e.noKeyCell = func(k *Term) bool {
		b := baseOf(k)
		return b.op == OGlobal && b.v != ssa.Value(r.version) && b.v != ssa.Value(r.decomp)
	}
	// the two flags are fixed from the start
	for _, v := range []bool{true, false} {
		for _, d := range []bool{true, false} {
			s := st.clone()
			s.cells[intern(Term{op: OGlobal, v: r.version})] = mkBool(v)
			s.cells[intern(Term{op: OGlobal, v: r.decomp})] = mkBool(d)
			for _, o := range e.call(s, mainFn, nil, nil, nil) {
				r.exit(o, "the end of main", L.posString(mainFn.Pos()))
			}
		}
	}
	c.counts["successful ends"] = r.nExit
	// values of flags: an error of the parser is reported
	for _, fn := range L.allFuncs {
		if fn.Name() != "Set" || fn.Pkg == nil || fn.Pkg.Pkg.Path() != r.pkg || errIndex(fn.Signature) < 0 {
			continue
		}
		s := st.clone()
		var args []*Term
		for _, p := range fn.Params {
			v := s.freshOf(p.Type(), "arg:"+p.Name())
			if _, ok := p.Type().Underlying().(*types.Pointer); ok {
				v = e.allocAt(s, "flag", derefType(p.Type()))
			}
			args = append(args, v)
		}
		c.counts["flag types"]++
		for _, o := range e.call(s, fn, args, nil, nil) {
			c.decide(o.mon["$pend"] == nil || o.truth(tEq(o.resolve(o.ret), tNil)) == -1, "C19.flag-error", fnName(fn), L.posString(fn.Pos()), "an invalid flag value is accepted silently")
		}
	}
	for _, k := range e.order {
		p := e.problems[k]
		if p.rule == "undecided" {
			c.fail(p.rule, p.where, p.pos, p.msg, p.trace...)
		}
	}
	c.floor("fallible calls", 12)
	c.floor("complete copies", 2)
	c.floor("successful ends", 3)
	c.floor("flag types", 5)
	c.explain = append(c.explain, "main is interpreted abstractly with unknown flags; every call that can fail also does so, and every path to the success status is checked for pending failures, for a completed copy and for unclosed compressors, decompressors and buffers.")
	c.assume = append(c.assume, "io.Copy returns nil only after reading its source to the end; zerolog's Fatal events end the process with a failure status.", "Failures of the profiling outputs are exempt.")
}

func init() { register("C19", nil, cmdProperty) }
