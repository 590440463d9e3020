package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Hooks are the property-specific parts of an analysis.
type Hooks struct {
	// Oblig is called for conditions that must hold to avoid a panic.
	Oblig func(st *State, at ssa.Instruction, kind string, cond *Term, what string)
	// Panic is called when a panic statement or failed assertion is reachable.
	Panic func(st *State, at ssa.Instruction, what string)
	// Store is called before every store to a leaf cell.
	Store func(st *State, at ssa.Instruction, addr, v *Term)
	// Load is called before every load.
	Load func(st *State, at ssa.Instruction, addr *Term)
	// Enter and Exit are called around inlined calls.
	Enter func(st *State, fn *ssa.Function, args []*Term)
	Exit  func(st *State, fn *ssa.Function)
	// Branch is called with every undecided or decided condition.
	Branch func(st *State, at *ssa.If, cond *Term)
	// Invoke handles calls of methods of unknown interface values.
	Invoke func(e *Eng, st *State, c *callInfo) ([]*State, bool)
	// Ext handles calls of functions without a body or outside of the module.
	Ext func(e *Eng, st *State, c *callInfo) ([]*State, bool)
	// Call may take over any call with a known callee.
	Call func(e *Eng, st *State, c *callInfo) ([]*State, bool)
	// Go is called for go statements.
	Go func(e *Eng, st *State, c *callInfo)
	// Loop is called when a loop invariant was updated.
	Ret func(st *State, fn *ssa.Function)
}

// callInfo describes one call.
type callInfo struct {
	at   ssa.Instruction
	cc   *ssa.CallCommon
	fn   *ssa.Function // static callee, may be nil
	name string        // qualified name of the callee
	recv *Term         // receiver of an invoke
	args []*Term
	sig  *types.Signature
}

func (c *callInfo) resultType() types.Type {
	r := c.sig.Results()
	switch r.Len() {
	case 0:
		return nil
	case 1:
		return r.At(0).Type()
	}
	return r
}

// Problem is one finding.
type Problem struct {
	rule  string
	where string
	pos   string
	msg   string
	trace []string
}

// Eng is one analysis run.
type Eng struct {
	memo              map[string]*memoEntry
	nMemo             int
	extraKey          func(s *State) string // further distinctions between states
	lite              bool                  // joins keep only facts common to both sides
	rel               bool
	forceSums         map[*Term]bool
	ladder            []int64
	noLadder          bool
	tidy              func(s *State)
	notThis           *Term // joins remember that an error is not this one
	phiMemo           map[*ssa.Phi]bool
	protect           func(key string) bool // stores that must be analysed in place
	smallFn           int
	effMemo, effLocal map[*ssa.Function]*effects
	summMemo          map[*ssa.Function]bool
	L                 *Loaded
	prog              *ssa.Program
	h                 Hooks
	keyBytes          bool
	noKeyCell         func(*Term) bool
	noKeyType         func(types.Type) bool
	cellTypes         map[*Term]types.Type
	normHook          func(*State)
	roots             []*Term

	problems map[string]*Problem
	order    []string

	nBlocks, nJoins, nCalls int
	fnSeen                  map[*ssa.Function]int
	sitesSeen               map[string]int
	deadline                time.Time
	verbose                 int
	maxKeys                 int
	noInline                map[string]bool
	infos                   map[*ssa.Function]*fnInfo
	counts                  map[string]int
	chains                  bool
	concrete                bool
	split                   bool // never merge states (small functions only)
	nSplit                  int
	evHook                  func(st *State, c *callInfo, kind string, obj *Term, args []*Term)
	syncHook                func(e *Eng, st *State, c *callInfo, kind string, obj *Term) []*State
	appendHook              func(st *State, at ssa.Instruction, dst, src *Term) *Term
	copyHook                func(st *State, at ssa.Instruction, dst, src, n *Term) bool
}

func newEng(L *Loaded) *Eng {
	return &Eng{
		L: L, prog: L.prog,
		cellTypes: map[*Term]types.Type{},
		problems:  map[string]*Problem{},
		fnSeen:    map[*ssa.Function]int{},
		sitesSeen: map[string]int{},
		infos:     map[*ssa.Function]*fnInfo{},
		counts:    map[string]int{},
		maxKeys:   400,
		deadline:  time.Now().Add(700 * time.Second),
	}
}

func (e *Eng) pos(at ssa.Instruction) string {
	if at == nil {
		return ""
	}
	p := at.Pos()
	if p == token.NoPos {
		if b := at.Block(); b != nil {
			// nearest instruction with a position
			for _, i := range b.Instrs {
				if i.Pos() != token.NoPos {
					p = i.Pos()
				}
				if i == at && p != token.NoPos {
					break
				}
			}
		}
		if p == token.NoPos && at.Parent() != nil {
			p = at.Parent().Pos()
		}
	}
	return e.L.posString(p)
}

// report adds a finding, once per rule and construct.
func (e *Eng) report(st *State, at ssa.Instruction, rule, construct, format string, args ...interface{}) {
	key := rule + "|" + construct
	if _, ok := e.problems[key]; ok {
		return
	}
	p := &Problem{rule: rule, where: construct, pos: e.pos(at), msg: fmt.Sprintf(format, args...)}
	if st != nil {
		p.trace = st.traceStrings()
		for _, f := range st.frames {
			if f.site != nil {
				p.trace = append(p.trace, "in call at "+e.pos(f.site)+" to "+fnName(f.fn))
			}
		}
		if e.verbose > 1 {
			p.trace = append(p.trace, st.dump())
		}
	}
	e.problems[key] = p
	e.order = append(e.order, key)
	if e.verbose > 0 {
		fmt.Fprintf(os.Stderr, "PROBLEM %s %s: %s [%s]\n", p.pos, rule, p.msg, construct)
		if e.verbose > 0 {
			for _, t := range p.trace {
				if len(t) < 300 {
					fmt.Fprintln(os.Stderr, "   TR", t)
				}
			}
		}
	}
}

// abort is an analysis failure (undecided).
type abort struct{ msg string }

func (e *Eng) undecided(st *State, at ssa.Instruction, format string, args ...interface{}) {
	fn := ""
	if at != nil && at.Parent() != nil {
		fn = fnName(at.Parent())
	}
	m := fmt.Sprintf(format, args...)
	e.report(st, at, "undecided", fn+": "+m, "%s", m)
}

func fnName(f *ssa.Function) string {
	if f == nil {
		return "?"
	}
	s := f.String()
	s = strings.ReplaceAll(s, modPath+".", "")
	s = strings.ReplaceAll(s, modPath+"/", "")
	return s
}

// -------------------------------------------------------- function info

type fnInfo struct {
	order   []*ssa.BasicBlock // by priority
	prio    map[*ssa.BasicBlock]int
	head    map[*ssa.BasicBlock]bool
	liveIn  map[*ssa.BasicBlock]map[ssa.Value]bool
	liveOut map[*ssa.BasicBlock]map[ssa.Value]bool
	after   map[ssa.Instruction]map[ssa.Value]bool
	index   map[ssa.Value]int
	siteNum map[ssa.Instruction]int
}

func tracked(v ssa.Value) bool {
	switch v.(type) {
	case *ssa.Parameter, *ssa.FreeVar:
		return true
	case ssa.Instruction:
		return true
	}
	return false
}

func (e *Eng) info(fn *ssa.Function) *fnInfo {
	if i, ok := e.infos[fn]; ok {
		return i
	}
	inf := &fnInfo{
		prio: map[*ssa.BasicBlock]int{}, head: map[*ssa.BasicBlock]bool{},
		liveIn:  map[*ssa.BasicBlock]map[ssa.Value]bool{},
		liveOut: map[*ssa.BasicBlock]map[ssa.Value]bool{},
		after:   map[ssa.Instruction]map[ssa.Value]bool{},
		index:   map[ssa.Value]int{},
		siteNum: map[ssa.Instruction]int{},
	}
	e.infos[fn] = inf
	// loops: natural loop membership through retreating edges
	state := map[*ssa.BasicBlock]int{}
	loopOf := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{} // head -> members
	var dfs func(b *ssa.BasicBlock)
	var back [][2]*ssa.BasicBlock
	dfs = func(b *ssa.BasicBlock) {
		state[b] = 1
		for _, s := range b.Succs {
			if state[s] == 1 {
				inf.head[s] = true
				back = append(back, [2]*ssa.BasicBlock{b, s})
			} else if state[s] == 0 {
				dfs(s)
			}
		}
		state[b] = 2
	}
	entry := fn.Blocks[0]
	dfs(entry)
	if fn.Recover != nil && state[fn.Recover] == 0 {
		// not analysed
		_ = fn.Recover
	}
	for _, e := range back {
		m := loopOf[e[1]]
		if m == nil {
			m = map[*ssa.BasicBlock]bool{e[1]: true}
			loopOf[e[1]] = m
		}
		work := []*ssa.BasicBlock{e[0]}
		for len(work) > 0 {
			b := work[len(work)-1]
			work = work[:len(work)-1]
			if m[b] {
				continue
			}
			m[b] = true
			work = append(work, b.Preds...)
		}
	}
	depth := func(b *ssa.BasicBlock) int {
		n := 0
		for _, m := range loopOf {
			if m[b] {
				n++
			}
		}
		return n
	}
	// post-order, visiting loop exits first so that they come last
	var post []*ssa.BasicBlock
	seen := map[*ssa.BasicBlock]bool{}
	var visit func(b *ssa.BasicBlock)
	visit = func(b *ssa.BasicBlock) {
		seen[b] = true
		ss := append([]*ssa.BasicBlock(nil), b.Succs...)
		sort.SliceStable(ss, func(i, j int) bool { return depth(ss[i]) < depth(ss[j]) })
		for _, s := range ss {
			if !seen[s] {
				visit(s)
			}
		}
		post = append(post, b)
	}
	visit(entry)
	for i := len(post) - 1; i >= 0; i-- {
		inf.prio[post[i]] = len(inf.order)
		inf.order = append(inf.order, post[i])
	}
	// numbering
	n := 0
	for _, p := range fn.Params {
		inf.index[p] = n
		n++
	}
	for _, p := range fn.FreeVars {
		inf.index[p] = n
		n++
	}
	site := 0
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			site++
			inf.siteNum[i] = site
			if v, ok := i.(ssa.Value); ok {
				inf.index[v] = n
				n++
			}
		}
	}
	// liveness
	for _, b := range inf.order {
		inf.liveIn[b] = map[ssa.Value]bool{}
		inf.liveOut[b] = map[ssa.Value]bool{}
	}
	for changed := true; changed; {
		changed = false
		for i := len(inf.order) - 1; i >= 0; i-- {
			b := inf.order[i]
			out := inf.liveOut[b]
			for _, s := range b.Succs {
				pi := predIndex(s, b)
				for v := range inf.liveIn[s] {
					if !out[v] {
						out[v] = true
						changed = true
					}
				}
				for _, in := range s.Instrs {
					phi, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					if v := phi.Edges[pi]; tracked(v) && !out[v] {
						out[v] = true
						changed = true
					}
				}
			}
			live := map[ssa.Value]bool{}
			for v := range out {
				live[v] = true
			}
			for k := len(b.Instrs) - 1; k >= 0; k-- {
				in := b.Instrs[k]
				if v, ok := in.(ssa.Value); ok {
					delete(live, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && tracked(*op) {
						live[*op] = true
					}
				}
			}
			in := inf.liveIn[b]
			for v := range live {
				if !in[v] {
					in[v] = true
					changed = true
				}
			}
		}
	}
	// liveness after calls
	for _, b := range inf.order {
		live := map[ssa.Value]bool{}
		for v := range inf.liveOut[b] {
			live[v] = true
		}
		for k := len(b.Instrs) - 1; k >= 0; k-- {
			in := b.Instrs[k]
			switch in.(type) {
			case *ssa.Call, *ssa.RunDefers:
				cp := map[ssa.Value]bool{}
				for v := range live {
					cp[v] = true
				}
				inf.after[in] = cp
			}
			if v, ok := in.(ssa.Value); ok {
				delete(live, v)
			}
			if _, ok := in.(*ssa.Phi); ok {
				continue
			}
			for _, op := range in.Operands(nil) {
				if *op != nil && tracked(*op) {
					live[*op] = true
				}
			}
		}
	}
	return inf
}

func predIndex(b, pred *ssa.BasicBlock) int {
	for i, p := range b.Preds {
		if p == pred {
			return i
		}
	}
	return -1
}

// ------------------------------------------------------------ interpreter

type headInv struct {
	st *State
	n  int
}

type activation struct {
	e    *Eng
	fn   *ssa.Function
	inf  *fnInfo
	pend map[*ssa.BasicBlock]map[string]*State
	inv  map[*ssa.BasicBlock]map[string]*headInv
	outs map[string]*State
	keys []string
}

// call runs a function body and returns the exit states, with st.ret set.
func (e *Eng) call(st *State, fn *ssa.Function, args, binds []*Term, site ssa.Instruction) []*State {
	if time.Now().After(e.deadline) {
		panic(abort{"time limit of the analysis exceeded"})
	}
	if len(fn.Blocks) == 0 {
		panic(abort{"call of a function without body: " + fn.String()})
	}
	e.nCalls++
	e.fnSeen[fn]++
	n := 0
	for _, f := range st.frames {
		if f.fn == fn {
			n++
		}
	}
	if n > 3 {
		e.undecided(st, site, "recursion of %s is too deep", fnName(fn))
		return nil
	}
	ctx := ""
	if len(st.frames) > 0 {
		top := st.top()
		ctx = top.ctx
		if site != nil {
			ctx += fmt.Sprintf("/%d", e.info(site.Parent()).siteNum[site])
		}
		// restrict the caller to what is needed after the call
		if live := e.info(top.fn).after[site]; live != nil {
			for v := range top.regs {
				if !live[v] {
					delete(top.regs, v)
				}
			}
		}
	}
	fr := &Frame{fn: fn, ctx: ctx, regs: map[ssa.Value]*Term{}, site: site}
	for i, p := range fn.Params {
		if i < len(args) {
			fr.regs[p] = args[i]
		}
	}
	for i, p := range fn.FreeVars {
		if i < len(binds) {
			fr.regs[p] = binds[i]
		}
	}
	st.frames = append(st.frames, fr)
	if e.h.Enter != nil {
		e.h.Enter(st, fn, args)
	}
	var me *memoEntry
	if e.lite && !e.concrete && len(fn.Blocks) > 2 {
		e.normalise(st)
		mk := fmt.Sprintf("%p %s ", fn, ctx) + e.stateKey(st)
		if e.memo == nil {
			e.memo = map[string]*memoEntry{}
		}
		me = e.memo[mk]
		if me == nil {
			me = &memoEntry{in: st.clone()}
			e.memo[mk] = me
			me.busy = true
		} else if me.busy {
			me = nil
		} else if e.match(me.in, st) {
			e.nMemo++
			var res []*State
			for _, o := range me.outs {
				res = append(res, o.clone())
			}
			return res
		} else {
			me.n++
			if me.n >= 2 {
				st = e.join(me.in, st, me.n > 3, me.n)
				e.gc(st)
			}
			me.in = st.clone()
			me.busy = true
		}
	}
	a := &activation{e: e, fn: fn, inf: e.info(fn),
		pend: map[*ssa.BasicBlock]map[string]*State{},
		inv:  map[*ssa.BasicBlock]map[string]*headInv{},
		outs: map[string]*State{},
	}
	a.enqueue(st, nil, fn.Blocks[0])
	a.loop()
	var res []*State
	for _, k := range a.keys {
		o := a.outs[k]
		o.ret = o.mon["$ret"]
		delete(o.mon, "$ret")
		if e.h.Ret != nil {
			e.h.Ret(o, fn)
		}
		res = append(res, o)
	}
	if me != nil {
		me.busy = false
		me.outs = nil
		for _, o := range res {
			me.outs = append(me.outs, o.clone())
		}
	}
	return res
}

// memoEntry caches the outcome of a call for one abstract entry state.
type memoEntry struct {
	in   *State
	outs []*State
	n    int
	busy bool
}

// enqueue passes a state along an edge.
func (a *activation) enqueue(st *State, from, to *ssa.BasicBlock) {
	if st.dead {
		return
	}
	f := st.top()
	if from != nil {
		pi := predIndex(to, from)
		var vals []*Term
		var phis []*ssa.Phi
		for _, in := range to.Instrs {
			phi, ok := in.(*ssa.Phi)
			if !ok {
				break
			}
			phis = append(phis, phi)
			vals = append(vals, a.e.eval(st, phi.Edges[pi]))
		}
		for i, phi := range phis {
			f.regs[phi] = vals[i]
		}
	}
	live := a.inf.liveIn[to]
	for v := range f.regs {
		if live[v] {
			continue
		}
		if p, ok := v.(*ssa.Phi); ok && p.Block() == to {
			continue
		}
		delete(f.regs, v)
	}
	if len(to.Preds) <= 1 && !a.inf.head[to] && from != nil {
		// no merge needed, but several states may arrive
		_ = to
	}
	if a.inf.head[to] && !a.e.concrete {
		st.foldElems()
	}
	a.e.normalise(st)
	key := a.e.stateKey(st)
	if a.e.split {
		a.e.nSplit++
		key = fmt.Sprintf("%08d", a.e.nSplit)
	}
	m := a.pend[to]
	if m == nil {
		m = map[string]*State{}
		a.pend[to] = m
	}
	if old, ok := m[key]; ok {
		a.e.nJoins++
		m[key] = a.e.merge(old, st)
	} else {
		m[key] = st
		if len(m) > a.e.maxKeys {
			if a.e.verbose > 0 {
				i := 0
				for k := range m {
					fmt.Fprintln(os.Stderr, "KEY", k)
					for c, v := range m[k].cells {
						if c.id > 20000 {
							fmt.Fprintln(os.Stderr, "  CELL", c.id, c, v)
						}
					}
					if i++; i > 4 {
						break
					}
				}
			}
			panic(abort{fmt.Sprintf("too many abstract states in %s", fnName(a.fn))})
		}
	}
}

// merge joins two states with the same key.
func (e *Eng) merge(a, b *State) *State {
	if e.match(a, b) {
		return a
	}
	if e.match(b, a) {
		return b
	}
	j := e.join(a, b, false, 0)
	e.gc(j)
	return j
}

func (a *activation) loop() {
	e := a.e
	for {
		var b *ssa.BasicBlock
		for _, x := range a.inf.order {
			if len(a.pend[x]) > 0 {
				b = x
				break
			}
		}
		if b == nil {
			return
		}
		m := a.pend[b]
		delete(a.pend, b)
		keys := make([]string, 0, len(m))
		for k := range m {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		for _, k := range keys {
			st := m[k]
			if a.inf.head[b] && !e.concrete {
				hs := a.inv[b]
				if hs == nil {
					hs = map[string]*headInv{}
					a.inv[b] = hs
				}
				h := hs[k]
				if h == nil {
					if e.lite {
						if e.forceSums = phiSums(st, b); e.forceSums != nil {
							st = e.join(st, st, false, 1)
							e.forceSums = nil
						}
					}
					hs[k] = &headInv{st: st.clone()}
				} else {
					if e.match(h.st, st) {
						continue
					}
					h.n++
					if h.n > 40 {
						whyOn = true
						e.match(h.st, st)
						whyOn = false
						e.undecided(st, b.Instrs[0], "loop invariant does not converge")
						if e.verbose > 0 {
							fmt.Fprintln(os.Stderr, "WHY", whyMsg)
						}
						continue
					}
					if e.verbose > 2 {
						whyOn = true
						e.match(h.st, st)
						whyOn = false
						fmt.Fprintf(os.Stderr, "LOOP %s b%d n=%d %s\n", fnName(a.fn), b.Index, h.n, whyMsg)
					}
					j := e.join(h.st, st, h.n > 3, h.n)
					e.gc(j)
					h.st = j
					st = j.clone()
				}
			}
			if dbgFn != "" && strings.HasSuffix(fnName(a.fn), dbgFn) && (a.inf.head[b] || os.Getenv("VDBGALL") != "") {
				a.debug(st, b)
			}
			a.block(st, b)
		}
	}
}

// phiSums returns the values of loop variables that are sums of several
// symbols; they are replaced by single symbols.
func phiSums(st *State, b *ssa.BasicBlock) map[*Term]bool {
	var r map[*Term]bool
	f := st.top()
	for _, i := range b.Instrs {
		phi, ok := i.(*ssa.Phi)
		if !ok {
			break
		}
		if v := f.regs[phi]; v != nil && v.op == OLin && len(v.args) >= 2 {
			if r == nil {
				r = map[*Term]bool{}
			}
			r[v] = true
		}
	}
	return r
}

var dbgFn = os.Getenv("VDBG")

func (a *activation) debug(st *State, b *ssa.BasicBlock) {
	f := st.top()
	s := fmt.Sprintf("DBG %s b%d:", fnName(a.fn), b.Index)
	for _, r := range regOrder(f) {
		s += fmt.Sprintf(" %s=%v", r.Name(), f.regs[r])
	}
	for _, k := range sortedKeys(st.cells) {
		if leafName(k) == "#len" {
			s += fmt.Sprintf(" %v=%v", k, st.cells[k])
		}
	}
	fmt.Fprintln(os.Stderr, s)
}

// block executes one basic block.
func (a *activation) block(st *State, b *ssa.BasicBlock) {
	e := a.e
	e.nBlocks++
	type item struct {
		st  *State
		idx int
	}
	i := 0
	for i < len(b.Instrs) {
		if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
			break
		}
		i++
	}
	work := []item{{st, i}}
	for len(work) > 0 {
		w := work[len(work)-1]
		work = work[:len(work)-1]
		st, i := w.st, w.idx
	instrs:
		for ; i < len(b.Instrs); i++ {
			if st.dead {
				break
			}
			st.hist = nil
			switch in := b.Instrs[i].(type) {
			case *ssa.Jump:
				a.enqueue(st, b, b.Succs[0])
				break instrs
			case *ssa.If:
				c := e.eval(st, in.Cond)
				if e.h.Branch != nil {
					e.h.Branch(st, in, c)
				}
				switch st.truth(c) {
				case 1:
					a.enqueue(st, b, b.Succs[0])
				case -1:
					a.enqueue(st, b, b.Succs[1])
				default:
					s2 := st.clone()
					if st.assume(c) && !st.dead {
						st.note("%s: %v is true", e.pos(in), in.Cond.Name())
						a.enqueue(st, b, b.Succs[0])
					}
					if s2.assume(tNot(c)) && !s2.dead {
						s2.note("%s: %v is false", e.pos(in), in.Cond.Name())
						a.enqueue(s2, b, b.Succs[1])
					}
				}
				break instrs
			case *ssa.Return:
				var r *Term
				switch len(in.Results) {
				case 0:
					r = tUnit
				case 1:
					r = e.eval(st, in.Results[0])
				default:
					ts := make([]*Term, len(in.Results))
					for k, x := range in.Results {
						ts[k] = e.eval(st, x)
					}
					r = mkTuple(ts...)
				}
				a.ret(st, r)
				break instrs
			case *ssa.Panic:
				if e.h.Panic != nil {
					e.h.Panic(st, in, "panic statement")
				}
				break instrs
			case *ssa.Call:
				outs := e.doCall(st, in, &in.Call, in)
				for _, o := range outs {
					if o.dead {
						continue
					}
					if in.Name() != "" {
						o.top().regs[in] = o.ret
					}
					o.ret = nil
					work = append(work, item{o, i + 1})
				}
				// process outcomes in order
				for x, y := len(work)-len(outs), len(work)-1; x >= 0 && x < y; x, y = x+1, y-1 {
					work[x], work[y] = work[y], work[x]
				}
				break instrs
			case *ssa.RunDefers:
				states := []*State{st}
				for {
					var next []*State
					more := false
					for _, s := range states {
						f := s.top()
						if len(f.defers) == 0 {
							next = append(next, s)
							continue
						}
						more = true
						d := f.defers[len(f.defers)-1]
						f.defers = f.defers[:len(f.defers)-1]
						for _, o := range e.callDeferred(s, in, d) {
							o.ret = nil
							if !o.dead {
								next = append(next, o)
							}
						}
					}
					states = next
					if !more {
						break
					}
				}
				for k := len(states) - 1; k >= 0; k-- {
					work = append(work, item{states[k], i + 1})
				}
				break instrs
			default:
				outs := e.instr(st, in)
				if outs == nil {
					continue
				}
				for k := len(outs) - 1; k >= 0; k-- {
					if !outs[k].dead {
						work = append(work, item{outs[k], i + 1})
					}
				}
				break instrs
			}
		}
	}
}

func (a *activation) ret(st *State, r *Term) {
	fn := a.fn
	if a.e.h.Exit != nil {
		st.ret = r
		a.e.h.Exit(st, fn)
		r = st.ret
	}
	st.frames = st.frames[:len(st.frames)-1]
	st.ret = nil
	if r.op == OApp && r.ty == nil {
		switch st.truth(r) {
		case 1:
			r = tTrue
		case -1:
			r = tFalse
		}
	} else if r.op == OTuple {
		r = st.resolveTuple(r)
	}
	st.mon["$ret"] = r
	a.e.normalise(st)
	rt := resultTypeOf(fn.Signature)
	key := "ret=" + a.e.class(st, st.mon["$ret"], rt) + " " + a.e.stateKey(st)
	if a.e.split {
		a.e.nSplit++
		key = fmt.Sprintf("%08d", a.e.nSplit)
	}
	if old, ok := a.outs[key]; ok {
		a.outs[key] = a.e.merge(old, st)
	} else {
		a.outs[key] = st
		a.keys = append(a.keys, key)
	}
}

func resultTypeOf(sig *types.Signature) types.Type {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return types.NewTuple()
	case 1:
		return r.At(0).Type()
	}
	return r
}

// eval evaluates an operand.
func (e *Eng) eval(st *State, v ssa.Value) *Term {
	switch x := v.(type) {
	case *ssa.Const:
		return constTerm(x.Value, x.Type())
	case *ssa.Global:
		return intern(Term{op: OGlobal, v: x})
	case *ssa.Function:
		return intern(Term{op: OFunc, v: x})
	case *ssa.Builtin:
		return mkStr("builtin:" + x.Name())
	}
	f := st.top()
	if t, ok := f.regs[v]; ok {
		return t
	}
	panic(fmt.Sprintf("no value for %s %v in %s", v.Name(), v, f.fn))
}

func (e *Eng) evals(st *State, vs []ssa.Value) []*Term {
	r := make([]*Term, len(vs))
	for i, v := range vs {
		r[i] = e.eval(st, v)
	}
	return r
}

// allocAt creates a new object; an older object of the same site is renamed.
func (e *Eng) allocAt(st *State, site string, t types.Type) *Term {
	o := intern(Term{op: OObj, s: site, ty: t})
	used := false
	for k := range st.cells {
		if baseOf(k) == o {
			used = true
			break
		}
	}
	if used || st.mentions(o) {
		symCount++
		st.subst(o, intern(Term{op: OObj, s: site, ty: t, k: symCount}))
	}
	return o
}

func (s *State) mentions(o *Term) bool {
	for _, f := range s.frames {
		for _, v := range f.regs {
			if contains(v, o) {
				return true
			}
		}
		for _, d := range f.defers {
			if d.fn != nil && contains(d.fn, o) {
				return true
			}
			for _, a := range d.args {
				if contains(a, o) {
					return true
				}
			}
		}
	}
	for k, v := range s.cells {
		if contains(v, o) || contains(k, o) {
			return true
		}
	}
	for _, v := range s.mon {
		if contains(v, o) {
			return true
		}
	}
	return false
}

func (e *Eng) siteName(st *State, in ssa.Instruction) string {
	return fmt.Sprintf("%s:%d@%s", fnName(in.Parent()), e.info(in.Parent()).siteNum[in], st.top().ctx)
}

func (e *Eng) oblig(st *State, at ssa.Instruction, kind string, cond *Term, what string) bool {
	if e.h.Oblig != nil {
		e.h.Oblig(st, at, kind, cond, what)
	}
	return st.assume(cond)
}

func (e *Eng) nonNil(st *State, at ssa.Instruction, p *Term) bool {
	if neverNil(p) {
		return true
	}
	if p == tNil {
		if e.h.Oblig != nil {
			e.h.Oblig(st, at, "nil", tFalse, "nil dereference")
		}
		st.dead = true
		return false
	}
	return e.oblig(st, at, "nil", tNot(tEq(p, tNil)), "nil dereference")
}

func derefType(t types.Type) types.Type {
	return t.Underlying().(*types.Pointer).Elem()
}

// instr executes one ordinary instruction. It returns nil if the state simply
// continues, or the list of continuation states.
func (e *Eng) instr(st *State, in ssa.Instruction) []*State {
	f := st.top()
	switch x := in.(type) {
	case *ssa.DebugRef:
		return nil
	case *ssa.Alloc:
		t := derefType(x.Type())
		o := e.allocAt(st, e.siteName(st, x), t)
		st.store(o, zeroOf(t), t)
		st.top().regs[x] = o
	case *ssa.BinOp:
		a, b := e.eval(st, x.X), e.eval(st, x.Y)
		f.regs[x] = e.binop(st, x, a, b)
	case *ssa.UnOp:
		a := e.eval(st, x.X)
		switch x.Op {
		case token.MUL:
			if !e.nonNil(st, x, a) {
				return nil
			}
			if e.h.Load != nil {
				e.h.Load(st, x, a)
			}
			f.regs[x] = st.load(a, x.Type())
		case token.NOT:
			f.regs[x] = tNot(a)
		case token.SUB:
			if w, signed, ok := intInfo(x.Type()); ok {
				f.regs[x] = st.fit(tScale(a, -1), w, signed, x.Type())
			} else {
				f.regs[x] = mkApp("neg", x.Type(), a)
			}
		case token.XOR:
			w, signed, _ := intInfo(x.Type())
			if signed {
				f.regs[x] = tAddK(tScale(a, -1), -1)
			} else if w < 64 {
				f.regs[x] = tAddK(tScale(a, -1), 1<<uint(w)-1)
			} else {
				f.regs[x] = mkApp("not64", x.Type(), a)
			}
		default:
			e.undecided(st, in, "unsupported operation %v", x.Op)
			f.regs[x] = st.freshOf(x.Type(), "recv")
		}
	case *ssa.ChangeType:
		f.regs[x] = e.eval(st, x.X)
	case *ssa.ChangeInterface:
		f.regs[x] = e.eval(st, x.X)
	case *ssa.MakeInterface:
		f.regs[x] = mkIface(x.X.Type(), e.eval(st, x.X))
	case *ssa.Convert:
		f.regs[x] = e.convert(st, x, e.eval(st, x.X))
	case *ssa.Extract:
		t := e.eval(st, x.Tuple)
		if t.op == OTuple && x.Index < len(t.args) {
			f.regs[x] = t.args[x.Index]
		} else {
			f.regs[x] = st.freshOf(x.Type(), "extract")
		}
	case *ssa.FieldAddr:
		a := e.eval(st, x.X)
		if !e.nonNil(st, x, a) {
			return nil
		}
		stt := derefType(x.X.Type()).Underlying().(*types.Struct)
		f.regs[x] = mkField(a, stt.Field(x.Field).Name())
	case *ssa.Field:
		a := e.eval(st, x.X)
		stt := x.X.Type().Underlying().(*types.Struct)
		f.regs[x] = e.fieldOf(st, a, x.X.Type(), stt.Field(x.Field).Name(), x.Type())
	case *ssa.IndexAddr:
		a, i := e.eval(st, x.X), e.eval(st, x.Index)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Pointer:
			n := u.Elem().Underlying().(*types.Array).Len()
			if !e.nonNil(st, x, a) || !e.bounds(st, x, i, mkInt(n)) {
				return nil
			}
			f.regs[x] = mkIndex(a, i)
		default:
			n := st.sliceLen(a)
			if !e.bounds(st, x, i, n) {
				return nil
			}
			a, i = e.eval(st, x.X), e.eval(st, x.Index)
			f.regs[x] = mkIndex(st.sliceBase(a), tAdd(st.sliceOff(a), i))
		}
	case *ssa.Index:
		a, i := e.eval(st, x.X), e.eval(st, x.Index)
		switch u := x.X.Type().Underlying().(type) {
		case *types.Array:
			if !e.bounds(st, x, i, mkInt(u.Len())) {
				return nil
			}
			a, i = e.eval(st, x.X), e.eval(st, x.Index)
			f.regs[x] = st.arrayElem(a, i, u)
		default: // string
			if !e.bounds(st, x, i, st.strLen(a)) {
				return nil
			}
			a, i = e.eval(st, x.X), e.eval(st, x.Index)
			if b := strByte(a, i); b != nil {
				f.regs[x] = b
			} else {
				f.regs[x] = mkApp("strelem", tyByte, a, i)
			}
		}
	case *ssa.Lookup:
		return e.lookup(st, x)
	case *ssa.Slice:
		return e.slice(st, x)
	case *ssa.Store:
		a, v := e.eval(st, x.Addr), e.eval(st, x.Val)
		if !e.nonNil(st, x, a) {
			return nil
		}
		a, v = e.eval(st, x.Addr), e.eval(st, x.Val)
		if e.h.Store != nil {
			e.h.Store(st, x, a, v)
		}
		st.store(a, v, x.Val.Type())
	case *ssa.MakeSlice:
		ln, cp := e.eval(st, x.Len), e.eval(st, x.Cap)
		if !e.oblig(st, x, "makeslice", tLE0(tScale(ln, -1)), "makeslice: len out of range") {
			return nil
		}
		ln, cp = e.eval(st, x.Len), e.eval(st, x.Cap)
		et := x.Type().Underlying().(*types.Slice).Elem()
		o := e.allocAt(st, e.siteName(st, x), types.NewSlice(et))
		ln, cp = e.eval(st, x.Len), e.eval(st, x.Cap)
		st.cells[mkIndex(o, tAny)] = tZeroContent
		st.top().regs[x] = mkSlice(o, tZero, ln, cp)
	case *ssa.MakeClosure:
		f.regs[x] = intern(Term{op: OClosure, v: x.Fn.(*ssa.Function), args: e.evals(st, x.Bindings)})
	case *ssa.MakeMap:
		o := e.allocAt(st, e.siteName(st, x), x.Type())
		st.cells[mkField(o, "#map")] = tTrue // explicit contents are complete
		st.top().regs[x] = o
	case *ssa.MapUpdate:
		m, k, v := e.eval(st, x.Map), e.eval(st, x.Key), e.eval(st, x.Value)
		if k.isConst() {
			st.cells[mkIndex(m, k)] = v
		} else {
			st.cells[mkField(m, "#map")] = tFalse
		}
	case *ssa.TypeAssert:
		return e.typeAssert(st, x)
	case *ssa.Defer:
		d := deferred{instr: x}
		if x.Call.IsInvoke() {
			d.args = append([]*Term{e.eval(st, x.Call.Value)}, e.evals(st, x.Call.Args)...)
		} else {
			d.fn = e.eval(st, x.Call.Value)
			d.args = e.evals(st, x.Call.Args)
		}
		f.defers = append(f.defers, d)
	case *ssa.Go:
		c := e.callInfoOf(st, in, &x.Call)
		if e.h.Go != nil {
			e.h.Go(e, st, c)
		} else {
			e.undecided(st, in, "go statement")
		}
	case *ssa.Range:
		f.regs[x] = mkApp("range", nil, e.eval(st, x.X))
	case *ssa.Next:
		t := x.Type().(*types.Tuple)
		ts := make([]*Term, t.Len())
		for i := range ts {
			if b, ok := t.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
				ts[i] = tNil
				continue
			}
			ts[i] = st.freshOf(t.At(i).Type(), "next")
		}
		f.regs[x] = mkTuple(ts...)
	case *ssa.SliceToArrayPointer:
		a := e.eval(st, x.X)
		n := derefType(x.Type()).Underlying().(*types.Array).Len()
		if !e.oblig(st, x, "slicetoarray", tLE0(tSub(mkInt(n), st.sliceLen(a))), "slice to array pointer") {
			return nil
		}
		a = e.eval(st, x.X)
		if off := st.sliceOff(a); off == tZero {
			f.regs[x] = st.sliceBase(a)
		} else {
			e.undecided(st, in, "slice to array pointer at an offset")
			f.regs[x] = mkSym("nn:arr", x.Type())
		}
	default:
		e.undecided(st, in, "unsupported instruction %T", in)
		if v, ok := in.(ssa.Value); ok {
			f.regs[v] = st.freshOf(v.Type(), "unsupported")
		}
	}
	return nil
}

func (e *Eng) fieldOf(st *State, a *Term, t types.Type, name string, ft types.Type) *Term {
	if a.op == OStruct {
		for i, c := range shape(t) {
			if c.name == name {
				return a.args[i]
			}
		}
	}
	return mkApp("fld:"+name, ft, a)
}

func (s *State) arrayElem(a, i *Term, u *types.Array) *Term {
	if a.op == OArray {
		if i.op == OInt && i.k >= 0 && i.k < int64(len(a.args)) {
			return a.args[i.k]
		}
		return mkSel(u.Elem(), i, a.args)
	}
	if a.op == OApp && a.s == "zeroarray" {
		return zeroOf(u.Elem())
	}
	return mkApp("elem", u.Elem(), a, i)
}

// bounds adds the obligation 0 <= i < n.
func (e *Eng) bounds(st *State, at ssa.Instruction, i, n *Term) bool {
	c := tAnd(tLE0(tScale(i, -1)), tLE0(tAddK(tSub(i, n), 1)))
	if e.h.Oblig != nil {
		e.h.Oblig(st, at, "index", c, fmt.Sprintf("index %v out of range, length %v", i, n))
	}
	return st.assume(c)
}

// ---------------------------------------------------------------- slices

func (s *State) sliceLen(v *Term) *Term {
	switch v.op {
	case ONil:
		return tZero
	case OSlice:
		return v.args[2]
	}
	return mkApp("len", tyInt, v)
}

func (s *State) sliceCap(v *Term) *Term {
	switch v.op {
	case ONil:
		return tZero
	case OSlice:
		return v.args[3]
	}
	return mkApp("cap", tyInt, v)
}

func (s *State) sliceBase(v *Term) *Term {
	switch v.op {
	case OSlice:
		return v.args[0]
	}
	var et types.Type
	if v.ty != nil {
		if sl, ok := v.ty.Underlying().(*types.Slice); ok {
			et = types.NewPointer(types.NewSlice(sl.Elem()))
		}
	}
	return mkApp("nn:base", et, v)
}

func (s *State) sliceOff(v *Term) *Term {
	switch v.op {
	case OSlice:
		return v.args[1]
	}
	return tZero
}

// strByte is a byte of an explicit string.
func strByte(m, k *Term) *Term {
	switch {
	case k.op != OInt || k.k < 0:
	case m.op == OStr && k.k < int64(len(m.s)):
		return mkInt(int64(m.s[k.k]))
	case m.op == OApp && m.s == "string" && k.k < int64(len(m.args)):
		return m.args[k.k]
	}
	return nil
}

func (s *State) strLen(v *Term) *Term {
	if v.op == OStr {
		return mkInt(int64(len(v.s)))
	}
	if v.op == OApp && v.s == "string" {
		return mkInt(int64(len(v.args)))
	}
	return mkApp("len", tyInt, v)
}

func (e *Eng) slice(st *State, x *ssa.Slice) []*State {
	a := e.eval(st, x.X)
	get := func(v ssa.Value, def *Term) *Term {
		if v == nil {
			return def
		}
		return e.eval(st, v)
	}
	var base, off, ln, cp *Term
	isStr := false
	switch u := x.X.Type().Underlying().(type) {
	case *types.Pointer:
		if !e.nonNil(st, x, a) {
			return nil
		}
		n := mkInt(u.Elem().Underlying().(*types.Array).Len())
		base, off, ln, cp = a, tZero, n, n
	case *types.Basic:
		isStr = true
		ln = st.strLen(a)
		cp = ln
	default:
		base, off, ln, cp = st.sliceBase(a), st.sliceOff(a), st.sliceLen(a), st.sliceCap(a)
	}
	lo := get(x.Low, tZero)
	hi := get(x.High, ln)
	mx := get(x.Max, cp)
	c := tAnd(tLE0(tScale(lo, -1)), tLE0(tSub(lo, hi)))
	if x.Max != nil {
		c = tAnd(c, tAnd(tLE0(tSub(hi, mx)), tLE0(tSub(mx, cp))))
	} else if x.High != nil {
		c = tAnd(c, tLE0(tSub(hi, cp)))
	}
	// a slice of a slice may extend to its capacity; unknown capacities are
	// at least the length
	if a.op != OSlice && !isStr && a != tNil && cp.op == OApp && cp.s == "cap" {
		st.assume(tLE0(tSub(ln, cp)))
	}
	if e.h.Oblig != nil {
		e.h.Oblig(st, x, "slice", c, fmt.Sprintf("slice bounds [%v:%v] out of range, capacity %v", lo, hi, cp))
	}
	if !st.assume(c) {
		return nil
	}
	a = e.eval(st, x.X)
	switch x.X.Type().Underlying().(type) {
	case *types.Pointer:
		base = a
	case *types.Basic:
	default:
		base, off, ln, cp = st.sliceBase(a), st.sliceOff(a), st.sliceLen(a), st.sliceCap(a)
	}
	lo, hi, mx = get(x.Low, tZero), get(x.High, ln), get(x.Max, cp)
	if isStr {
		if a.op == OStr && lo.op == OInt && hi.op == OInt {
			st.top().regs[x] = mkStr(a.s[lo.k:hi.k])
		} else if lo == tZero && hi == st.strLen(a) {
			st.top().regs[x] = a
		} else {
			r := mkApp("substr", tyStr, a, lo, hi)
			st.assumeLen(r, tSub(hi, lo))
			st.top().regs[x] = r
		}
		return nil
	}
	if a == tNil {
		st.top().regs[x] = tNil
		return nil
	}
	if a.op != OSlice && x.Low == nil && x.High == nil && x.Max == nil {
		if _, ok := x.X.Type().Underlying().(*types.Slice); ok {
			st.top().regs[x] = a
			return nil
		}
	}
	st.top().regs[x] = mkSlice(base, tAdd(off, lo), tSub(hi, lo), tSub(mx, lo))
	return nil
}

// assumeLen fixes the length of an unknown slice or string term.
func (s *State) assumeLen(v, n *Term) {
	s.assume(tEq0(tSub(mkApp("len", tyInt, v), n)))
}

// ---------------------------------------------------------------- lookups

func (e *Eng) lookup(st *State, x *ssa.Lookup) []*State {
	m, k := e.eval(st, x.X), e.eval(st, x.Index)
	if _, ok := x.X.Type().Underlying().(*types.Basic); ok {
		// string index
		if !e.bounds(st, x, k, st.strLen(m)) {
			return nil
		}
		m, k = e.eval(st, x.X), e.eval(st, x.Index)
		if r := strByte(m, k); r != nil {
			st.top().regs[x] = r
			return nil
		}
		st.top().regs[x] = mkApp("strelem", tyByte, m, k)
		return nil
	}
	mt := x.X.Type().Underlying().(*types.Map)
	vt := mt.Elem()
	// explicit, complete map?
	if mm, _ := st.cell(mkField(m, "#map")); mm == tTrue {
		var ks, vs []*Term
		for _, cm := range []map[*Term]*Term{st.cells, constCells} {
			for c, v := range cm {
				if c.op == OIndex && c.args[0] == m {
					ks = append(ks, c.args[1])
					vs = append(vs, v)
				}
			}
		}
		ord := make([]int, len(ks))
		for i := range ord {
			ord[i] = i
		}
		sort.Slice(ord, func(i, j int) bool { return ks[ord[i]].String() < ks[ord[j]].String() })
		if k.isConst() {
			v, ok := st.cell(mkIndex(m, k))
			if !ok {
				v = zeroOf(vt)
			}
			e.setCommaOk(st, x, x.CommaOk, v, mkBool(ok))
			return nil
		}
		// fork over the entries
		var outs []*State
		rest := st.clone()
		for _, i := range ord {
			c := tEq(k, ks[i])
			if rest.truth(c) == -1 {
				continue
			}
			s2 := rest.clone()
			if s2.assume(c) && !s2.dead {
				e.setCommaOk(s2, x, x.CommaOk, vs[i], tTrue)
				outs = append(outs, s2)
			}
			if !rest.assume(tNot(c)) || rest.dead {
				rest = nil
				break
			}
		}
		if rest != nil {
			e.setCommaOk(rest, x, x.CommaOk, zeroOf(vt), tFalse)
			outs = append(outs, rest)
		}
		if outs == nil {
			st.dead = true
		}
		return outs
	}
	e.setCommaOk(st, x, x.CommaOk, mkApp("mapget", vt, m, k), mkApp("maphas", tyBool, m, k))
	return nil
}

func (e *Eng) setCommaOk(st *State, x ssa.Value, commaOk bool, v, ok *Term) {
	if commaOk {
		st.top().regs[x] = mkTuple(v, ok)
	} else {
		st.top().regs[x] = v
	}
}

func (e *Eng) typeAssert(st *State, x *ssa.TypeAssert) []*State {
	v := e.eval(st, x.X)
	T := x.AssertedType
	set := func(val, ok *Term) {
		if x.CommaOk {
			st.top().regs[x] = mkTuple(val, ok)
		} else {
			st.top().regs[x] = val
		}
	}
	_, isI := T.Underlying().(*types.Interface)
	if v == tNil {
		if !x.CommaOk {
			e.oblig(st, x, "typeassert", tFalse, "type assertion on nil")
			st.dead = true
			return nil
		}
		set(zeroOf(T), tFalse)
		return nil
	}
	if v.op == OIface {
		ok := false
		if isI {
			ok = types.Implements(v.ty, T.Underlying().(*types.Interface))
			if ok {
				set(v, tTrue)
			}
		} else {
			ok = types.Identical(v.ty, T)
			if ok {
				set(v.args[0], tTrue)
			}
		}
		if !ok {
			if !x.CommaOk {
				e.oblig(st, x, "typeassert", tFalse, "type assertion fails")
				st.dead = true
				return nil
			}
			set(zeroOf(T), tFalse)
		}
		return nil
	}
	ok := mkApp("is:"+typeKey(T), tyBool, v)
	val := v
	if !isI {
		val = mkApp("as:"+typeKey(T), T, v)
	}
	if !x.CommaOk {
		if !e.oblig(st, x, "typeassert", ok, "type assertion") {
			return nil
		}
		set(val, tTrue)
		return nil
	}
	switch st.truth(ok) {
	case 1:
		set(val, tTrue)
		return nil
	case -1:
		set(zeroOf(T), tFalse)
		return nil
	}
	s2 := st.clone()
	if st.assume(ok) {
		set(val, tTrue)
	}
	if s2.assume(tNot(ok)) {
		if x.CommaOk {
			s2.top().regs[x] = mkTuple(zeroOf(T), tFalse)
		}
	}
	return []*State{st, s2}
}

// ------------------------------------------------------------------ calls

func (e *Eng) callInfoOf(st *State, at ssa.Instruction, cc *ssa.CallCommon) *callInfo {
	c := &callInfo{at: at, cc: cc, sig: cc.Signature()}
	if cc.IsInvoke() {
		c.recv = e.eval(st, cc.Value)
		c.args = e.evals(st, cc.Args)
		c.name = "invoke:" + cc.Method.Name()
		return c
	}
	c.args = e.evals(st, cc.Args)
	if fn := cc.StaticCallee(); fn != nil {
		c.fn = fn
		c.name = fn.String()
	}
	return c
}

func (e *Eng) doCall(st *State, at ssa.Instruction, cc *ssa.CallCommon, v ssa.Value) []*State {
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return e.builtin(st, at, b.Name(), cc, e.evals(st, cc.Args))
	}
	if cc.IsInvoke() {
		return e.invoke(st, at, cc, e.eval(st, cc.Value), e.evals(st, cc.Args))
	}
	return e.callValue(st, at, cc, e.eval(st, cc.Value), e.evals(st, cc.Args))
}

func (e *Eng) callDeferred(st *State, at ssa.Instruction, d deferred) []*State {
	cc := &d.instr.Call
	if b, ok := cc.Value.(*ssa.Builtin); ok && !cc.IsInvoke() {
		return e.builtin(st, at, b.Name(), cc, d.args)
	}
	if cc.IsInvoke() {
		return e.invoke(st, at, cc, d.args[0], d.args[1:])
	}
	return e.callValue(st, at, cc, d.fn, d.args)
}

func (e *Eng) invoke(st *State, at ssa.Instruction, cc *ssa.CallCommon, recv *Term, args []*Term) []*State {
	c := &callInfo{at: at, cc: cc, recv: recv, args: args, sig: cc.Signature(), name: "invoke:" + cc.Method.Name()}
	if recv == tNil {
		e.nonNil(st, at, recv)
		return nil
	}
	if recv.op == OIface {
		fn := e.prog.LookupMethod(recv.ty, cc.Method.Pkg(), cc.Method.Name())
		if fn != nil {
			return e.callFn(st, at, cc, fn, nil, append([]*Term{recv.args[0]}, args...))
		}
	}
	if !neverNil(recv) && st.truth(tEq(recv, tNil)) != -1 {
		if !e.nonNil(st, at, recv) {
			return nil
		}
	}
	if e.h.Invoke != nil {
		if outs, ok := e.h.Invoke(e, st, c); ok {
			return outs
		}
	}
	return e.modelInvoke(st, c)
}

func (e *Eng) callValue(st *State, at ssa.Instruction, cc *ssa.CallCommon, fv *Term, args []*Term) []*State {
	switch fv.op {
	case OFunc:
		return e.callFn(st, at, cc, fv.v.(*ssa.Function), nil, args)
	case OClosure:
		return e.callFn(st, at, cc, fv.v.(*ssa.Function), fv.args, args)
	case ONil:
		e.nonNil(st, at, fv)
		return nil
	case OApp:
		if fv.s == "sel" {
			var outs []*State
			byVal := map[*Term]bool{}
			for i, v := range fv.args[1:] {
				if byVal[v] || st.truth(tEq0(tAddK(fv.args[0], -int64(i)))) == -1 {
					continue
				}
				byVal[v] = true
				s2 := st.clone()
				// several indices may select the same function; only fix
				// the index when it is unique
				if countTerm(fv.args[1:], v) == 1 && !s2.assume(tEq0(tAddK(fv.args[0], -int64(i)))) {
					continue
				}
				if s2.dead {
					continue
				}
				outs = append(outs, e.callValue(s2, at, cc, v, args)...)
			}
			return outs
		}
	}
	c := &callInfo{at: at, cc: cc, args: args, sig: cc.Signature(), name: "funcvalue", recv: fv}
	if e.h.Ext != nil {
		if outs, ok := e.h.Ext(e, st, c); ok {
			return outs
		}
	}
	return e.modelFuncValue(st, c)
}

func countTerm(ts []*Term, v *Term) int {
	n := 0
	for _, t := range ts {
		if t == v {
			n++
		}
	}
	return n
}

// forwardee resolves functions that only forward their parameters.
func forwardee(fn *ssa.Function) *ssa.Function {
	for i := 0; i < 5; i++ {
		if len(fn.Blocks) != 1 || len(fn.FreeVars) != 0 {
			return fn
		}
		ins := fn.Blocks[0].Instrs
		if len(ins) != 2 {
			return fn
		}
		call, ok1 := ins[0].(*ssa.Call)
		ret, ok2 := ins[1].(*ssa.Return)
		if !ok1 || !ok2 || call.Call.IsInvoke() {
			return fn
		}
		g := call.Call.StaticCallee()
		if g == nil || len(g.Blocks) == 0 || len(call.Call.Args) != len(fn.Params) {
			return fn
		}
		for i, a := range call.Call.Args {
			if a != fn.Params[i] {
				return fn
			}
		}
		if len(ret.Results) != 1 || ret.Results[0] != call {
			return fn
		}
		fn = g
	}
	return fn
}

func (e *Eng) callFn(st *State, at ssa.Instruction, cc *ssa.CallCommon, fn *ssa.Function, binds, args []*Term) []*State {
	c := &callInfo{at: at, cc: cc, fn: fn, name: fn.String(), args: args, sig: fn.Signature}
	if e.h.Call != nil {
		if outs, ok := e.h.Call(e, st, c); ok {
			return outs
		}
	}
	if e.inlinable(fn) {
		if e.summarised(fn) {
			e.counts["summary "+fnName(fn)]++
			e.applyEffects(st, fn)
			return done(st, st.freshOf(resultTypeOf(fn.Signature), shortName(c.name)))
		}
		return e.call(st, fn, args, binds, at)
	}
	if e.h.Ext != nil {
		if outs, ok := e.h.Ext(e, st, c); ok {
			return outs
		}
	}
	return e.modelExt(st, c)
}

// inlinable tells whether a function is analysed (as opposed to modelled).
func (e *Eng) inlinable(fn *ssa.Function) bool {
	if len(fn.Blocks) == 0 {
		return false
	}
	if e.noInline[fn.String()] {
		return false
	}
	p := fn.Pkg
	if p == nil {
		// wrappers, bound methods and closures
		if fn.Parent() != nil {
			return e.inlinable(fn.Parent())
		}
		if o := fn.Object(); o != nil && o.Pkg() != nil {
			return inModule(o.Pkg()) && !e.L.opaque[o.Pkg().Path()]
		}
		return fn.Synthetic != ""
	}
	return inModule(p.Pkg) && !e.L.opaque[p.Pkg.Path()]
}

// done sets the result and returns the single state.
func done(st *State, r *Term) []*State {
	if r == nil {
		r = tUnit
	}
	st.ret = r
	return []*State{st}
}
