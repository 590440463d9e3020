package main

import (
	"fmt"
	"go/types"
	"os"
	"sort"
	"time"

	"golang.org/x/tools/go/ssa"
)

// defaultLazy supplies the values of variables of other packages.
func (e *Eng) defaultLazy(s *State, addr *Term, t types.Type) *Term {
	if addr.op == OGlobal {
		g := addr.v.(*ssa.Global)
		if g.Pkg != nil && !inModule(g.Pkg.Pkg) && t != nil {
			if types.Identical(t, types.Universe.Lookup("error").Type()) {
				return e.gval(g.Pkg.Pkg.Path(), g.Name())
			}
		}
	}
	return nil
}

// client is the most general client of one object: it applies every
// operation in every reachable quiescent state until a fixpoint.
type client struct {
	e       *Eng
	states  map[string]*headInv
	ops     []*ssa.Function
	before  func(st *State, op *ssa.Function)
	after   func(st *State, op *ssa.Function, ret *Term) bool // false: drop
	argHook func(st *State, op *ssa.Function, args []*Term) []*State
	nCalls  int
	mine    func(st *State) bool // false: the state belongs to another run
	others  []*State             // initial states of other runs
}

// quiesce turns the outcome of an operation into a client state.
func (c *client) add(st *State, work *[]string) {
	st.frames = nil
	st.ret = nil
	st.hist = nil
	c.e.normalise(st)
	if c.mine != nil && !c.mine(st) {
		for _, o := range c.others {
			if c.e.match(o, st) {
				return
			}
		}
		if c.e.verbose > 0 {
			fmt.Fprintln(os.Stderr, "state of another run that is not an initial one", len(c.others))
			for _, o := range c.others {
				whyOn = true
				c.e.match(o, st)
				whyOn = false
				fmt.Fprintln(os.Stderr, "  WHY", whyMsg)
			}
		}
	}
	k := c.e.stateKey(st)
	h := c.states[k]
	if h == nil {
		c.states[k] = &headInv{st: st}
		*work = append(*work, k)
		if c.e.verbose > 0 {
			fmt.Fprintf(os.Stderr, "client state %d\n", len(c.states))
			if c.e.verbose > 1 {
				fmt.Fprintln(os.Stderr, c.e.keyNames(st))
			}
		}
		return
	}
	if c.e.match(h.st, st) {
		return
	}
	h.n++
	if c.e.verbose > 1 {
		whyOn = true
		c.e.match(h.st, st)
		whyOn = false
		fmt.Fprintf(os.Stderr, "CLIENT n=%d %s\n", h.n, whyMsg)
	}
	if h.n > 40 {
		c.e.undecided(st, nil, "client states do not converge")
		return
	}
	j := c.e.join(h.st, st, h.n > 3, h.n)
	c.e.gc(j)
	h.st = j
	*work = append(*work, k)
}

func (c *client) run(init []*State) {
	c.states = map[string]*headInv{}
	var work []string
	for _, s := range init {
		if c.mine != nil && !c.mine(s) {
			s.frames, s.ret, s.hist = nil, nil, nil
			c.e.normalise(s)
			c.others = append(c.others, s)
			continue
		}
		c.add(s, &work)
	}
	if len(c.others) > 0 {
		// further initial states: a custom header carries over
		sub := *c
		sub.mine, sub.ops = nil, nil
		for _, op := range c.ops {
			if op.Name() == "SetHeader" {
				sub.ops = append(sub.ops, op)
			}
		}
		init := c.others
		c.others, sub.others = nil, nil
		sub.run(init)
		for _, k := range sortedInv(sub.states) {
			c.others = append(c.others, sub.states[k].st)
		}
		c.nCalls += sub.nCalls
	}
	for len(work) > 0 {
		sort.Strings(work)
		k := work[0]
		n := 0
		for n < len(work) && work[n] == k {
			n++
		}
		work = work[n:]
		h := c.states[k]
		for _, op := range c.ops {
			for _, o := range c.apply(h.st, op) {
				c.add(o, &work)
			}
		}
	}
}

// apply runs one operation in a state.
func (c *client) apply(from *State, op *ssa.Function) []*State {
	st := from.clone()
	if c.before != nil {
		c.before(st, op)
	}
	t0 := time.Now()
	recv := st.mon["$obj"]
	args := c.callArgs(st, op, recv)
	c.nCalls++
	sts := []*State{st}
	if c.argHook != nil {
		sts = c.argHook(st, op, args)
	}
	var outs []*State
	for _, s := range sts {
		as := make([]*Term, len(args))
		for i, a := range args {
			as[i] = s.resolve(a)
		}
		for _, o := range c.e.call(s, op, as, nil, nil) {
			if c.after == nil || c.after(o, op, o.ret) {
				outs = append(outs, o)
			}
		}
	}
	if c.e.verbose > 0 {
		if d := time.Since(t0); d > 200*time.Millisecond {
			fmt.Fprintf(os.Stderr, "  %s: %v, %d outs\n", fnName(op), d.Round(time.Millisecond), len(outs))
		}
	}
	return outs
}

func (c *client) callArgs(st *State, op *ssa.Function, recv *Term) []*Term {
	var args []*Term
	for i, p := range op.Params {
		if i == 0 && recv != nil {
			args = append(args, recv)
			continue
		}
		args = append(args, c.e.freshArg(st, p.Type(), p.Name()))
	}
	return args
}

// freshArg makes an arbitrary argument value.
func (e *Eng) freshArg(st *State, t types.Type, name string) *Term {
	return st.freshOf(t, "arg:"+name)
}

// methods returns the exported methods of a named type of the root package.
func (L *Loaded) methods(typ string, exported bool) []*ssa.Function {
	sp := L.byPath[modPath]
	if sp == nil {
		return nil
	}
	m, ok := sp.Members[typ].(*ssa.Type)
	if !ok {
		return nil
	}
	var out []*ssa.Function
	ms := L.prog.MethodSets.MethodSet(types.NewPointer(m.Type()))
	for i := 0; i < ms.Len(); i++ {
		s := ms.At(i)
		if s.Obj().Exported() != exported {
			continue
		}
		fn := L.prog.MethodValue(s)
		if fn != nil && len(fn.Blocks) > 0 {
			out = append(out, fn)
		}
	}
	return out
}

// keyNames is a readable form of the state key.
func (e *Eng) keyNames(s *State) string {
	out := ""
	for _, k := range sortedKeys(s.cells) {
		v := s.cells[k]
		ty := e.cellType(k)
		if v.op == OBool {
			ty = tyBool
		}
		if ty == nil || e.noKeyCell != nil && e.noKeyCell(k) {
			continue
		}
		if c := e.class(s, v, ty); c != "" && c != "?" {
			out += fmt.Sprintf(" %s=%s", leafName(k), c)
		}
	}
	for _, k := range monOrder(s.mon) {
		out += fmt.Sprintf(" $%s=%v", k, s.mon[k])
	}
	return out
}

func keepEnum(names ...string) func(types.Type) bool {
	return func(t types.Type) bool {
		n, ok := types.Unalias(t).(*types.Named)
		if !ok || !n.Obj().Exported() {
			return false
		}
		for _, k := range names {
			if n.Obj().Name() == k {
				return false
			}
		}
		return true
	}
}

func sortedInv(m map[string]*headInv) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
