package main

import (
	"flag"
	"fmt"
	"go/types"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"time"
)

func main() {
	dbg := flag.String("debug", "", "debug action")
	verbose := flag.Int("v", 0, "verbosity")
	only := flag.String("only", "", "only these operations")
	lite := flag.Bool("lite", false, "few facts")
	summ := flag.Bool("summ", false, "summaries")
	prof := flag.String("prof", "", "profile")
	property := flag.String("property", "", "property to decide")
	tier := flag.String("tier", "", "quick or thorough")
	part := flag.String("part", "", "part of the property")
	outDir := flag.String("out", "/verif/evidence", "evidence directory")
	flag.Parse()
	if *prof != "" {
		f, _ := os.Create(*prof)
		pprof.StartCPUProfile(f)
		time.AfterFunc(100*time.Second, func() { pprof.StopCPUProfile(); f.Close(); os.Exit(3) })
	}
	if *property != "" {
		debug.SetGCPercent(200)
		if *tier == "" {
			*tier = os.Getenv("VERIF_TIER")
		}
		if *tier != "thorough" {
			*tier = "quick"
		}
		debug.SetMemoryLimit(5 << 30)
		if *part != "" {
			os.Exit(runPart(*property, *part, *tier, *outDir, *verbose))
		}
		os.Exit(runProperty(*property, *tier, *outDir, *verbose))
	}
	debug.SetGCPercent(400)
	L, err := load(repoDir(), nil)
	if err != nil {
		fmt.Println("load:", err)
		os.Exit(1)
	}
	switch *dbg {
	case "init":
		st := L.globalsState(func(s string) { fmt.Println("REPORT", s) })
		st.cells = constCells
		fmt.Println(st.dump())
	case "writer":
		t0 := time.Now()
		e := newEng(L)
		e.verbose = *verbose
		e.lite = *lite
		if *summ {
			e.protect = func(k string) bool {
				return strings.HasPrefix(k, modPath+".Writer.") || k == "*"+modPath+".Writer" || strings.HasPrefix(k, "*"+libBuffer) || strings.HasSuffix(k, ".Hash")
			}
			for _, f := range L.allFuncs {
				if e.inlinable(f) {
					ef := e.effectsOf(f)
					if *verbose > 4 {
						fmt.Println("EFF", fnName(f), e.summarised(f), ef.event, sortedStrings(ef.stores))
					}
				}
			}
		}
		e.noKeyType = keepEnum("Format")
		st := L.globalsState(func(s string) { fmt.Println("REPORT", s) })
		lazyHook = e.defaultLazy
		e.noKeyCell = func(k *Term) bool {
			t := e.cellType(k)
			if t == nil {
				return false
			}
			_, isF := t.Underlying().(*types.Signature)
			return isF
		}
		ctor := L.rootFn("NewWriter")
		c := &client{e: e}
		for _, m := range L.methods("Writer", true) {
			if *only == "" || *only == m.Name() {
				c.ops = append(c.ops, m)
			}
		}
		args := c.callArgs(st, ctor, nil)
		st.assume(tNot(tEq(args[0], tNil)))
		outs := e.call(st, ctor, args, nil, nil)
		fmt.Println("ctor", len(outs), time.Since(t0))
		for _, o := range outs {
			o.mon["$obj"] = o.ret
		}
		c.run(outs)
		fmt.Println("states", len(c.states), "blocks", e.nBlocks, "joins", e.nJoins, "calls", e.nCalls, "memo", e.nMemo, time.Since(t0))
		for _, k := range e.order {
			p := e.problems[k]
			fmt.Println("PROBLEM", p.pos, p.rule, p.where, p.msg)
			for _, t := range p.trace {
				fmt.Println("    ", t)
			}
		}
		var ks []string
		for k, n := range e.counts {
			ks = append(ks, fmt.Sprintf("%s=%d", k, n))
		}
		sort.Strings(ks)
		for _, k := range ks {
			fmt.Println("count", k)
		}
	}
}
