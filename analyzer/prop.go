package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Finding is one violated obligation.
type Finding struct {
	Rule      string   `json:"rule"`
	Construct string   `json:"construct"`
	Pos       string   `json:"position"`
	Msg       string   `json:"message"`
	Trace     []string `json:"path,omitempty"`
}

// Ctx collects the outcome of the analyses for one property.
type Ctx struct {
	scope    string // the only property whose rules are reported
	L        *Loaded
	prop     string
	part     string
	format   string // the format of the objects analysed
	thorough bool
	findings []*Finding
	seen     map[string]bool
	counts   map[string]int
	oblig    map[string]bool // obligation -> discharged
	assume   []string
	explain  []string
	verbose  int
	samples  []string
}

// fail records a violation.
// foreign tells whether a rule belongs to another property than the one that
// is being checked.
func (c *Ctx) foreign(rule string) bool {
	return c.scope != "" && len(rule) > 4 && rule[0] == 'C' && rule[3] == '.' && !strings.HasPrefix(rule, c.scope)
}

func (c *Ctx) fail(rule, construct, pos, msg string, trace ...string) {
	if c.foreign(rule) {
		return
	}
	k := rule + "|" + construct
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.findings = append(c.findings, &Finding{rule, construct, pos, msg, trace})
	c.oblig[rule+" @ "+construct] = false
}

// ok records a discharged obligation.
func (c *Ctx) ok(rule, construct string) {
	if c.foreign(rule) {
		return
	}
	k := rule + " @ " + construct
	if _, bad := c.oblig[k]; !bad {
		c.oblig[k] = true
	}
}

// decide records an obligation.
func (c *Ctx) decide(good bool, rule, construct, pos, format string, args ...interface{}) bool {
	if good {
		c.ok(rule, construct)
	} else {
		c.fail(rule, construct, pos, fmt.Sprintf(format, args...))
	}
	return good
}

// floor demands a minimum number of analysed instances.
func (c *Ctx) floor(name string, min int) {
	if c.counts[name] < min {
		c.fail("coverage", name, "", fmt.Sprintf("only %d instances of %q were found, at least %d are expected", c.counts[name], name, min))
	}
}

// take moves the problems of an engine run whose rule belongs to the
// property into the context.
func (c *Ctx) take(e *Eng, prefix string) {
	for _, k := range e.order {
		p := e.problems[k]
		if p.rule == "undecided" || strings.HasPrefix(p.rule, prefix) {
			c.fail(p.rule, p.where, p.pos, p.msg, p.trace...)
		}
	}
}

// guard runs an analysis and turns an abort into a finding.
func (c *Ctx) guard(name string, f func()) {
	defer func() {
		if r := recover(); r != nil {
			if a, ok := r.(abort); ok {
				c.fail("undecided", name, "", a.msg)
				return
			}
			if a, ok := r.(*abort); ok {
				c.fail("undecided", name, "", a.msg)
				return
			}
			if os.Getenv("ANALYZER_PANIC") != "" {
				panic(r)
			}
			c.fail("undecided", name, "", fmt.Sprintf("internal error of the analysis: %v", r))
		}
	}()
	f()
}

type propFn func(c *Ctx)

var props = map[string]propFn{}

// parts of a property that are analysed by processes of their own
var propParts = map[string][]string{}
var partFns = map[string]propFn{}

// register adds a part of a property; heavy parts need much memory.
func addPart(id, part string, f propFn) {
	if props[id] == nil {
		props[id] = func(c *Ctx) {
			g := partFns[id+" "+c.part]
			if g == nil {
				panic(abort{"unknown part " + c.part})
			}
			g(c)
		}
	}
	if _, ok := partFns[id+" "+part]; ok {
		panic("part registered twice: " + id + " " + part)
	}
	partFns[id+" "+part] = f
	propParts[id] = append(propParts[id], part)
}

func heavy(part string) bool {
	return strings.HasPrefix(part, "reader ") || strings.HasPrefix(part, "writer ")
}

func register(id string, parts []string, f propFn) {
	if len(parts) == 0 {
		props[id] = f
	}
	for _, p := range parts {
		addPart(id, p, f)
	}
}

// partial is the outcome of one part.
type partial struct {
	Findings []*Finding
	Counts   map[string]int
	Oblig    map[string]bool
	Assume   []string
	Explain  []string
	Samples  []string
}

// runPart analyses one part and writes its outcome.
func runPart(id, part, tier, out string, verbose int) int {
	c := newCtx(id, tier, verbose)
	c.part = part
	L, err := load(repoDir(), nil)
	if err != nil {
		c.fail("load", "repository", "", "the source does not load: "+err.Error())
	} else {
		c.L = L
		c.guard(id+" "+part, func() { props[id](c) })
	}
	b, _ := json.Marshal(partial{c.findings, c.counts, c.oblig, c.assume, c.explain, c.samples})
	if err := os.WriteFile(out, b, 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	return 0
}

// runParts analyses all parts at the same time.
func (c *Ctx) runParts(parts []string, tier, outDir string) {
	dir, err := os.MkdirTemp("", "analyzer")
	if err != nil {
		panic(abort{err.Error()})
	}
	defer os.RemoveAll(dir)
	exe, err := os.Executable()
	if err != nil {
		panic(abort{err.Error()})
	}
	var wg sync.WaitGroup
	outs := make([]string, len(parts))
	logs := make([]string, len(parts))
	run := func(i int, p string) {
		outs[i], logs[i] = "", ""
		f := filepath.Join(dir, fmt.Sprint(i))
		cmd := exec.Command(exe, "-property", c.prop, "-part", p, "-tier", tier, "-v", fmt.Sprint(c.verbose), "-out", f)
		var eb bytes.Buffer
		cmd.Stderr = &eb
		if c.verbose > 0 {
			cmd.Stderr = os.Stderr
		}
		if err := cmd.Run(); err != nil {
			l := eb.String()
			if len(l) > 600 {
				l = l[:600]
			}
			logs[i] = err.Error() + " " + l
			return
		}
		b, err := os.ReadFile(f)
		if err != nil {
			logs[i] = err.Error()
			return
		}
		outs[i] = string(b)
	}
	t0 := time.Now()
	sem := make(chan bool, 4)
	for i, p := range parts {
		wg.Add(1)
		go func(i int, p string) {
			defer wg.Done()
			if heavy(p) {
				sem <- true
				defer func() { <-sem }()
			}
			run(i, p)
		}(i, p)
	}
	wg.Wait()
	// A process that was ended for want of memory is run again, alone.
	for i, p := range parts {
		if strings.HasPrefix(logs[i], "signal: killed") && time.Since(t0) < 500*time.Second {
			run(i, p)
		}
	}
	for i, p := range parts {
		var r partial
		if logs[i] != "" || json.Unmarshal([]byte(outs[i]), &r) != nil {
			c.fail("undecided", p, "", "the analysis of this part did not finish: "+logs[i])
			continue
		}
		for _, x := range r.Findings {
			k := x.Rule + "|" + x.Construct
			if !c.seen[k] {
				c.seen[k] = true
				c.findings = append(c.findings, x)
			}
		}
		for k, n := range r.Counts {
			c.counts[k] += n
		}
		for k, ok := range r.Oblig {
			if !ok {
				c.oblig[k] = false
			} else if _, have := c.oblig[k]; !have {
				c.oblig[k] = true
			}
		}
		if i == 0 {
			c.assume = append(c.assume, r.Assume...)
		}
		for _, x := range r.Explain {
			if !strings.Contains(strings.Join(c.explain, " "), x) {
				c.explain = append(c.explain, x)
			}
		}
		c.samples = append(c.samples, r.Samples...)
	}
	c.explain = append(c.explain, "Parts analysed: "+strings.Join(parts, ", ")+".")
}

func newCtx(id, tier string, verbose int) *Ctx {
	return &Ctx{prop: id, thorough: tier == "thorough", seen: map[string]bool{}, counts: map[string]int{}, oblig: map[string]bool{}, verbose: verbose, assume: []string{}}
}

// runProperty is the entry point of a check.
func runProperty(id, tier, outDir string, verbose int) int {
	t0 := time.Now()
	c := newCtx(id, tier, verbose)
	f := props[id]
	if f == nil {
		fmt.Println("unknown property", id)
		return 2
	}
	if parts := propParts[id]; len(parts) > 0 {
		c.guard(id, func() { c.runParts(parts, tier, outDir) })
	} else if L, err := load(repoDir(), nil); err != nil {
		c.fail("load", "repository", "", "the source does not load: "+err.Error())
	} else {
		c.L = L
		c.guard(id, func() { f(c) })
	}
	known := knownFindings(filepath.Join(filepath.Dir(outDir), "known_findings.txt"))
	var viol []*Finding
	for _, x := range c.findings {
		if d, ok := known[id+" "+x.Rule+"|"+x.Construct]; ok {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", id, d)
			continue
		}
		viol = append(viol, x)
	}
	os.MkdirAll(outDir, 0o755)
	discharged := 0
	var obs []string
	for k, ok := range c.oblig {
		if ok {
			discharged++
		}
		obs = append(obs, k)
	}
	sort.Strings(obs)
	if len(obs) > 400 {
		obs = obs[:400]
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	cov := map[string]interface{}{
		"explanation":     strings.Join(c.explain, " "),
		"obligations":     len(c.oblig),
		"discharged":      discharged,
		"obligation_list": obs,
		"counts":          c.counts,
	}
	if len(c.samples) > 0 {
		cov["samples"] = c.samples
	}
	ev := map[string]interface{}{
		"property":    id,
		"tier":        tier,
		"seed":        seed,
		"level":       "other",
		"coverage":    cov,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(viol),
		"assumptions": c.assume,
		"findings":    viol,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(outDir, id+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println(err)
		return 2
	}
	for _, x := range viol {
		fmt.Printf("%s: [%s] %s: %s\n", x.Pos, x.Rule, x.Construct, x.Msg)
		for i, t := range x.Trace {
			if i > 40 {
				break
			}
			fmt.Println("     ", t)
		}
	}
	fmt.Printf("%s: %d obligations, %d discharged, %d violations (%.1fs)\n", id, len(c.oblig), discharged, len(viol), time.Since(t0).Seconds())
	if len(viol) > 0 {
		rp := filepath.Join(outDir, id+".violation.txt")
		var sb strings.Builder
		for _, x := range viol {
			fmt.Fprintf(&sb, "%s: [%s] %s: %s\n", x.Pos, x.Rule, x.Construct, x.Msg)
			for _, t := range x.Trace {
				fmt.Fprintln(&sb, "     ", t)
			}
		}
		os.WriteFile(rp, []byte(sb.String()), 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		return 1
	}
	return 0
}

// knownFindings reads the lines "finding: property=<id> key=<rule|construct> :: text".
func knownFindings(path string) map[string]string {
	r := map[string]string{}
	b, err := os.ReadFile(path)
	if err != nil {
		return r
	}
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "finding: property=")
		if !ok {
			continue
		}
		id, rest, ok := strings.Cut(rest, " key=")
		if !ok {
			continue
		}
		key, text, ok := strings.Cut(rest, " :: ")
		if !ok {
			continue
		}
		r[id+" "+key] = text
	}
	return r
}
