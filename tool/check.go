package main

// The check command: runs the drivers a property needs and applies its rules.

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"time"
)

// Violation is one construct of the source that breaks a rule.
type Violation struct {
	Rule, Driver, Site, Fn, Detail string
}

func (v Violation) key() string { return v.Rule + " at " + v.Site }

// Ctx is one run of a check.
type Ctx struct {
	prog     *Program
	prop     string
	thorough bool
	viol     []Violation
	seen     map[string]bool
	obs      map[string]bool // obligations, by rule and place
	fns      map[string]bool
	ext      map[string]bool
	drivers  []string
	nout     int
	nsteps   int
	nev      int
	notes    []string // facts derived on the way, for the evidence
}

// DRun is one driver run through the analysis.
type DRun struct {
	c    *Ctx
	x    *Exec
	name string
	outs []Outcome
}

type runOpts struct {
	pb     bool // inline the codec
	curve  bool // inline the curve conversions
	opaque func(string) bool
	bounds bool
	setup  func(x *Exec, st *State)
	cli    bool // the commands: other properties stand for the sign package
	fresh  bool // from the start of the program: no call came before
	cmd    string
	nargs  int
	keep   string
	onErr  func(d *DRun, c *CallCtx, args []*Term)
	exact  bool
	tally  bool // count the wrapped keys that are tried
	rest   int // length of the rest of ssh structures
}

// run analyses a driver. ev is called for every event of the recording pass
// with the state before its effect.
func (c *Ctx) run(pkg, driver string, o runOpts, ev func(d *DRun, st *State, e *Event)) *DRun {
	x := newExec(c.prog)
	x.entry = driver
	x.opaq = opaqueFn(o)
	d := &DRun{c: c, x: x, name: driver}
	st := c.prog.initState(x)
	if !o.fresh {
		c.prog.forgetGlobals(st)
	}
	if o.setup != nil {
		o.setup(x, st)
	}
	x.undec = nil
	x.rec = true
	x.opts.bounds = o.bounds
	x.opts.noUnroll = o.pb
	x.opts.restLen = o.rest
	x.opts.exact = o.exact
	x.opts.tally = o.tally
	st.f.exact = o.exact
	x.opts.cli, x.opts.cmd, x.opts.nargs, x.opts.keep = o.cli, o.cmd, o.nargs, o.keep
	if o.onErr != nil {
		x.onErr = func(x *Exec, cc *CallCtx, args []*Term) { o.onErr(d, cc, args) }
	}
	if ev != nil {
		x.onEv = func(x *Exec, st *State, e *Event) {
			if x.rec {
				c.nev++
				ev(d, st, e)
			}
		}
	}
	f := c.prog.fn(pkg, driver)
	if f == nil {
		c.fail("driver", driver, "", driver, "the driver "+driver+" does not exist")
		return d
	}
	d.outs = x.callFn(st, f, nil, nil, "")
	c.nout += len(d.outs)
	c.nsteps += x.steps
	for f := range x.covFn {
		c.fns[f] = true
	}
	for f := range x.covCal {
		c.ext[f] = true
	}
	c.drivers = append(c.drivers, driver)
	for _, u := range x.undec {
		c.fail("incomplete", driver, "", driver, "the analysis could not finish: "+u)
	}
	if o.bounds {
		var ks []string
		for k := range x.obs {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			b := x.obs[k]
			if wantOb(c.prop, b) {
				c.req("runtime:"+b.rule, driver, b.site, b.fn, b.ok, b.detail)
			}
		}
	}
	return d
}

// wantOb tells which runtime obligations are part of a property.
func wantOb(prop string, b *Ob) bool {
	switch prop {
	case "C19":
		return b.rule == "alloc" || b.rule == "scrypt-cost"
	}
	return b.rule != "alloc" && b.rule != "scrypt-cost"
}

// req records one obligation and whether it holds.
func (c *Ctx) req(rule, driver, site, fn string, ok bool, detail string) {
	k := rule + " at " + site
	if !ok {
		c.obs[k] = false
		c.fail(rule, driver, site, fn, detail)
		return
	}
	if _, have := c.obs[k]; !have {
		c.obs[k] = true
	}
}

func (c *Ctx) fail(rule, driver, site, fn, detail string) {
	if d := time.Now().Add(200 * time.Second); d.Before(deadline) {
		deadline = d // a violation is known: no need to look for all of them
	}
	v := Violation{rule, driver, site, fn, detail}
	if c.seen[v.key()] {
		return
	}
	c.seen[v.key()] = true
	c.viol = append(c.viol, v)
}

// at: an obligation at an event of the current driver
func (d *DRun) at(rule string, e *Event, ok bool, detail string) {
	d.c.req(rule, d.name, e.site, d.x.curFn(), ok, detail)
}

// end: an obligation at the end of a path
func (d *DRun) end(rule string, o *Outcome, ok bool, detail string) {
	site := o.site
	for l := o.st.log; l != nil; l = l.prev {
		if !strings.HasPrefix(l.ev.kind, "note:") {
			site = l.ev.site
			break
		}
	}
	if !ok {
		detail += "; path: " + pathOfLog(o)
	}
	d.c.req(rule, d.name, "end of "+d.name+" after "+site, d.name, ok, detail)
}

func pathOfLog(o *Outcome) string {
	var s []string
	for _, e := range o.st.log.list() {
		m := ""
		if e.failed {
			m = " fails"
		}
		if e.may {
			m += "*"
		}
		s = append(s, e.kind+"@"+e.site+m)
	}
	if len(s) > 60 {
		s = append(append([]string{}, s[:20]...), append([]string{"..."}, s[len(s)-40:]...)...)
	}
	return strings.Join(s, " > ")
}

type checkFn func(c *Ctx)

var checks = map[string]checkFn{}
var titles = map[string]string{}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	e, err := os.Executable()
	if err == nil {
		d := filepath.Dir(filepath.Dir(e))
		if _, err := os.Stat(filepath.Join(d, "properties.jsonl")); err == nil {
			return d
		}
	}
	d, _ := os.Getwd()
	return d
}

func repoDir() string {
	if d := os.Getenv("VERIF_REPO"); d != "" {
		return d
	}
	return "/repo"
}

// deadline ends an analysis that does not: what is not decided by then counts
// as a violation.
var deadline time.Time

func checkBudget() {
	if deadline.IsZero() {
		return
	}
	if time.Now().After(deadline) {
		panic("not finished in the time allowed")
	}
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	if m.HeapAlloc > 20<<30 {
		panic("not finished in the memory allowed")
	}
}

func runCheck(prop, tier string) int {
	t0 := time.Now()
	deadline = t0.Add(800 * time.Second)
	fn := checks[prop]
	if fn == nil {
		fmt.Println("no check for", prop)
		return 2
	}
	c := &Ctx{prop: prop, thorough: tier == "thorough", seen: map[string]bool{}, obs: map[string]bool{}, fns: map[string]bool{}, ext: map[string]bool{}}
	p, err := loadProgram(repoDir(), true)
	if err != nil {
		fmt.Println("cannot load the program:", err)
		return 2
	}
	c.prog = p
	func() {
		defer func() {
			if r := recover(); r != nil {
				if os.Getenv("VERIF_PANIC") != "" {
					panic(r)
				}
				c.fail("incomplete", "", "", "", fmt.Sprintf("the analysis failed: %v", r))
			}
		}()
		fn(c)
	}()
	vd := verifDir()
	known := loadKnown(filepath.Join(vd, "known-findings.txt"), prop)
	var real []Violation
	for _, v := range c.viol {
		if k := matchKnown(known, v); k != "" {
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", prop, k)
			continue
		}
		real = append(real, v)
	}
	ndis := 0
	var rules = map[string]int{}
	for k, ok := range c.obs {
		if ok {
			ndis++
		}
		rules[strings.SplitN(k, " at ", 2)[0]]++
	}
	var fl, el []string
	for f := range c.fns {
		if !strings.Contains(f, "verif_") {
			fl = append(fl, f)
		}
	}
	for f := range c.ext {
		el = append(el, f)
	}
	sort.Strings(fl)
	sort.Strings(el)
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	ev := map[string]interface{}{
		"property": prop, "tier": tier, "seed": seed, "level": "other",
		"coverage": map[string]interface{}{
			"explanation":        "Abstract interpretation of the type-checked SSA form of the program from the listed drivers: every path of every function reached was analysed (loops to a fixed point), and each rule was decided at every event or path end it applies to. Nothing was executed.",
			"obligations":        len(c.obs),
			"discharged":         ndis,
			"rules":              rules,
			"drivers":            c.drivers,
			"path_classes":       c.nout,
			"abstract_steps":     c.nsteps,
			"events":             c.nev,
			"functions_analysed": fl,
			"library_models":     el,
			"derived":            c.notes,
		},
		"wall_s":     time.Since(t0).Seconds(),
		"violations": len(real),
		"assumptions": []string{
			"the models of the standard library and of the cryptographic primitives state what those functions do",
			"values of the abstraction: distinct cryptographic terms stand for distinct bytes",
		},
	}
	os.MkdirAll(filepath.Join(vd, "evidence"), 0755)
	b, _ := json.MarshalIndent(ev, "", " ")
	if err := os.WriteFile(filepath.Join(vd, "evidence", prop+".json"), append(b, '\n'), 0644); err != nil {
		fmt.Println(err)
		return 2
	}
	rp := filepath.Join(vd, "evidence", prop+".violations.txt")
	os.Remove(rp)
	fmt.Printf("%s: %d obligations, %d discharged; %d functions, %d path classes, %.1fs\n", prop, len(c.obs), ndis, len(fl), c.nout, time.Since(t0).Seconds())
	if len(real) == 0 {
		return 0
	}
	var sb strings.Builder
	for _, v := range real {
		fmt.Fprintf(&sb, "rule:   %s\nplace:  %s\nin:     %s\ndriver: %s\nwhat:   %s\n\n", v.Rule, v.Site, v.Fn, v.Driver, v.Detail)
	}
	os.WriteFile(rp, []byte(sb.String()), 0644)
	for i, v := range real {
		if i >= 20 {
			fmt.Printf("... and %d more\n", len(real)-i)
			break
		}
		fmt.Printf("  %s at %s in %s: %.700s\n", v.Rule, v.Site, v.Fn, v.Detail)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, rp)
	return 1
}

type knownFinding struct{ rule, site, text string }

// loadKnown reads lines "known: property=<id> rule=<rule> site=<function> <text>".
func loadKnown(path, prop string) []knownFinding {
	b, err := os.ReadFile(path)
	if err != nil {
		return nil
	}
	var r []knownFinding
	for _, l := range strings.Split(string(b), "\n") {
		w := strings.SplitN(strings.TrimSpace(l), " ", 5)
		if len(w) == 5 && w[0] == "known:" && w[1] == "property="+prop {
			r = append(r, knownFinding{strings.TrimPrefix(w[2], "rule="), strings.TrimPrefix(w[3], "in="), w[4]})
		}
	}
	return r
}

func matchKnown(ks []knownFinding, v Violation) string {
	for _, k := range ks {
		if k.rule == v.Rule && k.site == v.Fn {
			return k.text
		}
	}
	return ""
}
