package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"time"
)

func main() {
	if len(os.Args) >= 3 && os.Args[1] == "check" {
		tier := os.Getenv("VERIF_TIER")
		if len(os.Args) > 3 {
			tier = os.Args[3]
		}
		if tier == "" {
			tier = "quick"
		}
		debug.SetGCPercent(400)
		os.Exit(runCheck(os.Args[2], tier))
	}
	t := time.Now()
	debug.SetGCPercent(400)
	if f := os.Getenv("PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	p, err := loadProgram(repoDir(), true)
	if err != nil {
		fmt.Println(err)
		os.Exit(2)
	}
	x := newExec(p)
	x.opts.trace = os.Getenv("TRACE") != ""
	x.opaq = opaqueFn(runOpts{pb: os.Getenv("PB") != "", curve: os.Getenv("CURVE") != ""})
	st := p.initState(x)
	fmt.Println("init", time.Since(t), x.undec)
	if cm, ok := os.LookupEnv("CLI"); ok {
		x.opts.cli, x.opts.cmd = true, cm
		x.opts.nargs, _ = strconv.Atoi(os.Getenv("NARGS"))
	} else {
		p.forgetGlobals(st)
	}
	x.rec = true
	x.opts.bounds = true
	x.opts.keep = os.Getenv("KEEP")
	x.opts.partInts = os.Getenv("INTS") != ""
	x.opts.noUnroll = os.Getenv("PB") != ""
	x.opts.exact = os.Getenv("EXACT") != ""
	st.f.exact = x.opts.exact
	pk := "sign"
	if s := os.Getenv("PKG"); s != "" {
		pk = s
	}
	f := p.fn(pk, os.Args[1])
	outs := x.callFn(st, f, nil, nil, "")
	fmt.Println(len(outs), "outcomes", time.Since(t), "joins", x.nJoin, "loops", x.loopsN, "steps", x.steps)
	for _, u := range x.undec {
		fmt.Println("UNDEC", u)
	}
	for i, o := range outs {
		fmt.Printf("--- %d %q %s\n", i, o.kind, o.site)
		for _, e := range o.st.log.list() {
			m := ""
			if e.may {
				m = "(may)"
			}
			if e.failed {
				m += "FAIL"
			}
			fmt.Printf("   %s %s%s %.600v -> %.300v\n", e.site, e.kind, m, e.args, e.rets)
		}
		if os.Getenv("CELLS") != "" {
			dumpCells(o.st)
		}
		if i > 4000 {
			break
		}
	}
	for _, o := range x.obs {
		if !o.ok {
			fmt.Println("OB", o.rule, o.site, o.fn, o.detail)
		}
	}
}

func dumpCells(st *State) {
	var ks []string
	for k := range st.heap {
		if strings.Contains(k, "|$") {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		if fl := flat(st.heap[k]); len(fl) > 1 {
			for i, p := range fl {
				fmt.Printf("     %s [%d] %.500v\n", k, i, p)
			}
			continue
		}
		fmt.Printf("     %s = %.500v\n", k, st.heap[k])
	}
}
