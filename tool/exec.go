package main

import (
	"crypto/sha256"
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"go/constant"

	"golang.org/x/tools/go/ssa"
)

func shortHash(s string) string {
	h := sha256.Sum256([]byte(s))
	return string(h[:8])
}

// Outcome of a function activation.
type Outcome struct {
	st   *State
	ret  *Term
	kind string // "" return, "panic", "exit"
	code *Term  // exit code or panic value
	site string
}

// Ob is one obligation that was decided.
type Ob struct {
	rule   string
	site   string
	fn     string
	ok     bool
	detail string
	entry  string
}

type Exec struct {
	prog  *ssa.Program
	fset  *token.FileSet
	mods  map[*ssa.Package]bool // packages that are analysed (inlined)
	opaq  func(fn *ssa.Function) bool
	model func(name string) Model
	csite string // the call of the contract that is being analysed

	rec   bool
	entry string
	obs   map[string]*Ob
	onEv  func(x *Exec, st *State, ev *Event)
	onErr func(x *Exec, c *CallCtx, args []*Term) // what goes into the text of an error
	stack []*ssa.Function

	fninfo    map[*ssa.Function]*fnInfo
	loopsN    int
	steps     int
	maxSt     int
	undec     []string // internal: analysis gave up
	covFn     map[string]bool
	covCal    map[string]bool
	nPaths    int
	nJoin     int
	opts      Options
	candLimit map[string]bool // relations a join may look for (nil: all)
	depth     int
}

type Options struct {
	symGlobals bool // globals that are reassigned outside init are unknown
	bounds     bool // record bounds / nil obligations
	trace      bool
	noUnroll   bool
	partInts   bool   // tell counters at zero from others at loop heads
	cli        bool   // the commands: the sign package by contract
	cmd        string // the command of the command line
	nargs      int    // number of its arguments (0: any)
	keep       string // kinds of events that keep paths apart
	exact      bool   // no joins: every loop ends after some rounds
	tally      bool   // count the wrapped keys that are tried
	restLen    int    // length of the rest of an ssh structure (0: any)
}

type Model func(x *Exec, c *CallCtx) []MOut

type MOut struct {
	st  *State
	ret *Term
	out string // "", "panic", "exit"
}

type CallCtx struct {
	st   *State
	name string
	args []*Term
	sig  *types.Signature
	site string
	ctx  string
	pos  token.Pos
	argT []types.Type
	fn   *ssa.Function // static callee if any
}

func (x *Exec) at(pos token.Pos) string {
	if !pos.IsValid() {
		return "?"
	}
	p := x.fset.Position(pos)
	f := p.Filename
	if r := repoDir() + "/"; strings.HasPrefix(f, r) {
		f = f[len(r):]
	} else if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

func (x *Exec) curFn() string {
	for i := len(x.stack) - 1; i >= 0; i-- {
		f := x.stack[i]
		if f.Synthetic == "" {
			return f.RelString(nil)
		}
	}
	return "?"
}

func (x *Exec) ob(rule, site string, ok bool, detail string) {
	if !x.rec {
		return
	}
	k := rule + "@" + site
	o := x.obs[k]
	if o == nil {
		o = &Ob{rule: rule, site: site, fn: x.curFn(), ok: true, entry: x.entry}
		x.obs[k] = o
	}
	if !ok {
		if o.ok {
			o.detail = detail
		}
		o.ok = false
	} else if o.detail == "" {
		o.detail = detail
	}
}

func (x *Exec) giveUp(why string) {
	if len(x.undec) < 50 {
		x.undec = append(x.undec, why)
	}
}

// ---------- values ----------

func (x *Exec) constTerm(c *ssa.Const) *Term {
	t := c.Type()
	if c.Value == nil {
		return zeroOf(t)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return mkBool(constant.BoolVal(c.Value))
	case constant.String:
		return bconst(constant.StringVal(c.Value))
	case constant.Int:
		if n, ok := constant.Int64Val(c.Value); ok {
			return num(n)
		}
		if _, ok := constant.Uint64Val(c.Value); ok {
			return setRange(sym("const:"+c.Value.ExactString()), 0, inf)
		}
	}
	if isInt(t) {
		if v := constant.ToInt(c.Value); v.Kind() == constant.Int {
			if n, ok := constant.Int64Val(v); ok {
				return num(n)
			}
		}
	}
	return sym("const:" + c.Value.ExactString())
}

func (x *Exec) val(p *Path, v ssa.Value) *Term {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constTerm(v)
	case *ssa.Function:
		return intern(Term{Op: "fn", S: x.fnKey(v)})
	case *ssa.Builtin:
		return intern(Term{Op: "fn", S: "builtin:" + v.Name()})
	case *ssa.Global:
		if v.Pkg != nil && x.mods[v.Pkg] {
			return ptrTo("g:"+v.RelString(nil), "")
		}
		return intern(Term{Op: "gaddr", S: v.RelString(nil)})
	}
	if t, ok := p.env[v]; ok {
		return t
	}
	t := makeSym(p.st, v.Type(), freshName("undef:"+v.Name()))
	p.env[v] = t
	return t
}

var fnTab = map[string]*ssa.Function{}

func (x *Exec) fnKey(f *ssa.Function) string {
	k := f.RelString(nil)
	if g, ok := fnTab[k]; ok && g != f {
		k = fmt.Sprintf("%s$%p", k, f)
	}
	fnTab[k] = f
	return k
}

// ---------- function info: loops, liveness, order ----------

type loopInfo struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
	parent *loopInfo
}

type fnInfo struct {
	rpo     map[*ssa.BasicBlock]int
	loops   map[*ssa.BasicBlock]*loopInfo // by header
	inner   map[*ssa.BasicBlock]*loopInfo // innermost loop of a block
	live    map[*ssa.BasicBlock][]ssa.Value
	nblocks int
}

func (x *Exec) info(fn *ssa.Function) *fnInfo {
	if fi, ok := x.fninfo[fn]; ok {
		return fi
	}
	fi := &fnInfo{rpo: map[*ssa.BasicBlock]int{}, loops: map[*ssa.BasicBlock]*loopInfo{}, inner: map[*ssa.BasicBlock]*loopInfo{}, live: map[*ssa.BasicBlock][]ssa.Value{}}
	seen := map[*ssa.BasicBlock]bool{}
	var order []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b] = true
		for i := len(b.Succs) - 1; i >= 0; i-- {
			if s := b.Succs[i]; !seen[s] {
				dfs(s)
			}
		}
		order = append(order, b)
	}
	dfs(fn.Blocks[0])
	for i := range order {
		fi.rpo[order[len(order)-1-i]] = i
	}
	fi.nblocks = len(order)
	for _, b := range order {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := fi.loops[s]
				if l == nil {
					l = &loopInfo{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					fi.loops[s] = l
				}
				var add func(b *ssa.BasicBlock)
				add = func(b *ssa.BasicBlock) {
					if l.blocks[b] {
						return
					}
					l.blocks[b] = true
					for _, q := range b.Preds {
						if seen[q] {
							add(q)
						}
					}
				}
				add(b)
			}
		}
	}
	for _, l := range fi.loops {
		for _, m := range fi.loops {
			if m != l && m.blocks[l.header] && (l.parent == nil || len(m.blocks) < len(l.parent.blocks)) {
				l.parent = m
			}
		}
		for b := range l.blocks {
			if c := fi.inner[b]; c == nil || len(l.blocks) < len(c.blocks) {
				fi.inner[b] = l
			}
		}
	}
	// liveness
	liveIn := map[*ssa.BasicBlock]map[ssa.Value]bool{}
	for _, b := range order {
		liveIn[b] = map[ssa.Value]bool{}
	}
	track := func(v ssa.Value) bool {
		switch v.(type) {
		case *ssa.Const, *ssa.Function, *ssa.Builtin, *ssa.Global:
			return false
		}
		return v != nil
	}
	for changed := true; changed; {
		changed = false
		for _, b := range order { // postorder
			out := map[ssa.Value]bool{}
			for _, s := range b.Succs {
				for v := range liveIn[s] {
					out[v] = true
				}
				pi := -1
				for i, q := range s.Preds {
					if q == b {
						pi = i
					}
				}
				for _, in := range s.Instrs {
					ph, ok := in.(*ssa.Phi)
					if !ok {
						break
					}
					delete(out, ph)
					if track(ph.Edges[pi]) {
						out[ph.Edges[pi]] = true
					}
				}
			}
			for i := len(b.Instrs) - 1; i >= 0; i-- {
				in := b.Instrs[i]
				if v, ok := in.(ssa.Value); ok {
					delete(out, v)
				}
				if _, ok := in.(*ssa.Phi); ok {
					continue
				}
				for _, op := range in.Operands(nil) {
					if *op != nil && track(*op) {
						out[*op] = true
					}
				}
			}
			// phis of b are live at entry after evaluation
			for _, in := range b.Instrs {
				ph, ok := in.(*ssa.Phi)
				if !ok {
					break
				}
				out[ph] = true
			}
			if len(out) != len(liveIn[b]) {
				liveIn[b] = out
				changed = true
			}
		}
	}
	// recover live variables for blocks with recover are ignored
	for b, m := range liveIn {
		var vs []ssa.Value
		for v := range m {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool {
			if vs[i].Pos() != vs[j].Pos() {
				return vs[i].Pos() < vs[j].Pos()
			}
			return vs[i].Name() < vs[j].Name()
		})
		fi.live[b] = vs
	}
	x.fninfo[fn] = fi
	return fi
}

type Frame struct {
	fn  *ssa.Function
	fi  *fnInfo
	ctx string
}

// ---------- function activation ----------

func (x *Exec) callFn(st *State, fn *ssa.Function, args, binds []*Term, ctx string) []Outcome {
	if x.opts.trace {
		fmt.Fprintf(os.Stderr, "%scall %s\n", strings.Repeat(" ", len(x.stack)), fn.RelString(nil))
	}
	n := 0
	for _, f := range x.stack {
		if f == fn {
			n++
		}
	}
	if n >= 2 || len(x.stack) > 40 || fn.Blocks == nil {
		x.giveUp("recursion or body-less function " + fn.RelString(nil))
		return []Outcome{{st: st, ret: x.unknownResult(st, fn.Signature, fn.RelString(nil))}}
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	x.covFn[fn.RelString(nil)] = true
	p := &Path{st: st, env: map[ssa.Value]*Term{}}
	for i, q := range fn.Params {
		if i < len(args) {
			p.env[q] = args[i]
		}
	}
	for i, q := range fn.FreeVars {
		if i < len(binds) {
			p.env[q] = binds[i]
		}
	}
	fr := &Frame{fn: fn, fi: x.info(fn), ctx: ctx}
	_, _, outs := x.runRegion(fr, nil, fn.Blocks[0], []*Path{p})
	return outs
}

func (x *Exec) unknownResult(st *State, sig *types.Signature, name string) *Term {
	r := sig.Results()
	switch r.Len() {
	case 0:
		return tUnit
	case 1:
		return makeSym(st, r.At(0).Type(), freshName(name))
	}
	return makeSym(st, r, freshName(name))
}

type edge struct{ from, to *ssa.BasicBlock }

type edgePaths struct {
	e  edge
	ps []*Path
}

// runRegion runs from start with the given paths (phis of start already
// evaluated when region != nil). Leaves of the region are returned as exits,
// jumps back to its header as backs.
func (x *Exec) runRegion(fr *Frame, region *loopInfo, start *ssa.BasicBlock, init []*Path) (exits []edgePaths, backs []*Path, outs []Outcome) {
	pending := map[*ssa.BasicBlock][]*Path{}
	ready := map[*Path]bool{} // phis already evaluated
	for _, p := range init {
		if region != nil {
			ready[p] = true
		}
		pending[start] = append(pending[start], p)
	}
	first := true
	emit := func(p *Path, from, to *ssa.BasicBlock) {
		p.pred = from
		if region != nil {
			if to == region.header {
				x.phis(p, to)
				backs = append(backs, p)
				return
			}
			if !region.blocks[to] {
				for i := range exits {
					if exits[i].e == (edge{from, to}) {
						exits[i].ps = append(exits[i].ps, p)
						return
					}
				}
				exits = append(exits, edgePaths{edge{from, to}, []*Path{p}})
				return
			}
		}
		pending[to] = append(pending[to], p)
	}
	for len(pending) > 0 {
		var b *ssa.BasicBlock
		for c := range pending {
			if b == nil || fr.fi.rpo[c] < fr.fi.rpo[b] {
				b = c
			}
		}
		ps := pending[b]
		delete(pending, b)
		for _, p := range ps {
			if !ready[p] {
				x.phis(p, b)
			}
			delete(ready, p)
		}
		if l := fr.fi.loops[b]; l != nil && !(first && region != nil && b == region.header) {
			first = false
			ex, os := x.solveLoop(fr, l, ps)
			outs = append(outs, os...)
			for _, e := range ex {
				for _, p := range e.ps {
					emit(p, e.e.from, e.e.to)
				}
			}
			continue
		}
		first = false
		if len(ps) > 1 {
			ps = x.dedupe(fr, b, ps)
		}
		for _, p := range ps {
			x.execBlock(fr, p, b, emit, &outs)
		}
	}
	return
}

func (x *Exec) phis(p *Path, b *ssa.BasicBlock) {
	if p.pred == nil {
		return
	}
	pi := -1
	for i, q := range b.Preds {
		if q == p.pred {
			pi = i
		}
	}
	if pi < 0 {
		return
	}
	var vs []*Term
	var ph []*ssa.Phi
	for _, in := range b.Instrs {
		f, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		ph = append(ph, f)
		vs = append(vs, x.val(p, f.Edges[pi]))
	}
	for i, f := range ph {
		p.env[f] = vs[i]
	}
}

// dedupe merges paths at a block that differ only in facts, and joins when
// there are too many of them.
func (x *Exec) dedupe(fr *Frame, b *ssa.BasicBlock, ps []*Path) []*Path {
	live := fr.fi.live[b]
	groups := map[string]*Path{}
	var r []*Path
	for _, p := range ps {
		k := x.pathKey(p, live)
		if q, ok := groups[k]; ok && !x.opts.exact {
			q.st.f = intersectFacts(q.st.f, p.st.f)
			continue
		}
		groups[k] = p
		r = append(r, p)
	}
	const cap = 160
	if len(r) > cap && !x.opts.exact {
		by := map[string][]*Path{}
		var ks []string
		for _, p := range r {
			k := x.partKey(p, live, nil) + x.keepKey(p)
			if by[k] == nil {
				ks = append(ks, k)
			}
			by[k] = append(by[k], p)
		}
		r0 := r
		r = nil
		if len(ks) > cap {
			by = map[string][]*Path{}
			ks = nil
			for _, p := range r0 {
				k := deferKey(p) + x.keepKey(p)
				if by[k] == nil {
					ks = append(ks, k)
				}
				by[k] = append(by[k], p)
			}
		}
		for _, k := range ks {
			if len(by[k]) == 1 {
				r = append(r, by[k][0])
				continue
			}
			j := x.join(by[k], live, termCount, nil)
			r = append(r, j.p)
		}
	}
	return r
}

func (x *Exec) pathKey(p *Path, live []ssa.Value) string {
	var b strings.Builder
	if p.st.log != nil {
		b.WriteString(p.st.log.hash)
	}
	b.WriteByte('/')
	b.WriteString(x.keepOpts(p))
	for _, v := range live {
		if t, ok := p.env[v]; ok {
			fmt.Fprintf(&b, "%d,", t.id)
		} else {
			b.WriteString("-,")
		}
	}
	ks := make([]string, 0, len(p.st.heap))
	for k := range p.st.heap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	for _, k := range ks {
		fmt.Fprintf(&b, "%s=%d;", k, p.st.heap[k].id)
	}
	for _, d := range p.defers {
		fmt.Fprintf(&b, "D%d", d.fn.id)
		for _, a := range d.args {
			fmt.Fprintf(&b, ".%d", a.id)
		}
	}
	return b.String()
}

// unwind runs what a function deferred when it ends with a panic.
func (x *Exec) unwind(fr *Frame, p *Path, o Outcome) []Outcome {
	if o.kind != "panic" || len(p.defers) == 0 {
		return []Outcome{o}
	}
	cur := []Outcome{o}
	var done []Outcome
	for i := len(p.defers) - 1; i >= 0; i-- {
		d := p.defers[i]
		var next []Outcome
		for _, c := range cur {
			for _, r := range x.invoke(c.st, fr, d.in, d.call, d.fn, d.args) {
				switch r.kind {
				case "":
					next = append(next, Outcome{st: r.st, kind: o.kind, code: o.code, ret: o.ret, site: o.site})
				case "panic":
					next = append(next, r)
				default:
					done = append(done, r)
				}
			}
		}
		cur = next
	}
	return append(done, cur...)
}

func intersectFacts(a, b *Facts) *Facts {
	r := newFacts()
	for c, v := range a.truth {
		if w, ok := b.truth[c]; ok && w == v {
			r.truth[c] = v
		} else if !ok {
			if e := b.eval(c); e >= 0 && (e == 1) == v {
				r.truth[c] = v
			}
		}
	}
	for c, v := range b.truth {
		if _, ok := r.truth[c]; ok {
			continue
		}
		if e := a.eval(c); e >= 0 && (e == 1) == v {
			r.truth[c] = v
		}
	}
	for _, c := range a.lin {
		if b.proveLE0(c) {
			r.addLin(c)
		}
	}
	for _, c := range b.lin {
		if a.proveLE0(c) {
			r.addLin(c)
		}
	}
	return r
}

// ---------- blocks ----------

type cont struct {
	p   *Path
	idx int
}

func (x *Exec) execBlock(fr *Frame, p *Path, b *ssa.BasicBlock, emit func(*Path, *ssa.BasicBlock, *ssa.BasicBlock), outs *[]Outcome) {
	i := 0
	for i < len(b.Instrs) {
		if _, ok := b.Instrs[i].(*ssa.Phi); !ok {
			break
		}
		i++
	}
	work := []cont{{p, i}}
	for len(work) > 0 {
		c := work[len(work)-1]
		work = work[:len(work)-1]
		p := c.p
	instrs:
		for i := c.idx; i < len(b.Instrs); i++ {
			x.steps++
			if x.steps&0x3fff == 0 {
				checkBudget()
			}
			in := b.Instrs[i]
			switch in := in.(type) {
			case *ssa.If:
				cond := x.val(p, in.Cond)
				if x.opts.trace {
					fmt.Fprintf(os.Stderr, "%s if %s %s -> %d\n", strings.Repeat(" ", len(x.stack)), x.at(in.Cond.Pos()), cond, p.st.f.eval(cond))
				}
				switch p.st.f.eval(cond) {
				case 1:
					if x.opts.partInts {
						x.refine(p, cond, true)
					}
					emit(p, b, b.Succs[0])
				case 0:
					if x.opts.partInts {
						x.refine(p, cond, false)
					}
					emit(p, b, b.Succs[1])
				default:
					q := p.clone()
					if q.st.f.assume(cond, false) && !q.st.f.contradictory() {
						x.refine(q, cond, false)
						emit(q, b, b.Succs[1])
					}
					if p.st.f.assume(cond, true) && !p.st.f.contradictory() {
						x.refine(p, cond, true)
						emit(p, b, b.Succs[0])
					}
				}
				break instrs
			case *ssa.Jump:
				emit(p, b, b.Succs[0])
				break instrs
			case *ssa.Return:
				var ret *Term
				switch len(in.Results) {
				case 0:
					ret = tUnit
				case 1:
					ret = x.val(p, in.Results[0])
				default:
					var ts []*Term
					for _, r := range in.Results {
						ts = append(ts, x.val(p, r))
					}
					ret = app("tuple", ts...)
				}
				x.nPaths++
				*outs = append(*outs, Outcome{st: p.st, ret: ret, site: x.at(in.Pos())})
				break instrs
			case *ssa.Panic:
				v := x.val(p, in.X)
				p.st.log = p.st.log.add(&Event{kind: "panic", site: x.at(in.Pos()), ctx: fr.ctx, args: []*Term{v}, pos: in.Pos()})
				x.event(p.st)
				*outs = append(*outs, x.unwind(fr, p, Outcome{st: p.st, kind: "panic", code: v, site: x.at(in.Pos())})...)
				break instrs
			case *ssa.RunDefers:
				cur := []*Path{p}
				for len(cur) > 0 && len(cur[0].defers) > 0 { // all from p: as many for each
					var next []*Path
					for _, q := range cur {
						d := q.defers[len(q.defers)-1]
						q.defers = q.defers[:len(q.defers)-1]
						for _, o := range x.invoke(q.st, fr, d.in, d.call, d.fn, d.args) {
							if o.kind != "" {
								*outs = append(*outs, o)
								continue
							}
							q2 := q
							if o.st != q.st {
								q2 = q.withState(o.st)
							}
							next = append(next, q2)
						}
					}
					cur = next
				}
				for k, q := range cur {
					if k == 0 {
						continue
					}
					work = append(work, cont{q, i + 1})
				}
				if len(cur) == 0 {
					break instrs
				}
				p = cur[0]
			case *ssa.Defer:
				fn, args := x.callee(p, &in.Call)
				p.defers = append(p.defers, deferred{fn: fn, args: args, call: &in.Call, in: in})
			case *ssa.Go:
				x.giveUp("goroutine at " + x.at(in.Pos()))
			case *ssa.Call:
				fn, args := x.callee(p, &in.Call)
				os := x.invoke(p.st, fr, in, &in.Call, fn, args)
				k := 0
				var keep *Path
				for _, o := range os {
					if o.kind != "" {
						*outs = append(*outs, x.unwind(fr, p, o)...)
						continue
					}
					var q *Path
					if k == 0 {
						q = p
						// defer assignment: clones below need the original env
						keep = q
					}
					if k > 0 {
						q = keep.withState(o.st)
						q.env[in] = o.ret
						work = append(work, cont{q, i + 1})
					}
					k++
				}
				if keep == nil {
					break instrs
				}
				for _, o := range os {
					if o.kind == "" {
						keep.st = o.st
						keep.env[in] = o.ret
						break
					}
				}
				p = keep
			default:
				more := x.instr(fr, p, in)
				if more == nil {
					continue
				}
				// several disjuncts (or none)
				if len(more) == 0 {
					break instrs
				}
				for _, q := range more[1:] {
					work = append(work, cont{q, i + 1})
				}
				p = more[0]
			}
		}
	}
}

// refine rewrites an atom that became constant.
func (x *Exec) refine(p *Path, cond *Term, v bool) {
	for cond.Op == "not" {
		cond, v = cond.A[0], !v
	}
	if cond.Op != "eq0" || !v {
		if cond.Op == "le0" {
			// a bound may pin the atom
			_, as, _ := linView(cond.A[0])
			if len(as) == 1 {
				lo, hi := p.st.f.bounds(as[0])
				if lo == hi {
					x.subst(p, as[0], num(lo))
				}
			} else if x.opts.partInts {
				// or leave only equality
				t := cond.A[0]
				if !v {
					t = addK(scale(t, -1), 1)
				}
				if p.st.f.proveLE0(scale(t, -1)) {
					x.solveFor(p, t)
				}
			}
		}
		return
	}
	n, as, cs := linView(cond.A[0])
	if len(as) == 1 && (cs[0] == 1 || cs[0] == -1) {
		x.subst(p, as[0], num(-n*cs[0]))
	} else if len(as) == 2 && n == 0 && cs[0] == -cs[1] && abs64(cs[0]) == 1 {
		// a == b: prefer the older atom
		a, b := as[0], as[1]
		if contains(b, a) || contains(a, b) {
			return
		}
		if a.id < b.id {
			x.subst(p, b, a)
		} else {
			x.subst(p, a, b)
		}
	} else if x.opts.partInts {
		x.solveFor(p, cond.A[0])
	}
}

// solveFor rewrites the newest atom of a linear term that is zero.
func (x *Exec) solveFor(p *Path, t *Term) {
	_, as, cs := linView(t)
	k := -1
	for i, a := range as {
		if (cs[i] == 1 || cs[i] == -1) && len(a.A) == 0 && (k < 0 || a.id > as[k].id) {
			k = i
		}
	}
	if k < 0 {
		return
	}
	for i, a := range as {
		if i != k && contains(a, as[k]) {
			return
		}
	}
	// t = c*a + r = 0  =>  a = -r/c
	a := as[k]
	r := subT(t, scale(a, cs[k]))
	if cs[k] == 1 {
		r = scale(r, -1)
	}
	x.subst(p, a, r)
}

func (x *Exec) subst(p *Path, a, v *Term) {
	if a.Op == "len" || a.Op == "b2i" {
		// structural length of an opaque value: keep
	}
	memo := map[*Term]*Term{a: v}
	f := func(t *Term) *Term { return nil }
	for k, t := range p.env {
		if t != nil && (t == a || mayContain(t, a)) {
			p.env[k] = mapTerm(t, memo, f)
		}
	}
	for k, t := range p.st.heap {
		if t == a || mayContain(t, a) {
			p.st.heap[k] = mapTerm(t, memo, f)
		}
	}
	for i := range p.defers {
		for j, t := range p.defers[i].args {
			p.defers[i].args[j] = mapTerm(t, memo, f)
		}
		p.defers[i].fn = mapTerm(p.defers[i].fn, memo, f)
	}
	nf := p.st.f
	for c, tv := range nf.truth {
		if mayContain(c, a) {
			c2 := mapTerm(c, memo, f)
			if c2 != c {
				nf.assume(c2, tv)
			}
		}
	}
	for _, c := range append([]*Term(nil), nf.lin...) {
		if mayContain(c, a) {
			c2 := mapTerm(c, memo, f)
			nf.addLin(c2)
		}
	}
}

func mayContain(t, a *Term) bool { return t.id >= a.id && t.depth >= a.depth && contains(t, a) }

// ---------- simple instructions ----------

func (x *Exec) instr(fr *Frame, p *Path, in ssa.Instruction) []*Path {
	st := p.st
	switch in := in.(type) {
	case *ssa.Alloc:
		et := in.Type().Underlying().(*types.Pointer).Elem()
		n := st.newObj("o:"+fr.ctx+"/"+fr.fn.Name()+"."+in.Name()+posTag(in), "local", et)
		if !in.Heap {
			// a stack variable is re-zeroed each time
		}
		p.env[in] = ptrTo(n, "")
	case *ssa.BinOp:
		r, more := x.binop(p, in)
		p.env[in] = r
		if more != nil {
			return more
		}
	case *ssa.UnOp:
		return x.unop(fr, p, in)
	case *ssa.ChangeInterface:
		p.env[in] = x.val(p, in.X)
	case *ssa.ChangeType:
		p.env[in] = x.val(p, in.X)
	case *ssa.MakeInterface:
		v := x.val(p, in.X)
		p.env[in] = mkIface(in.X.Type(), v)
	case *ssa.Convert:
		p.env[in] = x.convert(p, x.val(p, in.X), in.X.Type(), in.Type(), fr, in)
	case *ssa.MultiConvert:
		p.env[in] = makeSym(st, in.Type(), freshName("multiconvert"))
	case *ssa.Extract:
		t := x.val(p, in.Tuple)
		if t.Op == "tuple" && in.Index < len(t.A) {
			p.env[in] = t.A[in.Index]
		} else {
			p.env[in] = makeSym(st, in.Type(), fmt.Sprintf("t%d.%d", t.id, in.Index))
		}
	case *ssa.Field:
		p.env[in] = fieldOf(st, x.val(p, in.X), in.Field, in.Type())
	case *ssa.FieldAddr:
		b := x.val(p, in.X)
		pt := in.X.Type().Underlying().(*types.Pointer).Elem()
		fname := pt.Underlying().(*types.Struct).Field(in.Field).Name()
		x.nilCheck(p, b, in.Pos(), "field "+fname)
		if b.Op == "eptr" {
			p.env[in] = eptr(b.S, b.A[1].S+"."+fname, b.A[0])
		} else {
			p.env[in] = intern(Term{Op: "ptr", S: st.target(b, pt) + "." + fname})
		}
		if b.Op == "nil" {
			return []*Path{}
		}
	case *ssa.Store:
		a := x.val(p, in.Addr)
		v := x.val(p, in.Val)
		x.nilCheck(p, a, in.Pos(), "store")
		if a.Op == "nil" {
			return []*Path{}
		}
		x.storeTo(st, a, in.Val.Type(), v)
	case *ssa.IndexAddr:
		b := x.val(p, in.X)
		i := x.val(p, in.Index)
		switch u := in.X.Type().Underlying().(type) {
		case *types.Slice:
			loc, off, ln, _ := st.sliceParts(b)
			x.boundsCheck(p, i, ln, in.Pos(), "index")
			if loc == "" {
				return []*Path{}
			}
			p.env[in] = eptr(loc, "", add(off, i))
		case *types.Pointer:
			at := u.Elem().Underlying().(*types.Array)
			x.boundsCheck(p, i, num(at.Len()), in.Pos(), "index")
			loc := st.target(b, u.Elem())
			if b.Op == "eptr" {
				loc = x.elemLoc(st, b)
			}
			p.env[in] = eptr(loc, "", i)
			if _, ok := locType[loc]; !ok {
				locType[loc] = u.Elem()
			}
		}
	case *ssa.Index:
		b := x.val(p, in.X)
		i := x.val(p, in.Index)
		if at, ok := in.X.Type().Underlying().(*types.Array); ok {
			x.boundsCheck(p, i, num(at.Len()), in.Pos(), "index")
			p.env[in] = x.elemOf(st, b, i, at.Elem())
		} else { // string
			x.boundsCheck(p, i, blen(b), in.Pos(), "index")
			p.env[in] = x.elemOf(st, b, i, types.Typ[types.Uint8])
		}
	case *ssa.Slice:
		return x.slice(fr, p, in)
	case *ssa.SliceToArrayPointer:
		b := x.val(p, in.X)
		n := in.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
		loc, off, ln, _ := st.sliceParts(b)
		x.boundsCheck(p, num(n-1), ln, in.Pos(), "slice to array")
		if c, ok := off.isConst(); ok && c == 0 && st.seq(loc) != nil {
			p.env[in] = intern(Term{Op: "ptr", S: loc})
		} else {
			p.env[in] = makeSym(st, in.Type(), freshName("arrayptr"))
		}
	case *ssa.MakeSlice:
		ln := x.val(p, in.Len)
		cp := x.val(p, in.Cap)
		n := st.newObj("o:"+fr.ctx+"/"+fr.fn.Name()+"."+in.Name()+posTag(in), "local", nil)
		st.heap[n+"|"] = zeros(cp)
		if x.rec {
			x.ob("makeslice", x.at(in.Pos())+siteTag(in.Pos(), in), st.f.entailLE(num(0), ln) && st.f.entailLE(ln, cp), "length may be negative: "+ln.String())
			x.alloc(p, cp, x.at(in.Pos()))
		}
		p.env[in] = sliceOf(n+"|", num(0), ln, cp)
	case *ssa.MakeMap:
		n := st.newObj("o:"+fr.ctx+"/"+fr.fn.Name()+"."+in.Name()+posTag(in), "map", nil)
		st.heap[n+"|"] = intern(Term{Op: "mapc"})
		p.env[in] = intern(Term{Op: "map", S: n})
	case *ssa.MapUpdate:
		m := x.val(p, in.Map)
		k := x.val(p, in.Key)
		v := x.val(p, in.Value)
		st.mapUpdate(m, k, v)
		st.log = st.log.add(&Event{kind: "mapupdate", site: x.at(in.Pos()), ctx: fr.ctx, args: []*Term{m, k, v}, pos: in.Pos()})
		x.event(st)
	case *ssa.Lookup:
		return x.lookup(p, in)
	case *ssa.MakeClosure:
		f := in.Fn.(*ssa.Function)
		var bs []*Term
		for _, b := range in.Bindings {
			bs = append(bs, x.val(p, b))
		}
		p.env[in] = intern(Term{Op: "closure", S: x.fnKey(f), A: bs})
	case *ssa.Range:
		p.env[in] = x.mkRange(p, fr, in)
	case *ssa.Next:
		return x.next(fr, p, in)
	case *ssa.TypeAssert:
		return x.typeAssert(p, in)
	case *ssa.DebugRef:
	case *ssa.Select, *ssa.Send, *ssa.MakeChan:
		x.giveUp("channel operation at " + x.at(in.Pos()))
		if v, ok := in.(ssa.Value); ok {
			p.env[v] = makeSym(st, v.Type(), freshName("chan"))
		}
	default:
		x.giveUp(fmt.Sprintf("instruction %T at %s", in, x.at(in.Pos())))
		if v, ok := in.(ssa.Value); ok {
			p.env[v] = makeSym(st, v.Type(), freshName("instr"))
		}
	}
	return nil
}

func posTag(in ssa.Instruction) string { return "" }

func siteTag(pos token.Pos, in ssa.Instruction) string {
	if v, ok := in.(ssa.Value); ok {
		return "#" + v.Name()
	}
	return ""
}

func mkIface(t types.Type, v *Term) *Term {
	if _, ok := t.Underlying().(*types.Interface); ok {
		return v
	}
	return intern(Term{Op: "iface", S: tname(t), A: []*Term{v}})
}

func (x *Exec) elemLoc(st *State, e *Term) string {
	return fmt.Sprintf("%s[%d]%s", e.S, e.A[0].id, e.A[1].S)
}

// value of element i of a sequence
func (x *Exec) elemOf(st *State, seq, i *Term, et types.Type) *Term {
	r := bsub(st.f, seq, i, addK(i, 1))
	switch r.Op {
	case "elem":
		return r.A[0]
	case "bytes":
		if len(r.S) == 1 {
			return num(int64(r.S[0]))
		}
	case "zero":
		return zeroOf(et)
	case "be":
		if r.N == 1 {
			return r.A[0]
		}
	}
	s := "p"
	if isByte(et) {
		s = "b"
	} else if isInt(et) {
		s = "i"
	} else if isStr(et) {
		s = "s"
	}
	// the one-element subsequence; x[i] of a sub is x'[off+i]
	b, k := r, num(0)
	if r.Op == "sub" {
		b, k = r.A[0], r.A[1]
	} else if r != seq {
		b, k = r, num(0)
	} else {
		k = num(0)
	}
	if b.Op == "be" && s == "b" {
		if c, ok := k.isConst(); ok && c >= 0 && c < b.N {
			return setRange(intern(Term{Op: "byteof", N: b.N - 1 - c, A: []*Term{b.A[0]}}), 0, 255)
		}
	}
	if b.Op == "le" && s == "b" {
		if c, ok := k.isConst(); ok && c >= 0 && c < b.N {
			return setRange(intern(Term{Op: "byteof", N: c, A: []*Term{b.A[0]}}), 0, 255)
		}
	}
	t := intern(Term{Op: "at", S: s, A: []*Term{b, k}})
	switch s {
	case "i":
		lo, hi := typeRange(basicName(et))
		setRange(t, lo, hi)
	case "p":
		switch et.Underlying().(type) {
		case *types.Slice:
			ln := setRange(app("len", t), 0, inf)
			loc := fmt.Sprintf("sym:el%d", t.id)
			if _, ok := st.objs[loc]; !ok {
				st.objs[loc] = &Obj{name: loc, kind: "sym"}
				st.heap[loc+"|"] = rawSeq(fmt.Sprintf("el%d", t.id), ln)
			}
			return sliceOf(loc+"|", num(0), ln, ln)
		case *types.Basic:
			if basicName(et) == "bool" {
				return intern(Term{Op: "bool", S: fmt.Sprintf("at%d", t.id)})
			}
		}
		if _, ok := isStruct(et); ok {
			return makeSym(st, et, fmt.Sprintf("el%d", t.id))
		}
	}
	return t
}

func elemTerm(et types.Type, v *Term) *Term {
	if isByte(et) {
		return elemB(v)
	}
	return elem(v)
}

func (x *Exec) loadFrom(st *State, a *Term, t types.Type) *Term {
	switch a.Op {
	case "eptr":
		loc := x.elemLoc(st, a)
		if a.A[1].S != "" || isArr(t) {
			if v, ok := st.heap[loc]; ok {
				return v
			}
		}
		seq := st.seq(a.S)
		if a.A[1].S == "" {
			return x.elemOf(st, seq, a.A[0], t)
		}
		// field of a struct element: the element is one value
		return x.elemField(st, seq, a, t)
	case "gaddr":
		return x.extGlobal(st, a.S, t)
	}
	return st.load(st.target(a, t), t)
}

func isArr(t types.Type) bool { _, ok := t.Underlying().(*types.Array); return ok }

func (x *Exec) elemField(st *State, seq *Term, a *Term, t types.Type) *Term {
	r := bsub(st.f, seq, a.A[0], addK(a.A[0], 1))
	path := strings.Split(strings.TrimPrefix(a.A[1].S, "."), ".")
	if r.Op == "elem" {
		v := r.A[0]
		for _, f := range path {
			if v.Op != "struct" {
				return makeSym(st, t, fmt.Sprintf("t%d.%s", v.id, f))
			}
			su, ok := isStruct(typeByName[v.S])
			if !ok {
				return makeSym(st, t, fmt.Sprintf("t%d.%s", v.id, f))
			}
			for i := 0; i < su.NumFields(); i++ {
				if su.Field(i).Name() == f {
					v = v.A[i]
					break
				}
			}
		}
		return v
	}
	if r.Op == "zero" {
		return zeroOf(t)
	}
	return makeSym(st, t, fmt.Sprintf("el%d%s", r.id, a.A[1].S))
}

func (x *Exec) storeTo(st *State, a *Term, t types.Type, v *Term) {
	switch a.Op {
	case "eptr":
		if a.A[1].S == "" && !isArr(t) {
			st.writeSeq(a.S, a.A[0], elemTerm(t, v))
			return
		}
		// store to a field of an element
		seq := st.seq(a.S)
		r := bsub(st.f, seq, a.A[0], addK(a.A[0], 1))
		if r.Op == "zero" && locElem[a.S] != nil {
			r = elem(zeroOf(locElem[a.S]))
		}
		if r.Op == "elem" && r.A[0].Op == "struct" {
			path := strings.Split(strings.TrimPrefix(a.A[1].S, "."), ".")
			if nv := setPath(r.A[0], path, v); nv != nil {
				st.writeSeq(a.S, a.A[0], elem(nv))
				return
			}
		}
		st.writeSeq(a.S, a.A[0], elem(fresh("fieldstore")))
		return
	case "gaddr":
		return
	}
	st.store(st.target(a, t), t, v)
}

var locElem = map[string]types.Type{}

func setPath(s *Term, path []string, v *Term) *Term {
	su, ok := isStruct(typeByName[s.S])
	if !ok {
		return nil
	}
	for i := 0; i < su.NumFields(); i++ {
		if su.Field(i).Name() == path[0] {
			as := append([]*Term(nil), s.A...)
			if len(path) == 1 {
				as[i] = v
			} else {
				if as[i].Op != "struct" {
					return nil
				}
				n := setPath(as[i], path[1:], v)
				if n == nil {
					return nil
				}
				as[i] = n
			}
			return intern(Term{Op: "struct", S: s.S, A: as})
		}
	}
	return nil
}

// extGlobal is the value of a package level variable of another module.
func (x *Exec) extGlobal(st *State, name string, t types.Type) *Term {
	switch name {
	case "golang.org/x/crypto/curve25519.Basepoint":
		loc := "gx:" + name + "|"
		if _, ok := st.heap[loc]; !ok {
			st.objs["gx:"+name] = &Obj{name: "gx:" + name, kind: "sym"}
			st.heap[loc] = rawSeq("basepoint", num(32))
		}
		return sliceOf(loc, num(0), num(32), num(32))
	}
	if isByteSlice(t) || isSliceT(t) {
		return makeSym(st, t, name)
	}
	switch t.Underlying().(type) {
	case *types.Basic:
		return makeSym(st, t, name)
	}
	return intern(Term{Op: "gvar", S: name})
}

func isSliceT(t types.Type) bool { _, ok := t.Underlying().(*types.Slice); return ok }

func (x *Exec) nilCheck(p *Path, a *Term, pos token.Pos, what string) {
	s := nilStatus(p.st.f, a)
	if x.rec && x.opts.bounds {
		switch a.Op {
		case "ptr", "eptr", "gaddr":
		default:
			x.ob("nil", x.at(pos), s == 0, what+" through a pointer that may be nil: "+short(a))
		}
	}
	if s == -1 {
		p.st.f.assume(app("isnil", a), false)
	}
}

func short(t *Term) string {
	s := t.String()
	if len(s) > 300 {
		s = s[:300] + "…"
	}
	return s
}

func (x *Exec) boundsCheck(p *Path, i, n *Term, pos token.Pos, what string) {
	ok := p.st.f.entailLE(num(0), i) && p.st.f.entailLE(addK(i, 1), n)
	if x.rec && x.opts.bounds {
		x.ob("bounds", x.at(pos), ok, fmt.Sprintf("%s %s may be outside of length %s", what, short(i), short(n)))
	}
	if !ok {
		p.st.f.assume(mkLE(num(0), i), true)
		p.st.f.assume(mkLE(addK(i, 1), n), true)
	}
}

// leCheck: a <= b required by a slice expression
func (x *Exec) leCheck(p *Path, a, b *Term, pos token.Pos, what string) {
	ok := p.st.f.entailLE(a, b)
	if x.rec && x.opts.bounds {
		x.ob("bounds", x.at(pos), ok, fmt.Sprintf("%s: %s may exceed %s", what, short(a), short(b)))
	}
	if !ok {
		if x.rec && x.opts.trace {
			for _, c := range p.st.f.lin {
				fmt.Fprintf(os.Stderr, "FACT %s: %s <= 0\n", x.at(pos), short(c))
			}
		}
		p.st.f.assume(mkLE(a, b), true)
	}
}

func (x *Exec) slice(fr *Frame, p *Path, in *ssa.Slice) []*Path {
	st := p.st
	b := x.val(p, in.X)
	var lo, hi, mx *Term
	if in.Low != nil {
		lo = x.val(p, in.Low)
	}
	if in.High != nil {
		hi = x.val(p, in.High)
	}
	if in.Max != nil {
		mx = x.val(p, in.Max)
	}
	if lo == nil {
		lo = num(0)
	}
	if isStr(in.X.Type()) {
		if hi == nil {
			hi = blen(b)
		}
		x.leCheck(p, hi, blen(b), in.Pos(), "string slice high bound")
		x.leCheck(p, lo, hi, in.Pos(), "string slice low bound")
		x.leCheck(p, num(0), lo, in.Pos(), "string slice low bound sign")
		p.env[in] = bsub(st.f, b, lo, hi)
		return nil
	}
	var loc string
	var off, ln, cp *Term
	if u, ok := in.X.Type().Underlying().(*types.Pointer); ok {
		at := u.Elem().Underlying().(*types.Array)
		if b.Op == "eptr" {
			loc = x.elemLoc(st, b)
		} else {
			loc = st.target(b, u.Elem())
		}
		st.load(loc, u.Elem())
		locElem[loc] = at.Elem()
		off, ln, cp = num(0), num(at.Len()), num(at.Len())
	} else {
		loc, off, ln, cp = st.sliceParts(b)
		if u, ok := in.X.Type().Underlying().(*types.Slice); ok && loc != "" {
			locElem[loc] = u.Elem()
		}
	}
	if hi == nil {
		hi = ln
	} else {
		if b := ln; p.st.f.entailLE(hi, b) { // no more than the length, which is no more than the capacity
			x.leCheck(p, hi, b, in.Pos(), "slice high bound")
		} else {
			x.leCheck(p, hi, cp, in.Pos(), "slice high bound")
		}
	}
	if mx == nil {
		mx = cp
	} else {
		x.leCheck(p, mx, cp, in.Pos(), "slice max bound")
		x.leCheck(p, hi, mx, in.Pos(), "slice high bound")
	}
	x.leCheck(p, lo, hi, in.Pos(), "slice low bound")
	x.leCheck(p, num(0), lo, in.Pos(), "slice low bound sign")
	if loc == "" {
		p.env[in] = tNil
		return nil
	}
	p.env[in] = sliceOf(loc, add(off, lo), subT(hi, lo), subT(mx, lo))
	return nil
}

func (x *Exec) alloc(p *Path, n *Term, site string) {
	f := p.st.f
	ok := f.ub(n) <= 1<<30+1<<16
	if !ok { // or in proportion to data that is there already
		seen := map[*Term]bool{}
		try := func(t *Term) {
			walk(t, func(a *Term) bool {
				if !ok && !seen[a] && (a.Op == "len" || a.Op == "sym" && strings.HasPrefix(a.S, "len:")) {
					seen[a] = true
					ok = f.proveLE0(addK(subT(n, scale(a, 4)), -4096))
				}
				return !ok
			})
		}
		try(n)
		for _, c := range f.lin {
			try(c)
		}
	}
	x.ob("alloc", site, ok, fmt.Sprintf("allocation of %s bytes is not bounded by a checked limit", short(n)))
}

// ---------- operators ----------

func (x *Exec) binop(p *Path, in *ssa.BinOp) (*Term, []*Path) {
	a, b := x.val(p, in.X), x.val(p, in.Y)
	t := in.X.Type()
	switch in.Op {
	case token.EQL, token.NEQ:
		c := x.equal(p.st, a, b, t)
		if in.Op == token.NEQ {
			c = not(c)
		}
		return c, nil
	}
	if isStr(t) {
		switch in.Op {
		case token.ADD:
			return cat(a, b), nil
		case token.LSS, token.GTR, token.LEQ, token.GEQ:
			c := app("bcmp", a, b)
			setRange(c, -1, 1)
			switch in.Op {
			case token.LSS:
				return mkLT(c, num(0)), nil
			case token.GTR:
				return mkLT(num(0), c), nil
			case token.LEQ:
				return mkLE(c, num(0)), nil
			default:
				return mkLE(num(0), c), nil
			}
		}
	}
	if isInt(t) {
		switch in.Op {
		case token.LSS:
			return mkLT(a, b), nil
		case token.GTR:
			return mkLT(b, a), nil
		case token.LEQ:
			return mkLE(a, b), nil
		case token.GEQ:
			return mkLE(b, a), nil
		}
		return x.arith(p.st, in.Op, a, b, in.Type(), p, in.Pos()), nil
	}
	return appS("binop", in.Op.String(), a, b), nil
}

func (x *Exec) equal(st *State, a, b *Term, t types.Type) *Term {
	switch {
	case isInt(t):
		return eq0(subT(a, b))
	case isStr(t):
		return beqS(a, b)
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if u.Info()&types.IsBoolean != 0 || u.Kind() == types.UntypedNil {
			return mkEq(a, b)
		}
		return mkEq(a, b)
	case *types.Array:
		if isByte(u.Elem()) {
			return beq(a, b)
		}
		return mkEq(a, b)
	case *types.Slice, *types.Map, *types.Signature, *types.Pointer, *types.Interface, *types.Chan:
		if a.Op == "nil" {
			a, b = b, a
		}
		if b.Op == "nil" {
			if a.Op == "nil" {
				return tTrue
			}
			return app("isnil", a)
		}
		if a == b {
			return tTrue
		}
		if distinct(st.f, a, b) {
			return tFalse
		}
		return mkEq(a, b)
	}
	return mkEq(a, b)
}

// string equality, split at known lengths when one side is a constant
func beqS(a, b *Term) *Term { return beq(a, b) }

func (x *Exec) arith(st *State, op token.Token, a, b *Term, t types.Type, p *Path, pos token.Pos) *Term {
	f := st.f
	tn := basicName(t)
	ca, oka := a.isConst()
	cb, okb := b.isConst()
	lo, hi := typeRange(tn)
	wrap := func(r *Term) *Term {
		if lo <= -inf && hi >= inf {
			return r
		}
		if f.entailLE(num(lo), r) && (hi >= inf || f.entailLE(r, num(hi))) {
			return r
		}
		if hi >= inf { // unsigned 64 bit: only underflow matters here
			return setRange(appS("wrap", tn, r), 0, inf)
		}
		return appS("wrap", tn, r)
	}
	switch op {
	case token.ADD:
		return wrap(add(a, b))
	case token.SUB:
		return wrap(subT(a, b))
	case token.MUL:
		if oka {
			return wrap(scale(b, ca))
		}
		if okb {
			return wrap(scale(a, cb))
		}
		if a.id > b.id {
			a, b = b, a
		}
		return wrap(app("mul", a, b))
	case token.QUO, token.REM:
		if x.rec && x.opts.bounds && !okb {
			x.ob("div", x.at(pos), f.eval(eq0(b)) == 0, "division by "+short(b)+" which may be 0")
		}
		if oka && okb && cb != 0 {
			if op == token.QUO {
				return num(ca / cb)
			}
			return num(ca % cb)
		}
		if okb && cb == 1 {
			if op == token.QUO {
				return a
			}
			return num(0)
		}
		name := "quo"
		if op == token.REM {
			name = "rem"
			if okb && cb > 0 && isPow2(cb) && f.entailLE(num(0), a) {
				return x.maskLow(st, a, log2(cb), tn)
			}
		} else if okb && cb > 0 && isPow2(cb) && f.entailLE(num(0), a) {
			return x.shr(st, a, log2(cb), tn)
		}
		r := app(name, a, b)
		if okb && cb > 0 && f.entailLE(num(0), a) {
			if name == "rem" {
				setRange(r, 0, cb-1)
			} else {
				u := f.ub(a)
				if _, seen := ranges[r]; !seen && u < inf {
					f.addLin(addK(r, -(u / cb)))
				}
				f.addLin(scale(r, -1))
			}
		}
		if oka && name == "quo" && ca >= 0 && f.entailLE(num(1), b) {
			f.addLin(scale(r, -1))
			f.addLin(addK(r, -ca))
			lb := f.lb(b)
			if lb > 0 {
				f.addLin(addK(r, -(ca / lb)))
			}
		}
		return r
	case token.SHL:
		if okb && cb >= 0 && cb < 63 {
			return wrap(scale(a, int64(1)<<uint(cb)))
		}
		return wrap(app("shl", a, b))
	case token.SHR:
		if okb && f.entailLE(num(0), a) {
			return x.shr(st, a, int(cb), tn)
		}
		return app("shr", a, b)
	case token.AND:
		if oka && !okb {
			a, b, ca, cb, oka, okb = b, a, cb, ca, okb, oka
		}
		if oka && okb {
			return num(ca & cb)
		}
		if okb {
			return x.andConst(st, a, cb, tn)
		}
		if a.id > b.id {
			a, b = b, a
		}
		return app("and", a, b)
	case token.AND_NOT:
		if okb {
			if oka {
				return num(ca &^ cb)
			}
			return subT(a, x.andConst(st, a, cb, tn))
		}
		return app("andnot", a, b)
	case token.OR:
		if oka && okb {
			return num(ca | cb)
		}
		if oka {
			a, b, ca, cb, oka, okb = b, a, cb, ca, okb, oka
		}
		if okb && cb == 0 {
			return a
		}
		if r := x.disjointOr(st, a, b); r != nil {
			return r
		}
		if a.id > b.id && !okb {
			a, b = b, a
		}
		return app("or", a, b)
	case token.XOR:
		if oka && okb {
			return num(ca ^ cb)
		}
		return app("xor", a, b)
	}
	return appS("binop", op.String(), a, b)
}

func isPow2(n int64) bool { return n > 0 && n&(n-1) == 0 }
func log2(n int64) int {
	k := 0
	for n > 1 {
		n >>= 1
		k++
	}
	return k
}

func width(tn string) int {
	switch tn {
	case "uint8", "byte", "int8":
		return 8
	case "uint16", "int16":
		return 16
	case "uint32", "int32":
		return 32
	}
	return 64
}

// number of value bits of a nonnegative term
func (x *Exec) bitsOf(st *State, a *Term) int {
	u := st.f.ub(a)
	r := 64
	for k := 0; k < 62; k++ {
		if u < int64(1)<<uint(k) {
			r = k
			break
		}
	}
	if _, as, _ := linView(a); len(as) > 1 || r > 32 { // the relations may tell more
		for _, k := range []int{8, 16, 31, 32} {
			if k < r && st.f.entailLE(a, num(int64(1)<<uint(k)-1)) {
				return k
			}
		}
	}
	return r
}

// bit k of a as a 0/1 integer; top bit of a value of exactly k+1 bits is
// shared by all ways to ask for it
func bitOf(a *Term, k int) *Term {
	if c, ok := a.isConst(); ok {
		return num(c >> uint(k) & 1)
	}
	// low bits of a linear form: a = sum, strip multiples of 2^(k+1)
	return app("b2i", intern(Term{Op: "bit", N: int64(k), A: []*Term{a}}))
}

func (x *Exec) shr(st *State, a *Term, k int, tn string) *Term {
	if c, ok := a.isConst(); ok {
		return num(c >> uint(k))
	}
	if x.bitsOf(st, a) <= k {
		return num(0)
	}
	if x.bitsOf(st, a) == k+1 {
		return bitOf(a, k)
	}
	// (c*2^k*y) >> k
	if n, as, cs := linView(a); k < 62 {
		d := int64(1) << uint(k)
		okd := n%d == 0
		for _, c := range cs {
			if c%d != 0 {
				okd = false
			}
		}
		if okd && len(as) > 0 && a.Op == "lin" {
			m := map[*Term]int64{}
			for i, y := range as {
				m[y] = cs[i] / d
			}
			return mkLin(n/d, m)
		}
	}
	r := app("shr", a, num(int64(k)))
	if lo, _ := atomBounds(r); lo < 0 {
		st.f.addLin(scale(r, -1)) // a is not negative
	}
	return r
}

func (x *Exec) maskLow(st *State, a *Term, k int, tn string) *Term {
	if c, ok := a.isConst(); ok {
		return num(c & (int64(1)<<uint(k) - 1))
	}
	nb := x.bitsOf(st, a)
	if nb <= k {
		return a
	}
	if _, as, _ := linView(a); len(as) > 1 && k < 62 && st.f.entailLE(a, num(int64(1)<<uint(k)-1)) {
		return a
	}
	if nb == k+1 {
		if st.f.entailLE(num(int64(1)<<uint(k)), a) { // the top bit is set
			return addK(a, -(int64(1) << uint(k)))
		}
		return subT(a, scale(bitOf(a, k), int64(1)<<uint(k)))
	}
	return setRange(app("and", a, num(int64(1)<<uint(k)-1)), 0, int64(1)<<uint(k)-1)
}

func (x *Exec) andConst(st *State, a *Term, c int64, tn string) *Term {
	if c == 0 {
		return num(0)
	}
	if !st.f.entailLE(num(0), a) {
		return app("and", a, num(c))
	}
	if isPow2(c + 1) {
		return x.maskLow(st, a, log2(c+1), tn)
	}
	if isPow2(c) {
		if k := log2(c); k < 62 {
			if x.opts.exact && st.f.entailLE(a, num(c-1)) {
				return num(0)
			}
			if x.bitsOf(st, a) == k+1 && st.f.entailLE(num(c), a) {
				return num(c)
			}
		}
		return scale(bitOf(a, log2(c)), c)
	}
	// high mask: a &^ low
	w := width(tn)
	if w < 64 {
		full := int64(1)<<uint(w) - 1
		low := full &^ c
		if low == 0 {
			return a
		}
		if isPow2(low + 1) {
			return subT(a, x.maskLow(st, a, log2(low+1), tn))
		}
	}
	return app("and", a, num(c))
}

func (x *Exec) disjointOr(st *State, a, b *Term) *Term {
	for i := 0; i < 2; i++ {
		k := x.trailing(st, a)
		if k > 0 && st.f.entailLE(num(0), b) && x.bitsOf(st, b) <= k && st.f.entailLE(num(0), a) {
			return joinBytes(joinGroups(add(a, b)))
		}
		a, b = b, a
	}
	// setting a bit that is known to be clear
	for i := 0; i < 2; i++ {
		if c, ok := b.isConst(); ok && isPow2(c) && x.bitsOf(st, a) <= log2(c) && st.f.entailLE(num(0), a) {
			return add(a, b)
		}
		a, b = b, a
	}
	return nil
}

// number of trailing zero bits of a linear form
func (x *Exec) trailing(st *State, a *Term) int {
	n, _, cs := linView(a)
	k := 62
	tz := func(c int64) int {
		if c == 0 {
			return 62
		}
		i := 0
		for c&1 == 0 {
			c >>= 1
			i++
		}
		return i
	}
	if a.Op != "lin" {
		return 0
	}
	for _, c := range cs {
		if t := tz(c); t < k {
			k = t
		}
	}
	if t := tz(n); t < k {
		k = t
	}
	return k
}

// joinBytes recognises b[0]<<24|b[1]<<16|b[2]<<8|b[3]
func joinBytes(t *Term) *Term {
	n, as, cs := linView(t)
	if n != 0 {
		return t
	}
	w := len(as)
	if w != 2 && w != 4 && w != 8 {
		return t
	}
	parts := make([]*Term, w)
	le := make([]*Term, w)
	for i, a := range as {
		c := cs[i]
		if a.Op != "at" || !isPow2(c) || log2(c)%8 != 0 || log2(c)/8 >= w {
			return t
		}
		parts[w-1-log2(c)/8] = a
		le[log2(c)/8] = a
	}
	for _, q := range parts {
		if q == nil {
			return t
		}
	}
	seqOK := func(ps []*Term) *Term {
		b := ps[0].A[0]
		o := ps[0].A[1]
		for i, q := range ps {
			if q.A[0] != b || q.A[1] != addK(o, int64(i)) {
				return nil
			}
		}
		return rawSub(b, o, addK(o, int64(w)))
	}
	if s := seqOK(parts); s != nil {
		return beget(w, s)
	}
	if s := seqOK(le); s != nil {
		return intern(Term{Op: "leget", N: int64(w), A: []*Term{s}})
	}
	return t
}

func (x *Exec) unop(fr *Frame, p *Path, in *ssa.UnOp) []*Path {
	v := x.val(p, in.X)
	switch in.Op {
	case token.MUL: // load
		x.nilCheck(p, v, in.Pos(), "load")
		if v.Op == "nil" {
			return []*Path{}
		}
		p.env[in] = x.loadFrom(p.st, v, in.Type())
	case token.NOT:
		p.env[in] = not(v)
	case token.SUB:
		if isInt(in.Type()) {
			p.env[in] = x.arith(p.st, token.SUB, num(0), v, in.Type(), p, in.Pos())
		} else {
			p.env[in] = app("neg", v)
		}
	case token.XOR:
		if c, ok := v.isConst(); ok {
			w := width(basicName(in.Type()))
			r := ^c
			if w < 64 && strings.HasPrefix(basicName(in.Type()), "u") {
				r &= int64(1)<<uint(w) - 1
			}
			p.env[in] = num(r)
		} else {
			p.env[in] = app("compl", v)
		}
	case token.ARROW:
		x.giveUp("channel receive")
		p.env[in] = makeSym(p.st, in.Type(), freshName("recv"))
	}
	return nil
}

func (x *Exec) convert(p *Path, v *Term, from, to types.Type, fr *Frame, in ssa.Value) *Term {
	st := p.st
	switch {
	case isInt(from) && isInt(to):
		lo, hi := typeRange(basicName(to))
		if c, ok := v.isConst(); ok {
			w := width(basicName(to))
			if w < 64 {
				m := c & (int64(1)<<uint(w) - 1)
				if !strings.HasPrefix(basicName(to), "u") && basicName(to) != "byte" && m >= int64(1)<<uint(w-1) {
					m -= int64(1) << uint(w)
				}
				return num(m)
			}
			return v
		}
		if (lo <= -inf || st.f.entailLE(num(lo), v)) && (hi >= inf || st.f.entailLE(v, num(hi))) {
			return v
		}
		w := width(basicName(to))
		if w < 64 && st.f.entailLE(num(0), v) {
			if w == 8 { // a byte of a wider value
				if v.Op == "shr" {
					if k, ok := v.A[1].isConst(); ok && k%8 == 0 {
						return setRange(intern(Term{Op: "byteof", N: k / 8, A: []*Term{v.A[0]}}), 0, 255)
					}
				}
				return setRange(intern(Term{Op: "byteof", N: 0, A: []*Term{v}}), 0, 255)
			}
			return setRange(app("trunc", v, num(int64(w))), 0, int64(1)<<uint(w)-1)
		}
		if hi >= inf {
			return setRange(appS("wrap", basicName(to), v), lo, hi)
		}
		return appS("wrap", basicName(to), v)
	case isStr(from) && isByteSlice(to):
		n := st.newObj("o:"+fr.ctx+"/"+fr.fn.Name()+"."+in.Name(), "local", nil)
		l := blen(v)
		st.heap[n+"|"] = v
		return sliceOf(n+"|", num(0), l, l)
	case isByteSlice(from) && isStr(to):
		return st.bytesOf(v)
	case isStr(to) && isInt(from):
		return app("runestr", v)
	case isStr(from) && isStr(to):
		return v
	}
	if _, ok := to.Underlying().(*types.Basic); ok && !isStr(to) {
		return appS("convert", tname(to), v)
	}
	if isStr(to) || isSliceT(to) {
		return makeSym(st, to, fmt.Sprintf("conv%d", v.id))
	}
	return v
}

// ---------- maps, ranges, assertions ----------

func (s *State) mapUpdate(m, k, v *Term) {
	if m.Op != "map" {
		return
	}
	c := s.heap[m.S+"|"]
	exact := c != nil && c.Op == "mapc" && c.S == "" && constKey(k)
	for i := 0; exact && i < len(c.A); i += 2 {
		exact = constKey(c.A[i])
	}
	if !exact {
		s.heap[m.S+"|"] = intern(Term{Op: "mapc", S: "unknown", A: []*Term{fresh("map")}})
		return
	}
	as := append([]*Term(nil), c.A...)
	for i := 0; i < len(as); i += 2 {
		if as[i] == k {
			as[i+1] = v
			s.heap[m.S+"|"] = intern(Term{Op: "mapc", S: c.S, A: as})
			return
		}
	}
	as = append(as, k, v)
	s.heap[m.S+"|"] = intern(Term{Op: "mapc", S: c.S, A: as})
}

// constKey: keys that are equal only if they are the same term
func constKey(k *Term) bool {
	_, ok := k.isConst()
	return ok || k.Op == "bytes" || k == tEmpty || k.Op == "iface" && len(k.A) > 0 && constKey(k.A[len(k.A)-1])
}

func (x *Exec) lookup(p *Path, in *ssa.Lookup) []*Path {
	st := p.st
	m := x.val(p, in.X)
	k := x.val(p, in.Index)
	if isStr(in.X.Type()) {
		x.boundsCheck(p, k, blen(m), in.Pos(), "index")
		p.env[in] = x.elemOf(st, m, k, types.Typ[types.Uint8])
		return nil
	}
	mt := in.X.Type().Underlying().(*types.Map)
	ret := func(p *Path, v *Term, ok *Term) {
		if in.CommaOk {
			p.env[in] = app("tuple", v, ok)
		} else {
			p.env[in] = v
		}
	}
	if m.Op == "nil" {
		ret(p, zeroOf(mt.Elem()), tFalse)
		return nil
	}
	if m.Op == "psym" && strings.HasPrefix(m.S, "abbrev") && x.opts.cli {
		if x.opts.cmd == "" {
			ret(p, zeroOf(mt.Elem()), tFalse)
		} else {
			ret(p, bconst(x.opts.cmd), tTrue)
		}
		return nil
	}
	if m.Op == "map" {
		c := st.heap[m.S+"|"]
		if c != nil && c.Op == "mapc" && c.S == "" {
			var outs []*Path
			rest := p
			for i := 0; i < len(c.A); i += 2 {
				eq := x.equal(rest.st, c.A[i], k, mt.Key())
				switch rest.st.f.eval(eq) {
				case 1:
					ret(rest, c.A[i+1], tTrue)
					return append(outs, rest)
				case 0:
					continue
				}
				q := rest.clone()
				if q.st.f.assume(eq, true) {
					ret(q, c.A[i+1], tTrue)
					outs = append(outs, q)
				}
				if !rest.st.f.assume(eq, false) {
					return outs
				}
			}
			ret(rest, zeroOf(mt.Elem()), tFalse)
			return append(outs, rest)
		}
	}
	var content *Term = m
	if m.Op == "map" && st.heap[m.S+"|"] != nil {
		content = st.heap[m.S+"|"]
	}
	base := app("lookup", content, k)
	v := makeSym(st, mt.Elem(), fmt.Sprintf("lookup%d", base.id))
	symOrigin[fmt.Sprintf("lookup%d", base.id)] = base
	okb := intern(Term{Op: "bool", S: fmt.Sprintf("has%d", base.id)})
	if in.CommaOk {
		q := p.clone()
		var outs []*Path
		if q.st.f.assume(okb, true) {
			ret(q, v, tTrue)
			outs = append(outs, q)
		}
		if p.st.f.assume(okb, false) {
			ret(p, zeroOf(mt.Elem()), tFalse)
			outs = append(outs, p)
		}
		return outs
	}
	ret(p, v, okb)
	return nil
}

var symOrigin = map[string]*Term{}

// iterators: heap cell "it" object with position
func (x *Exec) mkRange(p *Path, fr *Frame, in *ssa.Range) *Term {
	v := x.val(p, in.X)
	n := p.st.newObj("o:"+fr.ctx+"/"+fr.fn.Name()+"."+in.Name(), "iter", nil)
	if isStr(in.X.Type()) {
		p.st.heap[n+"|pos"] = num(0)
		p.st.heap[n+"|str"] = v
	} else {
		p.st.heap[n+"|pos"] = num(0)
		p.st.heap[n+"|map"] = v
	}
	return ptrTo(n, "")
}

func (x *Exec) next(fr *Frame, p *Path, in *ssa.Next) []*Path {
	st := p.st
	it := x.val(p, in.Iter)
	obj := objOf(it.S)
	tt := in.Type().(*types.Tuple)
	if m, ok := st.heap[obj+"|map"]; ok && m.Op == "map" {
		c := st.heap[m.S+"|"]
		if c != nil && c.Op == "mapc" && c.S == "" {
			if k, ok := st.heap[obj+"|pos"].isConst(); ok {
				if int(k) >= len(c.A)/2 {
					p.env[in] = app("tuple", tFalse, zeroOf2(tt.At(1).Type()), zeroOf2(tt.At(2).Type()))
				} else {
					p.env[in] = app("tuple", tTrue, c.A[2*k], c.A[2*k+1])
					st.heap[obj+"|pos"] = num(k + 1)
				}
				return nil
			}
		}
	}
	q := p.clone()
	p.env[in] = app("tuple", tFalse, zeroOf2(tt.At(1).Type()), zeroOf2(tt.At(2).Type()))
	nm := freshName("next")
	var k, v *Term
	if in.IsString {
		k = setRange(sym(nm+".i"), 0, inf)
		v = setRange(sym(nm+".r"), 0, 0x10ffff)
		if s, ok := q.st.heap[obj+"|str"]; ok {
			q.st.f.addLin(lcomb(1, 1, k, -1, blen(s)))
		}
	} else {
		k = makeSym(q.st, anyT(tt.At(1).Type()), nm+".k")
		v = makeSym(q.st, anyT(tt.At(2).Type()), nm+".v")
	}
	q.env[in] = app("tuple", tTrue, k, v)
	return []*Path{p, q}
}

func anyT(t types.Type) types.Type {
	if b, ok := t.(*types.Basic); ok && b.Kind() == types.Invalid {
		return types.Typ[types.Int]
	}
	return t
}
func zeroOf2(t types.Type) *Term { return zeroOf(anyT(t)) }

func (x *Exec) typeAssert(p *Path, in *ssa.TypeAssert) []*Path {
	v := x.val(p, in.X)
	at := in.AssertedType
	ret := func(p *Path, v *Term, ok *Term) {
		if in.CommaOk {
			p.env[in] = app("tuple", v, ok)
		} else {
			p.env[in] = v
		}
	}
	if _, isI := at.Underlying().(*types.Interface); isI {
		if v.Op == "nil" {
			ret(p, tNil, tFalse)
			return nil
		}
		if v.Op == "iface" {
			if t := typeByName[v.S]; t != nil {
				if types.Implements(t, at.Underlying().(*types.Interface)) {
					ret(p, v, tTrue)
				} else {
					ret(p, tNil, tFalse)
				}
				return nil
			}
		}
		if !in.CommaOk {
			ret(p, v, tTrue)
			return nil
		}
		q := p.clone()
		c := intern(Term{Op: "bool", S: fmt.Sprintf("implements%d:%s", v.id, tname(at))})
		var outs []*Path
		if p.st.f.assume(c, true) {
			p.st.f.assume(app("isnil", v), false)
			ret(p, v, tTrue)
			outs = append(outs, p)
		}
		if q.st.f.assume(c, false) {
			ret(q, tNil, tFalse)
			outs = append(outs, q)
		}
		return outs
	}
	if v.Op == "iface" {
		if v.S == tname(at) {
			ret(p, v.A[0], tTrue)
		} else if in.CommaOk {
			ret(p, zeroOf(at), tFalse)
		} else {
			if x.rec && x.opts.bounds {
				x.ob("typeassert", x.at(in.Pos()), false, "type assertion fails")
			}
			return []*Path{}
		}
		return nil
	}
	u := makeSym(p.st, at, fmt.Sprintf("assert%d", v.id))
	if in.CommaOk {
		q := p.clone()
		c := intern(Term{Op: "bool", S: fmt.Sprintf("istype%d:%s", v.id, tname(at))})
		var outs []*Path
		if p.st.f.assume(c, true) {
			ret(p, u, tTrue)
			outs = append(outs, p)
		}
		if q.st.f.assume(c, false) {
			ret(q, zeroOf(at), tFalse)
			outs = append(outs, q)
		}
		return outs
	}
	if x.rec && x.opts.bounds {
		x.ob("typeassert", x.at(in.Pos()), false, "unchecked type assertion on "+short(v))
	}
	ret(p, u, tTrue)
	return nil
}

// ---------- calls ----------

func (x *Exec) callee(p *Path, c *ssa.CallCommon) (*Term, []*Term) {
	var args []*Term
	if c.IsInvoke() {
		args = append(args, x.val(p, c.Value))
		for _, a := range c.Args {
			args = append(args, x.val(p, a))
		}
		return intern(Term{Op: "invoke", S: c.Method.FullName()}), args
	}
	for _, a := range c.Args {
		args = append(args, x.val(p, a))
	}
	return x.val(p, c.Value), args
}

func (x *Exec) event(st *State) {
	if x.onEv != nil {
		x.onEv(x, st, st.log.ev)
	}
}

func (x *Exec) invoke(st *State, fr *Frame, in ssa.Instruction, c *ssa.CallCommon, fn *Term, args []*Term) []Outcome {
	site := x.at(in.Pos())
	ctx := fr.ctx + "/" + fr.fn.Name()
	if v, ok := in.(ssa.Value); ok {
		ctx += "." + v.Name()
	} else {
		ctx += "@" + site
	}
	var argT []types.Type
	if c.IsInvoke() {
		argT = append(argT, c.Value.Type())
	}
	for _, a := range c.Args {
		argT = append(argT, a.Type())
	}
	cc := &CallCtx{st: st, args: args, sig: c.Signature(), site: site, ctx: ctx, pos: in.Pos(), argT: argT}
	if b, ok := c.Value.(*ssa.Builtin); ok && !c.IsInvoke() {
		return x.builtin(cc, b.Name(), in)
	}
	if fn.Op == "invoke" {
		recv := args[0]
		if recv.Op == "nil" {
			if x.rec && x.opts.bounds {
				x.ob("nil", site, false, "method call on a nil interface")
			}
			return nil
		}
		if nilStatus(st.f, recv) == -1 {
			if x.rec && x.opts.bounds {
				x.ob("nil", site, false, "method call on an interface that may be nil: "+short(recv))
			}
			st.f.assume(app("isnil", recv), false)
		}
		if recv.Op == "iface" {
			t := typeByName[recv.S]
			if f := x.prog.LookupMethod(t, c.Method.Pkg(), c.Method.Name()); f != nil {
				args = append([]*Term{recv.A[0]}, args[1:]...)
				cc.args = args
				cc.argT[0] = t
				return x.callStatic(cc, f, nil)
			}
		}
		cc.name = "invoke:" + c.Method.Name()
		return x.callModel(cc, c.Method.FullName())
	}
	switch fn.Op {
	case "fn":
		f := fnTab[fn.S]
		if f != nil {
			return x.callStatic(cc, f, nil)
		}
	case "closure":
		f := fnTab[fn.S]
		if f != nil {
			return x.callStatic(cc, f, fn.A)
		}
	case "nil":
		if x.rec && x.opts.bounds {
			x.ob("nil", site, false, "call of a nil function")
		}
		return nil
	case "modelfn": // function value standing for a modelled function
		return x.callModel(cc, fn.S)
	}
	if nilStatus(st.f, fn) == -1 {
		if x.rec && x.opts.bounds {
			x.ob("nil", site, false, "call of a function value that may be nil: "+short(fn))
		}
		st.f.assume(app("isnil", fn), false)
	}
	return x.callModel(cc, "dyn:"+fn.String())
}

func (x *Exec) callStatic(cc *CallCtx, f *ssa.Function, binds []*Term) []Outcome {
	cc.fn = f
	name := f.RelString(nil)
	if f.Origin() != nil {
		name = f.Origin().RelString(nil)
	}
	if strings.Contains(name, "verif_") && f.Pkg != nil && x.mods[f.Pkg] {
		if m := x.model("verif:" + f.Name()); m != nil {
			cc.name = f.Name()
			return x.runModel(cc, m)
		}
	}
	if r := x.redirect(name, cc.st, cc.args); r != nil {
		f = r
	}
	contract := false
	if x.opts.cli {
		if h := contracts[name]; h != "" {
			for p := range x.mods {
				if r := p.Func(h); r != nil {
					f = r
					contract = true
				}
			}
		}
	}
	inl := f.Blocks != nil && !x.isExternal(f) && !(x.opaq != nil && x.opaq(f))
	if inl {
		if x.opts.cli {
			old := x.csite
			defer func() { x.csite = old }()
			x.csite = ""
			if contract {
				x.csite = cc.site
			}
		}
		return x.callFn(cc.st, f, cc.args, binds, shortCtx(cc.ctx))
	}
	if f.Synthetic != "" && f.Blocks != nil { // wrappers of external methods
		return x.callFn(cc.st, f, cc.args, binds, shortCtx(cc.ctx))
	}
	return x.callModel(cc, name)
}

func (x *Exec) isExternal(f *ssa.Function) bool {
	if f.Pkg != nil {
		return !x.mods[f.Pkg]
	}
	if f.Parent() != nil {
		return x.isExternal(f.Parent())
	}
	if f.Origin() != nil && f.Origin().Pkg != nil {
		return !x.mods[f.Origin().Pkg]
	}
	return true
}

func shortCtx(c string) string {
	if len(c) > 60 {
		return fmt.Sprintf("%x", shortHash(c))
	}
	return c
}

func (x *Exec) callModel(cc *CallCtx, name string) []Outcome {
	cc.name = name
	x.covCal[name] = true
	if m := x.model(name); m != nil {
		return x.runModel(cc, m)
	}
	return x.runModel(cc, defaultModel)
}

func (x *Exec) runModel(cc *CallCtx, m Model) []Outcome {
	var r []Outcome
	for _, o := range m(x, cc) {
		oc := Outcome{st: o.st, ret: o.ret, kind: o.out, site: cc.site}
		if o.out != "" {
			oc.code = o.ret
		}
		r = append(r, oc)
	}
	return r
}
