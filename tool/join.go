package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"math/bits"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------- joining disjuncts ----------
//
// join computes an upper bound of several disjuncts: locations are
// anti-unified; integer positions in which they differ are related by the
// affine hull of their values (Karr), other differing positions become
// unknowns shared between locations that agree in every disjunct.

type joined struct {
	p    *Path
	sig  string
	cand map[string]bool // relations found between the joined values
}

func sortOfOp(t *Term) byte {
	switch t.Op {
	case "lin", "sym", "fresh", "b2i", "beget", "leget", "byteof", "wrap", "trunc", "quo", "rem", "mul", "and", "or", "xor", "shr", "shl", "len", "index", "pbsize", "imu", "min", "max", "compl":
		return 'i'
	case "at":
		if t.S == "b" || t.S == "i" {
			return 'i'
		}
		return 'p'
	case "bytes", "zero", "elem", "cat", "sub", "be", "le", "hash", "hmac", "seal", "open", "rand", "raw", "x25519", "edsign", "edpub", "kdf", "upd", "clamped", "mub", "ciph", "stream", "pbenc", "sprintf", "b64", "b64dec", "pt", "instream", "errstr", "seqx", "garbage", "env", "cleanpath", "flag", "askpass", "yaml", "sprint", "homedir", "bigbytes", "exthash", "hkdf", "fmtv", "curvepk", "curvesk":
		return 's'
	}
	if isBoolTerm(t) {
		return 'b'
	}
	return 'p'
}

type joiner struct {
	n      int
	ints   [][]*Term // leaf vectors
	intIx  map[string]int
	oth    [][]*Term
	othS   []byte
	othIx  map[string]int
	cont   map[int]*Term // contents of slices among oth
	stable func(*Term) bool
	ps     []*Path
}

func vecKey(v []*Term) string {
	var b strings.Builder
	for _, t := range v {
		if t == nil {
			b.WriteString("-,")
			continue
		}
		fmt.Fprintf(&b, "%d,", t.id)
	}
	return b.String()
}

func (j *joiner) intLeaf(v []*Term) *Term {
	k := vecKey(v)
	i, ok := j.intIx[k]
	if !ok {
		i = len(j.ints)
		j.intIx[k] = i
		j.ints = append(j.ints, append([]*Term(nil), v...))
	}
	return intern(Term{Op: "hole", S: "i", N: int64(i)})
}

func (j *joiner) othLeaf(v []*Term, s byte) *Term {
	k := string(s) + vecKey(v)
	i, ok := j.othIx[k]
	if !ok {
		i = len(j.oth)
		j.othIx[k] = i
		j.oth = append(j.oth, append([]*Term(nil), v...))
		j.othS = append(j.othS, s)
	}
	h := intern(Term{Op: "hole", S: "o", N: int64(i)})
	if s == 's' {
		var lens []*Term
		for _, t := range v {
			lens = append(lens, blen(t))
		}
		l := j.anti(lens, 'i')
		return intern(Term{Op: "hole", S: "s", N: int64(i), A: []*Term{l}})
	}
	if s != 'b' && !ok && j.isSlices(v) {
		cs := make([]*Term, len(v))
		for k, t := range v {
			cs[k] = j.ps[k].st.bytesOf(t)
		}
		if j.cont == nil {
			j.cont = map[int]*Term{}
		}
		j.cont[i] = nil // cut recursion
		c := j.anti(cs, 's')
		j.cont[i] = c
	}
	return h
}

// isSlices: all values are slices with a content of their own.
func (j *joiner) isSlices(v []*Term) bool {
	n := 0
	for k, t := range v {
		switch t.Op {
		case "nil":
		case "slice":
			n++
		case "mu":
			if o := j.ps[k].st.objs[fmt.Sprintf("@%d", t.id)]; o == nil || o.kind != "sym" {
				return false
			}
			n++
		default:
			return false
		}
	}
	return n > 0
}

// nonNilElems: no element of the sequence is a nil pointer.
func nonNilElems(f *Facts, t *Term) bool {
	if t.Op == "sub" {
		return nonNilElems(f, t.A[0])
	}
	for _, p := range flat(t) {
		switch p.Op {
		case "elem":
			if nilStatus(f, p.A[0]) != 0 {
				return false
			}
		case "raw", "mub":
			if !strings_HasPrefix(p.S, "nn:") {
				return false
			}
		case "sub":
			if !nonNilElems(f, p) {
				return false
			}
		default:
			return false
		}
	}
	return true
}

func (j *joiner) allSame(v []*Term) bool {
	for _, t := range v[1:] {
		if t != v[0] {
			return false
		}
	}
	return true
}

func (j *joiner) anti(v []*Term, s byte) *Term {
	if j.allSame(v) && j.stable(v[0]) {
		return v[0]
	}
	if s == 0 {
		s = sortOfOp(v[0])
		for _, t := range v {
			if sortOfOp(t) != s {
				s = 'p'
				break
			}
		}
	}
	if s == 'i' {
		return j.intLeaf(v)
	}
	if s == 'b' {
		return j.othLeaf(v, 'b')
	}
	if s == 's' && (!sameShape(v) || v[0].Op == "cat") {
		if r := j.antiCat(v); r != nil {
			return r
		}
	}
	return j.antiStruct(v, s)
}

func sameShape(v []*Term) bool {
	t0 := v[0]
	same := len(t0.A) > 0 && t0.Op != "mub" && t0.Op != "mu" && t0.Op != "raw" && t0.Op != "fresh"
	for _, t := range v {
		if t.Op != t0.Op || t.S != t0.S || t.N != t0.N || len(t.A) != len(t0.A) {
			same = false
		}
	}
	return same
}

// antiStruct joins terms of the same shape part by part; others become an
// unknown.
func (j *joiner) antiStruct(v []*Term, s byte) *Term {
	if !sameShape(v) {
		return j.othLeaf(v, s)
	}
	t0 := v[0]
	as := make([]*Term, len(t0.A))
	for i := range t0.A {
		col := make([]*Term, len(v))
		for k, t := range v {
			col[k] = t.A[i]
		}
		as[i] = j.anti(col, j.argSort(t0, i))
	}
	return intern(Term{Op: t0.Op, S: t0.S, N: t0.N, A: as, C: t0.C})
}

func (j *joiner) argSort(t *Term, i int) byte {
	switch t.Op {
	case "slice":
		return 'i'
	case "sub":
		if i > 0 {
			return 'i'
		}
		return 's'
	case "zero", "be", "le":
		return 'i'
	case "cat", "hash":
		return 's'
	case "rand":
		return 'i'
	case "pt", "instream":
		return 0
	case "eptr":
		if i == 0 {
			return 'i'
		}
	}
	return 0
}

// antiCat aligns concatenations: a common fixed prefix, then windows of the
// same source, then zeros; the remainder is one unknown sequence. Equal
// remainders of different locations become the same unknown.
func (j *joiner) antiCat(v []*Term) *Term {
	lists := make([][]*Term, len(v))
	for i, t := range v {
		switch {
		case t.Op == "cat":
			lists[i] = t.A
		case t == tEmpty:
		default:
			lists[i] = []*Term{t}
		}
	}
	var parts []*Term
	for {
		if len(lists[0]) == 0 {
			break
		}
		h := lists[0][0]
		ok := j.stable(h)
		for _, l := range lists {
			if len(l) == 0 || l[0] != h {
				ok = false
			}
		}
		if !ok {
			break
		}
		parts = append(parts, h)
		for i := range lists {
			lists[i] = lists[i][1:]
		}
	}
	for round := 0; round < 3; round++ {
		var base *Term
		for i := len(lists) - 1; i >= 0 && base == nil; i-- {
			if l := lists[i]; len(l) > 0 && l[0].Op == "sub" && streamBase(l[0].A[0]) {
				base = l[0].A[0]
			}
		}
		if base != nil {
			los := make([]*Term, len(v))
			his := make([]*Term, len(v))
			has := make([]bool, len(v))
			var ref *Term
			for i, l := range lists {
				if len(l) > 0 && l[0].Op == "sub" && l[0].A[0] == base {
					los[i], his[i], has[i] = l[0].A[1], l[0].A[2], true
					ref = los[i]
				}
			}
			for i := range lists {
				if has[i] && los[i] == ref {
					continue
				}
				p := j.posOf(base, i)
				if !has[i] && p != ref && i < len(j.ps) && j.ps[i].st.f.entailEq(p, ref) {
					p = ref
				}
				if !has[i] || p == ref {
					los[i], his[i], has[i] = p, p, false
				}
			}
			for i := range lists {
				if has[i] {
					lists[i] = lists[i][1:]
				}
			}
			parts = append(parts, intern(Term{Op: "sub", A: []*Term{base, j.anti(los, 'i'), j.anti(his, 'i')}}))
			continue
		}
		z, any := true, false
		for _, l := range lists {
			if len(l) > 0 {
				any = true
				if l[0].Op != "zero" {
					z = false
				}
			}
		}
		if !any || !z {
			break
		}
		ns := make([]*Term, len(v))
		for i, l := range lists {
			ns[i] = num(0)
			if len(l) > 0 {
				ns[i] = l[0].A[0]
				lists[i] = l[1:]
			}
		}
		parts = append(parts, intern(Term{Op: "zero", A: []*Term{j.anti(ns, 'i')}}))
	}
	// a common fixed end
	var tail []*Term
	for {
		ok := true
		for _, l := range lists {
			if len(l) == 0 || l[len(l)-1] != lists[0][len(lists[0])-1] {
				ok = false
				break
			}
		}
		if !ok || !j.stable(lists[0][len(lists[0])-1]) {
			if t := j.antiLast(lists); t != nil {
				tail = append([]*Term{t}, tail...)
				goto strip
			}
			break
		}
		tail = append([]*Term{lists[0][len(lists[0])-1]}, tail...)
	strip:
		for i := range lists {
			lists[i] = lists[i][:len(lists[i])-1]
		}
	}
	if len(parts) == 0 && len(tail) == 0 {
		return nil
	}
	rest := make([]*Term, len(v))
	any := false
	for i, l := range lists {
		rest[i] = cat(l...)
		if rest[i] != tEmpty {
			any = true
		}
	}
	if any {
		if j.allSame(rest) && j.stable(rest[0]) {
			parts = append(parts, rest[0])
		} else {
			parts = append(parts, flat(j.antiStruct(rest, 's'))...)
		}
	}
	parts = append(parts, tail...)
	if len(parts) == 1 {
		return parts[0]
	}
	return intern(Term{Op: "cat", A: parts})
}

// antiLast joins the last elements of all sequences if they are outputs of the
// same primitive of the same length.
func (j *joiner) antiLast(lists [][]*Term) *Term {
	v := make([]*Term, len(lists))
	for i, l := range lists {
		if len(l) == 0 {
			return nil
		}
		v[i] = l[len(l)-1]
		switch v[i].Op {
		case "edsign", "hash", "hmac":
		default:
			return nil
		}
		if v[i].Op != v[0].Op || v[i].S != v[0].S || len(v[i].A) != len(v[0].A) {
			return nil
		}
	}
	return j.anti(v, 's')
}

func streamBase(t *Term) bool { return t.Op == "instream" || t.Op == "pt" || t.Op == "hkdf" }

// posOf is the position of a source in disjunct i
func (j *joiner) posOf(base *Term, i int) *Term {
	if i < len(j.ps) {
		switch base.Op {
		case "instream":
			return j.ps[i].st.get(base.S, "pos", num(0))
		case "pt":
			return j.ps[i].st.get(base.S, "npt", num(0))
		}
	}
	return num(0)
}

// fixed replaces the constants in a column by the value of another path that
// they are known to equal.
func (j *joiner) fixed(fs []*Facts) {
	for i, v := range j.ints {
		seen := map[*Term]bool{}
		for _, t := range v {
			if _, ok := t.isConst(); ok || seen[t] || !j.stable(t) {
				continue
			}
			seen[t] = true
			all := true
			for k, f := range fs {
				if _, c := v[k].isConst(); v[k] != t && (!c || !f.entailEq(v[k], t)) {
					all = false
					break
				}
			}
			if all {
				for k := range v {
					j.ints[i][k] = t
				}
				break
			}
		}
	}
}

// joinLocs lists the heap locations that take part.
func (x *Exec) joinLocs(ps []*Path) []string {
	m := map[string]bool{}
	for _, p := range ps {
		for k := range p.st.heap {
			m[k] = true
		}
	}
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

// join merges paths; watermark separates terms that denote fixed values
// (id <= watermark) from values of the current loop iteration.
func (x *Exec) join(ps []*Path, live []ssa.Value, watermark int, mus map[*Term]bool) joined {
	x.nJoin++
	stableMemo := map[*Term]bool{}
	var stable func(t *Term) bool
	stable = func(t *Term) bool {
		if t.id <= watermark {
			return true
		}
		if r, ok := stableMemo[t]; ok {
			return r
		}
		r := true
		if len(t.A) == 0 {
			switch t.Op {
			case "fresh", "mu", "imu", "mub", "err", "raw", "sym", "bool", "isym", "psym", "fsym", "ptr":
				r = false
			}
			if t.Op == "ptr" {
				r = true
			}
		} else {
			switch t.Op {
			case "mub":
				r = false
			default:
				for _, a := range t.A {
					if !stable(a) {
						r = false
						break
					}
				}
				if r && (t.Op == "raw") {
					r = t.id <= watermark
				}
			}
		}
		stableMemo[t] = r
		return r
	}
	if mus == nil { // plain merge: every atom is a fixed value
		stable = func(t *Term) bool { return true }
	}
	j := &joiner{n: len(ps), intIx: map[string]int{}, othIx: map[string]int{}, stable: stable, ps: ps}

	type slot struct {
		loc string
		v   ssa.Value
		t   *Term
	}
	var slots []slot
	for _, k := range x.joinLocs(ps) {
		if o := opaqueOf[objOf(k)]; mus != nil && o != nil && o.Op == "mu" && !stable(o) {
			continue // no joined value mentions it
		}
		vec := make([]*Term, len(ps))
		ok := true
		for i, p := range ps {
			t, has := p.st.heap[k]
			if !has {
				o := objOf(k)
				lt, ht := locType[k]
				if p.st.objs[o] == nil && p.st.kind(k) == "" || !ht {
					ok = false
					break
				}
				t = p.st.load(k, lt)
			}
			vec[i] = t
		}
		if !ok {
			continue
		}
		s := byte(0)
		if lt, has := locType[k]; has {
			s = sortOfType(lt)
		}
		if s == 'p' {
			s = 0
		}
		slots = append(slots, slot{loc: k, t: j.anti(vec, s)})
	}
	for _, v := range live {
		vec := make([]*Term, len(ps))
		ok := true
		for i, p := range ps {
			t, has := p.env[v]
			if !has {
				ok = false
				break
			}
			vec[i] = t
		}
		if !ok {
			continue
		}
		s := sortOfType(v.Type())
		if s == 'p' {
			s = 0
		}
		slots = append(slots, slot{v: v, t: j.anti(vec, s)})
	}
	// drop trailing: defers must agree
	nd := len(ps[0].defers)
	for _, p := range ps {
		if len(p.defers) != nd {
			x.giveUp("join of different defer stacks")
			if len(p.defers) < nd {
				nd = len(p.defers)
			}
		}
	}

	// integer leaves: affine hull
	fs := make([]*Facts, len(ps))
	for i, p := range ps {
		fs[i] = p.st.f
	}
	j.fixed(fs)
	ivals, rank, rel := karr(j.ints, stable)

	// other leaves
	ovals := make([]*Term, len(j.oth))
	for i, s := range j.othS {
		switch s {
		case 'b':
			ovals[i] = intern(Term{Op: "bool", S: freshName("mu")})
		case 's':
			nn := "nn:"
			for k, t := range j.oth[i] {
				if !nonNilElems(fs[k], t) {
					nn = ""
					break
				}
			}
			ovals[i] = intern(Term{Op: "mu", S: nn + freshName("mu")})
		default:
			ovals[i] = intern(Term{Op: "mu", S: freshName("mu")})
		}
	}

	for i := range ovals {
		muFrom(ovals[i].S, j.oth[i])
	}
	for i := range ivals {
		if ivals[i].Op == "imu" {
			muFrom(ivals[i].S, j.ints[i])
		}
	}

	var inst func(t *Term) *Term
	memo := map[*Term]*Term{}
	inst = func(t *Term) *Term {
		return mapTerm(t, memo, func(t *Term) *Term {
			if t.Op != "hole" {
				return nil
			}
			switch t.S {
			case "i":
				return ivals[t.N]
			case "o":
				return ovals[t.N]
			case "s":
				return intern(Term{Op: "mub", S: ovals[t.N].S, A: []*Term{tUnit, inst(t.A[0])}})
			}
			return nil
		})
	}

	st := newState()
	for _, p := range ps {
		for k, o := range p.st.objs {
			if _, ok := st.objs[k]; !ok {
				st.objs[k] = o
			}
		}
	}
	np := &Path{st: st, env: map[ssa.Value]*Term{}, pred: ps[0].pred}
	np.defers = append([]deferred(nil), ps[0].defers[:nd]...)
	var sb strings.Builder
	ren := map[*Term]string{}
	canon := func(t *Term) string { return canonStr(t, ren, stable) }
	for _, s := range slots {
		v := inst(s.t)
		if s.v != nil {
			np.env[s.v] = v
			fmt.Fprintf(&sb, "%s=%s;", s.v.Name(), canon(s.t))
		} else {
			st.heap[s.loc] = v
			fmt.Fprintf(&sb, "%s=%s;", s.loc, canon(s.t))
		}
	}
	var oc []int
	for i, c := range j.cont {
		if c != nil {
			oc = append(oc, i)
		}
	}
	sort.Ints(oc)
	for _, i := range oc {
		c := inst(j.cont[i])
		n := fmt.Sprintf("@%d", ovals[i].id)
		if c.Op == "mub" && (c.A[1].Op == "imu" || c.A[1].Op == "mu") && !stable(c) {
			c = intern(Term{Op: "mub", S: c.S, A: []*Term{c.A[0], setRange(app("len", ovals[i]), 0, inf)}})
		}
		st.objs[n] = &Obj{name: n, kind: "sym"}
		opaqueOf[n] = ovals[i]
		st.heap[n+"|"] = c
		fmt.Fprintf(&sb, "c%d=%s;", i, canon(j.cont[i]))
	}
	// env values that are not live are dropped, but keep parameters common to all
	for v, t := range ps[0].env {
		if _, ok := np.env[v]; ok {
			continue
		}
		same := true
		for _, p := range ps[1:] {
			if p.env[v] != t {
				same = false
				break
			}
		}
		if same && stable(t) {
			np.env[v] = t
		}
	}

	// facts
	f := fs[0]
	if len(fs) > 1 {
		f = fs[0].clone()
		for _, g := range fs[1:] {
			f = intersectFacts(f, g)
		}
	}
	nf := newFacts()
	if mus == nil {
		nf = f
	} else {
		for c, v := range f.truth {
			if stable(c) {
				nf.truth[c] = v
			}
		}
		for _, c := range f.lin {
			if stable(c) {
				nf.addLin(c)
			}
		}
	}
	st.f = nf
	for _, i := range oc {
		l := setRange(app("len", ovals[i]), 0, inf)
		c := blen(st.heap[fmt.Sprintf("@%d|", ovals[i].id)])
		nf.addLin(subT(l, c))
		nf.addLin(subT(c, l))
	}
	// candidate facts on leaves
	var cand []string
	tryLE := func(desc string, get func(i int) *Term, res *Term) {
		if _, ok := res.isConst(); ok {
			return
		}
		if x.candLimit != nil && !x.candLimit[desc] {
			return
		}
		for i := range ps {
			if !fs[i].proveLE0(get(i)) {
				if debugLE && mus != nil {
					fmt.Fprintf(os.Stderr, "  NOT %s at leaf %d of %d: %v\n", desc, i, len(ps), get(i))
				}
				return
			}
		}
		if !nf.has[normLin(res)] {
			nf.addLin(res)
		}
		cand = append(cand, desc)
	}
	consts := map[int64]bool{0: true, 1: true}
	nl := len(j.ints)
	for i := 0; i < nl; i++ {
		for _, t := range j.ints[i] {
			if c, ok := t.isConst(); ok && len(consts) < 12 {
				consts[c] = true
			}
		}
	}
	// buffers next to changing counters
	var sib []*Term
	if x.opts.partInts && mus != nil {
		own := map[string]bool{}
		for _, s := range slots {
			if s.v == nil && s.t.Op == "hole" && s.t.S == "i" && !strings.Contains(s.loc, "|$") {
				own[objOf(s.loc)] = true
			}
		}
		seen := map[*Term]bool{}
		for _, s := range slots {
			if s.v == nil && own[objOf(s.loc)] && s.t.Op == "slice" {
				if c, ok := s.t.A[2].isConst(); ok {
					consts[c] = true
				} else if l := s.t.A[2]; stable(l) && !seen[l] && len(sib) < 6 {
					seen[l] = true
					sib = append(sib, l)
				}
			}
		}
	}
	var cl []int64
	for c := range consts {
		cl = append(cl, c)
	}
	sort.Slice(cl, func(a, b int) bool { return cl[a] < cl[b] })
	// stable int terms worth comparing with
	var params []*Term
	if nl > 0 {
		params = append(x.interesting(ps, live, stable), sib...)
		if debugLE {
			fmt.Fprintf(os.Stderr, "  PARAMS %v LIVE %v\n", params, live)
		}
	}
	for i := 0; i < nl; i++ {
		i := i
		// from the declared type range
		lo, hi := int64(inf), int64(-inf)
		for k := range ps {
			l, h := fs[k].lb(j.ints[i][k]), fs[k].ub(j.ints[i][k])
			if l < lo {
				lo = l
			}
			if h > hi {
				hi = h
			}
		}
		if mus == nil {
			if lo > -inf {
				nf.addLin(subT(num(lo), ivals[i]))
			}
			if hi < inf {
				nf.addLin(subT(ivals[i], num(hi)))
			}
		}
		for _, c := range cl {
			c := c
			if lo >= c || c == 0 || c == 1 {
				tryLE(fmt.Sprintf("%d>=%d", i, c), func(k int) *Term { return subT(num(c), j.ints[i][k]) }, subT(num(c), ivals[i]))
			}
			if hi <= c {
				tryLE(fmt.Sprintf("%d<=%d", i, c), func(k int) *Term { return subT(j.ints[i][k], num(c)) }, subT(ivals[i], num(c)))
			}
		}
		if _, ok := j.ints[i][0].isConst(); !ok && mus != nil {
			// what was known of it in the previous round
			if c := fs[0].lb(j.ints[i][0]); c > -inf && !consts[c] {
				tryLE(fmt.Sprintf("%d>=%d", i, c), func(k int) *Term { return subT(num(c), j.ints[i][k]) }, subT(num(c), ivals[i]))
			}
		}
		for _, c := range []int64{255, 1<<16 - 1, 1<<32 - 1, 1 << 30, 1 << 31} {
			c := c
			if hi <= c {
				tryLE(fmt.Sprintf("%d<=%d", i, c), func(k int) *Term { return subT(j.ints[i][k], num(c)) }, subT(ivals[i], num(c)))
			}
		}
		for _, q := range params {
			q := q
			for d := int64(0); d <= 1; d++ {
				d := d
				tryLE(fmt.Sprintf("%d+%d<=t%d", i, d, q.id), func(k int) *Term { return addK(subT(j.ints[i][k], q), d) }, addK(subT(ivals[i], q), d))
				tryLE(fmt.Sprintf("%d>=t%d+%d", i, q.id, d), func(k int) *Term { return addK(subT(q, j.ints[i][k]), d) }, addK(subT(q, ivals[i]), d))
			}
		}
		if nl <= 30 {
			for m := 0; m < nl; m++ {
				if m == i {
					continue
				}
				m := m
				for d := int64(0); d <= 1; d++ {
					d := d
					tryLE(fmt.Sprintf("%d+%d<=%d'", i, d, m), func(k int) *Term { return addK(subT(j.ints[i][k], j.ints[m][k]), d) }, addK(subT(ivals[i], ivals[m]), d))
				}
			}
		}
	}
	for i := range j.oth {
		if j.othS[i] == 's' {
			continue
		}
		if j.othS[i] == 'b' {
			continue
		}
		s := -2
		for k := range ps {
			v := nilStatus(fs[k], j.oth[i][k])
			if s == -2 {
				s = v
			} else if s != v {
				s = -1
			}
		}
		if s == 0 || s == 1 {
			nf.truth[app("isnil", ovals[i])] = s == 1
			cand = append(cand, fmt.Sprintf("nil%d=%d", i, s))
		}
	}
	sort.Strings(cand)
	fmt.Fprintf(&sb, "|rank=%d,ints=%d,%s|%s", rank, nl, rel, strings.Join(cand, ","))
	if debugLoc != "" && mus != nil {
		fmt.Fprintf(os.Stderr, "JOINLOC %d\n", len(ps))
		for _, s := range slots {
			if s.v == nil && strings.Contains(s.loc, debugLoc) {
				for _, p := range ps {
					fmt.Fprintf(os.Stderr, "   %s < %.1500v\n", s.loc, p.st.heap[s.loc])
				}
				fmt.Fprintf(os.Stderr, "   %s = %.1500v\n", s.loc, st.heap[s.loc])
			}
		}
	}
	if debugJoin {
		fmt.Fprintf(os.Stderr, "JOIN of %d: ints=%d rank=%d oth=%d\n", len(ps), nl, rank, len(j.oth))
		for i, v := range j.ints {
			fmt.Fprintf(os.Stderr, "  int %d: %v -> %s\n", i, v, ivals[i])
		}
		for i, v := range j.oth {
			fmt.Fprintf(os.Stderr, "  oth %d: %.200v -> %s\n", i, v, ovals[i])
		}
		fmt.Fprintf(os.Stderr, "  cand %v\n", cand)
	}

	// log
	base := ps[0].st.log
	for _, p := range ps[1:] {
		base = commonPrefix(base, p.st.log)
	}
	if x.opts.cli {
		st.log = alignLogs(base, ps)
	} else {
		st.log = base
		seen := map[string]bool{}
		for _, p := range ps {
			evs := p.st.log.since(base)
			for i := len(evs) - 1; i >= 0; i-- {
				e := evs[i]
				k := e.key()
				if seen[k] {
					continue
				}
				seen[k] = true
				e2 := *e
				e2.may = true
				st.log = st.log.add(&e2)
			}
		}
	}
	cm := map[string]bool{}
	for _, c := range cand {
		cm[c] = true
	}
	return joined{np, sb.String(), cm}
}

var debugLE = os.Getenv("DEBUGLE") != ""
var debugLoc = os.Getenv("DEBUGLOC")
var debugJoin = os.Getenv("DEBUGJOIN") != ""

func sortOfType(t types.Type) byte {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return 'i'
		case u.Info()&types.IsBoolean != 0:
			return 'b'
		case u.Info()&types.IsString != 0:
			return 's'
		}
	case *types.Array:
		return 's'
	}
	return 'p'
}

// interesting: stable integer terms (lengths, bounds) occurring in live values
// and facts.
func (x *Exec) interesting(ps []*Path, live []ssa.Value, stable func(*Term) bool) []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	limit := 0
	add1 := func(t *Term) {
		if _, ok := t.isConst(); ok || seen[t] || !stable(t) || len(r) >= limit {
			return
		}
		seen[t] = true
		r = append(r, t)
	}
	p := ps[0]
	limit = 10
	for _, v := range live {
		if t := p.env[v]; t != nil && t.Op == "slice" {
			add1(t.A[1])
			add1(t.A[2])
		}
	}
	limit = 20
	for _, v := range live {
		t := p.env[v]
		if t == nil {
			continue
		}
		switch t.Op {
		case "slice":
		case "lin", "sym", "len":
			add1(t)
		default:
			if isStr(v.Type()) {
				add1(blen(t))
			} else if isInt(v.Type()) {
				add1(t)
			}
		}
	}
	for _, c := range p.st.f.lin {
		_, as, _ := linView(c)
		for _, a := range as {
			if len(as) <= 3 && (a.Op == "len" || strings.HasPrefix(a.S, "len(")) {
				add1(a)
			}
		}
	}
	return r
}

// canonical string with unstable unknowns renamed by first occurrence
func canonStr(t *Term, ren map[*Term]string, stable func(*Term) bool) string {
	if stable(t) {
		return fmt.Sprintf("#%d", t.id)
	}
	switch t.Op {
	case "imu", "mu", "bool", "fresh", "sym", "err", "isym", "psym":
		if len(t.A) == 0 || t.Op == "isym" {
			if _, ok := ren[t]; !ok {
				ren[t] = fmt.Sprintf("?%d", len(ren))
			}
			return ren[t]
		}
	case "mub":
		k := intern(Term{Op: "mub", S: t.S})
		if _, ok := ren[k]; !ok {
			ren[k] = fmt.Sprintf("?%d", len(ren))
		}
		return ren[k] + "L" + canonStr(t.A[1], ren, stable)
	}
	var b strings.Builder
	b.WriteString(t.Op + ":" + t.S)
	fmt.Fprintf(&b, "%d(", t.N)
	for i, a := range t.A {
		if t.C != nil {
			fmt.Fprintf(&b, "%d*", t.C[i])
		}
		b.WriteString(canonStr(a, ren, stable))
		b.WriteByte(',')
	}
	b.WriteByte(')')
	return b.String()
}

// karr computes a parametrisation of the affine hull of the leaf vectors.
// Atoms for which stable() holds may appear in the relations as constants.
func karr(in [][]*Term, stable func(*Term) bool) (vals []*Term, rank int, rel string) {
	// the simplest leaves first: the others are expressed by them
	cost := make([]int, len(in))
	ord := make([]int, len(in))
	for i, l := range in {
		ord[i] = i
		for _, t := range l {
			_, as, cs := linView(t)
			for x, a := range as {
				cost[i] += 2
				if stable(a) {
					cost[i]++
				}
				cost[i] += bits.Len64(uint64(abs64(cs[x]))) / 2
			}
		}
	}
	sort.SliceStable(ord, func(a, b int) bool { return cost[ord[a]] < cost[ord[b]] })
	leaves := make([][]*Term, len(in))
	for i, o := range ord {
		leaves[i] = in[o]
	}
	v, rank, rows, params := affineHull(leaves, stable)
	vals = make([]*Term, len(in))
	for i, o := range ord {
		vals[o] = v[i]
	}
	return vals, rank, relString(rows, ord, params)
}

// relString is a canonical description of the relations between the leaves:
// the reduced row echelon form over leaves and parameters in a fixed order.
func relString(rows [][]*big.Rat, ord []int, params []*Term) string {
	k, np := len(ord), len(params)
	po := make([]int, np)
	for i := range po {
		po[i] = i
	}
	sort.Slice(po, func(a, b int) bool { return params[po[a]].id < params[po[b]].id })
	col := make([]int, k+np+1) // position -> column of the rows
	for i, o := range ord {
		col[o] = i
	}
	for i, p := range po {
		col[k+i] = k + p
	}
	col[k+np] = k + np
	r := 0
	t := new(big.Rat)
	var sb strings.Builder
	for _, c := range col {
		p := -1
		for i := r; i < len(rows); i++ {
			if rows[i][c].Sign() != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		rows[r], rows[p] = rows[p], rows[r]
		inv := new(big.Rat).Inv(rows[r][c])
		for q := range rows[r] {
			rows[r][q].Mul(rows[r][q], inv)
		}
		for i := range rows {
			if i != r && rows[i][c].Sign() != 0 {
				f := new(big.Rat).Set(rows[i][c])
				for q := range rows[i] {
					if rows[r][q].Sign() != 0 {
						rows[i][q].Sub(rows[i][q], t.Mul(f, rows[r][q]))
					}
				}
			}
		}
		r++
	}
	for _, row := range rows[:r] {
		for i, c := range col {
			if row[c].Sign() == 0 {
				continue
			}
			id := i
			if i >= k && i < k+np {
				id = -params[po[i-k]].id
			}
			fmt.Fprintf(&sb, "%s*%d,", row[c].RatString(), id)
		}
		sb.WriteByte(';')
	}
	return sb.String()
}

func affineHull(leaves [][]*Term, stable func(*Term) bool) (vals []*Term, rank int, rel [][]*big.Rat, params []*Term) {
	k := len(leaves)
	vals = make([]*Term, k)
	if k == 0 {
		return vals, 0, nil, nil
	}
	ns := len(leaves[0])
	// parameters
	pix := map[*Term]int{}
	for s := 0; s < ns; s++ {
		for i := 0; i < k; i++ {
			_, as, _ := linView(leaves[i][s])
			for _, a := range as {
				if stable(a) {
					if _, ok := pix[a]; !ok {
						pix[a] = len(params)
						params = append(params, a)
					}
				}
			}
		}
	}
	np := len(params)
	nc := k + np + 1
	var rows [][]*big.Rat
	zero := func() []*big.Rat {
		r := make([]*big.Rat, nc)
		for i := range r {
			r[i] = new(big.Rat)
		}
		return r
	}
	for s := 0; s < ns; s++ {
		byAtom := map[*Term][]*big.Rat{}
		var order []*Term
		prow := make([][]*big.Rat, np)
		for q := range prow {
			prow[q] = zero()
			prow[q][k+q].SetInt64(1)
		}
		crow := zero()
		crow[k+np].SetInt64(1)
		for i := 0; i < k; i++ {
			n, as, cs := linView(leaves[i][s])
			crow[i].SetInt64(n)
			for x, a := range as {
				if q, ok := pix[a]; ok {
					prow[q][i].SetInt64(cs[x])
					continue
				}
				r := byAtom[a]
				if r == nil {
					r = zero()
					byAtom[a] = r
					order = append(order, a)
				}
				r[i].SetInt64(cs[x])
			}
		}
		rows = append(rows, crow)
		rows = append(rows, prow...)
		for _, a := range order {
			rows = append(rows, byAtom[a])
		}
	}
	ns2 := nullspace(rows, nc)
	// ns2: basis of relations (c, d, c0). Gauss over the c columns, from the
	// last column so that later leaves are expressed by earlier ones.
	m := ns2
	rel = make([][]*big.Rat, len(m))
	for r := range m {
		rel[r] = make([]*big.Rat, nc)
		for q := range m[r] {
			rel[r][q] = new(big.Rat).Set(m[r][q])
		}
	}
	pivotRow, ok := eliminate(m, k)
	if !ok {
		ref := make([][]int64, k)
		for i := range ref {
			ref[i] = make([]int64, np+1)
			n, as, cs := linView(leaves[i][0])
			ref[i][np] = n
			for x, a := range as {
				if q, ok := pix[a]; ok {
					ref[i][q] = cs[x]
				}
			}
		}
		if vals, rank = lattice(m, k, ref, params); vals != nil {
			return vals, rank, rel, params
		}
		// keep what can be kept
		vals, rank = make([]*Term, k), 0
		for c := k - 1; c >= 0; c-- {
			r, ok := pivotRow[c]
			for q := 0; ok && q < nc; q++ {
				if !m[r][q].IsInt() || !m[r][q].Num().IsInt64() {
					delete(pivotRow, c)
					break
				}
			}
		}
	}
	for i := 0; i < k; i++ {
		if _, ok := pivotRow[i]; !ok {
			vals[i] = intern(Term{Op: "imu", S: freshName("mu")})
			rank++
		}
	}
	for i := 0; i < k; i++ {
		r, ok := pivotRow[i]
		if !ok {
			continue
		}
		mm := map[*Term]int64{}
		var n int64
		for q := 0; q < k; q++ {
			if q == i || m[r][q].Sign() == 0 {
				continue
			}
			n += addScaled(mm, vals[q], -m[r][q].Num().Int64())
		}
		for q := 0; q < np; q++ {
			if m[r][k+q].Sign() != 0 {
				n += addScaled(mm, params[q], -m[r][k+q].Num().Int64())
			}
		}
		n -= m[r][k+np].Num().Int64()
		vals[i] = mkLin(n, mm)
	}
	return vals, rank, rel, params
}

// eliminate brings the relations m over the first k columns into reduced
// form and returns the pivots; ok means that all coefficients are integers.
func eliminate(m [][]*big.Rat, k int) (map[int]int, bool) {
	pivotRow := map[int]int{}
	used := make([]bool, len(m))
	pivot := func(pr, c int) {
		inv := new(big.Rat).Inv(m[pr][c])
		for q := range m[pr] {
			m[pr][q].Mul(m[pr][q], inv)
		}
		t := new(big.Rat)
		for r := range m {
			if r != pr && m[r][c].Sign() != 0 {
				f := new(big.Rat).Set(m[r][c])
				for q := range m[r] {
					t.Mul(f, m[pr][q])
					m[r][q].Sub(m[r][q], t)
				}
			}
		}
	}
	for c := k - 1; c >= 0; c-- {
		for r := range m {
			if !used[r] && m[r][c].Sign() != 0 {
				used[r] = true
				pivotRow[c] = r
				pivot(r, c)
				break
			}
		}
	}
	for _, r := range pivotRow {
		for q := range m[r] {
			if !m[r][q].IsInt() || !m[r][q].Num().IsInt64() {
				return pivotRow, false
			}
		}
	}
	return pivotRow, true
}

// lattice parametrises the integer points of the affine hull: the leaves
// are ref + basis*mu, with ref and the directions dirs the vectors of the
// joined paths. Unlike the reduced form it needs no leaf to be free, so it
// keeps relations like position = 20*records + bytes + header. It returns
// nil when numbers get out of range.
func lattice(rel [][]*big.Rat, k int, ref [][]int64, params []*Term) (vals []*Term, rank int) {
	// integer kernel of the relations by unimodular column operations
	h := make([][]*big.Int, len(rel))
	for r := range rel {
		primitive(rel[r])
		h[r] = make([]*big.Int, k)
		for i := 0; i < k; i++ {
			if !rel[r][i].IsInt() {
				return nil, 0
			}
			h[r][i] = new(big.Int).Set(rel[r][i].Num())
		}
	}
	u := make([][]*big.Int, k) // columns of the transformation
	for i := range u {
		u[i] = make([]*big.Int, k)
		for q := range u[i] {
			u[i][q] = new(big.Int)
		}
		u[i][i].SetInt64(1)
	}
	cols := make([]int, k)
	for i := range cols {
		cols[i] = i
	}
	q, t := new(big.Int), new(big.Int)
	for r := range h {
		for {
			// the smallest entry reduces the others
			p := -1
			more := false
			for _, c := range cols {
				if h[r][c].Sign() == 0 {
					continue
				}
				if p >= 0 {
					more = true
				}
				if p < 0 || h[r][c].CmpAbs(h[r][p]) < 0 {
					p = c
				}
			}
			if p < 0 {
				break
			}
			if !more {
				for i, c := range cols {
					if c == p {
						cols = append(cols[:i:i], cols[i+1:]...)
						break
					}
				}
				break
			}
			for _, c := range cols {
				if c == p || h[r][c].Sign() == 0 {
					continue
				}
				q.Quo(h[r][c], h[r][p])
				for rr := range h {
					h[rr][c].Sub(h[rr][c], t.Mul(q, h[rr][p]))
				}
				for i := range u[c] {
					u[c][i].Sub(u[c][i], t.Mul(q, u[p][i]))
				}
			}
		}
	}
	// echelon form over the leaves, in their order
	base := make([][]*big.Int, len(cols))
	for i, c := range cols {
		base[i] = u[c]
	}
	np := len(params)
	rv := make([][]*big.Int, k) // ref: constant and coefficients of params
	for i := range rv {
		rv[i] = make([]*big.Int, np+1)
		for x := range rv[i] {
			rv[i][x] = big.NewInt(ref[i][x])
		}
	}
	done := 0
	for i := 0; i < k && done < len(base); i++ {
		for {
			p := -1
			more := false
			for c := done; c < len(base); c++ {
				if base[c][i].Sign() == 0 {
					continue
				}
				if p >= 0 {
					more = true
				}
				if p < 0 || base[c][i].CmpAbs(base[p][i]) < 0 {
					p = c
				}
			}
			if p < 0 {
				break
			}
			if more {
				for c := done; c < len(base); c++ {
					if c == p || base[c][i].Sign() == 0 {
						continue
					}
					q.Quo(base[c][i], base[p][i])
					for x := range base[c] {
						base[c][x].Sub(base[c][x], t.Mul(q, base[p][x]))
					}
				}
				continue
			}
			base[done], base[p] = base[p], base[done]
			v := base[done]
			if v[i].Sign() < 0 {
				for x := range v {
					v[x].Neg(v[x])
				}
			}
			for c := 0; c < done; c++ {
				q.Div(base[c][i], v[i])
				for x := range base[c] {
					base[c][x].Sub(base[c][x], t.Mul(q, v[x]))
				}
			}
			for y := 0; y <= np; y++ {
				qq := new(big.Int).Div(rv[i][y], v[i])
				for x := range v {
					rv[x][y].Sub(rv[x][y], t.Mul(qq, v[x]))
				}
			}
			done++
			break
		}
	}
	mus := make([]*Term, len(base))
	for c := range mus {
		mus[c] = intern(Term{Op: "imu", S: freshName("mu")})
	}
	vals = make([]*Term, k)
	for i := range vals {
		mm := map[*Term]int64{}
		if !rv[i][np].IsInt64() {
			return nil, 0
		}
		n := rv[i][np].Int64()
		for x, a := range params {
			if !rv[i][x].IsInt64() {
				return nil, 0
			}
			if rv[i][x].Sign() != 0 {
				n += addScaled(mm, a, rv[i][x].Int64())
			}
		}
		for c := range base {
			if !base[c][i].IsInt64() {
				return nil, 0
			}
			if base[c][i].Sign() != 0 {
				n += addScaled(mm, mus[c], base[c][i].Int64())
			}
		}
		vals[i] = mkLin(n, mm)
	}
	return vals, len(base)
}

// primitive scales a relation to integers without a common factor.
func primitive(r []*big.Rat) {
	l := big.NewInt(1)
	g := new(big.Int)
	for _, x := range r {
		if x.Sign() != 0 {
			d := x.Denom()
			t := new(big.Int).GCD(nil, nil, l, d)
			l.Mul(l, new(big.Int).Div(d, t))
		}
	}
	for _, x := range r {
		if x.Sign() != 0 {
			n := new(big.Int).Mul(x.Num(), new(big.Int).Div(l, x.Denom()))
			g.GCD(nil, nil, g, n.Abs(n))
		}
	}
	if g.Sign() == 0 {
		return
	}
	f := new(big.Rat).SetFrac(l, g)
	if f.Cmp(big.NewRat(1, 1)) != 0 {
		for _, x := range r {
			x.Mul(x, f)
		}
	}
}

func nullspace(rows [][]*big.Rat, nc int) [][]*big.Rat {
	// row reduce
	piv := []int{}
	r := 0
	for c := 0; c < nc && r < len(rows); c++ {
		p := -1
		for i := r; i < len(rows); i++ {
			if rows[i][c].Sign() != 0 {
				p = i
				break
			}
		}
		if p < 0 {
			continue
		}
		rows[r], rows[p] = rows[p], rows[r]
		inv := new(big.Rat).Inv(rows[r][c])
		for q := c; q < nc; q++ {
			rows[r][q].Mul(rows[r][q], inv)
		}
		for i := range rows {
			if i != r && rows[i][c].Sign() != 0 {
				f := new(big.Rat).Set(rows[i][c])
				for q := c; q < nc; q++ {
					if rows[r][q].Sign() != 0 {
						t := new(big.Rat).Mul(f, rows[r][q])
						rows[i][q].Sub(rows[i][q], t)
					}
				}
			}
		}
		piv = append(piv, c)
		r++
	}
	isP := map[int]int{}
	for i, c := range piv {
		isP[c] = i
	}
	var out [][]*big.Rat
	for c := 0; c < nc; c++ {
		if _, ok := isP[c]; ok {
			continue
		}
		v := make([]*big.Rat, nc)
		for q := range v {
			v[q] = new(big.Rat)
		}
		v[c].SetInt64(1)
		for pc, i := range isP {
			v[pc].Neg(rows[i][c])
		}
		out = append(out, v)
	}
	return out
}

// ---------- loops ----------

// partKey partitions disjuncts by what is known about booleans and nil-ness.
// deferKey names what a path deferred.
func deferKey(p *Path) string {
	var b strings.Builder
	for _, d := range p.defers {
		fmt.Fprintf(&b, "D%d", d.fn.id)
		for _, a := range d.args {
			fmt.Fprintf(&b, ".%d", a.id)
		}
	}
	return b.String()
}

// keepKey names the steps that keep paths apart.
func (x *Exec) keepKey(p *Path) string {
	if x.opts.keep == "" {
		return ""
	}
	var b strings.Builder
	b.WriteByte('/')
	for _, e := range p.st.log.list() {
		if !e.may && strings.Contains(x.opts.keep, ","+e.kind+",") {
			b.WriteString(e.key())
			for _, a := range e.args {
				fmt.Fprintf(&b, ",%d", a.id)
			}
		}
	}
	b.WriteString(x.keepOpts(p))
	return b.String()
}

// mergeKept joins the paths that took the same steps of those kept apart.
func (x *Exec) mergeKept(ps []*Path, live []ssa.Value) []*Path {
	key := func(p *Path) string {
		var b strings.Builder
		b.WriteString(deferKey(p))
		b.WriteString(x.keepKey(p))
		for _, v := range live {
			if t := p.env[v]; t != nil {
				if k, ok := t.isConst(); ok {
					fmt.Fprintf(&b, "=%s:%d", v.Name(), k)
				}
			}
		}
		return b.String()
	}
	by := map[string][]*Path{}
	var ks []string
	for _, p := range ps {
		k := key(p)
		if by[k] == nil {
			ks = append(ks, k)
		}
		by[k] = append(by[k], p)
	}
	var r []*Path
	for _, k := range ks {
		if len(by[k]) == 1 {
			r = append(r, by[k][0])
			continue
		}
		r = append(r, x.join(by[k], live, termCount, nil).p)
	}
	return r
}

// keepOpts tells what is known about the options that keep paths apart.
func (x *Exec) keepOpts(p *Path) string {
	if !strings.Contains(x.opts.keep, "?") {
		return ""
	}
	var b strings.Builder
	for _, k := range strings.Split(x.opts.keep, ",") {
		if strings.HasPrefix(k, "?") {
			fmt.Fprintf(&b, "?%d", p.st.f.eval(flagBool(k[1:])))
		}
	}
	return b.String()
}

func (x *Exec) partKey(p *Path, live []ssa.Value, only map[string]bool) string {
	var b strings.Builder
	ch := func(t *Term) byte {
		switch sortOfOp(t) {
		case 'b':
			switch p.st.f.eval(t) {
			case 1:
				return 'T'
			case 0:
				return 'F'
			}
			return '?'
		case 'p':
			switch nilStatus(p.st.f, t) {
			case 1:
				return 'N'
			case 0:
				return 'P'
			}
			return 'p'
		}
		return '.'
	}
	for _, v := range live {
		if t, ok := p.env[v]; ok {
			s := sortOfType(v.Type())
			if s == 'b' || s == 'p' {
				if t.Op == "slice" {
					b.WriteByte('.')
					continue
				}
				b.WriteByte(ch(t))
			}
		} else {
			b.WriteByte('-')
		}
	}
	b.WriteString(deferKey(p))
	b.WriteByte('/')
	ks := make([]string, 0, len(p.st.heap))
	for k := range p.st.heap {
		if only == nil || only[k] {
			ks = append(ks, k)
		}
	}
	sort.Strings(ks)
	for _, k := range ks {
		c := ch(p.st.heap[k])
		if c != '.' {
			if p.st.heap[k].Op == "slice" {
				continue
			}
			b.WriteString(k)
			b.WriteByte(c)
		}
	}
	return b.String()
}

// intKey tells counters at zero from others, and fields that were set first
// in the loop from those still unset.
func (x *Exec) intKey(p *Path, objs, old map[string]bool) string {
	var ks []string
	for k, t := range p.st.heap {
		if !objs[objOf(k)] || strings.Contains(k, "|$") {
			continue
		}
		switch sortOfOp(t) {
		case 'i':
			if p.st.f.eval(eq0(t)) == 0 {
				ks = append(ks, k)
			}
		case 'p':
			if !old[k] && t.Op != "slice" {
				if s := nilStatus(p.st.f, t); s != 1 {
					ks = append(ks, fmt.Sprint(k, s))
				}
			}
		case 'b':
			if !old[k] {
				if s := p.st.f.eval(t); s != 0 {
					ks = append(ks, fmt.Sprint(k, s))
				}
			}
		}
	}
	sort.Strings(ks)
	return strings.Join(ks, " ")
}

type head struct {
	key     string
	p       *Path
	sig     string
	n       int
	widened bool
	unroll  int
	rounds  int
	cand    map[string]bool
}

const maxUnroll = 80

func (x *Exec) solveLoop(fr *Frame, l *loopInfo, ins []*Path) (exits []edgePaths, outs []Outcome) {
	if x.opts.exact {
		cur := ins
		for n := 0; len(cur) > 0; n++ {
			if n > maxUnroll || len(cur) > 64*len(ins)+64 || x.steps > 1500000 {
				x.giveUp("loop at " + x.at(blockPos(l.header)) + " does not end")
				return
			}
			ex, backs, os := x.runRegion(fr, l, l.header, clonePaths(cur))
			outs = append(outs, os...)
			exits = mergeExits(exits, ex)
			cur = backs
		}
		return
	}
	if len(ins) > 1 && len(ins) <= 6 && x.smallLoop(fr, l) {
		// cheap loops are solved for each way of entering them
		for _, p := range ins {
			ex, os := x.solveLoop(fr, l, []*Path{p})
			exits = mergeExits(exits, ex)
			outs = append(outs, os...)
		}
		return exits, outs
	}
	watermark := termCount
	x.loopsN++
	live := fr.fi.live[l.header]
	entryLocs := map[string]bool{}
	entryObjs := map[string]bool{}
	for _, p := range ins {
		for k := range p.st.heap {
			entryLocs[k] = true
		}
		for k := range p.st.objs {
			entryObjs[k] = true
		}
	}
	saveRec := x.rec
	defer func() { x.rec = saveRec }()

	// Fully unrollable loops (constant trip count) are unrolled.
	var todo []*Path
	if !x.opts.noUnroll && x.decidable(fr, l, ins) {
		cur := ins
		for n := 0; n <= maxUnroll && len(cur) > 0; n++ {
			if !x.decidable(fr, l, cur) {
				break
			}
			ex, backs, os := x.runRegion(fr, l, l.header, clonePaths(cur))
			outs = append(outs, os...)
			exits = mergeExits(exits, ex)
			cur = nil
			if len(backs) > 1 {
				backs = x.dedupe(fr, l.header, backs)
			}
			cur = backs
			limit := 40
			if x.opts.cli && x.opts.keep != "" {
				limit = 400
				if len(cur) > 40 {
					cur = x.mergeKept(cur, live)
				}
			}
			if len(cur) > limit {
				break
			}
		}
		if len(cur) == 0 {
			return
		}
		todo = cur
		// objects made while unrolling count as existing before the loop
		for _, p := range todo {
			for k := range p.st.heap {
				entryLocs[k] = true
			}
			for k := range p.st.objs {
				entryObjs[k] = true
			}
		}
		watermark = termCount
	} else {
		todo = ins
	}

	if !x.opts.noUnroll && len(l.blocks) <= 14 && !x.hasInner(fr, l) {
		if ex, os, ok := x.peel(fr, l, todo); ok {
			return mergeExits(exits, ex), append(outs, os...)
		}
	}

	x.rec = false
	heads := map[string]*head{}
	var order []*head
	summary := map[string]*Event{}
	var sumBase *LogNode
	coarse := false
	keyOf := func(p *Path) string {
		if coarse {
			return deferKey(p) + x.keepKey(p)
		}
		k := x.partKey(p, live, entryLocs)
		if x.opts.cli && p.st.log != nil { // each way through the options by itself
			k += "/" + p.st.log.hash
		}
		if x.opts.partInts {
			k += "/" + x.intKey(p, entryObjs, entryLocs)
		}
		return k
	}
	setLog := func(p *Path, base *LogNode) {
		p.st.log = base
		var ks []string
		for k := range summary {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		for _, k := range ks {
			p.st.log = p.st.log.add(summary[k])
		}
	}
	groups := map[string][]*Path{}
	var gk []string
	for _, p := range todo {
		k := keyOf(p)
		if groups[k] == nil {
			gk = append(gk, k)
		}
		groups[k] = append(groups[k], p)
	}
	bases := map[string]*LogNode{}
	for _, k := range gk {
		h := &head{key: k}
		if len(groups[k]) == 1 {
			h.p = groups[k][0]
		} else {
			h.p = x.join(groups[k], live, watermark, nil).p
		}
		bases[k] = h.p.st.log
		heads[k] = h
		order = append(order, h)
	}
	watermark = termCount // what the entry joins made is fixed for the loop
	if len(order) > 0 {
		sumBase = order[0].p.st.log
		for _, h := range order[1:] {
			sumBase = commonPrefix(sumBase, h.p.st.log)
		}
	}
	_ = sumBase
	entries := len(order)
	maxHeads := 24
	if x.opts.cli { // many combinations of options, small loops
		maxHeads += 3 * entries
	}
	work := append([]*head(nil), order...)
	total := 0
	sumN := -1
	for {
		for len(work) > 0 {
			h := work[0]
			work = work[1:]
			total++
			if total > 120+10*entries {
				x.giveUp("loop at " + x.at(blockPos(l.header)) + " does not converge")
				break
			}
			hp := h.p.clone()
			startLog := hp.st.log
			_, backs, _ := x.runRegion(fr, l, l.header, []*Path{hp})
			by := map[string][]*Path{}
			var ks []string
			backs, _ = x.split(fr, l, backs)
			for _, b := range backs {
				for _, e := range b.st.log.since(startLog) {
					k := e.key()
					if summary[k] == nil {
						e2 := *e
						e2.may = true
						summary[k] = &e2
					}
				}
				b.st.log = startLog
				if x.opts.partInts {
					// registers set outside the loop keep their values
					for _, v := range live {
						if ins, ok := v.(ssa.Instruction); ok && l.blocks[ins.Block()] {
							continue
						}
						if t := h.p.env[v]; t != nil && b.env[v] != nil {
							b.env[v] = t
						}
					}
				}
				x.gc(b, live, entryObjs)
				k := keyOf(b)
				if by[k] == nil {
					ks = append(ks, k)
				}
				by[k] = append(by[k], b)
			}
			for _, k := range ks {
				t := heads[k]
				if t == nil {
					if len(order) >= maxHeads {
						coarse = true
						k2 := order[0]
						t = k2
					} else {
						t = &head{key: k}
						bs := by[k]
						if len(bs) > 1 {
							bs = x.dedupe(fr, l.header, bs)
						}
						if len(bs) == 1 {
							t.p = bs[0]
						} else {
							j := x.join(bs, live, watermark, map[*Term]bool{})
							t.p = j.p
							t.sig = j.sig
						}
						bases[k] = bases[h.key]
						heads[k] = t
						order = append(order, t)
						work = append(work, t)
						continue
					}
				}
				bs := by[k]
				if len(bs) > 1 {
					bs = x.dedupe(fr, l.header, bs)
				}
				if t.rounds >= 5 { // from here on relations are only given up
					x.candLimit = t.cand
				}
				j := x.join(append([]*Path{t.p}, bs...), live, watermark, map[*Term]bool{})
				x.candLimit = nil
				if j.sig != t.sig {
					if debugJoin || debugLoc != "" {
						fmt.Fprintf(os.Stderr, "LOOP %s round %d key %q\nOLD %s\nNEW %s\n", x.at(blockPos(l.header)), t.rounds, k, t.sig, j.sig)
					}
					t.rounds++
					t.sig = j.sig
					t.cand = j.cand
					j.p.st.log = bases[t.key]
					t.p = j.p
					t.widened = true
					if t.rounds > 25 {
						x.giveUp("loop at " + x.at(blockPos(l.header)) + " does not stabilise")
						continue
					}
					inW := false
					for _, w := range work {
						if w == t {
							inW = true
						}
					}
					if !inW {
						work = append(work, t)
					}
				}
			}
		}
		if len(summary) == sumN {
			break
		}
		sumN = len(summary)
		break
	}
	// final pass: record and collect exits
	x.rec = saveRec
	for _, h := range order {
		hp := h.p.clone()
		setLog(hp, bases[h.key])
		ex, backs, os := x.runRegion(fr, l, l.header, []*Path{hp})
		exits = mergeExits(exits, ex)
		outs = append(outs, os...)
		if _, last := x.split(fr, l, backs); len(last) > 0 {
			ex, _, os = x.runRegion(fr, l, l.header, last)
			exits = mergeExits(exits, ex)
			outs = append(outs, os...)
		}
	}
	return
}

// split takes the paths that come back to a loop only to leave it apart: they
// need no widening.
func (x *Exec) split(fr *Frame, l *loopInfo, ps []*Path) (stay, leave []*Path) {
	for _, p := range ps {
		if x.leaves(fr, l, p) {
			leave = append(leave, p)
		} else {
			stay = append(stay, p)
		}
	}
	return
}

func (x *Exec) leaves(fr *Frame, l *loopInfo, p *Path) bool {
	h := l.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok || l.blocks[h.Succs[0]] && l.blocks[h.Succs[1]] {
		return false
	}
	for _, in := range h.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.If, *ssa.DebugRef, *ssa.UnOp, *ssa.FieldAddr, *ssa.Extract, *ssa.Convert:
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); !ok || (b.Name() != "len" && b.Name() != "cap") {
				return false
			}
		default:
			return false
		}
	}
	q := p.clone()
	rec := x.rec
	x.rec = false
	defer func() { x.rec = rec }()
	for _, in := range h.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.If:
		case *ssa.Call:
			for _, o := range x.builtin(&CallCtx{st: q.st, args: []*Term{x.val(q, in.Call.Args[0])}, argT: []types.Type{in.Call.Args[0].Type()}}, in.Call.Value.(*ssa.Builtin).Name(), in) {
				q.env[in] = o.ret
			}
		default:
			if more := x.instr(fr, q, in); more != nil {
				return false
			}
		}
	}
	switch q.st.f.eval(x.val(q, iff.Cond)) {
	case 1:
		return !l.blocks[h.Succs[0]]
	case 0:
		return !l.blocks[h.Succs[1]]
	}
	return false
}

// smallLoop: a loop without inner loops and calls
func (x *Exec) smallLoop(fr *Frame, l *loopInfo) bool {
	if len(l.blocks) > 8 || x.hasInner(fr, l) {
		return false
	}
	n := 0
	for b := range l.blocks {
		for _, in := range b.Instrs {
			n++
			switch in := in.(type) {
			case *ssa.Call:
				if _, ok := in.Call.Value.(*ssa.Builtin); !ok {
					return false
				}
			case *ssa.Defer, *ssa.Go, *ssa.Select, *ssa.Send:
				return false
			}
		}
	}
	return n <= 80
}

func (x *Exec) hasInner(fr *Frame, l *loopInfo) bool {
	for b := range l.blocks {
		if b != l.header && fr.fi.loops[b] != nil {
			return true
		}
	}
	return false
}

// peel: loops that provably leave after one or two iterations need no
// widening.
func (x *Exec) peel(fr *Frame, l *loopInfo, ps []*Path) (exits []edgePaths, outs []Outcome, ok bool) {
	if len(ps) > 8 {
		return nil, nil, false
	}
	rec, undec := x.rec, len(x.undec)
	cur := clonePaths(ps)
	for n := 0; n < 2; n++ {
		ex, backs, os := x.runRegion(fr, l, l.header, cur)
		exits = mergeExits(exits, ex)
		outs = append(outs, os...)
		if len(backs) == 0 {
			return exits, outs, true
		}
		if len(backs) > 4 {
			break
		}
		cur = backs
	}
	x.rec = rec
	x.undec = x.undec[:undec]
	return nil, nil, false
}

func blockPos(b *ssa.BasicBlock) (p token.Pos) {
	for _, in := range b.Instrs {
		if in.Pos().IsValid() {
			return in.Pos()
		}
	}
	for _, s := range b.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return in.Pos()
			}
		}
	}
	return
}

func clonePaths(ps []*Path) []*Path {
	var r []*Path
	for _, p := range ps {
		r = append(r, p.clone())
	}
	return r
}

func mergeExits(a, b []edgePaths) []edgePaths {
	for _, e := range b {
		done := false
		for i := range a {
			if a[i].e == e.e {
				a[i].ps = append(a[i].ps, e.ps...)
				done = true
			}
		}
		if !done {
			a = append(a, e)
		}
	}
	return a
}

// decidable: the header's branch compares constants on every path.
func (x *Exec) decidable(fr *Frame, l *loopInfo, ps []*Path) bool {
	h := l.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	if l.blocks[h.Succs[0]] && l.blocks[h.Succs[1]] {
		return false
	}
	// all header instructions must be simple
	for _, in := range h.Instrs {
		switch in := in.(type) {
		case *ssa.Phi, *ssa.BinOp, *ssa.If, *ssa.DebugRef, *ssa.UnOp, *ssa.FieldAddr, *ssa.Extract, *ssa.Next, *ssa.Convert:
		case *ssa.Call:
			if b, ok := in.Call.Value.(*ssa.Builtin); !ok || (b.Name() != "len" && b.Name() != "cap") {
				return false
			}
		default:
			return false
		}
	}
	for _, p := range ps {
		q := p.clone()
		var c *Term
		sr := x.rec
		x.rec = false
		for _, in := range h.Instrs {
			switch in := in.(type) {
			case *ssa.Phi, *ssa.If:
			case *ssa.Call:
				for _, o := range x.builtin(&CallCtx{st: q.st, args: []*Term{x.val(q, in.Call.Args[0])}, argT: []types.Type{in.Call.Args[0].Type()}}, in.Call.Value.(*ssa.Builtin).Name(), in) {
					q.env[in] = o.ret
				}
			default:
				if more := x.instr(fr, q, in); more != nil {
					x.rec = sr
					return false
				}
			}
		}
		x.rec = sr
		if bo, ok := iff.Cond.(*ssa.BinOp); ok {
			a, b := x.val(q, bo.X), x.val(q, bo.Y)
			_, ca := a.isConst()
			_, cb := b.isConst()
			if !isInt(bo.X.Type()) || !ca || !cb {
				return false
			}
			continue
		}
		if ex, ok := iff.Cond.(*ssa.Extract); ok {
			if _, ok := ex.Tuple.(*ssa.Next); ok {
				if c = x.val(q, iff.Cond); c == tTrue || c == tFalse {
					continue
				}
			}
		}
		return false
	}
	return true
}

// gc forgets objects made in this iteration that are no longer reachable.
func (x *Exec) gc(p *Path, live []ssa.Value, keep map[string]bool) {
	reach := map[string]bool{}
	var mark func(t *Term)
	var q []string
	mark = func(t *Term) {
		for _, o := range t.objs {
			if !reach[o] {
				reach[o] = true
				q = append(q, o)
			}
		}
	}
	for _, v := range live {
		if t, ok := p.env[v]; ok {
			mark(t)
		}
	}
	for _, d := range p.defers {
		mark(d.fn)
		for _, a := range d.args {
			mark(a)
		}
	}
	cells := map[string][]string{}
	for k := range p.st.heap {
		cells[objOf(k)] = append(cells[objOf(k)], k)
	}
	for o := range p.st.objs {
		if keep[o] && !reach[o] {
			reach[o] = true
			q = append(q, o)
		}
	}
	for _, k := range []string{"$ghost"} {
		reach[k] = true
		q = append(q, k)
	}
	for len(q) > 0 {
		o := q[len(q)-1]
		q = q[:len(q)-1]
		for _, k := range cells[o] {
			mark(p.st.heap[k])
		}
	}
	for o, ob := range p.st.objs {
		if !reach[o] && !strings.HasPrefix(o, "g:") && !strings.HasPrefix(o, "gx:") && ob != nil {
			delete(p.st.objs, o)
			for _, k := range cells[o] {
				delete(p.st.heap, k)
			}
		}
	}
	for o, ks := range cells {
		if _, ok := p.st.objs[o]; !ok && !reach[o] && !strings.HasPrefix(o, "g:") {
			for _, k := range ks {
				delete(p.st.heap, k)
			}
		}
	}
	// env entries that are not live are dropped
	lv := map[ssa.Value]bool{}
	for _, v := range live {
		lv[v] = true
	}
	for v := range p.env {
		if !lv[v] {
			delete(p.env, v)
		}
	}
}

// muSrc are the values a widened value stands for.
var muSrc = map[string]map[*Term]bool{}

func muFrom(name string, ts []*Term) {
	m := muSrc[name]
	if m == nil {
		m = map[*Term]bool{}
		muSrc[name] = m
	}
	for _, t := range ts {
		m[t] = true
	}
}

// sources calls f for every part of a term and of the values that flowed into
// the widened values in it.
func sources(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.A {
			w(a)
		}
		if t.Op == "mu" || t.Op == "mub" || t.Op == "imu" || t.Op == "bool" {
			for s := range muSrc[t.S] {
				w(s)
			}
		}
	}
	w(t)
}

// same: two logs have the same step.
func (e *Event) same(f *Event) bool {
	if e == f {
		return true
	}
	if e.failed != f.failed || len(e.args) != len(f.args) || len(e.rets) != len(f.rets) || e.key() != f.key() {
		return false
	}
	for i, a := range e.args {
		if a != f.args[i] {
			return false
		}
	}
	for i, a := range e.rets {
		if a != f.rets[i] {
			return false
		}
	}
	return true
}

// alignLogs joins the logs of paths: steps that all of them took, in one
// order, stay certain; the others may have happened.
func alignLogs(base *LogNode, ps []*Path) *LogNode {
	forward := func(l *LogNode) []*Event {
		ev := l.since(base)
		for i, j := 0, len(ev)-1; i < j; i, j = i+1, j-1 {
			ev[i], ev[j] = ev[j], ev[i]
		}
		return ev
	}
	acc := forward(ps[0].st.log)
	done := map[*LogNode]bool{ps[0].st.log: true}
	for _, p := range ps[1:] {
		if done[p.st.log] {
			continue
		}
		done[p.st.log] = true
		b := forward(p.st.log)
		n, m := len(acc), len(b)
		lcs := make([][]int, n+1)
		for i := range lcs {
			lcs[i] = make([]int, m+1)
		}
		for i := n - 1; i >= 0; i-- {
			for j := m - 1; j >= 0; j-- {
				if acc[i].same(b[j]) {
					lcs[i][j] = lcs[i+1][j+1] + 1
				} else {
					lcs[i][j] = max(lcs[i+1][j], lcs[i][j+1])
				}
			}
		}
		var out []*Event
		maybe := func(e *Event) {
			if !e.may {
				e2 := *e
				e2.may = true
				e = &e2
			}
			out = append(out, e)
		}
		i, j := 0, 0
		for i < n || j < m {
			switch {
			case i < n && j < m && acc[i].same(b[j]):
				if b[j].may {
					maybe(b[j])
				} else {
					out = append(out, acc[i])
				}
				i++
				j++
			case i < n && (j == m || lcs[i+1][j] >= lcs[i][j+1]):
				maybe(acc[i])
				i++
			default:
				maybe(b[j])
				j++
			}
		}
		acc = out
	}
	// what may have happened is told once
	l := base
	seen := map[string]bool{}
	for _, e := range acc {
		if e.may {
			k := e.key()
			if seen[k] {
				continue
			}
			seen[k] = true
		}
		l = l.add(e)
	}
	return l
}
