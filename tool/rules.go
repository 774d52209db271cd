package main

// Helpers of the rules.

import (
	"fmt"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func opaqueFn(o runOpts) func(f *ssa.Function) bool {
	return func(f *ssa.Function) bool {
		if !o.pb && isCodecFn(f) {
			return true
		}
		return !o.curve && isCurveFn(f)
	}
}

func flat(t *Term) []*Term {
	if t == tEmpty || t == nil {
		return nil
	}
	if t.Op == "cat" {
		return t.A
	}
	return []*Term{t}
}

func hasPrefixSeq(a, p []*Term) bool {
	if len(p) > len(a) {
		return false
	}
	for i := range p {
		if a[i] != p[i] {
			return false
		}
	}
	return true
}

// lastNote is the last certain note of a path.
func lastNote(o *Outcome, tag string) *Event {
	for l := o.st.log; l != nil; l = l.prev {
		if l.ev.kind == "note:"+tag && !l.ev.may {
			return l.ev
		}
	}
	return nil
}

// mayBeNil: the value is not known to differ from nil.
func mayBeNil(st *State, t *Term) bool { return nilStatus(st.f, t) != 0 }

// succeeded: the path ends with a note of a call that may have returned nil.
func succeeded(o *Outcome, tag string) bool {
	if o.kind != "" {
		return false
	}
	e := lastNote(o, tag)
	return e != nil && mayBeNil(o.st, e.args[0])
}

// objsOf lists the model objects of a kind, in a fixed order.
func objsOf(st *State, kind string) []string {
	seen := map[string]bool{}
	var r []string
	for k, o := range st.objs {
		if (o.kind == kind || strings.HasPrefix(o.kind, kind+":")) && !seen[k] {
			seen[k] = true
			r = append(r, k)
		}
	}
	sort.Strings(r)
	return r
}

// isTrue: the fact is known to hold on this path.
func isTrue(st *State, c *Term) bool { return st.f.eval(c) == 1 }

// rmap applies a list of replacements to a term, outermost match first.
type rmap struct {
	m    map[*Term]*Term
	memo map[*Term]*Term
}

func newRmap() *rmap { return &rmap{map[*Term]*Term{}, map[*Term]*Term{}} }
func (r *rmap) set(t *Term, name string) {
	if t != nil {
		r.m[t] = app("role:" + name)
	}
}
func (r *rmap) apply(t *Term) *Term {
	if t == nil {
		return nil
	}
	return mapTerm(t, r.memo, func(x *Term) *Term { return r.m[x] })
}

// unknowns lists widened or otherwise unknown values in a term.
func unknowns(t *Term) []*Term {
	var r []*Term
	walk(t, func(x *Term) bool {
		switch x.Op {
		case "mu", "imu", "mub", "fresh", "sym", "raw", "bool":
			r = append(r, x)
			return false
		}
		return true
	})
	return r
}

// exposed lists the terms a reader of t learns byte for byte: concatenations,
// encodings and slices show their parts, primitives do not.
func exposed(t *Term, f func(*Term)) {
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "seal", "hash", "hmac", "edsign", "edpub", "x25519", "curvepk":
			f(t)
			return
		}
		f(t)
		for _, a := range t.A {
			w(a)
		}
	}
	w(t)
}

func sk(t *Term) string {
	s := short(t)
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	return s
}

func fieldIdx(m *Term, name string) *Term {
	for i, n := range strings.Split(m.S, ",") {
		if n == name && i < len(m.A) {
			return m.A[i]
		}
	}
	return nil
}

func unwrapV(t *Term) *Term {
	if t.Op == "ifaceval" || t.Op == "iface" {
		return t.A[len(t.A)-1]
	}
	return t
}

var _ = fmt.Sprint

// seqEq: two sequences are equal on this path: the same parts, up to parts
// known to be empty and bounds known to be equal.
func seqEq(st *State, a, b *Term) bool {
	if a == b {
		return true
	}
	norm := func(t *Term) []*Term {
		var r []*Term
		for _, p := range flat(t) {
			if l := blen(p); l == num(0) || st.f.entailLE(l, num(0)) {
				continue
			}
			if n := len(r) - 1; n >= 0 && p.Op == "sub" && r[n].Op == "sub" && p.A[0] == r[n].A[0] && r[n].A[2] != p.A[1] && st.f.entailEq(r[n].A[2], p.A[1]) {
				r[n] = rawSub(p.A[0], r[n].A[1], p.A[2])
				continue
			}
			r = append(r, p)
		}
		return r
	}
	x, y := norm(a), norm(b)
	if len(x) != len(y) {
		return false
	}
	for i := range x {
		if x[i] == y[i] {
			continue
		}
		if p, ok := rawSpan(x[i]); ok {
			q, ok := rawSpan(y[i])
			if !ok || p.base.S != q.base.S || p.base.N != q.base.N || p.base.A[0] != q.base.A[0] || !st.f.entailEq(p.lo, q.lo) || !st.f.entailEq(p.hi, q.hi) {
				return false
			}
			continue
		}
		if x[i].Op != y[i].Op || x[i].S != y[i].S || x[i].N != y[i].N || len(x[i].A) != len(y[i].A) {
			return false
		}
		switch x[i].Op {
		case "sub":
			if x[i].A[0] != y[i].A[0] || !st.f.entailEq(x[i].A[1], y[i].A[1]) || !st.f.entailEq(x[i].A[2], y[i].A[2]) {
				return false
			}
		case "be", "le", "zero":
			if !st.f.entailEq(x[i].A[0], y[i].A[0]) {
				return false
			}
		default:
			for k := range x[i].A {
				if !seqEq(st, x[i].A[k], y[i].A[k]) {
					return false
				}
			}
		}
	}
	return true
}

type span struct{ base, lo, hi *Term }

// rawSpan: a part of unknown bytes. Their length is written into the term of
// the whole, in a form that depends on the path.
func rawSpan(t *Term) (span, bool) {
	switch {
	case t.Op == "raw" && len(t.A) == 2:
		return span{t, num(0), t.A[1]}, true
	case t.Op == "sub" && t.A[0].Op == "raw" && len(t.A[0].A) == 2:
		return span{t.A[0], t.A[1], t.A[2]}, true
	}
	return span{}, false
}
