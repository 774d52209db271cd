package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Obj describes one abstract object. Kind is "local" (zero initialised),
// "sym" (unknown initial contents) or a model kind such as "hash:sha256".
type Obj struct {
	name string
	kind string
	typ  types.Type
}

// Event is one observable step: a call of a modelled external function, a
// panic, an exit, or a note of a harness.
type Event struct {
	kind   string // model name
	site   string // position, for reports
	ctx    string // call string
	args   []*Term
	rets   []*Term
	failed bool
	may    bool // summarised from a loop
	pos    token.Pos
}

func (e *Event) key() string {
	s := e.kind + "@" + e.site + "/" + e.ctx
	if e.failed {
		s += "!"
	}
	return s
}

type LogNode struct {
	prev *LogNode
	ev   *Event
	n    int
	hash string
}

func (l *LogNode) add(e *Event) *LogNode {
	n := &LogNode{prev: l, ev: e}
	h := ""
	if l != nil {
		n.n = l.n
		h = l.hash
	}
	n.n++
	n.hash = shortHash(h + "\n" + e.key())
	return n
}

func (l *LogNode) list() []*Event {
	var r []*Event
	for ; l != nil; l = l.prev {
		r = append(r, l.ev)
	}
	for i, j := 0, len(r)-1; i < j; i, j = i+1, j-1 {
		r[i], r[j] = r[j], r[i]
	}
	return r
}

func (l *LogNode) since(base *LogNode) []*Event {
	var r []*Event
	for ; l != nil && l != base; l = l.prev {
		r = append(r, l.ev)
	}
	return r
}

func commonPrefix(a, b *LogNode) *LogNode {
	na, nb := 0, 0
	if a != nil {
		na = a.n
	}
	if b != nil {
		nb = b.n
	}
	for na > nb {
		a = a.prev
		na--
	}
	for nb > na {
		b = b.prev
		nb--
	}
	for a != b {
		a, b = a.prev, b.prev
	}
	return a
}

// State is one disjunct of the abstract memory.
type State struct {
	heap map[string]*Term
	objs map[string]*Obj
	f    *Facts
	log  *LogNode
}

func newState() *State {
	return &State{heap: map[string]*Term{}, objs: map[string]*Obj{}, f: newFacts()}
}

func (s *State) clone() *State {
	n := &State{heap: make(map[string]*Term, len(s.heap)+8), objs: make(map[string]*Obj, len(s.objs)+8), f: s.f.clone(), log: s.log}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.objs {
		n.objs[k] = v
	}
	return n
}

type deferred struct {
	fn   *Term
	args []*Term
	call *ssa.CallCommon
	in   ssa.Instruction
}

// Path is a disjunct inside one function activation.
type Path struct {
	st     *State
	env    map[ssa.Value]*Term
	defers []deferred
	pred   *ssa.BasicBlock
}

func (p *Path) clone() *Path {
	n := &Path{st: p.st.clone(), env: make(map[ssa.Value]*Term, len(p.env)+8), pred: p.pred}
	for k, v := range p.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), p.defers...)
	return n
}

func (p *Path) withState(st *State) *Path {
	n := &Path{st: st, env: make(map[ssa.Value]*Term, len(p.env)+8), pred: p.pred}
	for k, v := range p.env {
		n.env[k] = v
	}
	n.defers = append([]deferred(nil), p.defers...)
	return n
}

// locType remembers the Go type of a location, so that lazy loads are uniform.
var locType = map[string]types.Type{}

var typeByName = map[string]types.Type{}

func tname(t types.Type) string {
	s := types.TypeString(t, nil)
	if _, ok := typeByName[s]; !ok {
		typeByName[s] = t
	}
	return s
}

var freshCtr int

func freshName(what string) string {
	freshCtr++
	return fmt.Sprintf("%s#%d", what, freshCtr)
}

// fresh integer-like or opaque atom
func fresh(what string) *Term { return intern(Term{Op: "fresh", S: freshName(what)}) }

func freshErr(what string) *Term { return intern(Term{Op: "err", S: freshName(what)}) }

func (s *State) newObj(name, kind string, t types.Type) string {
	if _, ok := s.objs[name]; ok {
		for i := 2; ; i++ {
			n := fmt.Sprintf("%s~%d", name, i)
			if _, ok := s.objs[n]; !ok {
				name = n
				break
			}
		}
		// cells of a previous (collected) instance must not leak in
	}
	pre := name + "|"
	for k := range s.heap {
		if strings.HasPrefix(k, pre) {
			delete(s.heap, k)
		}
	}
	s.objs[name] = &Obj{name: name, kind: kind, typ: t}
	return name
}

func ptrTo(obj, path string) *Term { return intern(Term{Op: "ptr", S: obj + "|" + path}) }
func sliceOf(loc string, off, ln, cp *Term) *Term {
	return intern(Term{Op: "slice", S: loc, A: []*Term{off, ln, cp}})
}
func eptr(loc, sub string, idx *Term) *Term {
	return intern(Term{Op: "eptr", S: loc, A: []*Term{idx, intern(Term{Op: "typ", S: sub})}})
}

func (s *State) kind(loc string) string {
	o := s.objs[objOf(loc)]
	if o == nil {
		if strings.HasPrefix(loc, "sym:") || strings.HasPrefix(loc, "@") {
			return "sym"
		}
		return ""
	}
	return o.kind
}

func isStruct(t types.Type) (*types.Struct, bool) {
	st, ok := t.Underlying().(*types.Struct)
	return st, ok
}

// zeroOf is the zero value of a type.
func zeroOf(t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return num(0)
		case u.Info()&types.IsBoolean != 0:
			return tFalse
		case u.Info()&types.IsString != 0:
			return tEmpty
		}
		return num(0)
	case *types.Array:
		return zeros(num(u.Len()))
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, zeroOf(u.Field(i).Type()))
		}
		return intern(Term{Op: "struct", S: tname(t), A: fs})
	case *types.Tuple:
		var fs []*Term
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, zeroOf(u.At(i).Type()))
		}
		return app("tuple", fs...)
	}
	return tNil
}

func basicName(t types.Type) string {
	if b, ok := t.Underlying().(*types.Basic); ok {
		return b.Name()
	}
	return ""
}

func isInt(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsInteger != 0
}
func isStr(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsString != 0
}
func isByteSlice(t types.Type) bool {
	s, ok := t.Underlying().(*types.Slice)
	if !ok {
		return false
	}
	n := basicName(s.Elem())
	return n == "uint8" || n == "byte"
}
func isByte(t types.Type) bool { n := basicName(t); return n == "uint8" || n == "byte" }

func rawSeq(name string, ln *Term) *Term {
	if c, ok := ln.isConst(); ok && c == 0 {
		return tEmpty
	}
	return intern(Term{Op: "raw", S: name, A: []*Term{tUnit, ln}})
}

// makeSym is an unknown value of a type, named for reports; equal names give
// equal values.
func makeSym(st *State, t types.Type, name string) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			lo, hi := typeRange(u.Name())
			return setRange(sym(name), lo, hi)
		case u.Info()&types.IsBoolean != 0:
			return intern(Term{Op: "bool", S: name})
		case u.Info()&types.IsString != 0:
			return rawSeq(name, setRange(sym("len("+name+")"), 0, inf))
		}
		return sym(name)
	case *types.Slice:
		ln := setRange(sym("len("+name+")"), 0, inf)
		loc := "sym:" + name + "|"
		if _, ok := st.objs["sym:"+name]; !ok {
			st.objs["sym:"+name] = &Obj{name: "sym:" + name, kind: "sym"}
		}
		if _, ok := st.heap[loc]; !ok {
			st.heap[loc] = rawSeq(name, ln)
		}
		return sliceOf(loc, num(0), ln, ln)
	case *types.Array:
		return rawSeq(name, num(u.Len()))
	case *types.Pointer, *types.Map:
		return intern(Term{Op: "psym", S: name})
	case *types.Signature:
		return intern(Term{Op: "fsym", S: name})
	case *types.Interface:
		return intern(Term{Op: "isym", S: name, A: []*Term{intern(Term{Op: "typ", S: tname(t)})}})
	case *types.Struct:
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, makeSym(st, u.Field(i).Type(), name+"."+u.Field(i).Name()))
		}
		return intern(Term{Op: "struct", S: tname(t), A: fs})
	case *types.Tuple:
		var fs []*Term
		for i := 0; i < u.Len(); i++ {
			fs = append(fs, makeSym(st, u.At(i).Type(), fmt.Sprintf("%s.%d", name, i)))
		}
		return app("tuple", fs...)
	}
	return sym(name)
}

// target of a pointer value as a location; opaque pointers point to an object
// named after them.
func (s *State) target(p *Term, t types.Type) string {
	switch p.Op {
	case "ptr":
		return p.S
	case "psym":
		n := "sym:" + p.S
		if _, ok := s.objs[n]; !ok {
			s.objs[n] = &Obj{name: n, kind: "sym", typ: t}
		}
		return n + "|"
	}
	n := fmt.Sprintf("@%d", p.id)
	if _, ok := s.objs[n]; !ok {
		s.objs[n] = &Obj{name: n, kind: "sym", typ: t}
	}
	opaqueOf[n] = p
	return n + "|"
}

var opaqueOf = map[string]*Term{}

// load the value of type t at a location
func (s *State) load(loc string, t types.Type) *Term {
	if v, ok := s.heap[loc]; ok {
		if _, st := isStruct(t); !st || v.Op == "struct" {
			return v
		}
	}
	if u, ok := isStruct(t); ok {
		var fs []*Term
		for i := 0; i < u.NumFields(); i++ {
			fs = append(fs, s.load(loc+"."+u.Field(i).Name(), u.Field(i).Type()))
		}
		return intern(Term{Op: "struct", S: tname(t), A: fs})
	}
	locType[loc] = t
	v := s.deflt(loc, t)
	s.heap[loc] = v
	return v
}

func (s *State) deflt(loc string, t types.Type) *Term {
	k := s.kind(loc)
	if k == "sym" {
		name := loc
		if o := opaqueOf[objOf(loc)]; o != nil && strings.HasPrefix(loc, "@") {
			name = fmt.Sprintf("t%d", o.id) + pathOf(loc)
		} else {
			name = strings.TrimPrefix(objOf(loc), "sym:") + pathOf(loc)
		}
		return makeSym(s, t, name)
	}
	return zeroOf(t)
}

func (s *State) store(loc string, t types.Type, v *Term) {
	if u, ok := isStruct(t); ok {
		delete(s.heap, loc)
		for i := 0; i < u.NumFields(); i++ {
			var fv *Term
			ft := u.Field(i).Type()
			if v.Op == "struct" && i < len(v.A) {
				fv = v.A[i]
			} else {
				fv = fieldOf(s, v, i, ft)
			}
			s.store(loc+"."+u.Field(i).Name(), ft, fv)
		}
		return
	}
	locType[loc] = t
	s.heap[loc] = v
}

func fieldOf(s *State, v *Term, i int, ft types.Type) *Term {
	if v.Op == "struct" && i < len(v.A) {
		return v.A[i]
	}
	return makeSym(s, ft, fmt.Sprintf("t%d.%d", v.id, i))
}

// sequence content of [off,off+n) of the backing store at loc
func (s *State) content(loc string, off, n *Term) *Term {
	if c, ok := n.isConst(); ok && c == 0 {
		return tEmpty
	}
	c := s.seq(loc)
	return bsub(s.f, c, off, add(off, n))
}

func (s *State) seq(loc string) *Term {
	if c, ok := s.heap[loc]; ok {
		return c
	}
	if t, ok := locType[loc]; ok {
		return s.load(loc, t)
	}
	c := rawSeq(loc, setRange(sym("len("+loc+")"), 0, inf))
	s.heap[loc] = c
	return c
}

// sliceParts of a slice value
func (s *State) sliceParts(t *Term) (loc string, off, ln, cp *Term) {
	switch t.Op {
	case "slice":
		return t.S, t.A[0], t.A[1], t.A[2]
	case "nil":
		return "", num(0), num(0), num(0)
	}
	n := fmt.Sprintf("@%d", t.id)
	l := setRange(app("len", t), 0, inf)
	if _, ok := s.objs[n]; !ok {
		s.objs[n] = &Obj{name: n, kind: "sym"}
		opaqueOf[n] = t
		s.heap[n+"|"] = rawSeq(fmt.Sprintf("t%d", t.id), l)
	}
	return n + "|", num(0), l, l
}

// bytesOf is the content of a slice or string value.
func (s *State) bytesOf(t *Term) *Term {
	switch t.Op {
	case "slice":
		return s.content(t.S, t.A[0], t.A[1])
	case "nil":
		return tEmpty
	case "psym", "isym", "mu", "fresh", "opq":
		if t.Op == "mu" || t.Op == "fresh" || t.Op == "opq" {
			loc, off, ln, _ := s.sliceParts(t)
			return s.content(loc, off, ln)
		}
	}
	return t
}

func (s *State) writeSeq(loc string, off, nw *Term) {
	if loc == "" {
		return
	}
	c := s.seq(loc)
	s.heap[loc] = fuse(s.f, splice(s.f, c, off, nw))
}

func (s *State) dump() string {
	var ks []string
	for k := range s.heap {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	var b strings.Builder
	for _, k := range ks {
		fmt.Fprintf(&b, "  %s = %s\n", k, s.heap[k])
	}
	for _, c := range s.f.lin {
		fmt.Fprintf(&b, "  fact %s <= 0\n", c)
	}
	for c, v := range s.f.truth {
		fmt.Fprintf(&b, "  truth %s = %v\n", c, v)
	}
	return b.String()
}
