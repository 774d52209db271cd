package main

import (
	"fmt"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

func one(st *State, ret *Term) []MOut { return []MOut{{st: st, ret: ret}} }

func outcomes(x *Exec, c *CallCtx, ms []MOut) []Outcome {
	return x.runModel(c, func(*Exec, *CallCtx) []MOut { return ms })
}

// lenOf is the length of a slice, string, map or array pointer value.
func (x *Exec) lenOf(st *State, v *Term, t types.Type) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		return blen(v)
	case *types.Slice:
		_, _, ln, _ := st.sliceParts(v)
		return ln
	case *types.Array:
		return num(u.Len())
	case *types.Pointer:
		if a, ok := u.Elem().Underlying().(*types.Array); ok {
			return num(a.Len())
		}
	case *types.Map:
		if v.Op == "nil" {
			return num(0)
		}
		if v.Op == "map" {
			if c := st.heap[v.S+"|"]; c != nil && c.Op == "mapc" && c.S == "" {
				allK := true
				for i := 0; i < len(c.A); i += 2 {
					if c.A[i].Op != "bytes" {
						allK = false
					}
				}
				if allK {
					return num(int64(len(c.A) / 2))
				}
			}
		}
	}
	return setRange(app("len", v), 0, inf)
}

func (x *Exec) builtin(c *CallCtx, name string, in ssa.Instruction) []Outcome {
	st := c.st
	ret := func(t *Term) []Outcome { return []Outcome{{st: st, ret: t, site: c.site}} }
	switch name {
	case "len":
		return ret(x.lenOf(st, c.args[0], c.argT[0]))
	case "cap":
		if isSliceT(c.argT[0]) {
			_, _, _, cp := st.sliceParts(c.args[0])
			return ret(cp)
		}
		return ret(x.lenOf(st, c.args[0], c.argT[0]))
	case "append":
		src := c.args[1]
		x.appendEv(c, st.bytesOf(src), elemOfT(c.argT[0]))
		return outcomes(x, c, x.appendTo(c, c.args[0], st.bytesOf(src), elemOfT(c.argT[0])))
	case "copy":
		return outcomes(x, c, x.copyModel(c))
	case "min", "max":
		r := c.args[0]
		sts := []MOut{{st: st, ret: r}}
		for _, b := range c.args[1:] {
			var nx []MOut
			for _, o := range sts {
				le := mkLE(o.ret, b)
				if name == "max" {
					le = mkLE(b, o.ret)
				}
				switch o.st.f.eval(le) {
				case 1:
					nx = append(nx, o)
				case 0:
					nx = append(nx, MOut{st: o.st, ret: b})
				default:
					q := o.st.clone()
					if o.st.f.assume(le, true) {
						nx = append(nx, o)
					}
					if q.f.assume(le, false) {
						nx = append(nx, MOut{st: q, ret: b})
					}
				}
			}
			sts = nx
		}
		return outcomes(x, c, sts)
	case "delete":
		if m := c.args[0]; m.Op == "map" {
			st.heap[m.S+"|"] = intern(Term{Op: "mapc", S: "unknown", A: []*Term{fresh("delete")}})
		}
		return ret(tUnit)
	case "clear":
		if isSliceT(c.argT[0]) {
			loc, off, ln, _ := st.sliceParts(c.args[0])
			st.writeSeq(loc, off, zeros(ln))
		} else if m := c.args[0]; m.Op == "map" {
			st.heap[m.S+"|"] = intern(Term{Op: "mapc"})
		}
		return ret(tUnit)
	case "ssa:wrapnilchk":
		return ret(c.args[0])
	case "StringData", "Slice", "String", "SliceData", "Add":
		return ret(makeSym(st, in.(ssa.Value).Type(), freshName(name)))
	case "recover":
		x.giveUp("recover at " + c.site)
		return ret(tNil)
	case "print", "println":
		st.log = st.log.add(&Event{kind: "print", site: c.site, ctx: c.ctx, args: c.args, pos: c.pos})
		x.event(st)
		return ret(tUnit)
	case "close":
		return ret(tUnit)
	}
	x.giveUp("builtin " + name)
	if v, ok := in.(ssa.Value); ok {
		return ret(makeSym(st, v.Type(), freshName(name)))
	}
	return ret(tUnit)
}

func elemOfT(t types.Type) types.Type {
	if s, ok := t.Underlying().(*types.Slice); ok {
		return s.Elem()
	}
	return types.Typ[types.Uint8]
}

// appendEv shows rules what is appended to a list of pointers.
func (x *Exec) appendEv(c *CallCtx, content *Term, et types.Type) {
	p, ok := et.Underlying().(*types.Pointer)
	if !ok || x.onEv == nil {
		return
	}
	for _, e := range flat(content) {
		if e.Op == "elem" {
			x.onEv(x, c.st, &Event{kind: "append:" + tname(p.Elem()), site: c.site, ctx: c.ctx, args: []*Term{e.A[0]}, pos: c.pos})
		}
	}
}

// appendTo appends content to the slice dst: in place when there is room.
func (x *Exec) appendTo(c *CallCtx, dst, content *Term, et types.Type) []MOut {
	st := c.st
	n := blen(content)
	loc, off, ln, cp := st.sliceParts(dst)
	if k, ok := n.isConst(); ok && k == 0 {
		return one(st, dst)
	}
	grow := func(st *State) MOut {
		old := st.bytesOf(dst)
		nw := cat(old, content)
		o := st.newObj("o:"+c.ctx, "grown", nil)
		st.heap[o+"|"] = nw
		if et != nil {
			locElem[o+"|"] = et
		}
		l := blen(nw)
		return MOut{st: st, ret: sliceOf(o+"|", num(0), l, l)}
	}
	if loc == "" {
		return []MOut{grow(st)}
	}
	need := add(ln, n)
	end := add(off, ln)
	if k := st.kind(loc); k == "grown" && blen(st.seq(loc)) == end {
		st.heap[loc] = cat(st.seq(loc), content)
		return one(st, sliceOf(loc, off, need, need))
	}
	room := mkLE(need, cp)
	switch st.f.eval(room) {
	case 1:
		st.writeSeq(loc, end, content)
		return one(st, sliceOf(loc, off, need, cp))
	case 0:
		return []MOut{grow(st)}
	}
	q := st.clone()
	var r []MOut
	if st.f.assume(room, true) {
		st.writeSeq(loc, end, content)
		r = append(r, MOut{st: st, ret: sliceOf(loc, off, need, cp)})
	}
	if q.f.assume(room, false) {
		r = append(r, grow(q))
	}
	return r
}

func (x *Exec) copyModel(c *CallCtx) []MOut {
	st := c.st
	loc, off, dl, _ := st.sliceParts(c.args[0])
	src := st.bytesOf(c.args[1])
	sl := blen(src)
	if loc == "" {
		return one(st, num(0))
	}
	do := func(st *State, n *Term) MOut {
		part := src
		if n != sl {
			part = bsub(st.f, src, num(0), n)
		}
		st.writeSeq(loc, off, part)
		return MOut{st: st, ret: n}
	}
	le := mkLE(sl, dl)
	switch st.f.eval(le) {
	case 1:
		return []MOut{do(st, sl)}
	case 0:
		return []MOut{do(st, dl)}
	}
	if st.f.eval(mkLE(dl, sl)) == 1 {
		return []MOut{do(st, dl)}
	}
	q := st.clone()
	var r []MOut
	if st.f.assume(le, true) {
		r = append(r, do(st, sl))
	}
	if q.f.assume(le, false) {
		r = append(r, do(q, dl))
	}
	return r
}

// havoc forgets what a pointer or slice argument refers to.
func (x *Exec) havoc(st *State, v *Term, why string) {
	switch v.Op {
	case "slice":
		loc, off, ln, _ := st.sliceParts(v)
		if c, ok := ln.isConst(); ok && c == 0 {
			return
		}
		st.writeSeq(loc, off, rawSeq(freshName(why), ln))
	case "ptr":
		pre := v.S
		for k, old := range st.heap {
			if k == pre || (len(k) > len(pre) && k[:len(pre)] == pre && (k[len(pre)] == '.' || pre[len(pre)-1] == '|')) {
				t := locType[k]
				if t == nil {
					if sortOfOp(old) == 's' {
						st.heap[k] = rawSeq(freshName(why), blen(old))
					} else {
						delete(st.heap, k)
					}
					continue
				}
				st.heap[k] = makeSym(st, t, freshName(why))
			}
		}
		if o := st.objs[objOf(v.S)]; o != nil && o.kind == "local" {
			st.objs[o.name] = &Obj{name: o.name, kind: "sym", typ: o.typ}
		}
	case "iface":
		x.havoc(st, v.A[0], why)
	}
}

func isErrT(t types.Type) bool {
	return t != nil && types.TypeString(t, nil) == "error"
}

// ev logs an event.
func (x *Exec) ev(st *State, c *CallCtx, kind string, failed bool, args []*Term, rets ...*Term) {
	site := c.site
	if x.csite != "" {
		site = x.csite
	}
	st.log = st.log.add(&Event{kind: kind, site: site, ctx: c.ctx, args: args, rets: rets, failed: failed, pos: c.pos})
	x.event(st)
}

func otherErr(st *State, what string) *Term {
	e := freshErr(what)
	st.f.assume(app("isnil", e), false)
	for _, s := range []string{"io.EOF", "io.ErrUnexpectedEOF", "io.ErrClosedPipe"} {
		st.f.assume(mkEq(e, gvar(s)), false)
	}
	return e
}

func gvar(name string) *Term { return intern(Term{Op: "gvar", S: name}) }

var pureNames = map[string]bool{}

func pkgOf(name string) string {
	s := name
	if len(s) > 0 && s[0] == '(' {
		s = s[1:]
		if len(s) > 0 && s[0] == '*' {
			s = s[1:]
		}
	}
	sl := -1
	for i := 0; i < len(s); i++ {
		if s[i] == '/' {
			sl = i
		}
		if s[i] == ')' {
			break
		}
	}
	for i := sl + 1; i < len(s); i++ {
		if s[i] == '.' {
			return s[:i]
		}
	}
	return s
}

var purePkgs = map[string]bool{"strings": true, "bytes": true, "path": true, "path/filepath": true, "strconv": true, "unicode": true, "unicode/utf8": true, "math": true, "math/bits": true, "fmt": true, "errors": true, "encoding/hex": true, "sort": false, "encoding/base64": true, "regexp": true, "crypto/subtle": true, "encoding/pem": true, "slices": true, "maps": true, "cmp": true,
	"google.golang.org/protobuf/encoding/protowire": true, "github.com/planetscale/vtprotobuf/protohelpers": true}

// defaultModel handles calls of functions that are neither analysed nor
// modelled: results of pure packages are functions of the arguments, anything
// else may do anything with what it was given.
func defaultModel(x *Exec, c *CallCtx) []MOut {
	st := c.st
	pure := purePkgs[pkgOf(c.name)]
	var vals []*Term
	for i, a := range c.args {
		v := a
		if i < len(c.argT) && c.argT[i] != nil && (isByteSlice(c.argT[i]) || a.Op == "slice") {
			v = st.bytesOf(a)
		}
		vals = append(vals, v)
	}
	res := c.sig.Results()
	if !pure {
		x.ev(st, c, c.name, false, vals)
	}
	if !pure {
		for i, a := range c.args {
			_ = i
			if a.Op == "slice" || a.Op == "ptr" || a.Op == "iface" {
				x.havoc(st, a, c.name)
			}
		}
	}
	var base *Term
	var nm string
	if pure {
		base = appS("ext", c.name, vals...)
		nm = fmt.Sprintf("ext%d", base.id)
	} else {
		nm = freshName(c.name)
		base = appS("ext", nm, vals...)
	}
	mk := func(st *State, i int, t types.Type) *Term {
		n := fmt.Sprintf("%s.%d", nm, i)
		symOrigin[n] = base
		return makeSym(st, t, n)
	}
	nr := res.Len()
	if nr == 0 {
		return one(st, tUnit)
	}
	if !isErrT(res.At(nr - 1).Type()) {
		var rs []*Term
		for i := 0; i < nr; i++ {
			rs = append(rs, mk(st, i, res.At(i).Type()))
		}
		if nr == 1 {
			return one(st, rs[0])
		}
		return one(st, app("tuple", rs...))
	}
	// error result: success or failure
	bad := st.clone()
	var rs, fs []*Term
	for i := 0; i < nr-1; i++ {
		v := mk(st, i, res.At(i).Type())
		switch res.At(i).Type().Underlying().(type) {
		case *types.Pointer, *types.Interface, *types.Map, *types.Signature:
			st.f.assume(app("isnil", v), false)
		}
		rs = append(rs, v)
		fs = append(fs, makeSym(bad, res.At(i).Type(), freshName(c.name+"!")))
	}
	e := otherErr(bad, c.name)
	if !pure {
		bad.log = bad.log.prev
	}
	x.ev(bad, c, c.name, true, vals, e)
	rs = append(rs, tNil)
	fs = append(fs, e)
	if nr == 1 {
		return []MOut{{st: st, ret: rs[0]}, {st: bad, ret: fs[0]}}
	}
	return []MOut{{st: st, ret: app("tuple", rs...)}, {st: bad, ret: app("tuple", fs...)}}
}
