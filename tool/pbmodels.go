package main

import (
	"fmt"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// The codec of the header is a package of its own with its own checks (C20,
// C21). The analyses of its users see it through the contract those checks
// establish: Size is the length of the encoding and no less than the bytes of
// its fields, Marshal writes the encoding, Unmarshal of data gives the fields
// of data or an error.

func isCodecFn(f *ssa.Function) bool {
	if f.Pkg == nil || f.Pkg.Pkg.Name() != "pb" || f.Signature.Recv() == nil {
		return false
	}
	n := f.Name()
	return strings.HasSuffix(n, "VT") && (strings.HasPrefix(n, "Size") || strings.HasPrefix(n, "Marshal") || strings.HasPrefix(n, "Unmarshal"))
}

func pbFields(su *types.Struct) []*types.Var {
	var r []*types.Var
	for i := 0; i < su.NumFields(); i++ {
		if f := su.Field(i); f.Exported() {
			r = append(r, f)
		}
	}
	return r
}

// pbValue is the message a pointer refers to, by value.
func pbValue(st *State, ptr *Term, t types.Type) *Term {
	su, ok := isStruct(t)
	if !ok || ptr.Op == "nil" {
		return app("pbmsg", ptr)
	}
	loc := st.target(ptr, t)
	var names []string
	var vs []*Term
	for _, f := range pbFields(su) {
		v := st.load(loc+"."+f.Name(), f.Type())
		if s, ok := f.Type().Underlying().(*types.Slice); ok {
			v = st.bytesOf(v)
			if p, ok := s.Elem().Underlying().(*types.Pointer); ok {
				v = mapElems(v, func(e *Term) *Term {
					if e.Op == "ptr" {
						return pbValue(st, e, p.Elem())
					}
					return e
				})
			}
		}
		names = append(names, f.Name())
		vs = append(vs, v)
	}
	return appS("pbmsg", strings.Join(names, ","), vs...)
}

func mapElems(seq *Term, f func(*Term) *Term) *Term {
	segs := []*Term{seq}
	if seq.Op == "cat" {
		segs = seq.A
	}
	var r []*Term
	for _, s := range segs {
		if s.Op == "elem" {
			s = app("elem", f(s.A[0]))
		}
		r = append(r, s)
	}
	return app("seqv", r...)
}

func pbSize(st *State, m *Term) *Term {
	s := app("pbsize", m)
	var tot *Term = num(0)
	for i, v := range m.A {
		_ = i
		if sortOfOp(v) == 's' && v.Op != "seqv" {
			tot = add(tot, blen(v))
		}
	}
	st.f.assume(mkLE(tot, s), true)
	return s
}

func recvElem(c *CallCtx) types.Type {
	return c.fn.Signature.Recv().Type().Underlying().(*types.Pointer).Elem()
}

func pbModel(x *Exec, c *CallCtx) []MOut {
	st := c.st
	t := recvElem(c)
	name := c.fn.Name()
	recv := c.args[0]
	if strings.HasPrefix(name, "Unmarshal") {
		data := st.bytesOf(c.args[1])
		su, ok := isStruct(t)
		if !ok {
			return defaultModel(x, c)
		}
		loc := st.target(recv, t)
		bad := st.clone()
		fill := func(s *State, good bool) {
			for _, f := range pbFields(su) {
				nm := fmt.Sprintf("pb%d.%s", data.id, f.Name())
				if !good {
					nm = freshName(nm)
				}
				if sl, ok := f.Type().Underlying().(*types.Slice); ok {
					if _, ok := sl.Elem().Underlying().(*types.Pointer); ok {
						nm = "nn:" + nm // elements are never nil
					}
				}
				symOrigin[nm] = appS("pbfield", f.Name(), data)
				v := makeSym(s, f.Type(), nm)
				if v.Op == "slice" {
					s.f.assume(mkLE(v.A[1], blen(data)), true)
				}
				s.store(loc+"."+f.Name(), f.Type(), v)
			}
		}
		fill(st, true)
		fill(bad, false)
		x.ev(st, c, "pb.unmarshal", false, []*Term{data})
		e := otherErr(bad, "pb")
		x.ev(bad, c, "pb.unmarshal", true, []*Term{data}, e)
		return []MOut{{st: st, ret: tNil}, {st: bad, ret: e}}
	}
	m := pbValue(st, recv, t)
	size := pbSize(st, m)
	enc := app("pbenc", m)
	switch name {
	case "SizeVT":
		return one(st, size)
	case "MarshalVT":
		return failing(x, c, "pb.marshal", []*Term{m}, func(st *State) *Term { return tup(newBytes(x, st, c, enc), tNil) },
			func(st *State, e *Term) *Term { return tup(tNil, e) })
	}
	loc, off, ln, _ := st.sliceParts(c.args[1])
	x.need(st, mkLE(size, ln), c, "buffer for the encoded header may be too small")
	if strings.Contains(name, "SizedBuffer") {
		off = add(off, subT(ln, size))
	}
	return failing(x, c, "pb.marshal", []*Term{m}, func(st *State) *Term {
		st.writeSeq(loc, off, enc)
		return tup(size, tNil)
	}, func(st *State, e *Term) *Term {
		x.havoc(st, c.args[1], "pb")
		return tup(num(0), e)
	})
}

// isCurveFn: the conversions of the exported key API, with a check of their
// own (K07).
func isCurveFn(f *ssa.Function) bool {
	return f.Name() == "ToCurve25519PK" || f.Name() == "ToCurve25519SK"
}

func curveModel(op, field string) Model {
	return func(x *Exec, c *CallCtx) []MOut {
		st := c.st
		recv := c.args[0]
		t := recvElem(c)
		if recv.Op == "nil" {
			return nil
		}
		loc := st.target(recv, t)
		su, _ := isStruct(t)
		for i := 0; i < su.NumFields(); i++ {
			if f := su.Field(i); f.Name() == field {
				k := st.bytesOf(st.load(loc+"."+field, f.Type()))
				return one(st, newBytes(x, st, c, app(op, k)))
			}
		}
		x.giveUp("key type without field " + field)
		return defaultModel(x, c)
	}
}

func init() {
	reg(curveModel("curvepk", "Pk"), "(*"+modPath+"/sign.PublicKey).ToCurve25519PK")
	reg(curveModel("curvesk", "Sk"), "(*"+modPath+"/sign.PrivateKey).ToCurve25519SK")
	for _, t := range []string{"Header", "WrappedKey"} {
		for _, m := range []string{"SizeVT", "MarshalVT", "MarshalToVT", "MarshalToSizedBufferVT", "MarshalVTStrict", "MarshalToVTStrict", "MarshalToSizedBufferVTStrict", "UnmarshalVT", "UnmarshalVTUnsafe"} {
			reg(pbModel, "(*"+modPath+"/internal/pb."+t+")."+m)
		}
	}
}
