package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"reflect"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// The codec of the header: what Size says is what MarshalTo writes, and what
// Unmarshal makes of it has the fields that were encoded.

var codecDrivers = []string{"num", "salt", "pk", "sender", "dkey", "nonce", "none", "two", "three"}

type pbField struct {
	num  int64
	wire int64
	name string
}

// pbFields are the fields of a message as its struct tags declare them.
func (c *Ctx) pbFields(typ string) map[int64]pbField {
	r := map[int64]pbField{}
	p := c.prog.pkg("pb")
	o := p.Pkg.Scope().Lookup(typ)
	if o == nil {
		c.fail("declared", typ, "", typ, "there is no message "+typ)
		return r
	}
	s := o.Type().Underlying().(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		var kind string
		var num int64
		t := reflect.StructTag(s.Tag(i)).Get("protobuf")
		if t == "" {
			continue
		}
		f := strings.SplitN(t, ",", 3)
		kind = f[0]
		fmt.Sscan(f[1], &num)
		w := int64(-1)
		switch kind {
		case "varint":
			w = 0
		case "bytes":
			w = 2
		}
		r[num] = pbField{num, w, s.Field(i).Name()}
	}
	return r
}

// pbVal is one field of an encoding.
type pbVal struct {
	num, wire int64
	v         *Term // the number, or the content
}

// pbParse takes an encoding apart.
func pbParse(st *State, t *Term) ([]pbVal, string) {
	var fl []*Term
	for _, s := range flat(t) {
		if s.Op == "bytes" {
			for i := 0; i < len(s.S); i++ {
				fl = append(fl, app("elem", num(int64(s.S[i]))))
			}
			continue
		}
		if st.f.entailLE(blen(s), num(0)) {
			continue
		}
		fl = append(fl, s)
	}
	i := 0
	varint := func() (*Term, bool) {
		if i >= len(fl) || fl[i].Op != "elem" {
			return nil, false
		}
		sum := num(0)
		for k := 0; k < 10; k++ {
			if i >= len(fl) || fl[i].Op != "elem" {
				return nil, false
			}
			e := fl[i].A[0]
			i++
			last := st.f.entailLE(e, num(127))
			if !last {
				if !st.f.entailLE(num(128), e) {
					return nil, false
				}
				e = addK(e, -128)
			}
			sum = add(sum, scale(e, int64(1)<<uint(7*k)))
			if last {
				return joinGroups(sum), true
			}
		}
		return nil, false
	}
	var r []pbVal
	for i < len(fl) {
		tag, ok := varint()
		if !ok {
			return r, "no tag"
		}
		n, isC := tag.isConst()
		if !isC {
			return r, "a tag that is no constant"
		}
		v, ok := varint()
		if !ok {
			return r, fmt.Sprintf("field %d has no number or length", n>>3)
		}
		switch n & 7 {
		case 0:
		case 2:
			var part []*Term
			rest := v
			for !st.f.entailEq(rest, num(0)) {
				if i >= len(fl) || !st.f.entailLE(blen(fl[i]), rest) {
					return r, fmt.Sprintf("the length of field %d does not match its content", n>>3)
				}
				part = append(part, fl[i])
				rest = subT(rest, blen(fl[i]))
				i++
			}
			v = cat(part...)
		default:
			return r, fmt.Sprintf("wire type %d", n&7)
		}
		r = append(r, pbVal{n >> 3, n & 7, v})
	}
	return r, ""
}

func pbContent(t *Term) *Term {
	t = unwrapV(t)
	if t == nil || t == tNil {
		return tEmpty
	}
	return t
}

func checkC21(c *Ctx) {
	hdr, key := c.pbFields("Header"), c.pbFields("WrappedKey")
	for _, n := range codecDrivers {
		c.codecRun("verif_C21e_"+n, hdr, key)
	}
	if len(c.viol) == 0 { // what is not well formed need not be decoded
		for _, n := range codecDrivers {
			c.codecRun("verif_C21_"+n, hdr, key)
		}
	}
	c.uniform()
}

func (c *Ctx) codecRun(n string, hdr, key map[int64]pbField) {
	site := func(m string) (string, string) {
		if o := c.prog.pkg("pb").Type("Header"); o != nil {
			if f := c.prog.prog.LookupMethod(types.NewPointer(o.Type()), o.Package().Pkg, m); f != nil {
				return newExec(c.prog).at(f.Pos()), f.String()
			}
		}
		return "", "Header." + m
	}
	decode := strings.HasPrefix(n, "verif_C21_")
	d := c.run("pb", n, runOpts{pb: true, bounds: true, exact: true}, nil)
	done := 0
	for i := range d.outs {
		o := &d.outs[i]
		st := o.st
		must := func(rule, m string, ok bool, detail string) {
			at, fn := site(m)
			c.req(rule, d.name, at, fn, ok, detail)
		}
		if o.kind != "" {
			must("returns", "MarshalTo", false, "encoding or decoding of a header ends in "+o.kind+" at "+o.site)
			continue
		}
		mt := lastNote(o, "MarshalTo")
		if mt == nil {
			must("returns", "MarshalTo", false, "no header is encoded")
			continue
		}
		must("encodes", "MarshalTo", nilStatus(st.f, mt.args[2]) == 1, "a header can not be encoded")
		must("size", "Size", st.f.entailEq(unwrapV(mt.args[0]), unwrapV(mt.args[1])),
			"the size "+sk2(unwrapV(mt.args[0]))+" is not that of what is written: "+sk2(unwrapV(mt.args[1])))
		w, gn := noteArg(o, "written", 0), lastNote(o, "given")
		if w == nil || gn == nil {
			continue
		}
		keys := eventsOf(o, "note:key")
		fields := []string{"ChunkSize", "Salt", "Pk", "Sender"}
		given := map[string]*Term{"ChunkSize": unwrapV(gn.args[0])}
		for k, f := range fields[1:] {
			given[f] = pbContent(gn.args[1+k])
		}
		// the declared numbers and types
		vs, bad := pbParse(st, w)
		must("well formed", "MarshalTo", bad == "", "the encoding is not well formed: "+bad)
		seen := map[string]bool{}
		nk := 0
		for _, v := range vs {
			f, ok := hdr[v.num]
			must("declared", "MarshalTo", ok && f.wire == v.wire, fmt.Sprintf("field %d with wire type %d is written, which the message does not declare", v.num, v.wire))
			if !ok {
				continue
			}
			if f.name != "Keys" {
				same := given[f.name] != nil && (v.wire == 2 && seqEq(st, v.v, given[f.name]) || v.wire == 0 && st.f.entailEq(v.v, given[f.name]))
				must("declared", "MarshalTo", same && !seen[f.name], "field "+fmt.Sprint(v.num)+" does not hold "+f.name+" (once)")
				seen[f.name] = true
				continue
			}
			kv, bad := pbParse(st, v.v)
			must("well formed", "MarshalTo", bad == "", "the encoding of a key is not well formed: "+bad)
			nk++
			if bad != "" || nk > len(keys) {
				continue
			}
			for _, v := range kv {
				f, ok := key[v.num]
				want := pbContent(keys[nk-1].args[0])
				if f.name == "Nonce" {
					want = pbContent(keys[nk-1].args[1])
				}
				must("declared", "MarshalTo", ok && f.wire == v.wire && seqEq(st, v.v, want), fmt.Sprintf("field %d of a key does not hold %s", v.num, f.name))
			}
		}
		must("every key", "MarshalTo", nk == len(keys), fmt.Sprintf("%d of %d keys are written", nk, len(keys)))
		for f, t := range given {
			there := seen[f]
			if f == "ChunkSize" {
				there = there || st.f.entailEq(t, num(0))
			} else {
				there = there || st.f.entailLE(blen(t), num(0))
			}
			must("every field", "MarshalTo", there, f+" is not written")
		}
		done++
		if !decode {
			continue
		}
		um := lastNote(o, "Unmarshal")
		must("decodes", "Unmarshal", um != nil && nilStatus(st.f, um.args[0]) == 1, "what was encoded is refused")
		fs := lastNote(o, "fields")
		if fs == nil {
			continue
		}
		must("read back: ChunkSize", "Unmarshal", st.f.entailEq(given["ChunkSize"], unwrapV(fs.args[0])),
			"ChunkSize "+sk2(given["ChunkSize"])+" is read back as "+sk2(unwrapV(fs.args[0])))
		for k, f := range fields[1:] {
			a, b := given[f], pbContent(fs.args[1+k])
			must("read back: "+f, "Unmarshal", seqEq(st, a, b), f+" "+sk2(a)+" is read back as "+sk2(b))
		}
		es := eventsOf(o, "note:entry")
		must("read back: Keys", "Unmarshal", len(es) == len(keys) && lastNote(o, "read") != nil, fmt.Sprintf("a header of %d keys is read back with %d", len(keys), len(es)))
		for k := 0; k < len(es) && k < len(keys); k++ {
			for m, f := range []string{"DKey", "Nonce"} {
				a, b := pbContent(keys[k].args[m]), pbContent(es[k].args[m])
				must("read back: "+f, "Unmarshal", seqEq(st, a, b), f+" "+sk2(a)+" is read back as "+sk2(b))
			}
		}
	}
	at, fn := site("MarshalTo")
	c.req("reachable", d.name, at, fn, done > 0, "no header is encoded and decoded")
}

// uniform: what the codec does for one, two and three keys tells what it does
// for any number if the number of keys and the counters are compared with each
// other and with -1, 0 and 1 only.
func (c *Ctx) uniform() {
	x := newExec(c.prog)
	var fs []*ssa.Function
	for f := range ssautil.AllFunctions(c.prog.prog) {
		if f.Pkg != nil && f.Pkg == c.prog.pkg("pb") && c.fns[f.String()] && !strings.Contains(f.Name(), "verif_") {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() < fs[j].String() })
	for _, f := range fs {
		counts := map[ssa.Value]bool{}
		isKeys := func(v ssa.Value) bool {
			s, ok := v.Type().Underlying().(*types.Slice)
			if !ok {
				return false
			}
			p, ok := s.Elem().Underlying().(*types.Pointer)
			return ok && strings.HasSuffix(p.Elem().String(), ".WrappedKey")
		}
		for changed := true; changed; {
			changed = false
			mark := func(v ssa.Value) {
				if !counts[v] {
					counts[v] = true
					changed = true
				}
			}
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					switch in := in.(type) {
					case *ssa.Call:
						if bi, ok := in.Call.Value.(*ssa.Builtin); ok && (bi.Name() == "len" || bi.Name() == "cap") && isKeys(in.Call.Args[0]) {
							mark(in)
						}
					case *ssa.IndexAddr:
						if isKeys(in.X) {
							if _, k := in.Index.(*ssa.Const); !k {
								mark(in.Index)
							}
						}
					case *ssa.Convert:
						if counts[in.X] {
							mark(in)
						}
					case *ssa.Phi:
						for _, e := range in.Edges {
							if counts[e] {
								mark(in)
							}
						}
						if counts[in] {
							for _, e := range in.Edges {
								if _, k := e.(*ssa.Const); !k {
									mark(e)
								}
							}
						}
					case *ssa.BinOp:
						if in.Op == token.ADD || in.Op == token.SUB || in.Op == token.QUO || in.Op == token.REM || in.Op == token.AND || in.Op == token.SHR || in.Op == token.SHL || in.Op == token.MUL {
							if counts[in.X] || counts[in.Y] {
								mark(in)
							}
						}
					}
				}
			}
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				bo, ok := in.(*ssa.BinOp)
				if !ok || !counts[bo.X] && !counts[bo.Y] {
					continue
				}
				k, isC := bo.Y.(*ssa.Const)
				if !isC {
					k, isC = bo.X.(*ssa.Const)
				}
				if !isC || k.Value == nil {
					continue
				}
				v, _ := constant.Int64Val(constant.ToInt(k.Value))
				good := v >= -1 && v <= 1
				switch bo.Op {
				case token.REM, token.QUO, token.AND, token.SHR, token.MUL:
					good = v == 1
				}
				c.req("the same for any number of keys", "Keys", x.at(bo.Pos()), f.String(), good, fmt.Sprintf("the code treats a number of keys in a special way (%s %d)", bo.Op, v))
			}
		}
	}
}

func init() { checks["C21"] = checkC21 }
