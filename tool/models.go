package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Models of the functions of other modules, by the name of the function or of
// the interface method. Each model follows the documented contract of the
// function and forks on its failure.

var models = map[string]Model{}
var prefixModels []struct {
	pre string
	m   Model
}

func reg(m Model, names ...string) {
	for _, n := range names {
		models[n] = m
	}
}

func findModel(name string) Model {
	if m, ok := models[name]; ok {
		return m
	}
	for _, p := range prefixModels {
		if strings.HasPrefix(name, p.pre) {
			return p.m
		}
	}
	return nil
}

func tup(ts ...*Term) *Term { return app("tuple", ts...) }

func newBytes(x *Exec, st *State, c *CallCtx, content *Term) *Term {
	n := st.newObj("o:"+c.ctx, "local", nil)
	st.heap[n+"|"] = content
	l := blen(content)
	return sliceOf(n+"|", num(0), l, l)
}

func unwrapI(t *Term) *Term {
	for t.Op == "iface" {
		t = t.A[0]
	}
	return t
}

// objFor is the model object behind a value; opaque values get one of a kind.
func objFor(st *State, t *Term, kind string) string {
	t = unwrapI(t)
	switch t.Op {
	case "ptr":
		o := objOf(t.S)
		if pathOf(t.S) != "" {
			o = o + "|" + pathOf(t.S) // model object embedded in a struct
		}
		if st.objs[objOf(t.S)] != nil {
			return o
		}
	}
	o := fmt.Sprintf("%s@%d", kind, t.id)
	if t.Op == "gvar" {
		o = kind + "@" + t.S
	}
	if st.objs[o] == nil {
		st.objs[o] = &Obj{name: o, kind: kind}
	}
	return o
}

func cell(o, n string) string {
	if strings.Contains(o, "|") {
		return o + "$" + n
	}
	return o + "|$" + n
}

func (s *State) get(o, n string, def *Term) *Term {
	if v, ok := s.heap[cell(o, n)]; ok {
		return v
	}
	return def
}
func (s *State) set(o, n string, v *Term, t types.Type) {
	k := cell(o, n)
	locType[k] = t
	s.heap[k] = v
}

var (
	tyInt  types.Type = types.Typ[types.Int]
	tyStr  types.Type = types.Typ[types.String]
	tyBool types.Type = types.Typ[types.Bool]
)

func errTerm(c *CallCtx, op string, args ...*Term) *Term {
	return intern(Term{Op: op, S: c.site + "/" + c.ctx, A: args})
}

func pred(name string, args ...*Term) *Term { return appS("pred", name, args...) }

// randTerm is the value of this use of the random source: call context and
// how often the context drew before.
func randTerm(st *State, c *CallCtx, n *Term) *Term {
	const o = "rands"
	if _, ok := st.objs[o]; !ok {
		st.objs[o] = &Obj{name: o, kind: "ghost"}
	}
	k := st.get(o, c.ctx, num(0))
	st.set(o, c.ctx, addK(k, 1), tyInt)
	return intern(Term{Op: "rand", S: c.ctx, A: []*Term{k, n}})
}

func (x *Exec) need(st *State, cond *Term, c *CallCtx, what string) {
	if x.rec && x.opts.bounds {
		x.ob("libpanic", c.site, st.f.eval(cond) == 1, what)
	}
	st.f.assume(cond, true)
}

// readInto delivers n bytes of the stream of reader object o into buf.
func readInto(st *State, o string, buf *Term, n *Term) {
	src := appS("instream", o)
	pos := st.get(o, "pos", num(0))
	np := add(pos, n)
	loc, off, _, _ := st.sliceParts(buf)
	if k, ok := n.isConst(); !ok || k > 0 {
		st.writeSeq(loc, off, rawSub(src, pos, np))
	}
	st.set(o, "pos", np, tyInt)
}

func bufLen(st *State, buf *Term) *Term { _, _, ln, _ := st.sliceParts(buf); return ln }

func isRandReader(t *Term) bool { t = unwrapI(t); return t.Op == "gvar" && t.S == "crypto/rand.Reader" }

// readModel: one Read() of a reader
func readModel(x *Exec, c *CallCtx) []MOut {
	st := c.st
	buf := c.args[1]
	if isRandReader(c.args[0]) {
		return fullRead(x, c, c.args[0], buf, true)
	}
	o := objFor(st, c.args[0], "reader")
	switch st.kind(o + "|") {
	case "hkdf":
		return fullRead(x, c, c.args[0], buf, true)
	}
	ln := bufLen(st, buf)
	var outs []MOut
	for i, k := range []string{"", "EOF", "unexpected", "other"} {
		s := st
		if i < 3 {
			s = st.clone()
		}
		n := setRange(fresh("n"), 0, inf)
		s.f.addLin(subT(n, ln))
		readInto(s, o, buf, n)
		var e *Term
		switch k {
		case "":
			e = tNil
		case "EOF":
			e = gvar("io.EOF")
			s.set(o, "eof", tTrue, tyBool)
		case "unexpected":
			e = gvar("io.ErrUnexpectedEOF")
			s.set(o, "rerr", tTrue, tyBool)
		case "other":
			e = otherErr(s, "read")
			s.set(o, "rerr", tTrue, tyBool)
		}
		x.ev(s, c, "read", k == "unexpected" || k == "other", []*Term{ptrTo(o, ""), ln}, n, e)
		outs = append(outs, MOut{st: s, ret: tup(n, e)})
	}
	return outs
}

// fullRead: io.ReadFull
func fullRead(x *Exec, c *CallCtx, rd, buf *Term, single bool) []MOut {
	st := c.st
	ln := bufLen(st, buf)
	loc, off, _, _ := st.sliceParts(buf)
	if isRandReader(rd) {
		bad := st.clone()
		v := randTerm(st, c, ln)
		st.writeSeq(loc, off, v)
		x.ev(st, c, "rand", false, []*Term{ln}, v)
		if x.opts.exact {
			return []MOut{{st: st, ret: tup(ln, tNil)}}
		}
		bad.writeSeq(loc, off, rawSeq(freshName("partial"), ln))
		e := otherErr(bad, "rand")
		x.ev(bad, c, "rand", true, []*Term{ln}, e)
		m := setRange(fresh("n"), 0, inf)
		bad.f.addLin(lcomb(1, 1, m, -1, ln))
		return []MOut{{st: st, ret: tup(ln, tNil)}, {st: bad, ret: tup(m, e)}}
	}
	o := objFor(st, rd, "reader")
	if st.kind(o+"|") == "hkdf" {
		s := st.get(o, "stream", nil)
		pos := st.get(o, "pos", num(0))
		np := add(pos, ln)
		lim, _ := st.get(o, "limit", num(0)).isConst()
		var outs []MOut
		le := mkLE(np, num(lim))
		bad := st.clone()
		if st.f.eval(le) != 0 && st.f.assume(le, true) {
			st.writeSeq(loc, off, rawSub(s, pos, np))
			st.set(o, "pos", np, tyInt)
			outs = append(outs, MOut{st: st, ret: tup(ln, tNil)})
		}
		if bad.f.eval(le) != 1 && bad.f.assume(le, false) {
			e := otherErr(bad, "hkdf")
			bad.writeSeq(loc, off, rawSeq(freshName("partial"), ln))
			x.ev(bad, c, "hkdf.read", true, []*Term{ln}, e)
			outs = append(outs, MOut{st: bad, ret: tup(num(0), e)})
		}
		return outs
	}
	var outs []MOut
	zero := mkLE(ln, num(0))
	z := st.f.eval(zero)
	base := st
	if z != 1 {
		for _, k := range []string{"EOF", "short", "unexpected", "other"} {
			s := base.clone()
			if z == -1 && !s.f.assume(zero, false) {
				continue
			}
			n := setRange(fresh("n"), 0, inf)
			s.f.addLin(lcomb(1, 1, n, -1, ln))
			var e *Term
			failed := false
			switch k {
			case "EOF":
				n = num(0)
				e = gvar("io.EOF")
				s.set(o, "eof", tTrue, tyBool)
			case "short":
				s.f.addLin(subT(num(1), n))
				e = gvar("io.ErrUnexpectedEOF")
				s.set(o, "eof", tTrue, tyBool)
			case "unexpected":
				e = gvar("io.ErrUnexpectedEOF")
				failed = true
				s.set(o, "rerr", tTrue, tyBool)
			case "other":
				e = otherErr(s, "read")
				failed = true
				s.set(o, "rerr", tTrue, tyBool)
			}
			readInto(s, o, buf, n)
			kind := "readfull"
			if k == "short" || k == "EOF" {
				kind = "readfull." + strings.ToLower(k)
			}
			x.ev(s, c, kind, failed, []*Term{ptrTo(o, ""), ln}, n, e)
			outs = append(outs, MOut{st: s, ret: tup(n, e)})
		}
	}
	if x.nonEmptyOrUnknown(base, z) {
		readInto(base, o, buf, ln)
		x.ev(base, c, "readfull", false, []*Term{ptrTo(o, ""), ln}, ln, tNil)
		outs = append([]MOut{{st: base, ret: tup(ln, tNil)}}, outs...)
	}
	return outs
}

func (x *Exec) nonEmptyOrUnknown(st *State, z int) bool { return true }

// countMark counts the top bits of the additional data of an AEAD: in this
// file format, the end of stream mark.
func countMark(st *State, o string, ad *Term) {
	n := st.get(o, "eofs", num(0))
	if k, ok := blen(ad).isConst(); ok && k >= 4 {
		w := beget(4, bsub(st.f, ad, num(0), num(4)))
		b := app("b2i", intern(Term{Op: "bit", N: 31, A: []*Term{w}}))
		if c, ok := w.isConst(); ok {
			b = num(c >> 31 & 1)
		} else if st.f.entailLE(w, num(1<<31-1)) {
			b = num(0)
		} else if st.f.entailLE(num(1<<31), w) {
			b = num(1)
		} else if v := st.f.eval(b.A[0]); v >= 0 {
			b = num(int64(v))
		}
		n = add(n, b)
	} else if !ok || k > 0 {
		n = add(n, setRange(fresh("mark"), 0, 1))
	}
	st.set(o, "eofs", n, tyInt)
}

// writeModel: Write of a destination
func writeModel(x *Exec, c *CallCtx) []MOut {
	st := c.st
	data := st.bytesOf(c.args[1])
	recv := c.args[0]
	o := objFor(st, recv, "writer")
	k := st.kind(o + "|")
	if i := strings.Index(o, "|"); i >= 0 {
		k = st.kind(o)
	}
	if strings.HasPrefix(k, "hash:") || strings.HasPrefix(k, "hmac:") {
		st.set(o, "buf", cat(st.get(o, "buf", tEmpty), data), tyStr)
		return one(st, tup(blen(data), tNil))
	}
	return writeOut(x, c, o, data)
}

func writeOut(x *Exec, c *CallCtx, o string, data *Term) []MOut {
	st := c.st
	n := blen(data)
	if strings.HasPrefix(o, "writer@os.Std") && !(x.opts.cli && o == "writer@os.Stdout") { // diagnostics: never an output of the operation
		x.ev(st, c, "write", false, []*Term{ptrTo(o, ""), data}, n)
		m := setRange(fresh("n"), 0, inf)
		st.f.addLin(subT(m, n))
		return one(st, tup(m, makeSym(st, types.Universe.Lookup("error").Type(), freshName("stdwrite"))))
	}
	bad := st.clone()
	x.ev(st, c, "write", false, []*Term{ptrTo(o, ""), data}, n)
	st.set(o, "out", cat(st.get(o, "out", tEmpty), data), tyStr)
	e := otherErr(bad, "write")
	m := setRange(fresh("n"), 0, inf)
	bad.f.addLin(subT(m, n))
	x.ev(bad, c, "write", true, []*Term{ptrTo(o, ""), data}, e)
	bad.set(o, "out", cat(bad.get(o, "out", tEmpty), rawSub(data, num(0), m)), tyStr)
	bad.set(o, "failed", tTrue, tyBool)
	return []MOut{{st: st, ret: tup(n, tNil)}, {st: bad, ret: tup(m, e)}}
}

func closeModel(kind string) Model {
	return func(x *Exec, c *CallCtx) []MOut {
		st := c.st
		o := objFor(st, c.args[0], kind)
		sf := st.kind(o+"|") == "safefile"
		if x.opts.cli && (sf || o == "writer@os.Stdout") {
			// closed or aborted before: the first of them counts
			if st.f.eval(st.get(o, "closed", tFalse)) == 1 {
				if !sf {
					return one(st, otherErr(st, "closed"))
				}
				return one(st, tNil)
			}
			// as after a failed write, which removes the temporary file
			if sf && st.f.eval(st.get(o, "failed", tFalse)) == 1 {
				st.set(o, "aborted", tTrue, tyBool)
			}
			if st.f.eval(st.get(o, "aborted", tFalse)) == 1 {
				return one(st, otherErr(st, "aborted"))
			}
		}
		bad := st.clone()
		x.ev(st, c, "close", false, []*Term{ptrTo(o, "")})
		st.set(o, "closed", tTrue, tyBool)
		e := otherErr(bad, "close")
		x.ev(bad, c, "close", true, []*Term{ptrTo(o, "")}, e)
		bad.set(o, "failed", tTrue, tyBool)
		if sf && x.opts.cli { // it removes the temporary file
			bad.set(o, "aborted", tTrue, tyBool)
		}
		return []MOut{{st: st, ret: tNil}, {st: bad, ret: e}}
	}
}

func hashNew(alg string) Model {
	return func(x *Exec, c *CallCtx) []MOut {
		n := c.st.newObj("o:"+c.ctx, "hash:"+alg, nil)
		c.st.set(n, "buf", tEmpty, tyStr)
		return one(c.st, ptrTo(n, ""))
	}
}

func hashFnAlg(f *Term) string {
	switch {
	case strings.HasSuffix(f.S, "sha256.New"):
		return "sha256"
	case strings.HasSuffix(f.S, "sha512.New"):
		return "sha512"
	case strings.HasSuffix(f.S, "sha1.New"):
		return "sha1"
	case strings.HasSuffix(f.S, "md5.New"):
		return "md5"
	case strings.HasSuffix(f.S, "sha512.New384"):
		return "sha384"
	case strings.HasSuffix(f.S, "sha512.New512_256"):
		return "sha512_256"
	case strings.HasSuffix(f.S, "sha256.New224"):
		return "sha224"
	}
	return f.Op + f.S
}

func hashTerm(st *State, o string) *Term {
	k := st.kind(o + "|")
	if strings.Contains(o, "|") {
		k = st.kind(o)
	}
	buf := st.get(o, "buf", tEmpty)
	if strings.HasPrefix(k, "hmac:") {
		return intern(Term{Op: "hmac", S: k[5:], A: []*Term{st.get(o, "key", tEmpty), buf}})
	}
	if strings.HasPrefix(k, "hash:") {
		return intern(Term{Op: "hash", S: k[5:], A: []*Term{buf}})
	}
	return appS("exthash", o, buf)
}

func alloc0(st *State, c *CallCtx, kind string) string { return st.newObj("o:"+c.ctx, kind, nil) }

func failing(x *Exec, c *CallCtx, kind string, args []*Term, okRet func(st *State) *Term, badRet func(st *State, e *Term) *Term) []MOut {
	st := c.st
	bad := st.clone()
	r := okRet(st)
	x.ev(st, c, kind, false, args, r)
	if x.opts.exact { // nothing fails that need not
		return []MOut{{st: st, ret: r}}
	}
	e := otherErr(bad, kind)
	b := badRet(bad, e)
	x.ev(bad, c, kind, true, args, e)
	return []MOut{{st: st, ret: r}, {st: bad, ret: b}}
}

func init() {
	// ---- hashes ----
	reg(hashNew("sha256"), "crypto/sha256.New")
	reg(hashNew("sha512"), "crypto/sha512.New")
	reg(hashNew("sha384"), "crypto/sha512.New384")
	reg(hashNew("sha512_256"), "crypto/sha512.New512_256")
	reg(hashNew("sha224"), "crypto/sha256.New224")
	reg(hashNew("sha1"), "crypto/sha1.New")
	reg(hashNew("md5"), "crypto/md5.New")
	sum := func(alg string) Model {
		return func(x *Exec, c *CallCtx) []MOut {
			return one(c.st, intern(Term{Op: "hash", S: alg, A: []*Term{c.st.bytesOf(c.args[0])}}))
		}
	}
	reg(sum("sha256"), "crypto/sha256.Sum256")
	reg(sum("sha512"), "crypto/sha512.Sum512")
	reg(sum("sha384"), "crypto/sha512.Sum384")
	reg(sum("sha512_256"), "crypto/sha512.Sum512_256")
	reg(sum("sha1"), "crypto/sha1.Sum")
	reg(sum("md5"), "crypto/md5.Sum")
	reg(func(x *Exec, c *CallCtx) []MOut {
		st := c.st
		n := alloc0(st, c, "hmac:"+hashFnAlg(c.args[0]))
		st.set(n, "buf", tEmpty, tyStr)
		st.set(n, "key", st.bytesOf(c.args[1]), tyStr)
		return one(st, ptrTo(n, ""))
	}, "crypto/hmac.New")
	reg(func(x *Exec, c *CallCtx) []MOut {
		a, b := c.st.bytesOf(c.args[0]), c.st.bytesOf(c.args[1])
		return one(c.st, beq(a, b))
	}, "crypto/hmac.Equal", "bytes.Equal")
	reg(func(x *Exec, c *CallCtx) []MOut {
		o := objFor(c.st, c.args[0], "hash")
		return x.appendTo(c, c.args[1], hashTerm(c.st, o), types.Typ[types.Uint8])
	}, "(hash.Hash).Sum")
	reg(func(x *Exec, c *CallCtx) []MOut {
		o := objFor(c.st, c.args[0], "hash")
		c.st.set(o, "buf", tEmpty, tyStr)
		return one(c.st, tUnit)
	}, "(hash.Hash).Reset")
	reg(func(x *Exec, c *CallCtx) []MOut {
		o := objFor(c.st, c.args[0], "hash")
		return one(c.st, blen(hashTerm(c.st, o)))
	}, "(hash.Hash).Size")
	reg(func(x *Exec, c *CallCtx) []MOut { return one(c.st, num(64)) }, "(hash.Hash).BlockSize")

	// ---- hkdf ----
	hk := func(st *State, alg string, secret, salt, info *Term) *Term {
		return appS("hkdf", alg, secret, salt, info)
	}
	reg(func(x *Exec, c *CallCtx) []MOut {
		st := c.st
		n := alloc0(st, c, "hkdf")
		alg := hashFnAlg(c.args[0])
		st.set(n, "stream", hk(st, alg, st.bytesOf(c.args[1]), st.bytesOf(c.args[2]), st.bytesOf(c.args[3])), tyStr)
		st.set(n, "pos", num(0), tyInt)
		hl := hashLen[alg]
		if hl == 0 {
			hl = 16
		}
		st.set(n, "limit", num(255*hl), tyInt)
		return one(st, ptrTo(n, ""))
	}, "golang.org/x/crypto/hkdf.New")
	reg(func(x *Exec, c *CallCtx) []MOut {
		st := c.st
		alg := hashFnAlg(c.args[0])
		s := hk(st, alg, st.bytesOf(c.args[1]), st.bytesOf(c.args[2]), st.bytesOf(c.args[3]))
		return failing(x, c, "hkdf.key", nil, func(st *State) *Term {
			return tup(newBytes(x, st, c, rawSub(s, num(0), c.args[4])), tNil)
		}, func(st *State, e *Term) *Term { return tup(tNil, e) })
	}, "crypto/hkdf.Key")

	// ---- ciphers ----
	reg(func(x *Exec, c *CallCtx) []MOut {
		st := c.st
		key := st.bytesOf(c.args[0])
		mk := func(st *State) *Term {
			n := alloc0(st, c, "aesblock")
			st.set(n, "key", key, tyStr)
			return tup(ptrTo(n, ""), tNil)
		}
		if k, ok := blen(key).isConst(); ok && (k == 16 || k == 24 || k == 32) {
			return one(st, mk(st))
		}
		return failing(x, c, "aes.new", []*Term{key}, mk, func(st *State, e *Term) *Term { return tup(tNil, e) })
	}, "crypto/aes.NewCipher")
	reg(func(x *Exec, c *CallCtx) []MOut {
		st := c.st
		o := objFor(st, c.args[0], "block")
		n := alloc0(st, c, "aead")
		st.set(n, "key", st.get(o, "key", appS("extkey", o)), tyStr)
		st.set(n, "alg", bconst("aes-gcm"), tyStr)
		for _, g := range []string{"nseal", "nopen", "npt", "eofs"} {
			st.set(n, g, num(0), tyInt)
		}
		st.set(n, "badopen", tFalse, tyBool)
		for _, g := range []string{"adpt", "adct", "pt"} {
			st.set(n, g, tEmpty, tyStr)
		}
		return one(st, tup(ptrTo(n, ""), tNil))
	}, "crypto/cipher.NewGCM")
	reg(func(x *Exec, c *CallCtx) []MOut { return one(c.st, num(16)) }, "(crypto/cipher.AEAD).Overhead", "(crypto/cipher.Block).BlockSize")
	reg(func(x *Exec, c *CallCtx) []MOut { return one(c.st, num(12)) }, "(crypto/cipher.AEAD).NonceSize")
	reg(func(x *Exec, c *CallCtx) []MOut { // Seal(dst, nonce, pt, ad)
		st := c.st
		o := objFor(st, c.args[0], "aead")
		nonce, pt, ad := st.bytesOf(c.args[2]), st.bytesOf(c.args[3]), st.bytesOf(c.args[4])
		key := st.get(o, "key", appS("extkey", o))
		x.need(st, eq0(addK(blen(nonce), -12)), c, "the nonce of Seal is not 12 bytes long")
		ct := app("seal", key, nonce, pt, ad)
		x.ev(st, c, "seal", false, []*Term{key, nonce, pt, ad, ptrTo(o, "")}, ct)
		st.set(o, "nseal", addK(st.get(o, "nseal", num(0)), 1), tyInt)
		st.set(o, "adpt", cat(st.get(o, "adpt", tEmpty), ad, pt), tyStr)
		st.set(o, "adct", cat(st.get(o, "adct", tEmpty), ad, ct), tyStr)
		st.set(o, "pt", cat(st.get(o, "pt", tEmpty), pt), tyStr)
		countMark(st, o, ad)
		return x.appendTo(c, c.args[1], ct, types.Typ[types.Uint8])
	}, "(crypto/cipher.AEAD).Seal")
	reg(func(x *Exec, c *CallCtx) []MOut { // Open(dst, nonce, ct, ad)
		st := c.st
		o := objFor(st, c.args[0], "aead")
		nonce, ct, ad := st.bytesOf(c.args[2]), st.bytesOf(c.args[3]), st.bytesOf(c.args[4])
		key := st.get(o, "key", appS("extkey", o))
		x.need(st, eq0(addK(blen(nonce), -12)), c, "the nonce of Open is not 12 bytes long")
		bad := st.clone()
		var outs []MOut
		same := func(a, b *Term) bool { return a == b }
		if x.opts.exact {
			ct = wholeOf(st, ct)
			same = func(a, b *Term) bool { return seqEq(st, a, b) }
		}
		sealed := ct.Op == "seal" && same(ct.A[0], key) && same(ct.A[1], nonce) && same(ct.A[3], ad)
		if (sealed || !x.opts.exact) && st.f.assume(mkLE(num(16), blen(ct)), true) {
			m := addK(blen(ct), -16)
			var pt *Term
			stream := false
			walk(ct, func(t *Term) bool {
				if t.Op == "instream" {
					stream = true
				}
				return !stream
			})
			npt := st.get(o, "npt", num(0))
			switch {
			case sealed:
				pt = ct.A[2]
			case stream:
				pt = rawSub(appS("pt", o), npt, add(npt, m))
			default:
				pt = app("open", key, nonce, ct, ad)
			}
			x.ev(st, c, "open", false, []*Term{key, nonce, ct, ad, ptrTo(o, "")}, pt)
			st.set(o, "nopen", addK(st.get(o, "nopen", num(0)), 1), tyInt)
			st.set(o, "npt", add(npt, m), tyInt)
			st.set(o, "adpt", cat(st.get(o, "adpt", tEmpty), ad, pt), tyStr)
			st.set(o, "adct", cat(st.get(o, "adct", tEmpty), ad, ct), tyStr)
			countMark(st, o, ad)
			for _, r := range x.appendTo(c, c.args[1], pt, types.Typ[types.Uint8]) {
				outs = append(outs, MOut{st: r.st, ret: tup(r.ret, tNil)})
			}
		}
		if sealed {
			return outs // what was sealed so opens
		}
		e := otherErr(bad, "open")
		x.ev(bad, c, "open", true, []*Term{key, nonce, ct, ad, ptrTo(o, "")}, e)
		if x.opts.tally {
			bad.set("rands", "opens", addK(bad.get("rands", "opens", num(0)), 1), tyInt)
		}
		bad.set(o, "badopen", tTrue, tyBool)
		// the destination buffer is overwritten with nothing useful
		outs = append(outs, MOut{st: bad, ret: tup(tNil, e)})
		return outs
	}, "(crypto/cipher.AEAD).Open")
	modeNew := func(kind string) Model {
		return func(x *Exec, c *CallCtx) []MOut {
			st := c.st
			o := objFor(st, c.args[0], "block")
			n := alloc0(st, c, kind)
			x.need(st, eq0(addK(bufLen(st, c.args[1]), -16)), c, "the IV is not 16 bytes long")
			st.set(n, "key", st.get(o, "key", appS("extkey", o)), tyStr)
			st.set(n, "iv", st.bytesOf(c.args[1]), tyStr)
			return one(st, ptrTo(n, ""))
		}
	}
	reg(modeNew("cbcdec"), "crypto/cipher.NewCBCDecrypter")
	reg(modeNew("cbcenc"), "crypto/cipher.NewCBCEncrypter")
	reg(modeNew("ctr"), "crypto/cipher.NewCTR")
	crypt := func(x *Exec, c *CallCtx) []MOut { // (dst, src)
		st := c.st
		o := objFor(st, c.args[0], "mode")
		k := st.kind(o + "|")
		src := st.bytesOf(c.args[2])
		x.need(st, mkLE(blen(src), bufLen(st, c.args[1])), c, "output of the cipher is smaller than its input")
		if strings.HasPrefix(k, "cbc") {
			x.need(st, eq0(app("and", blen(src), num(15))), c, "the input of CBC is not a multiple of the block size: "+short(blen(src)))
		}
		out := appS("ciph", k, src, st.get(o, "key", tEmpty), st.get(o, "iv", tEmpty))
		loc, off, _, _ := st.sliceParts(c.args[1])
		st.writeSeq(loc, off, out)
		x.ev(st, c, "crypt", false, []*Term{src, st.get(o, "key", tEmpty), st.get(o, "iv", tEmpty)}, out)
		return one(st, tUnit)
	}
	reg(crypt, "(crypto/cipher.BlockMode).CryptBlocks", "(crypto/cipher.Stream).XORKeyStream")

	// ---- public key ----
	reg(func(x *Exec, c *CallCtx) []MOut {
		st := c.st
		a, b := st.bytesOf(c.args[0]), st.bytesOf(c.args[1])
		r := app("x25519", a, b)
		if x.opts.exact {
			r = sharedSecret(a, b)
		}
		return failing(x, c, "x25519", []*Term{a, b}, func(st *State) *Term { return tup(newBytes(x, st, c, r), tNil) },
			func(st *State, e *Term) *Term { return tup(tNil, e) })
	}, "golang.org/x/crypto/curve25519.X25519")
	reg(func(x *Exec, c *CallCtx) []MOut { // ScalarMult(dst, scalar, point *[32]byte)
		st := c.st
		a := x.loadFrom(st, c.args[1], types.NewArray(types.Typ[types.Uint8], 32))
		b := x.loadFrom(st, c.args[2], types.NewArray(types.Typ[types.Uint8], 32))
		x.storeTo(st, c.args[0], types.NewArray(types.Typ[types.Uint8], 32), app("x25519", a, b))
		x.ev(st, c, "x25519", false, []*Term{a, b})
		return one(st, tUnit)
	}, "golang.org/x/crypto/curve25519.ScalarMult")
	reg(func(x *Exec, c *CallCtx) []MOut {
		st := c.st
		a := x.loadFrom(st, c.args[1], types.NewArray(types.Typ[types.Uint8], 32))
		x.storeTo(st, c.args[0], types.NewArray(types.Typ[types.Uint8], 32), app("x25519", a, rawSeq("basepoint", num(32))))
		x.ev(st, c, "x25519", false, []*Term{a, rawSeq("basepoint", num(32))})
		return one(st, tUnit)
	}, "golang.org/x/crypto/curve25519.ScalarBaseMult")
	for _, ed := range []string{"crypto/ed25519", "golang.org/x/crypto/ed25519"} {
		reg(func(x *Exec, c *CallCtx) []MOut {
			seed := randTerm(c.st, c, num(32))
			return failing(x, c, "rand", []*Term{num(32), c.args[0]}, func(st *State) *Term {
				pk := app("edpub", seed)
				n := st.newObj("o:"+c.ctx+".pk", "local", nil)
				st.heap[n+"|"] = pk
				return tup(sliceOf(n+"|", num(0), num(32), num(32)), newBytes(x, st, c, cat(seed, pk)), tNil)
			}, func(st *State, e *Term) *Term { return tup(tNil, tNil, e) })
		}, ed+".GenerateKey")
		reg(func(x *Exec, c *CallCtx) []MOut {
			seed := c.st.bytesOf(c.args[0])
			x.need(c.st, eq0(addK(blen(seed), -32)), c, "the seed is not 32 bytes long")
			return one(c.st, newBytes(x, c.st, c, cat(seed, app("edpub", seed))))
		}, ed+".NewKeyFromSeed")
		sign := func(x *Exec, c *CallCtx, sk, msg *Term) (*Term, *Term) {
			x.need(c.st, eq0(addK(blen(sk), -64)), c, "the signing key is not 64 bytes long")
			return sk, app("edsign", sk, msg)
		}
		reg(func(x *Exec, c *CallCtx) []MOut {
			st := c.st
			msg := st.bytesOf(c.args[1])
			sk, sig := sign(x, c, st.bytesOf(c.args[0]), msg)
			x.ev(st, c, "edsign", false, []*Term{sk, msg}, sig)
			return one(st, newBytes(x, st, c, sig))
		}, ed+".Sign")
		reg(func(x *Exec, c *CallCtx) []MOut {
			st := c.st
			msg := st.bytesOf(c.args[2])
			sk, sig := sign(x, c, st.bytesOf(c.args[0]), msg)
			if o := unwrapI(c.args[3]); !(o == num(0)) {
				sig = app("edsignopt", sk, msg, o)
			}
			return failing(x, c, "edsign", []*Term{sk, msg}, func(st *State) *Term { return tup(newBytes(x, st, c, sig), tNil) },
				func(st *State, e *Term) *Term { return tup(tNil, e) })
		}, "("+ed+".PrivateKey).Sign")
		reg(func(x *Exec, c *CallCtx) []MOut {
			st := c.st
			sk := st.bytesOf(c.args[0])
			t := c.sig.Results().At(0).Type()
			_ = t
			pk := newBytes(x, st, c, bsub(st.f, sk, num(32), num(64)))
			return one(st, intern(Term{Op: "iface", S: "crypto/ed25519.PublicKey", A: []*Term{pk}}))
		}, "("+ed+".PrivateKey).Public")
		reg(func(x *Exec, c *CallCtx) []MOut {
			return one(c.st, newBytes(x, c.st, c, bsub(c.st.f, c.st.bytesOf(c.args[0]), num(0), num(32))))
		}, "("+ed+".PrivateKey).Seed")
		reg(func(x *Exec, c *CallCtx) []MOut {
			st := c.st
			pk, msg, sig := st.bytesOf(c.args[0]), st.bytesOf(c.args[1]), st.bytesOf(c.args[2])
			x.need(st, eq0(addK(blen(pk), -32)), c, "the public key is not 32 bytes long")
			v := pred("edverify", pk, msg, sig)
			if x.opts.exact {
				v = tFalse
				if sig.Op == "edsign" && sig.A[1] == msg && hasPair(sig.A[0], pk) {
					v = tTrue
				}
			}
			x.ev(st, c, "edverify", false, []*Term{pk, msg, sig}, v)
			return one(st, v)
		}, ed+".Verify")
	}

	// ---- kdfs ----
	reg(func(x *Exec, c *CallCtx) []MOut {
		st := c.st
		pw, salt := st.bytesOf(c.args[0]), st.bytesOf(c.args[1])
		N, r, p, l := c.args[2], c.args[3], c.args[4], c.args[5]
		if x.rec {
			x.ob("scrypt-cost", c.site, scryptBounded(st, N, r, p), fmt.Sprintf("the cost of scrypt (N=%s r=%s p=%s) is not bounded by a checked limit", short(N), short(r), short(p)))
			if x.opts.bounds {
				x.ob("libpanic", c.site, st.f.entailLE(num(1), r) && st.f.entailLE(num(1), p), "scrypt panics (division by zero) when r or p is 0")
			}
		}
		k := intern(Term{Op: "kdf", S: "scrypt", A: []*Term{pw, salt, N, r, p, l}})
		if scryptValid(N, r, p) {
			v := newBytes(x, st, c, k)
			x.ev(st, c, "scrypt", false, []*Term{pw, salt, N, r, p, l}, v)
			return one(st, tup(v, tNil))
		}
		return failing(x, c, "scrypt", []*Term{pw, salt, N, r, p, l}, func(st *State) *Term { return tup(newBytes(x, st, c, k), tNil) },
			func(st *State, e *Term) *Term { return tup(tNil, e) })
	}, "golang.org/x/crypto/scrypt.Key")
	reg(func(x *Exec, c *CallCtx) []MOut {
		st := c.st
		pw, salt := st.bytesOf(c.args[0]), st.bytesOf(c.args[1])
		k := intern(Term{Op: "kdf", S: "bcrypt_pbkdf", A: []*Term{pw, salt, c.args[2], c.args[3]}})
		return failing(x, c, "bcrypt_pbkdf", []*Term{pw, salt, c.args[2], c.args[3]}, func(st *State) *Term { return tup(newBytes(x, st, c, k), tNil) },
			func(st *State, e *Term) *Term { return tup(tNil, e) })
	}, "github.com/dchest/bcrypt_pbkdf.Key")

	// ---- readers and writers ----
	reg(readModel, "(io.Reader).Read", "(io.ReadCloser).Read", "(*os.File).Read", "(io.ReadWriter).Read")
	reg(func(x *Exec, c *CallCtx) []MOut { return fullRead(x, c, c.args[0], c.args[1], false) }, "io.ReadFull")
	reg(func(x *Exec, c *CallCtx) []MOut {
		if c.args[2] == bufLen(c.st, c.args[1]) {
			return fullRead(x, c, c.args[0], c.args[1], false)
		}
		x.giveUp("io.ReadAtLeast with a smaller minimum")
		return fullRead(x, c, c.args[0], c.args[1], false)
	}, "io.ReadAtLeast")
	reg(func(x *Exec, c *CallCtx) []MOut { return fullRead(x, c, gvar("crypto/rand.Reader"), c.args[0], true) }, "crypto/rand.Read")
	reg(writeModel, "(io.Writer).Write", "(io.WriteCloser).Write", "(*os.File).Write", "(*os.File).WriteString", "(io.StringWriter).WriteString", "io.WriteString", "(*github.com/opencoff/go-fio.SafeFile).Write", "(*github.com/opencoff/go-fio.SafeFile).WriteString")
	reg(closeModel("writer"), "(io.Closer).Close", "(io.WriteCloser).Close", "(io.ReadCloser).Close", "(*os.File).Close", "(*github.com/opencoff/go-fio.SafeFile).Close")
	reg(func(x *Exec, c *CallCtx) []MOut {
		o := objFor(c.st, c.args[0], "writer")
		x.ev(c.st, c, "abort", false, []*Term{ptrTo(o, "")})
		if c.st.f.eval(c.st.get(o, "closed", tFalse)) != 1 {
			c.st.set(o, "aborted", tTrue, tyBool)
		}
		return one(c.st, tUnit)
	}, "(*github.com/opencoff/go-fio.SafeFile).Abort")
	reg(func(x *Exec, c *CallCtx) []MOut { return one(c.st, tNil) }, "(*os.File).Sync", "(*github.com/opencoff/go-fio.SafeFile).Sync")
	reg(func(x *Exec, c *CallCtx) []MOut {
		return failing(x, c, "safefile.new", c.args, func(st *State) *Term {
			n := alloc0(st, c, "safefile")
			st.set(n, "name", c.args[0], tyStr)
			st.set(n, "mode", c.args[3], tyInt)
			st.set(n, "out", tEmpty, tyStr)
			for _, k := range []string{"failed", "closed", "aborted"} {
				st.set(n, k, tFalse, tyBool)
			}
			_ = st
			return tup(ptrTo(n, ""), tNil)
		}, func(st *State, e *Term) *Term { return tup(tNil, e) })
	}, "github.com/opencoff/go-fio.NewSafeFile")

	// ---- os ----
	open := func(kind string) Model {
		return func(x *Exec, c *CallCtx) []MOut {
			return failing(x, c, kind, c.args, func(st *State) *Term {
				n := alloc0(st, c, "file")
				st.set(n, "name", c.args[0], tyStr)
				st.set(n, "pos", num(0), tyInt)
				st.set(n, "out", tEmpty, tyStr)
				return tup(ptrTo(n, ""), tNil)
			}, func(st *State, e *Term) *Term { return tup(tNil, e) })
		}
	}
	reg(open("os.open"), "os.Open")
	reg(open("os.openfile"), "os.OpenFile")
	reg(open("os.create"), "os.Create")
	stat := func(kind string) Model {
		return func(x *Exec, c *CallCtx) []MOut {
			st := c.st
			ne := st.clone()
			bad := st.clone()
			info := intern(Term{Op: "isym", S: freshName(kind), A: []*Term{intern(Term{Op: "typ", S: "os.FileInfo"})}})
			st.f.assume(app("isnil", info), false)
			arg := c.args[0]
			if arg.Op == "ptr" {
				arg = appS("fdstat", objOf(arg.S))
			}
			symOrigin[info.S] = appS(kind, "", arg)
			x.ev(st, c, kind, false, []*Term{arg}, info)
			e1 := intern(Term{Op: "err", S: "notexist:" + freshName("stat")})
			ne.f.assume(app("isnil", e1), false)
			x.ev(ne, c, kind+".notexist", false, []*Term{arg}, e1)
			e2 := otherErr(bad, kind)
			x.ev(bad, c, kind, true, []*Term{arg}, e2)
			return []MOut{{st: st, ret: tup(info, tNil)}, {st: ne, ret: tup(tNil, e1)}, {st: bad, ret: tup(tNil, e2)}}
		}
	}
	reg(stat("os.stat"), "os.Stat")
	reg(stat("os.lstat"), "os.Lstat")
	reg(stat("file.stat"), "(*os.File).Stat")
	reg(func(x *Exec, c *CallCtx) []MOut {
		a, b := c.args[0], c.args[1]
		if a.id > b.id {
			a, b = b, a
		}
		x.ev(c.st, c, "samefile", false, []*Term{a, b})
		return one(c.st, pred("samefile", a, b))
	}, "os.SameFile")
	reg(func(x *Exec, c *CallCtx) []MOut {
		st := c.st
		ne := st.clone()
		bad := st.clone()
		data := rawSeq(freshName("filedata"), setRange(sym(freshName("filelen")), 0, inf))
		symOrigin[data.S] = appS("readfile", "", c.args[0])
		s := newBytes(x, st, c, data)
		x.ev(st, c, "readfile", false, c.args, data)
		e1 := intern(Term{Op: "err", S: "notexist:" + freshName("readfile")})
		ne.f.assume(app("isnil", e1), false)
		x.ev(ne, c, "readfile.notexist", false, c.args, e1)
		e2 := otherErr(bad, "readfile")
		x.ev(bad, c, "readfile", true, c.args, e2)
		return []MOut{{st: st, ret: tup(s, tNil)}, {st: ne, ret: tup(tNil, e1)}, {st: bad, ret: tup(tNil, e2)}}
	}, "os.ReadFile", "io/ioutil.ReadFile")
	wf := func(x *Exec, c *CallCtx) []MOut {
		return failing(x, c, "os.writefile", append([]*Term{c.args[0], c.st.bytesOf(c.args[1])}, c.args[2:]...), func(st *State) *Term { return tNil }, func(st *State, e *Term) *Term { return e })
	}
	reg(wf, "os.WriteFile", "io/ioutil.WriteFile")
	reg(func(x *Exec, c *CallCtx) []MOut {
		e := c.args[0]
		return one(c.st, notExist(e))
	}, "os.IsNotExist")
	reg(func(x *Exec, c *CallCtx) []MOut {
		x.ev(c.st, c, "getenv", false, c.args)
		return one(c.st, app("env", c.args[0]))
	}, "os.Getenv")
	reg(func(x *Exec, c *CallCtx) []MOut { return one(c.st, app("cleanpath", c.args[0])) }, "path.Clean", "path/filepath.Clean")
	reg(func(x *Exec, c *CallCtx) []MOut {
		x.ev(c.st, c, "getenv", false, c.args)
		v := app("env", c.args[0])
		return one(c.st, tup(v, pred("envset", c.args[0])))
	}, "os.LookupEnv")
	reg(func(x *Exec, c *CallCtx) []MOut {
		return failing(x, c, "homedir", nil, func(st *State) *Term { return tup(app("homedir"), tNil) }, func(st *State, e *Term) *Term { return tup(tEmpty, e) })
	}, "os.UserHomeDir")
	reg(func(x *Exec, c *CallCtx) []MOut {
		x.ev(c.st, c, "exit", false, c.args)
		return []MOut{{st: c.st, ret: c.args[0], out: "exit"}}
	}, "os.Exit")

	// ---- encodings ----
	for _, bo := range []string{"big", "little"} {
		big := bo == "big"
		T := "(encoding/binary." + bo + "Endian)."
		for _, w := range []int{2, 4, 8} {
			w := w
			enc := func(v *Term) *Term {
				if big {
					return be(w, v)
				}
				if v.Op == "leget" && int(v.N) == w {
					return v.A[0]
				}
				return intern(Term{Op: "le", N: int64(w), A: []*Term{v}})
			}
			reg(func(x *Exec, c *CallCtx) []MOut {
				st := c.st
				loc, off, ln, _ := st.sliceParts(c.args[1])
				x.need(st, mkLE(num(int64(w)), ln), c, fmt.Sprintf("PutUint%d needs %d bytes, has %s", 8*w, w, short(ln)))
				st.writeSeq(loc, off, enc(c.args[2]))
				return one(st, tUnit)
			}, fmt.Sprintf("%sPutUint%d", T, 8*w))
			reg(func(x *Exec, c *CallCtx) []MOut {
				return x.appendTo(c, c.args[1], enc(c.args[2]), types.Typ[types.Uint8])
			}, fmt.Sprintf("%sAppendUint%d", T, 8*w))
			reg(func(x *Exec, c *CallCtx) []MOut {
				st := c.st
				loc, off, ln, _ := st.sliceParts(c.args[1])
				x.need(st, mkLE(num(int64(w)), ln), c, fmt.Sprintf("Uint%d needs %d bytes, has %s", 8*w, w, short(ln)))
				b := st.content(loc, off, num(int64(w)))
				if big {
					return one(st, beget(w, b))
				}
				if b.Op == "le" && int(b.N) == w {
					return one(st, b.A[0])
				}
				r := intern(Term{Op: "leget", N: int64(w), A: []*Term{b}})
				if w <= 4 {
					setRange(r, 0, int64(1)<<(8*uint(w))-1)
				} else {
					setRange(r, 0, inf)
				}
				return one(st, r)
			}, fmt.Sprintf("%sUint%d", T, 8*w))
		}
	}
	b64name := func(t *Term) string { return strings.TrimPrefix(t.S, "encoding/base64.") }
	reg(func(x *Exec, c *CallCtx) []MOut {
		return one(c.st, appS("b64", b64name(c.args[0]), c.st.bytesOf(c.args[1])))
	}, "(*encoding/base64.Encoding).EncodeToString")
	reg(func(x *Exec, c *CallCtx) []MOut {
		s := c.st.bytesOf(c.args[1])
		n := b64name(c.args[0])
		var v *Term
		if s.Op == "b64" && s.S == n {
			return one(c.st, tup(newBytes(x, c.st, c, s.A[0]), tNil))
		}
		v = appS("b64dec", n, s)
		return failing(x, c, "b64dec", []*Term{s}, func(st *State) *Term { return tup(newBytes(x, st, c, v), tNil) },
			func(st *State, e *Term) *Term {
				return tup(newBytes(x, st, c, rawSeq(freshName("b64part"), setRange(sym(freshName("b64len")), 0, inf))), e)
			})
	}, "(*encoding/base64.Encoding).DecodeString")
	reg(yamlMarshal, "gopkg.in/yaml.v2.Marshal", "gopkg.in/yaml.v3.Marshal")
	reg(unmarshal("yaml"), "gopkg.in/yaml.v2.Unmarshal", "gopkg.in/yaml.v2.UnmarshalStrict", "gopkg.in/yaml.v3.Unmarshal")
	reg(unmarshal("ssh"), "golang.org/x/crypto/ssh.Unmarshal")
	reg(func(x *Exec, c *CallCtx) []MOut {
		st := c.st
		data := st.bytesOf(c.args[0])
		bad := st.clone()
		id := appS("pem", "", data)
		n := alloc0(st, c, "sym")
		nm := fmt.Sprintf("pem%d", id.id)
		bt := rawSeq(nm+".Bytes", setRange(sym("len("+nm+".Bytes)"), 0, inf))
		symOrigin[nm+".Bytes"] = id
		bo := st.newObj("o:"+c.ctx+".bytes", "local", nil)
		st.heap[bo+"|"] = bt
		st.heap[n+"|.Bytes"] = sliceOf(bo+"|", num(0), bt.A[1], bt.A[1])
		st.heap[n+"|.Type"] = rawSeq(nm+".Type", setRange(sym("len("+nm+".Type)"), 0, inf))
		symOrigin[nm+".Type"] = id
		rest := newBytes(x, st, &CallCtx{ctx: c.ctx + ".rest"}, rawSeq(nm+".rest", setRange(sym("len("+nm+".rest)"), 0, inf)))
		x.ev(st, c, "pem", false, []*Term{data})
		x.ev(bad, c, "pem", true, []*Term{data})
		return []MOut{{st: st, ret: tup(ptrTo(n, ""), rest)}, {st: bad, ret: tup(tNil, c.args[0])}}
	}, "encoding/pem.Decode")
	reg(func(x *Exec, c *CallCtx) []MOut {
		return one(c.st, intern(Term{Op: "bool", S: freshName("encpem")}))
	}, "crypto/x509.IsEncryptedPEMBlock")

	// ---- bytes, strings ----
	reg(func(x *Exec, c *CallCtx) []MOut {
		a, b := c.st.bytesOf(c.args[0]), c.st.bytesOf(c.args[1])
		if a.id > b.id { // only the sign differs
			return one(c.st, scale(setRange(app("bcmp", b, a), -1, 1), -1))
		}
		return one(c.st, setRange(app("bcmp", a, b), -1, 1))
	}, "bytes.Compare", "strings.Compare")
	reg(func(x *Exec, c *CallCtx) []MOut {
		a, b := c.st.bytesOf(c.args[0]), c.st.bytesOf(c.args[1])
		if x.opts.exact { // a signature is not all zeroes
			for _, s := range [][2]*Term{{a, b}, {b, a}} {
				if s[0].Op == "edsign" && s[1].Op == "zero" {
					return one(c.st, num(0))
				}
			}
		}
		return one(c.st, mkB2i(beq(a, b)))
	}, "crypto/subtle.ConstantTimeCompare")
	idx := func(x *Exec, c *CallCtx) []MOut {
		a := c.st.bytesOf(c.args[0])
		b := c.args[1]
		if b.Op == "slice" {
			b = c.st.bytesOf(b)
		}
		if strings.HasSuffix(c.name, ".Index") && b.Op == "bytes" && yamlLacks(a, b.S) {
			return one(c.st, num(-1))
		}
		return one(c.st, setRange(appS("index", c.name[strings.Index(c.name, ".")+1:], a, b), -1, inf))
	}
	reg(idx, "bytes.Index", "strings.Index", "bytes.IndexByte", "strings.IndexByte", "bytes.IndexAny", "strings.IndexAny", "bytes.LastIndex", "strings.LastIndex", "strings.IndexRune", "bytes.IndexRune", "bytes.LastIndexByte", "strings.LastIndexByte")
	pr := func(name string) Model {
		return func(x *Exec, c *CallCtx) []MOut {
			a, b := c.st.bytesOf(c.args[0]), c.st.bytesOf(c.args[1])
			if name == "hasprefix" && b.Op == "bytes" && yamlLacks(a, "\n"+b.S) {
				return one(c.st, tFalse)
			}
			if n := blen(b); b.Op == "bytes" && c.st.f.entailLE(n, blen(a)) {
				if name == "hasprefix" {
					return one(c.st, beq(bsub(c.st.f, a, num(0), n), b))
				}
				return one(c.st, beq(bsub(c.st.f, a, subT(blen(a), n), blen(a)), b))
			}
			return one(c.st, pred(name, a, b))
		}
	}
	reg(pr("hasprefix"), "bytes.HasPrefix", "strings.HasPrefix")
	reg(pr("hassuffix"), "bytes.HasSuffix", "strings.HasSuffix")
	reg(func(x *Exec, c *CallCtx) []MOut {
		a, b := c.st.bytesOf(c.args[0]), c.st.bytesOf(c.args[1])
		if b.Op == "bytes" && yamlLacks(a, b.S) {
			return one(c.st, tFalse)
		}
		return one(c.st, mkLE(num(0), setRange(appS("index", "Index", a, b), -1, inf)))
	}, "bytes.Contains", "strings.Contains")
	reg(func(x *Exec, c *CallCtx) []MOut {
		a, b := c.st.bytesOf(c.args[0]), c.st.bytesOf(c.args[1])
		return one(c.st, mkLE(num(0), setRange(appS("index", "IndexAny", a, b), -1, inf)))
	}, "bytes.ContainsAny", "strings.ContainsAny")
	trim := func(x *Exec, c *CallCtx) []MOut {
		st := c.st
		a := c.args[0]
		b := st.bytesOf(a)
		key := appS("trim", c.name[strings.Index(c.name, ".")+1:], b)
		lo := setRange(sym(fmt.Sprintf("trimlo%d", key.id)), 0, inf)
		hi := setRange(sym(fmt.Sprintf("trimhi%d", key.id)), 0, inf)
		st.f.addLin(subT(lo, hi))
		st.f.addLin(subT(hi, blen(b)))
		if a.Op == "slice" {
			loc, off, _, cp := st.sliceParts(a)
			return one(st, sliceOf(loc, add(off, lo), subT(hi, lo), subT(cp, lo)))
		}
		if a.Op == "nil" {
			return one(st, a)
		}
		return one(st, bsub(st.f, b, lo, hi))
	}
	reg(trim, "bytes.TrimSpace", "strings.TrimSpace", "bytes.TrimRight", "strings.TrimRight", "bytes.Trim", "strings.Trim", "bytes.TrimLeft", "strings.TrimLeft", "bytes.TrimSuffix", "strings.TrimSuffix", "bytes.TrimPrefix", "strings.TrimPrefix")
	reg(func(x *Exec, c *CallCtx) []MOut { return one(c.st, newBytes(x, c.st, c, c.st.bytesOf(c.args[0]))) }, "bytes.Clone", "slices.Clone")
	reg(func(x *Exec, c *CallCtx) []MOut { return one(c.st, c.args[0]) }, "strings.Clone")
	reg(func(x *Exec, c *CallCtx) []MOut {
		return one(c.st, newBytes(x, c.st, c, zeros(num(0))))
	}, "bytes.NewBuffer__")

	// ---- errors, fmt ----
	reg(func(x *Exec, c *CallCtx) []MOut {
		if x.onErr != nil && x.rec {
			x.onErr(x, c, c.args)
		}
		return one(c.st, errTerm(c, "errnew", c.args...))
	}, "errors.New")
	reg(func(x *Exec, c *CallCtx) []MOut {
		f, args := fmtArgs(x, c, 0)
		if x.onErr != nil && x.rec {
			x.onErr(x, c, append([]*Term{f}, args...))
		}
		var wr []*Term
		if f.Op == "bytes" {
			vs := verbs(f.S)
			for i, v := range vs {
				if v == 'w' && i < len(args) {
					wr = append(wr, args[i])
				}
			}
		}
		wr = append([]*Term{intern(Term{Op: "lin", N: int64(len(wr))})}, append(wr, append([]*Term{f}, args...)...)...)
		e := errTerm(c, "errw", wr...)
		return one(c.st, e)
	}, "fmt.Errorf")
	reg(func(x *Exec, c *CallCtx) []MOut {
		return one(c.st, errorsIs(c.st, c.args[0], c.args[1], 6))
	}, "errors.Is")
	reg(func(x *Exec, c *CallCtx) []MOut {
		f, args := fmtArgs(x, c, 0)
		return one(c.st, sprintf(c.st, f, args))
	}, "fmt.Sprintf")
	reg(func(x *Exec, c *CallCtx) []MOut {
		return one(c.st, app("sprint", variadic(x, c, 0)...))
	}, "fmt.Sprint", "fmt.Sprintln")
	prnt := func(x *Exec, c *CallCtx) []MOut {
		var args []*Term
		switch {
		case strings.HasPrefix(c.name, "fmt.Fprintf"):
			f, a := fmtArgs(x, c, 1)
			args = []*Term{c.args[0], sprintf(c.st, f, a)}
		case strings.HasPrefix(c.name, "fmt.Fprint"):
			args = append([]*Term{c.args[0]}, variadic(x, c, 1)...)
		case c.name == "fmt.Printf":
			f, a := fmtArgs(x, c, 0)
			args = []*Term{gvar("os.Stdout"), sprintf(c.st, f, a)}
		default:
			args = append([]*Term{gvar("os.Stdout")}, variadic(x, c, 0)...)
		}
		if w := unwrapI(args[0]); w.Op != "gvar" {
			c2 := *c
			d := app("cat2", args[1:]...)
			if len(args) == 2 {
				d = args[1]
			}
			return writeOut(x, &c2, objFor(c.st, w, "writer"), d)
		}
		x.ev(c.st, c, "print", false, args)
		return one(c.st, tup(setRange(fresh("n"), 0, inf), tNil))
	}
	reg(prnt, "fmt.Printf", "fmt.Println", "fmt.Print", "fmt.Fprintf", "fmt.Fprintln", "fmt.Fprint")
	reg(func(x *Exec, c *CallCtx) []MOut { return one(c.st, app("errstr", c.args[0])) }, "(error).Error")

	// ---- big integers: opaque functions of their arguments ----
	prefixModels = append(prefixModels, struct {
		pre string
		m   Model
	}{"(*math/big.Int).", bigModel})
	reg(func(x *Exec, c *CallCtx) []MOut {
		n := alloc0(c.st, c, "big")
		c.st.set(n, "val", app("bigint", c.args[0]), nil2())
		return one(c.st, ptrTo(n, ""))
	}, "math/big.NewInt")

	// ---- regexp, misc ----
	noop := func(x *Exec, c *CallCtx) []MOut { return one(c.st, x.unknownResult(c.st, c.sig, c.name)) }
	reg(noop, "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "runtime.KeepAlive", "runtime.GC")
	reg(func(x *Exec, c *CallCtx) []MOut {
		n := alloc0(c.st, c, "regexp")
		c.st.set(n, "re", c.args[0], tyStr)
		return one(c.st, ptrTo(n, ""))
	}, "regexp.MustCompile")
	reg(func(x *Exec, c *CallCtx) []MOut {
		st := c.st
		re := st.get(objOf(c.args[0].S), "re", tEmpty)
		id := app("resplit", re, c.args[1], c.args[2])
		nm := fmt.Sprintf("split%d", id.id)
		symOrigin[nm] = id
		return one(st, makeSym(st, c.sig.Results().At(0).Type(), nm))
	}, "(*regexp.Regexp).Split")

	// ---- command line ----
	reg(func(x *Exec, c *CallCtx) []MOut {
		x.ev(c.st, c, "askpass", false, c.args)
		v := app("askpass", c.args[1])
		bad := c.st.clone()
		e := otherErr(bad, "askpass")
		nb := c.st.log.prev.add(&Event{kind: "askpass", site: c.site, ctx: c.ctx, args: c.args, rets: []*Term{e}, failed: true, pos: c.pos})
		bad.log = nb
		return []MOut{{st: c.st, ret: tup(v, tNil)}, {st: bad, ret: tup(tEmpty, e)}}
	}, "github.com/opencoff/go-utils.Askpass")
	reg(func(x *Exec, c *CallCtx) []MOut {
		v := setRange(app("parsesize", c.args[0]), 0, inf)
		return failing(x, c, "parsesize", c.args, func(st *State) *Term { return tup(v, tNil) }, func(st *State, e *Term) *Term { return tup(num(0), e) })
	}, "github.com/opencoff/go-utils.ParseSize")
	reg(func(x *Exec, c *CallCtx) []MOut {
		m := intern(Term{Op: "psym", S: freshName("abbrev")})
		return one(c.st, m)
	}, "github.com/opencoff/go-utils.Abbrev")
	reg(func(x *Exec, c *CallCtx) []MOut {
		n := alloc0(c.st, c, "flagset")
		c.st.set(n, "name", c.args[0], tyStr)
		c.st.set(n, "onerr", c.args[1], tyInt)
		return one(c.st, ptrTo(n, ""))
	}, "github.com/opencoff/pflag.NewFlagSet")
	prefixModels = append(prefixModels, struct {
		pre string
		m   Model
	}{"(*github.com/opencoff/pflag.FlagSet).", flagModel})
}

func nil2() types.Type { return types.NewSlice(types.Typ[types.Int]) }

func mkB2i(c *Term) *Term {
	switch c.Op {
	case "true":
		return num(1)
	case "false":
		return num(0)
	case "not":
		return lcomb(1, -1, app("b2i", c.A[0]))
	}
	return app("b2i", c)
}

func notExist(e *Term) *Term {
	switch {
	case e.Op == "nil":
		return tFalse
	case e.Op == "err" && strings.HasPrefix(e.S, "notexist:"):
		return tTrue
	case e.Op == "err":
		return tFalse
	}
	return pred("isnotexist", e)
}

func errorsIs(st *State, e, target *Term, d int) *Term {
	if e.Op == "gaddr" {
		e = gvar(e.S)
	}
	if e == target {
		return tTrue
	}
	if e.Op == "nil" || d == 0 {
		return mkEq(e, target)
	}
	if target.Op == "gvar" && (target.S == "os.ErrNotExist" || target.S == "io/fs.ErrNotExist") {
		if e.Op == "err" {
			return notExist(e)
		}
	}
	switch e.Op {
	case "gvar", "errnew":
		return mkEq(e, target)
	case "err":
		return mkEq(e, target)
	case "errw":
		k, _ := e.A[0].isConst()
		any := tFalse
		for i := int64(0); i < k; i++ {
			r := errorsIs(st, unwrapErrArg(e.A[1+i]), target, d-1)
			if r == tTrue {
				return tTrue
			}
			if r != tFalse {
				switch st.f.eval(r) {
				case 1:
					return tTrue
				case 0:
					continue
				}
				any = r
			}
		}
		return any
	}
	return mkEq(e, target)
}

func unwrapErrArg(t *Term) *Term { return t }

// variadic arguments from position i on (the last argument is the slice)
func variadic(x *Exec, c *CallCtx, i int) []*Term {
	if i >= len(c.args) {
		return nil
	}
	s := c.args[len(c.args)-1]
	if s.Op == "nil" {
		return nil
	}
	seq := c.st.bytesOf(s)
	var segs []*Term
	if seq.Op == "cat" {
		segs = seq.A
	} else {
		segs = []*Term{seq}
	}
	var r []*Term
	for _, e := range segs {
		if e.Op == "elem" {
			r = append(r, deepArg(c.st, e.A[0]))
		} else {
			r = append(r, e)
		}
	}
	return r
}

// deepArg replaces a slice or pointer argument by its content
func deepArg(st *State, t *Term) *Term {
	if t.Op == "iface" {
		v := t.A[0]
		if v.Op == "slice" {
			v = st.bytesOf(v)
			return intern(Term{Op: "ifaceval", S: t.S, A: []*Term{v}})
		}
		if v.Op == "ptr" {
			var vs []*Term
			vs = append(vs, v)
			for _, k := range st.cellsOf(v.S) {
				w := st.heap[k]
				if w.Op == "slice" {
					w = st.bytesOf(w)
				}
				vs = append(vs, w)
			}
			return intern(Term{Op: "ifaceval", S: t.S, A: vs})
		}
		return intern(Term{Op: "ifaceval", S: t.S, A: []*Term{v}})
	}
	return t
}

func (s *State) cellsOf(loc string) []string {
	var ks []string
	for k := range s.heap {
		if k == loc || strings.HasPrefix(k, loc+".") {
			ks = append(ks, k)
		}
	}
	sortStrings(ks)
	return ks
}

func fmtArgs(x *Exec, c *CallCtx, i int) (*Term, []*Term) {
	return c.args[i], variadic(x, c, i+1)
}

func verbs(f string) []byte {
	var r []byte
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			continue
		}
		i++
		for i < len(f) && strings.IndexByte("+-# 0123456789.", f[i]) >= 0 {
			i++
		}
		if i < len(f) && f[i] != '%' {
			r = append(r, f[i])
		}
	}
	return r
}

func sprintf(st *State, f *Term, args []*Term) *Term {
	if f.Op != "bytes" {
		return app("sprintf", append([]*Term{f}, args...)...)
	}
	var parts []*Term
	s := f.S
	lit := ""
	n := 0
	for i := 0; i < len(s); i++ {
		if s[i] != '%' {
			lit += s[i : i+1]
			continue
		}
		j := i + 1
		for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			break
		}
		if s[j] == '%' {
			lit += "%"
			i = j
			continue
		}
		var a *Term = tNil
		if n < len(args) {
			a = args[n]
		}
		n++
		if lit != "" {
			parts = append(parts, bconst(lit))
			lit = ""
		}
		spec := s[i+1 : j+1]
		v := a
		if a.Op == "ifaceval" || a.Op == "iface" {
			v = a.A[0]
		}
		if spec == "s" && (a.Op == "ifaceval" || a.Op == "iface") && (a.S == "string" || a.S == "[]byte") {
			parts = append(parts, v)
		} else {
			parts = append(parts, appS("fmtv", spec, a))
		}
		i = j
	}
	if lit != "" {
		parts = append(parts, bconst(lit))
	}
	return cat(parts...)
}

// scryptBounded: 128*N*r and p are bounded
func scryptBounded(st *State, N, r, p *Term) bool {
	if st.f.ub(p) > 1<<20 {
		return false
	}
	const lim = int64(1) << 33
	nb, rb := st.f.ub(N), st.f.ub(r)
	if nb < inf && rb < inf && satMul(satMul(nb, rb), 128) <= lim {
		return true
	}
	// N <= c/r
	if rb > 1<<20 {
		return false
	}
	for _, c := range st.f.lin {
		_, as, _ := linView(c)
		for _, a := range as {
			if a.Op != "quo" || a.A[1] != r {
				continue
			}
			k, ok := a.A[0].isConst()
			if ok && satMul(k, 128) <= lim && st.f.entailLE(N, a) {
				return true
			}
		}
	}
	return false
}

func yamlKey(f *types.Var, tag string) string {
	k := strings.ToLower(f.Name())
	if i := strings.Index(tag, `yaml:"`); i >= 0 {
		t := tag[i+6:]
		if j := strings.IndexByte(t, '"'); j >= 0 {
			t = t[:j]
		}
		n := strings.Split(t, ",")[0]
		if n != "" {
			k = n
		}
	}
	return k
}

func ptrElem(st *State, v *Term) (string, types.Type) {
	if v.Op == "iface" {
		t := typeByName[v.S]
		if p, ok := t.Underlying().(*types.Pointer); ok && v.A[0].Op == "ptr" {
			return v.A[0].S, p.Elem()
		}
	}
	return "", nil
}

func yamlMarshal(x *Exec, c *CallCtx) []MOut {
	st := c.st
	v := c.args[0]
	var keys []string
	var vals []*Term
	if loc, t := ptrElem(st, v); loc != "" {
		if su, ok := isStruct(t); ok {
			for i := 0; i < su.NumFields(); i++ {
				keys = append(keys, yamlKey(su.Field(i), su.Tag(i)))
				w := st.load(loc+"."+su.Field(i).Name(), su.Field(i).Type())
				if w.Op == "slice" {
					w = st.bytesOf(w)
				}
				vals = append(vals, w)
			}
		}
	} else if v.Op == "iface" && v.A[0].Op == "struct" {
		su, _ := isStruct(typeByName[v.S])
		for i := 0; i < su.NumFields(); i++ {
			keys = append(keys, yamlKey(su.Field(i), su.Tag(i)))
			w := v.A[0].A[i]
			if w.Op == "slice" {
				w = st.bytesOf(w)
			}
			vals = append(vals, w)
		}
	} else {
		vals = []*Term{deepArg(st, v)}
		keys = []string{"?"}
	}
	y := appS("yaml", strings.Join(keys, ","), vals...)
	return failing(x, c, "yaml.marshal", []*Term{y}, func(st *State) *Term { return tup(newBytes(x, st, c, y), tNil) },
		func(st *State, e *Term) *Term { return tup(tNil, e) })
}

// unmarshal sets every field of the struct to a value named after the input
// and the key of the field.
func unmarshal(kind string) Model {
	return func(x *Exec, c *CallCtx) []MOut {
		st := c.st
		data := st.bytesOf(c.args[0])
		loc, t := ptrElem(st, c.args[1])
		su, ok := (*types.Struct)(nil), false
		if t != nil {
			su, ok = isStruct(t)
		}
		if !ok {
			x.giveUp(kind + ".Unmarshal into an unknown type at " + c.site)
			return defaultModel(x, c)
		}
		if kind == "yaml" && data.Op == "yaml" && yamlBack(st, data, loc, su) {
			x.ev(st, c, kind+".unmarshal", false, []*Term{data, appS(kind+"in", tname(t), data)})
			return one(st, tNil)
		}
		bad := st.clone()
		id := appS(kind+"in", tname(t), data)
		set := func(s *State, good bool) {
			for i := 0; i < su.NumFields(); i++ {
				f := su.Field(i)
				key := f.Name()
				if kind == "yaml" {
					key = yamlKey(f, su.Tag(i))
					if !f.Exported() {
						continue
					}
				} else {
					key = fmt.Sprintf("%d", i)
				}
				nm := fmt.Sprintf("%s%d.%s", kind, data.id, key)
				if !good {
					nm = freshName(nm)
				}
				symOrigin[nm] = appS(kind+"field", key, data)
				if x.opts.restLen > 0 && good && strings.Contains(su.Tag(i), `ssh:"rest"`) {
					v := makeSym(s, f.Type(), nm)
					if n := num(int64(x.opts.restLen)); v.Op == "slice" {
						s.heap["sym:"+nm+"|"] = rawSeq(nm, n)
						v = sliceOf("sym:"+nm+"|", num(0), n, n)
					}
					s.store(loc+"."+f.Name(), f.Type(), v)
					continue
				}
				s.store(loc+"."+f.Name(), f.Type(), makeSym(s, f.Type(), nm))
			}
		}
		set(st, true)
		set(bad, false)
		x.ev(st, c, kind+".unmarshal", false, []*Term{data, id})
		e := otherErr(bad, kind)
		x.ev(bad, c, kind+".unmarshal", true, []*Term{data, id}, e)
		return []MOut{{st: st, ret: tNil}, {st: bad, ret: e}}
	}
}

// scryptValid: parameters that scrypt.Key accepts.
func scryptValid(N, r, p *Term) bool {
	n, ok := N.isConst()
	rr, ok2 := r.isConst()
	pp, ok3 := p.isConst()
	return ok && ok2 && ok3 && n > 1 && n&(n-1) == 0 && rr > 0 && pp > 0 && rr < 1<<15 && pp < 1<<14 && n <= (1<<40)/128/rr
}

// yamlBack decodes a document made by yamlMarshal: each field gets the value
// that was stored under its key. It does not apply when the types differ or
// when a field left out for being empty would keep another value.
func yamlBack(st *State, data *Term, loc string, su *types.Struct) bool {
	keys := strings.Split(data.S, ",")
	if len(keys) != len(data.A) {
		return false
	}
	type set struct {
		f *types.Var
		v *Term
	}
	var todo []set
	for i := 0; i < su.NumFields(); i++ {
		f := su.Field(i)
		if !f.Exported() {
			continue
		}
		k := yamlKey(f, su.Tag(i))
		for j := range keys {
			if keys[j] != k {
				continue
			}
			b, ok := f.Type().Underlying().(*types.Basic)
			if !ok || (b.Info()&types.IsString != 0) != isSeqTerm(data.A[j]) {
				return false
			}
			old := st.load(loc+"."+f.Name(), f.Type())
			if old != tEmpty && old != num(0) {
				return false
			}
			todo = append(todo, set{f, data.A[j]})
		}
	}
	for _, s := range todo {
		st.store(loc+"."+s.f.Name(), s.f.Type(), s.v)
	}
	return true
}

func isSeqTerm(t *Term) bool {
	switch t.Op {
	case "bytes", "cat", "b64", "raw", "sub", "zero", "hex", "mub", "hash", "rand":
		return true
	}
	return false
}

// yamlLacks: a document made by yamlMarshal has no such text. Lines of a
// document begin with a key of the struct or, inside a value, with a space.
func yamlLacks(doc *Term, s string) bool {
	if doc.Op != "yaml" {
		return false
	}
	i := strings.IndexByte(s, '\n')
	if i < 0 || i+1 >= len(s) {
		return false
	}
	c := s[i+1]
	if c == ' ' || c == '\n' || c == '?' || c == '{' {
		return false
	}
	for _, k := range strings.Split(doc.S, ",") {
		if k == "" || k[0] == c || k == "?" {
			return false
		}
	}
	return true
}

func bigVal(st *State, t *Term) *Term {
	switch t.Op {
	case "slice":
		return st.bytesOf(t)
	case "ptr":
		return st.get(objFor(st, t, "big"), "val", app("bigint", num(0)))
	}
	return t
}

func bigModel(x *Exec, c *CallCtx) []MOut {
	st := c.st
	m := c.name[strings.LastIndex(c.name, ".")+1:]
	res := c.sig.Results()
	var vals []*Term
	for _, a := range c.args[1:] {
		vals = append(vals, bigVal(st, a))
	}
	rv := bigVal(st, c.args[0])
	// methods returning *Int set the receiver
	if res.Len() >= 1 && types.TypeString(res.At(0).Type(), nil) == "*math/big.Int" && c.args[0].Op == "ptr" {
		o := objFor(st, c.args[0], "big")
		st.set(o, "val", appS("big", m, vals...), nil2())
		if res.Len() == 2 {
			return one(st, tup(c.args[0], tTrue))
		}
		return one(st, c.args[0])
	}
	if m == "Bytes" {
		v := appS("bigbytes", "", rv)
		if rv.Op == "big" && rv.S == "Mod" && len(rv.A) == 2 && rv.A[1].Op == "big" && rv.A[1].S == "SetString" {
			st.f.addLin(addK(blen(v), -32))
		}
		return one(st, newBytes(x, st, c, v))
	}
	base := appS("bigfn", m, append([]*Term{rv}, vals...)...)
	nm := fmt.Sprintf("big%d", base.id)
	symOrigin[nm] = base
	if m == "FillBytes" {
		loc, off, ln, _ := st.sliceParts(c.args[1])
		r := rawSeq(nm, ln)
		st.writeSeq(loc, off, r)
		return one(st, c.args[1])
	}
	switch res.Len() {
	case 0:
		return one(st, tUnit)
	case 1:
		return one(st, makeSym(st, res.At(0).Type(), nm))
	}
	return one(st, makeSym(st, res, nm))
}

func flagModel(x *Exec, c *CallCtx) []MOut {
	st := c.st
	m := c.name[strings.LastIndex(c.name, ".")+1:]
	o := objFor(st, c.args[0], "flagset")
	name := st.get(o, "name", tEmpty)
	flagSym := func(t types.Type, n string) *Term {
		switch {
		case isStr(t):
			return appS("flag", n)
		case basicName(t) == "bool":
			return intern(Term{Op: "bool", S: "flag:" + n})
		case isInt(t):
			lo, hi := typeRange(basicName(t))
			return setRange(sym("flag:"+n), lo, hi)
		}
		return makeSym(st, t, "flag:"+n)
	}
	switch {
	case strings.HasSuffix(m, "Var") || strings.HasSuffix(m, "VarP"):
		long := c.args[2]
		di := 3
		if strings.HasSuffix(m, "VarP") {
			di = 4
		}
		pt, ok := c.argT[1].Underlying().(*types.Pointer)
		if !ok || long.Op != "bytes" {
			x.giveUp("flag registration at " + c.site)
			return one(st, tUnit)
		}
		x.storeTo(st, c.args[1], pt.Elem(), c.args[di])
		st.set(o, "reg:"+long.S, c.args[1], c.argT[1])
		x.ev(st, c, "flag", false, []*Term{name, long, c.args[di]})
		return one(st, tUnit)
	case m == "Parse":
		pre := cell(o, "reg:")
		var ks []string
		for k := range st.heap {
			if strings.HasPrefix(k, pre) {
				ks = append(ks, k)
			}
		}
		sortStrings(ks)
		for _, k := range ks {
			pt := locType[k].Underlying().(*types.Pointer)
			x.storeTo(st, st.heap[k], pt.Elem(), flagSym(pt.Elem(), k[len(pre):]))
		}
		bad := st.clone()
		x.ev(st, c, "flag.parse", false, []*Term{name})
		x.ev(bad, c, "flag.parse", true, []*Term{name})
		if h := st.get(o, "onerr", num(1)); h == num(0) { // flag.ContinueOnError
			return []MOut{{st: st, ret: tNil}, {st: bad, ret: otherErr(bad, "flag")}}
		}
		x.ev(bad, c, "exit", false, []*Term{num(2)})
		return []MOut{{st: st, ret: tNil}, {st: bad, ret: num(2), out: "exit"}}
	case m == "Args":
		if n := x.opts.nargs; n > 0 && name.Op == "bytes" {
			var es []*Term
			for i := 0; i < n; i++ {
				es = append(es, app("elem", makeSym(st, tyStr, fmt.Sprintf("arg%d", i))))
			}
			o := alloc0(st, c, "args")
			st.heap[o+"|"] = cat(es...)
			return one(st, sliceOf(o+"|", num(0), num(int64(n)), num(int64(n))))
		}
		return one(st, makeSym(st, types.NewSlice(tyStr), "args:"+name.String()))
	case m == "NArg":
		a := makeSym(st, types.NewSlice(tyStr), "args:"+name.String())
		return one(st, a.A[1])
	case m == "Arg":
		a := makeSym(st, types.NewSlice(tyStr), "args:"+name.String())
		return one(st, x.elemOf(st, st.seq(a.S), c.args[1], tyStr))
	case m == "Changed":
		return one(st, pred("flagset", name, c.args[1]))
	case len(c.args) >= 2 && c.sig.Results().Len() == 1:
		// Bool, String, BoolP ...: a pointer to a new variable
		if pt, ok := c.sig.Results().At(0).Type().(*types.Pointer); ok && c.args[1].Op == "bytes" {
			n := alloc0(st, c, "local")
			di := 2
			if strings.HasSuffix(m, "P") {
				di = 3
			}
			p := ptrTo(n, "")
			x.storeTo(st, p, pt.Elem(), c.args[di])
			st.set(o, "reg:"+c.args[1].S, p, c.sig.Results().At(0).Type())
			x.ev(st, c, "flag", false, []*Term{name, c.args[1], c.args[di]})
			return one(st, p)
		}
	}
	return one(st, x.unknownResult(st, c.sig, c.name))
}
