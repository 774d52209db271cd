package main

// Terms: the hash-consed value domain of the value-flow analysis.
//
// Integers are linear forms ("lin") over atoms, byte strings (and element
// sequences of any slice) are concatenations ("cat") of segments whose length
// is again an integer term. Everything else is an uninterpreted application.

import (
	"encoding/binary"
	"fmt"
	"sort"
	"strconv"
	"strings"
)

type Term struct {
	Op string
	S  string
	N  int64
	A  []*Term
	C  []int64 // coefficients of A for Op "lin"

	id    int
	fresh []*Term // fresh (site) terms inside, sorted by id
	objs  []string
	mus   []*Term
	depth int
}

var (
	internTab = map[string]*Term{}
	termCount int
)

var internBuf []byte

func intern(t Term) *Term {
	b := internBuf[:0]
	b = append(b, t.Op...)
	b = append(b, 0)
	b = append(b, t.S...)
	b = append(b, 0)
	b = binary.AppendVarint(b, t.N)
	for i, a := range t.A {
		b = binary.AppendUvarint(b, uint64(a.id))
		if t.C != nil {
			b = binary.AppendVarint(b, t.C[i])
		}
	}
	if t.C != nil {
		b = append(b, 'C')
	}
	internBuf = b
	if x, ok := internTab[string(b)]; ok {
		return x
	}
	k := string(b)
	termCount++
	if termCount&0x3ffff == 0 {
		checkBudget()
	}
	x := &t
	x.id = termCount
	for _, a := range x.A {
		x.fresh = unionTerms(x.fresh, a.fresh)
		x.mus = unionTerms(x.mus, a.mus)
		x.objs = unionStr(x.objs, a.objs)
		if a.depth >= x.depth {
			x.depth = a.depth + 1
		}
	}
	switch x.Op {
	case "fresh":
		x.fresh = unionTerms(x.fresh, []*Term{x})
		x.objs = unionStr(x.objs, []string{"@" + strconv.Itoa(x.id)})
	case "mu":
		x.mus = unionTerms(x.mus, []*Term{x})
		x.objs = unionStr(x.objs, []string{"@" + strconv.Itoa(x.id)})
	case "ptr", "slice", "eptr":
		x.objs = unionStr(x.objs, []string{objOf(x.S)})
	}
	internTab[k] = x
	return x
}

func unionTerms(a, b []*Term) []*Term {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	var r []*Term
	i, j := 0, 0
	for i < len(a) || j < len(b) {
		switch {
		case j == len(b) || (i < len(a) && a[i].id < b[j].id):
			r = append(r, a[i])
			i++
		case i == len(a) || b[j].id < a[i].id:
			r = append(r, b[j])
			j++
		default:
			r = append(r, a[i])
			i++
			j++
		}
	}
	return r
}

func unionStr(a, b []string) []string {
	if len(a) == 0 {
		return b
	}
	if len(b) == 0 {
		return a
	}
	m := map[string]bool{}
	for _, x := range a {
		m[x] = true
	}
	var r []string
	r = append(r, a...)
	for _, x := range b {
		if !m[x] {
			m[x] = true
			r = append(r, x)
		}
	}
	sort.Strings(r)
	return r
}

// location names are obj|path
func objOf(loc string) string {
	if i := strings.IndexByte(loc, '|'); i >= 0 {
		return loc[:i]
	}
	return loc
}
func pathOf(loc string) string {
	if i := strings.IndexByte(loc, '|'); i >= 0 {
		return loc[i+1:]
	}
	return ""
}

func app(op string, args ...*Term) *Term { return intern(Term{Op: op, A: args}) }
func appS(op, s string, args ...*Term) *Term {
	return intern(Term{Op: op, S: s, A: args})
}
func sym(name string) *Term { return intern(Term{Op: "sym", S: name}) }

var (
	tNil   = intern(Term{Op: "nil"})
	tTrue  = intern(Term{Op: "true"})
	tFalse = intern(Term{Op: "false"})
	tUnit  = intern(Term{Op: "unit"})
	tEmpty = intern(Term{Op: "cat"})
)

func mkBool(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

// ---- integers ----

func num(n int64) *Term { return intern(Term{Op: "lin", N: n}) }

func (t *Term) isConst() (int64, bool) {
	if t.Op == "lin" && len(t.A) == 0 {
		return t.N, true
	}
	return 0, false
}

// linear view of any integer term
func linView(t *Term) (int64, []*Term, []int64) {
	if t.Op == "lin" {
		return t.N, t.A, t.C
	}
	return 0, []*Term{t}, []int64{1}
}

func mkLin(n int64, m map[*Term]int64) *Term {
	var as []*Term
	for a, c := range m {
		if c != 0 {
			as = append(as, a)
		}
	}
	if len(as) == 0 {
		return num(n)
	}
	sort.Slice(as, func(i, j int) bool { return as[i].id < as[j].id })
	if len(as) == 1 && n == 0 && m[as[0]] == 1 {
		return as[0]
	}
	cs := make([]int64, len(as))
	for i, a := range as {
		cs[i] = m[a]
	}
	return intern(Term{Op: "lin", N: n, A: as, C: cs})
}

func addScaled(m map[*Term]int64, t *Term, k int64) int64 {
	n, as, cs := linView(t)
	for i, a := range as {
		m[a] += k * cs[i]
	}
	return k * n
}

func lcomb(k int64, parts ...interface{}) *Term { // k + sum coef*term: coef, term, coef, term...
	m := map[*Term]int64{}
	n := k
	for i := 0; i < len(parts); i += 2 {
		n += addScaled(m, parts[i+1].(*Term), int64(parts[i].(int)))
	}
	return mkLin(n, m)
}
func add(a, b *Term) *Term        { return lcomb(0, 1, a, 1, b) }
func subT(a, b *Term) *Term       { return lcomb(0, 1, a, -1, b) }
func addK(a *Term, k int64) *Term { return lcomb(k, 1, a) }
func scale(a *Term, k int64) *Term {
	m := map[*Term]int64{}
	n := addScaled(m, a, k)
	return mkLin(n, m)
}
func linCoef(t, atom *Term) int64 {
	_, as, cs := linView(t)
	for i, a := range as {
		if a == atom {
			return cs[i]
		}
	}
	return 0
}

// ---- byte strings / sequences ----

func bconst(s string) *Term {
	if s == "" {
		return tEmpty
	}
	return intern(Term{Op: "bytes", S: s})
}
func zeros(n *Term) *Term {
	if c, ok := n.isConst(); ok && c <= 0 {
		return tEmpty
	}
	return app("zero", n)
}
func elem(v *Term) *Term { return app("elem", v) }
func be(w int, x *Term) *Term { // big endian encoding of x in w bytes
	if x.Op == "beget" && int(x.N) == w {
		return x.A[0]
	}
	if c, ok := x.isConst(); ok {
		b := make([]byte, w)
		for i := 0; i < w; i++ {
			b[w-1-i] = byte(uint64(c) >> (8 * uint(i)))
		}
		return bconst(string(b))
	}
	return intern(Term{Op: "be", N: int64(w), A: []*Term{x}})
}
func beget(w int, b *Term) *Term {
	if b.Op == "be" && int(b.N) == w {
		return b.A[0]
	}
	if b.Op == "bytes" && len(b.S) == w {
		var v uint64
		for i := 0; i < w; i++ {
			v = v<<8 | uint64(b.S[i])
		}
		return num(int64(v))
	}
	return intern(Term{Op: "beget", N: int64(w), A: []*Term{b}})
}

var hashLen = map[string]int64{"sha256": 32, "sha512": 64, "sha1": 20, "sha384": 48, "sha224": 28, "sha512_256": 32, "md5": 16}

// blen is the length of a sequence term.
func blen(t *Term) *Term {
	switch t.Op {
	case "bytes":
		return num(int64(len(t.S)))
	case "zero":
		return t.A[0]
	case "elem":
		return num(1)
	case "cat":
		m := map[*Term]int64{}
		var n int64
		for _, p := range t.A {
			n += addScaled(m, blen(p), 1)
		}
		return mkLin(n, m)
	case "sub":
		return subT(t.A[2], t.A[1])
	case "be", "le":
		return num(t.N)
	case "hash":
		if n, ok := hashLen[t.S]; ok {
			return num(n)
		}
	case "hmac":
		if n, ok := hashLen[t.S]; ok {
			return num(n)
		}
	case "seal":
		return addK(blen(t.A[2]), 16)
	case "open":
		return addK(blen(t.A[2]), -16)
	case "rand", "read", "garbage", "raw":
		return t.A[1]
	case "x25519", "scalarbase", "curvepk", "curvesk":
		return num(32)
	case "edsign":
		return num(64)
	case "edpub":
		return num(32)
	case "kdf": // kdf(name, args..., len) : last argument is the length
		return t.A[len(t.A)-1]
	case "upd":
		return blen(t.A[0])
	case "clamped":
		return blen(t.A[0])
	case "mub": // widened sequence with a length
		return t.A[1]
	case "b64":
		if n, ok := blen(t.A[0]).isConst(); ok {
			if strings.HasPrefix(t.S, "Raw") {
				return num((n*8 + 5) / 6)
			}
			return num((n + 2) / 3 * 4)
		}
	case "pbenc":
		return app("pbsize", t.A[0])
	case "ciph": // stream/cbc transformation keeps the length
		return blen(t.A[0])
	}
	return app("len", t)
}

// cat concatenates, flattening and merging neighbours.
func cat(parts ...*Term) *Term {
	var out []*Term
	var push func(p *Term)
	push = func(p *Term) {
		if p.Op == "cat" {
			for _, q := range p.A {
				push(q)
			}
			return
		}
		if c, ok := blen(p).isConst(); ok && c == 0 {
			return
		}
		if p.Op == "elem" && len(p.A) == 1 {
			if c, ok := p.A[0].isConst(); ok && c >= 0 && c < 256 && p.S == "b" {
				p = bconst(string([]byte{byte(c)}))
			}
		}
		if len(out) > 0 {
			l := out[len(out)-1]
			switch {
			case l.Op == "bytes" && p.Op == "bytes":
				out[len(out)-1] = bconst(l.S + p.S)
				return
			case l.Op == "zero" && p.Op == "zero":
				out[len(out)-1] = zeros(add(l.A[0], p.A[0]))
				return
			case l.Op == "sub" && p.Op == "sub" && l.A[0] == p.A[0] && l.A[2] == p.A[1]:
				out[len(out)-1] = rawSub(l.A[0], l.A[1], p.A[2])
				return
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		push(p)
	}
	if len(out) == 1 {
		return out[0]
	}
	return intern(Term{Op: "cat", A: out})
}

// elemB is a one byte sequence holding the byte value v.
func elemB(v *Term) *Term {
	if c, ok := v.isConst(); ok && c >= 0 && c < 256 {
		return bconst(string([]byte{byte(c)}))
	}
	if v.Op == "at" {
		return rawSub(v.A[0], v.A[1], addK(v.A[1], 1))
	}
	if v.Op == "shr" { // it fits a byte
		if k, ok := v.A[1].isConst(); ok && k%8 == 0 && k > 0 {
			v = setRange(intern(Term{Op: "byteof", N: k / 8, A: []*Term{v.A[0]}}), 0, 255)
		}
	}
	return intern(Term{Op: "elem", S: "b", A: []*Term{v}})
}

// byteElem: the element is byte k of v.
func byteElem(p *Term) (v *Term, k int64, ok bool) {
	if p.Op != "elem" || p.S != "b" {
		return nil, 0, false
	}
	b := p.A[0]
	if b.Op != "byteof" {
		return b, 0, true
	}
	v, k = b.A[0], b.N
	for v.Op == "trunc" {
		if w, ok := v.A[1].isConst(); !ok || 8*k >= w {
			break
		}
		v = v.A[0]
	}
	return v, k, true
}

// fuse writes the bytes of a number, one after the other, as that number.
func fuse(f *Facts, t *Term) *Term {
	if t.Op != "cat" {
		return t
	}
	for i := 0; i < len(t.A); i++ {
		v, k, ok := byteElem(t.A[i])
		if !ok {
			continue
		}
		for _, w := range []int{8, 4, 2} {
			if i+w > len(t.A) {
				continue
			}
			up, down := k == 0, k == int64(w-1)
			x := v
			for j := 1; j < w && (up || down); j++ {
				u, m, ok := byteElem(t.A[i+j])
				up = up && ok && u == x && m == int64(j)
				down = down && ok && u == x && m == int64(w-1-j)
			}
			if !up && !down {
				continue
			}
			if w < 8 && !f.entailLE(x, num(int64(1)<<uint(8*w)-1)) {
				x = setRange(app("trunc", x, num(int64(8*w))), 0, int64(1)<<uint(8*w)-1)
			}
			e := be(w, x)
			if up {
				e = intern(Term{Op: "le", N: int64(w), A: []*Term{x}})
			}
			parts := append(append(append([]*Term{}, t.A[:i]...), e), t.A[i+w:]...)
			return fuse(f, cat(parts...))
		}
	}
	return t
}

func rawSub(t, lo, hi *Term) *Term {
	if c, ok := lo.isConst(); ok && c == 0 && t.Op != "stream" && blen(t) == hi {
		return t
	}
	if lo == hi {
		return tEmpty
	}
	switch t.Op {
	case "sub":
		return rawSub(t.A[0], add(t.A[1], lo), add(t.A[1], hi))
	case "zero":
		return zeros(subT(hi, lo))
	case "bytes":
		l, ok1 := lo.isConst()
		h, ok2 := hi.isConst()
		if ok1 && ok2 && l >= 0 && h >= l && h <= int64(len(t.S)) {
			return bconst(t.S[l:h])
		}
	}
	return intern(Term{Op: "sub", A: []*Term{t, lo, hi}})
}

// dropEmpty removes the parts of a concatenation that are known to be empty.
func dropEmpty(f *Facts, t *Term) *Term {
	if t.Op != "cat" {
		return t
	}
	var out []*Term
	for _, p := range t.A {
		if p.Op == "sub" || p.Op == "zero" || p.Op == "mub" {
			if l := blen(p); f.entailLE(l, num(0)) {
				continue
			}
		}
		out = append(out, p)
	}
	if len(out) == len(t.A) {
		return t
	}
	return cat(out...)
}

// bsub extracts [lo,hi) of t using facts to locate segments.
func bsub(f *Facts, t, lo, hi *Term) *Term {
	if lo == hi {
		return tEmpty
	}
	if c, ok := lo.isConst(); ok && c == 0 && t.Op != "stream" && blen(t) == hi {
		return dropEmpty(f, t)
	}
	if t.Op == "sub" && t.A[0].Op == "cat" {
		return bsub(f, t.A[0], add(t.A[1], lo), add(t.A[1], hi))
	}
	if t.Op != "cat" {
		if f.exact {
			if f.entailLE(hi, lo) {
				return tEmpty
			}
			if f.entailEq(lo, num(0)) {
				lo = num(0)
			}
			if l := blen(t); f.entailEq(hi, l) {
				hi = l
			}
		}
		return rawSub(t, lo, hi)
	}
	if f.entailLE(hi, lo) {
		return tEmpty
	}
	var out []*Term
	pos := num(0)
	cur := lo
	started := false
	for _, p := range t.A {
		end := add(pos, blen(p))
		if !started {
			// does the range start before end?
			if f.entailLE(end, lo) { // end <= lo: skip
				pos = end
				continue
			}
			if !f.entailLE(pos, lo) || !f.entailLE(lo, end) {
				return rawSub(t, lo, hi)
			}
			started = true
		}
		// cur in [pos,end]
		if f.entailLE(hi, end) {
			out = append(out, bsub(f, p, subT(cur, pos), subT(hi, pos)))
			return cat(out...)
		}
		if !f.entailLE(end, hi) {
			return rawSub(t, lo, hi)
		}
		out = append(out, bsub(f, p, subT(cur, pos), subT(end, pos)))
		cur = end
		pos = end
	}
	if cur == hi {
		return cat(out...)
	}
	return rawSub(t, lo, hi)
}

// splice replaces [off, off+len(nw)) of t by nw.
func splice(f *Facts, t, off, nw *Term) *Term {
	n := blen(nw)
	if c, ok := n.isConst(); ok && c == 0 {
		return t
	}
	end := add(off, n)
	l := blen(t)
	if c, ok := off.isConst(); ok && c == 0 && end == l {
		return nw
	}
	if !f.entailLE(end, l) {
		// the caller knows it fits (else a panic); keep the shape if simple
	}
	pre := bsub(f, t, num(0), off)
	var post *Term
	if end == l {
		post = tEmpty
	} else {
		post = bsub(f, t, end, l)
	}
	if isRawCatSub(pre, t) {
		return app("upd", t, off, nw)
	}
	return cat(pre, nw, post)
}

func isRawCatSub(p, t *Term) bool {
	return t.Op == "cat" && p.Op == "sub" && p.A[0] == t
}

func at(b, i *Term) *Term {
	if b.Op == "bytes" {
		if c, ok := i.isConst(); ok && c >= 0 && c < int64(len(b.S)) {
			return num(int64(b.S[c]))
		}
	}
	return app("at", b, i)
}

// ---- booleans ----

func not(c *Term) *Term {
	switch c.Op {
	case "true":
		return tFalse
	case "false":
		return tTrue
	case "not":
		return c.A[0]
	case "le0": // not(x<=0) == -x+1 <= 0
		return le0(lcomb(1, -1, c.A[0]))
	}
	return app("not", c)
}

func le0(x *Term) *Term {
	if c, ok := x.isConst(); ok {
		return mkBool(c <= 0)
	}
	return app("le0", x)
}
func mkLE(a, b *Term) *Term { return le0(subT(a, b)) }
func mkLT(a, b *Term) *Term { return le0(lcomb(1, 1, a, -1, b)) }

func eq0(x *Term) *Term {
	if c, ok := x.isConst(); ok {
		return mkBool(c == 0)
	}
	n, as, cs := linView(x)
	if len(as) == 1 && (cs[0] == 1 || cs[0] == -1) {
		a := as[0]
		k := -n * cs[0] // a == k
		switch a.Op {
		case "b2i":
			switch k {
			case 0:
				return not(a.A[0])
			case 1:
				return a.A[0]
			default:
				return tFalse
			}
		case "bcmp":
			if k == 0 {
				return beq(a.A[0], a.A[1])
			}
		}
	}
	if cs[0] < 0 {
		x = scale(x, -1)
	}
	return app("eq0", x)
}

func beq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Op == "bytes" && b.Op == "bytes" {
		return tFalse
	}
	if la, ok := blen(a).isConst(); ok {
		if lb, ok := blen(b).isConst(); ok && la != lb {
			return tFalse
		}
	}
	if c, ok := blen(a).isConst(); ok && c == 0 {
		return eq0(blen(b))
	}
	if c, ok := blen(b).isConst(); ok && c == 0 {
		return eq0(blen(a))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return app("beq", a, b)
}

func mkEq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.Op == "true" {
		return b
	}
	if b.Op == "true" {
		return a
	}
	if a.Op == "false" {
		return not(b)
	}
	if b.Op == "false" {
		return not(a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return app("eq", a, b)
}

func isBoolTerm(t *Term) bool {
	switch t.Op {
	case "true", "false", "not", "le0", "eq0", "beq", "eq", "bool", "isnil", "and2", "pred", "bit":
		return true
	}
	return false
}

// ---- rebuilding ----

func rebuild(t *Term, args []*Term) *Term {
	switch t.Op {
	case "lin":
		m := map[*Term]int64{}
		n := t.N
		for i, a := range args {
			n += addScaled(m, a, t.C[i])
		}
		return mkLin(n, m)
	case "cat":
		return cat(args...)
	case "sub":
		return rawSub(args[0], args[1], args[2])
	case "zero":
		return zeros(args[0])
	case "not":
		return not(args[0])
	case "le0":
		return le0(args[0])
	case "eq0":
		return eq0(args[0])
	case "beq":
		return beq(args[0], args[1])
	case "eq":
		return mkEq(args[0], args[1])
	case "be":
		return be(int(t.N), args[0])
	case "beget":
		return beget(int(t.N), args[0])
	case "len":
		return blen(args[0])
	case "at":
		return at(args[0], args[1])
	}
	return intern(Term{Op: t.Op, S: t.S, N: t.N, A: args, C: t.C})
}

// mapTerm rewrites bottom-up; f is applied to each rebuilt node first at leaves.
func mapTerm(t *Term, memo map[*Term]*Term, f func(*Term) *Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	if r := f(t); r != nil {
		memo[t] = r
		return r
	}
	r := t
	if len(t.A) > 0 {
		var args []*Term
		ch := false
		for _, a := range t.A {
			b := mapTerm(a, memo, f)
			if b != a {
				ch = true
			}
			args = append(args, b)
		}
		if ch {
			r = rebuild(t, args)
		}
	}
	memo[t] = r
	return r
}

// walk visits every subterm once; stop descending when f returns false.
func walk(t *Term, f func(*Term) bool) {
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if !f(t) {
			return
		}
		for _, a := range t.A {
			w(a)
		}
	}
	w(t)
}

func contains(t, x *Term) bool {
	found := false
	walk(t, func(y *Term) bool {
		if y == x {
			found = true
		}
		return !found
	})
	return found
}

func (t *Term) String() string { return tstr(t, 0) }

func tstr(t *Term, d int) string {
	if t == nil {
		return "<none>"
	}
	if d > 14 {
		return "…"
	}
	var as []string
	for _, a := range t.A {
		as = append(as, tstr(a, d+1))
	}
	switch t.Op {
	case "lin":
		var s []string
		for i, a := range as {
			switch t.C[i] {
			case 1:
				s = append(s, a)
			case -1:
				s = append(s, "-"+a)
			default:
				s = append(s, fmt.Sprintf("%d*%s", t.C[i], a))
			}
		}
		if t.N != 0 || len(s) == 0 {
			s = append(s, strconv.FormatInt(t.N, 10))
		}
		return strings.Join(s, "+")
	case "bytes":
		if len(t.S) > 40 {
			return fmt.Sprintf("%q…", t.S[:40])
		}
		return fmt.Sprintf("%q", t.S)
	case "sym":
		return t.S
	case "cat":
		return "[" + strings.Join(as, " ++ ") + "]"
	case "sub":
		return fmt.Sprintf("%s{%s:%s}", as[0], as[1], as[2])
	case "ptr":
		return "&" + t.S
	case "fresh", "mu":
		return t.Op + "#" + t.S
	}
	s := t.Op
	if t.S != "" {
		s += ":" + t.S
	}
	if t.N != 0 {
		s += strconv.FormatInt(t.N, 10)
	}
	if len(as) > 0 {
		s += "(" + strings.Join(as, ", ") + ")"
	}
	return s
}
