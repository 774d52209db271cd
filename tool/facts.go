package main

// Facts: what is known on a disjunct. Linear facts are kept as terms t with
// t <= 0; all other conditions as a truth table over hash-consed bool terms.

import "math"

type Facts struct {
	truth map[*Term]bool
	lin   []*Term // each <= 0
	has   map[*Term]bool
	memo  map[*Term]bool

	exact bool      // every value is kept exact
	ix    *linIndex // of lin, made when needed
}

// linIndex speeds up the search over the linear facts.
type linIndex struct {
	n   int // facts indexed
	by  map[*Term][]linOcc
	bnd map[*Term][2]int64
}

type linOcc struct {
	c *Term
	k int64
}

func (f *Facts) index() *linIndex {
	if f.ix != nil && f.ix.n == len(f.lin) {
		return f.ix
	}
	ix := &linIndex{n: len(f.lin), by: map[*Term][]linOcc{}, bnd: map[*Term][2]int64{}}
	for _, c := range f.lin {
		n, as, cs := linView(c)
		if len(as) == 1 {
			a := as[0]
			b, ok := ix.bnd[a]
			if !ok {
				b[0], b[1] = atomBounds(a)
			}
			if cs[0] > 0 {
				if h := floorDiv(-n, cs[0]); h < b[1] {
					b[1] = h
				}
			} else if l := ceilDiv(n, -cs[0]); l > b[0] {
				b[0] = l
			}
			ix.bnd[a] = b
			continue
		}
		for i, a := range as {
			ix.by[a] = append(ix.by[a], linOcc{c, cs[i]})
		}
	}
	f.ix = ix
	return ix
}

// vec is a linear form during a proof.
type vec struct {
	n int64
	a []*Term // by id
	c []int64
}

// comb is x*v + y*t.
func comb(v vec, x int64, t *Term, y int64) vec {
	n, as, cs := linView(t)
	r := vec{n: x*v.n + y*n, a: make([]*Term, 0, len(v.a)+len(as)), c: make([]int64, 0, len(v.a)+len(as))}
	i, j := 0, 0
	for i < len(v.a) || j < len(as) {
		var a *Term
		var c int64
		switch {
		case j >= len(as) || i < len(v.a) && v.a[i].id < as[j].id:
			a, c = v.a[i], x*v.c[i]
			i++
		case i >= len(v.a) || as[j].id < v.a[i].id:
			a, c = as[j], y*cs[j]
			j++
		default:
			a, c = v.a[i], x*v.c[i]+y*cs[j]
			i++
			j++
		}
		if c != 0 {
			r.a = append(r.a, a)
			r.c = append(r.c, c)
		}
	}
	return r
}

func newFacts() *Facts {
	return &Facts{truth: map[*Term]bool{}, has: map[*Term]bool{}, memo: map[*Term]bool{}}
}

func (f *Facts) clone() *Facts {
	g := newFacts()
	for k, v := range f.truth {
		g.truth[k] = v
	}
	for k := range f.has {
		g.has[k] = true
	}
	g.exact = f.exact
	g.lin = append([]*Term(nil), f.lin...)
	for k, v := range f.memo {
		if v { // positive results stay valid when facts grow
			g.memo[k] = true
		}
	}
	return g
}

const inf = math.MaxInt64 / 4

// declared ranges of atoms (from their Go type), set when the atom is made
var ranges = map[*Term][2]int64{}

func setRange(t *Term, lo, hi int64) *Term {
	if _, ok := ranges[t]; !ok && t.Op != "lin" {
		ranges[t] = [2]int64{lo, hi}
	}
	return t
}

// atomBounds are the bounds of an atom that hold without any facts.
func atomBounds(t *Term) (int64, int64) {
	if r, ok := ranges[t]; ok {
		return r[0], r[1]
	}
	switch t.Op {
	case "len", "pbsize":
		return 0, inf
	case "b2i":
		return 0, 1
	case "beget":
		if t.N <= 4 {
			return 0, int64(1)<<(8*uint(t.N)) - 1
		}
		return 0, inf
	case "at", "byteof":
		if t.S == "b" || t.Op == "byteof" {
			return 0, 255
		}
	case "wrap":
		return typeRange(t.S)
	case "index": // bytes.Index and friends
		return -1, inf
	case "quo":
		if d, ok := t.A[1].isConst(); ok && d > 0 {
			lo, hi := atomOrLinBounds(t.A[0])
			return divf(lo, d), divf(hi, d)
		}
		if c, ok := t.A[0].isConst(); ok && c >= 0 {
			lo, _ := atomOrLinBounds(t.A[1])
			if lo >= 1 {
				return 0, c / lo
			}
			return -c, c
		}
	case "rem":
		if d, ok := t.A[1].isConst(); ok && d > 0 {
			lo, _ := atomOrLinBounds(t.A[0])
			if lo >= 0 {
				return 0, d - 1
			}
			return -(d - 1), d - 1
		}
	case "and":
		if c, ok := t.A[1].isConst(); ok && c >= 0 {
			return 0, c
		}
	case "shr":
		lo, hi := atomOrLinBounds(t.A[0])
		if k, ok := t.A[1].isConst(); ok && lo >= 0 && k >= 0 && k < 63 {
			if hi >= inf {
				return 0, inf
			}
			return 0, hi >> uint(k)
		}
		if lo >= 0 {
			return 0, hi
		}
	}
	return -inf, inf
}

func divf(a, d int64) int64 {
	if a <= -inf || a >= inf {
		return a
	}
	return a / d
}

func atomOrLinBounds(t *Term) (int64, int64) {
	n, as, cs := linView(t)
	if t.Op != "lin" {
		return atomBounds(t)
	}
	lo, hi := n, n
	for i, a := range as {
		l, h := atomBounds(a)
		if cs[i] < 0 {
			l, h = h, l
		}
		lo = satAdd(lo, satMul(l, cs[i]))
		hi = satAdd(hi, satMul(h, cs[i]))
	}
	return lo, hi
}

func satMul(a, c int64) int64 {
	if a >= inf || a <= -inf {
		if (a > 0) == (c > 0) {
			return inf
		}
		return -inf
	}
	if a != 0 && (c > inf/abs64(a) || c < -inf/abs64(a)) {
		if (a > 0) == (c > 0) {
			return inf
		}
		return -inf
	}
	return a * c
}
func satAdd(a, b int64) int64 {
	if a >= inf || b >= inf {
		if a <= -inf || b <= -inf {
			return inf // unknown; caller must treat per side
		}
		return inf
	}
	if a <= -inf || b <= -inf {
		return -inf
	}
	s := a + b
	if s > inf {
		return inf
	}
	if s < -inf {
		return -inf
	}
	return s
}
func abs64(a int64) int64 {
	if a < 0 {
		return -a
	}
	return a
}

func typeRange(s string) (int64, int64) {
	switch s {
	case "uint8", "byte":
		return 0, 255
	case "uint16":
		return 0, 65535
	case "uint32":
		return 0, 1<<32 - 1
	case "uint", "uint64", "uintptr":
		return 0, inf
	case "int8":
		return -128, 127
	case "int16":
		return -32768, 32767
	case "int32":
		return -(1 << 31), 1<<31 - 1
	}
	return -inf, inf
}

// single-atom facts refine the bounds of an atom
func (f *Facts) bounds(a *Term) (int64, int64) {
	if b, ok := f.index().bnd[a]; ok {
		return b[0], b[1]
	}
	return atomBounds(a)
}

func floorDiv(a, b int64) int64 {
	q := a / b
	if a%b != 0 && (a < 0) != (b < 0) {
		q--
	}
	return q
}
func ceilDiv(a, b int64) int64 { return -floorDiv(-a, b) }

func (f *Facts) ub(t *Term) int64 {
	n, as, cs := linView(t)
	return f.ubVec(n, as, cs)
}

func (f *Facts) ubVec(r int64, as []*Term, cs []int64) int64 {
	for i, a := range as {
		lo, hi := f.bounds(a)
		v := hi
		if cs[i] < 0 {
			v = lo
		}
		m := satMul(v, cs[i])
		if m >= inf {
			return inf
		}
		r += m
		if r > inf {
			return inf
		}
	}
	return r
}
func (f *Facts) lb(t *Term) int64 {
	u := f.ub(scale(t, -1))
	if u >= inf {
		return -inf
	}
	return -u
}

// le0 proves t <= 0
func (f *Facts) proveLE0(t *Term) bool {
	if c, ok := t.isConst(); ok {
		return c <= 0
	}
	if v, ok := f.memo[t]; ok {
		return v
	}
	n, as, cs := linView(t)
	r := f.has[t]
	for d := 0; d <= 4 && !r; d++ {
		budget := 60 << uint(d)
		r = f.prove(vec{n, as, cs}, d, &budget)
		if d > 0 && budget == 60<<uint(d) {
			break
		}
	}
	f.memo[t] = r
	return r
}

func (f *Facts) prove(t vec, depth int, budget *int) bool {
	if len(t.a) == 0 {
		return t.n <= 0
	}
	if f.ubVec(t.n, t.a, t.c) <= 0 {
		return true
	}
	if depth == 0 || *budget <= 0 || len(t.a) > 14 {
		return false
	}
	ix := f.index()
	for i, a := range t.a {
		for _, o := range ix.by[a] {
			if (o.k > 0) != (t.c[i] > 0) {
				continue
			}
			*budget--
			if *budget <= 0 {
				return false
			}
			x, y := abs64(o.k), abs64(t.c[i])
			g := gcd(x, y)
			x, y = x/g, y/g
			if x > 1<<20 || y > 1<<20 {
				continue
			}
			// t*x = t2 + y*c with c<=0, so t2<=0 implies t<=0
			if f.prove(comb(t, x, o.c, -y), depth-1, budget) {
				return true
			}
		}
		// lemmas on structured atoms
		for _, l := range lemmas(a) {
			k := linCoef(l, a)
			if k == 0 || (k > 0) != (t.c[i] > 0) || t.c[i]%k != 0 {
				continue
			}
			*budget--
			if f.prove(comb(t, 1, l, -(t.c[i]/k)), depth-1, budget) {
				return true
			}
		}
	}
	return false
}

// lemmas: inequalities (<= 0) that hold for a structured atom
func lemmas(a *Term) []*Term {
	switch a.Op {
	case "and": // x & c <= x for x >= 0
		if lo, _ := atomOrLinBounds(a.A[0]); lo >= 0 {
			return []*Term{subT(a, a.A[0])}
		}
	case "quo":
		if d, ok := a.A[1].isConst(); ok && d >= 1 {
			if lo, _ := atomOrLinBounds(a.A[0]); lo >= 0 {
				return []*Term{subT(a, a.A[0])}
			}
		}
	case "index": // index(seq, what) <= len(seq)-1
		return []*Term{lcomb(1, 1, a, -1, blen(a.A[0]))}
	case "b2i": // a bit of x is no more than x
		if b := a.A[0]; b.Op == "bit" && b.N < 62 {
			x := b.A[0]
			k := int64(1) << uint(b.N)
			if lo, hi := atomOrLinBounds(x); lo >= 0 {
				r := []*Term{lcomb(0, int(k), a, -1, x)}
				if hi < 2*k {
					r = append(r, lcomb(-(k-1), 1, x, -int(k), a))
				}
				return r
			}
		}
	case "trunc": // made for a value known not to be negative
		return []*Term{subT(a, a.A[0])}
	case "byteof":
		if a.N == 0 {
			return []*Term{subT(a, a.A[0])}
		}
	case "min":
		return []*Term{subT(a, a.A[0]), subT(a, a.A[1])}
	case "max":
		return []*Term{subT(a.A[0], a), subT(a.A[1], a)}
	}
	return nil
}

func gcd(a, b int64) int64 {
	for b != 0 {
		a, b = b, a%b
	}
	return a
}

func (f *Facts) entailLE(a, b *Term) bool { return f.proveLE0(subT(a, b)) }
func (f *Facts) entailEq(a, b *Term) bool {
	return a == b || (f.entailLE(a, b) && f.entailLE(b, a))
}

// eval decides a condition: 1 true, 0 false, -1 unknown
func (f *Facts) eval(c *Term) int {
	switch c.Op {
	case "true":
		return 1
	case "false":
		return 0
	case "not":
		if v := f.eval(c.A[0]); v >= 0 {
			return 1 - v
		}
		return -1
	case "and2":
		a, b := f.eval(c.A[0]), f.eval(c.A[1])
		if a == 0 || b == 0 {
			return 0
		}
		if a == 1 && b == 1 {
			return 1
		}
		return -1
	case "le0":
		if v, ok := f.truth[c]; ok {
			return b2i(v)
		}
		if f.proveLE0(c.A[0]) {
			return 1
		}
		if f.proveLE0(lcomb(1, -1, c.A[0])) {
			return 0
		}
		return -1
	case "eq0":
		if v, ok := f.truth[c]; ok {
			return b2i(v)
		}
		x := c.A[0]
		if f.proveLE0(lcomb(1, 1, x)) || f.proveLE0(lcomb(1, -1, x)) {
			return 0
		}
		if f.proveLE0(x) && f.proveLE0(scale(x, -1)) {
			return 1
		}
		return -1
	}
	if v, ok := f.truth[c]; ok {
		return b2i(v)
	}
	switch c.Op {
	case "isnil":
		if v := nilStatus(f, c.A[0]); v >= 0 {
			return v
		}
	case "beq":
		la, lb := blen(c.A[0]), blen(c.A[1])
		if f.proveLE0(lcomb(1, 1, la, -1, lb)) || f.proveLE0(lcomb(1, -1, la, 1, lb)) {
			return 0
		}
		if f.entailEq(la, num(0)) && f.entailEq(lb, num(0)) {
			return 1
		}
	case "eq":
		a, b := c.A[0], c.A[1]
		if distinct(f, a, b) {
			return 0
		}
	}
	return -1
}

func b2i(b bool) int {
	if b {
		return 1
	}
	return 0
}

// nilStatus: 1 nil, 0 not nil, -1 unknown
func nilStatus(f *Facts, t *Term) int {
	switch t.Op {
	case "nil":
		return 1
	case "ptr", "eptr", "fn", "closure", "iface", "gvar", "err", "errw", "map", "hconst", "struct", "errnew":
		return 0
	case "slice":
		if strings_HasPrefix(t.S, "sym:") {
			break // a symbolic slice may be nil
		}
		return 0
	case "at":
		if t.S != "b" && nonNilElems(f, t.A[0]) {
			return 0 // elements that are never nil
		}
	}
	if f != nil {
		if v, ok := f.truth[app("isnil", t)]; ok {
			return b2i(v)
		}
	}
	return -1
}

func strings_HasPrefix(s, p string) bool { return len(s) >= len(p) && s[:len(p)] == p }

// values with an identity of their own
func identity(t *Term) bool {
	switch t.Op {
	case "nil", "gvar", "errw", "errnew", "fn", "bytes", "typ":
		return true
	case "ptr":
		return !strings_HasPrefix(t.S, "sym:") && !strings_HasPrefix(t.S, "@")
	}
	return false
}

func distinct(f *Facts, a, b *Term) bool {
	if a == b {
		return false
	}
	if identity(a) && identity(b) {
		return true
	}
	for i := 0; i < 2; i++ {
		if a.Op == "nil" && nilStatus(f, b) == 0 {
			return true
		}
		a, b = b, a
	}
	if a.Op == "err" || b.Op == "err" { // fresh error: facts decide
		return false
	}
	if a.Op == "iface" && b.Op == "iface" && a.S != b.S {
		return true
	}
	return false
}

// assume adds c (or its negation); false if it contradicts the facts.
func (f *Facts) assume(c *Term, v bool) bool {
	if e := f.eval(c); e >= 0 {
		return (e == 1) == v
	}
	for c.Op == "not" {
		c, v = c.A[0], !v
	}
	f.truth[c] = v
	switch c.Op {
	case "le0":
		x := c.A[0]
		if v {
			f.addLin(x)
		} else {
			f.addLin(lcomb(1, -1, x)) // x >= 1
		}
	case "eq0":
		x := c.A[0]
		if v {
			f.addLin(x)
			f.addLin(scale(x, -1))
		} else {
			// x != 0: sharpen at a bound
			if f.proveLE0(x) {
				f.addLin(lcomb(1, 1, x))
			} else if f.proveLE0(scale(x, -1)) {
				f.addLin(lcomb(1, -1, x))
			}
		}
	case "and2":
		if v {
			return f.assume(c.A[0], true) && f.assume(c.A[1], true)
		}
	case "beq":
		if v {
			la, lb := blen(c.A[0]), blen(c.A[1])
			if la != lb {
				f.addLin(subT(la, lb))
				f.addLin(subT(lb, la))
			}
		}
	case "pred":
		if v && (c.S == "hasprefix" || c.S == "hassuffix") {
			f.addLin(subT(blen(c.A[1]), blen(c.A[0])))
		}
	case "isnil":
		x := c.A[0]
		if x.Op == "slice" && v {
			f.addLin(x.A[1])
			f.addLin(scale(x.A[1], -1))
		}
		if v && x.Op == "b2i" {
			return true
		}
	}
	return true
}

func normLin(t *Term) *Term {
	n, as, cs := linView(t)
	if len(as) == 0 {
		return t
	}
	g := int64(0)
	for _, c := range cs {
		g = gcd(abs64(c), g)
	}
	if g <= 1 {
		return t
	}
	m := map[*Term]int64{}
	for i, a := range as {
		m[a] = cs[i] / g
	}
	return mkLin(ceilDiv(n, g), m)
}

func (f *Facts) addLin(t *Term) {
	t = normLin(t)
	if _, ok := t.isConst(); ok {
		return
	}
	if f.has[t] {
		return
	}
	f.has[t] = true
	f.lin = append(f.lin, t)
	for k, v := range f.memo {
		if !v {
			delete(f.memo, k)
		}
	}
}

// inconsistent linear facts: a cheap check
func (f *Facts) contradictory() bool {
	for _, c := range f.lin {
		if f.lb(c) > 0 {
			return true
		}
	}
	return false
}
