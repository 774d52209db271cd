package main

import "fmt"

// The helpers of the generated codec that live outside of the repository:
// the number of bytes of a variable length integer, and those bytes. A path
// divides by that number; then the groups of seven bits are known integers
// whose weighted sum is the value.

func varintGroup(v *Term, n, i int) *Term {
	if n == 1 {
		return v
	}
	lo := int64(0)
	if i == n-1 { // the last one is not 0
		lo = 1
	}
	return setRange(appS("varint", fmt.Sprint(n, ",", i), v), lo, 127)
}

// varintLens divides a path by the length of the encoding of v. Lengths in
// memory and 32 bit values need at most 5 bytes (of up to 2^35).
func varintLens(st *State, v *Term, do func(st *State, n int) MOut) []MOut {
	var r []MOut
	for n := 1; n <= 5; n++ {
		q := st.clone()
		if n > 1 && !q.f.assume(mkLE(num(int64(1)<<uint(7*(n-1))), v), true) {
			continue
		}
		if !q.f.assume(mkLE(v, num(int64(1)<<uint(7*n)-1)), true) {
			continue
		}
		if n > 1 {
			t := num(0)
			for i := 0; i < n; i++ {
				t = add(t, scale(varintGroup(v, n, i), int64(1)<<uint(7*i)))
			}
			if c, ok := v.isConst(); ok {
				for i := 0; i < n; i++ {
					g := varintGroup(v, n, i)
					d := num(c >> uint(7*i) & 127)
					q.f.addLin(subT(g, d))
					q.f.addLin(subT(d, g))
				}
			}
			q.f.addLin(subT(t, v))
			q.f.addLin(subT(v, t))
		}
		r = append(r, do(q, n))
	}
	return r
}

// joinGroups recognises the weighted sum of all groups of a value.
func joinGroups(t *Term) *Term {
	n0, as, cs := linView(t)
	if t.Op != "lin" || n0 != 0 || len(as) == 0 {
		return t
	}
	var n, i int
	for k, a := range as {
		if a.Op != "varint" || a.A[0] != as[0].A[0] {
			return t
		}
		if _, err := fmt.Sscanf(a.S, "%d,%d", &n, &i); err != nil || n != len(as) || cs[k] != int64(1)<<uint(7*i) {
			return t
		}
	}
	return as[0].A[0]
}

func init() {
	const p = "github.com/planetscale/vtprotobuf/protohelpers."
	reg(func(x *Exec, c *CallCtx) []MOut {
		if !x.opts.exact {
			return defaultModel(x, c)
		}
		return varintLens(c.st, c.args[0], func(st *State, n int) MOut { return MOut{st: st, ret: num(int64(n))} })
	}, p+"SizeOfVarint")
	// the records that are decoded are declared ones: skipping one loses it
	reg(func(x *Exec, c *CallCtx) []MOut {
		if !x.opts.exact {
			return defaultModel(x, c)
		}
		e := otherErr(c.st, "skipped")
		x.ev(c.st, c, "pb.skip", true, nil, e)
		return one(c.st, tup(num(0), e))
	}, p+"Skip")
	reg(func(x *Exec, c *CallCtx) []MOut {
		if !x.opts.exact {
			return defaultModel(x, c)
		}
		v := c.args[2]
		return varintLens(c.st, v, func(st *State, n int) MOut {
			var bs []*Term
			for i := 0; i < n; i++ {
				g := varintGroup(v, n, i)
				if i < n-1 {
					g = addK(g, 128)
				}
				bs = append(bs, app("elem", g))
			}
			loc, off, ln, _ := st.sliceParts(c.args[0])
			at := addK(c.args[1], int64(-n))
			x.need(st, mkLE(num(0), at), c, "EncodeVarint writes before the buffer")
			x.need(st, mkLE(c.args[1], ln), c, "EncodeVarint writes past the buffer")
			st.writeSeq(loc, add(off, at), cat(bs...))
			return MOut{st: st, ret: at}
		})
	}, p+"EncodeVarint")
}
