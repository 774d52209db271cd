package main

// Rules on key material: randomness, derivations, exposure, limits.

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

var debugRule = os.Getenv("DEBUGRULE") != ""

// fullRand: t is the whole output of one read of the system's random number
// generator, at least n bytes.
func fullRand(t *Term, n int64) bool {
	if t == nil || t.Op != "rand" {
		return false
	}
	k, ok := blen(t).isConst()
	return ok && k >= n
}

// findRaw finds the decoded field called name in t.
func findRaw(t *Term, name string) *Term {
	var r *Term
	walk(t, func(x *Term) bool {
		if x.Op == "raw" && strings.TrimPrefix(x.S, "nn:") == name {
			r = x
		}
		return r == nil
	})
	return r
}

func findOp(t *Term, f func(x *Term) bool) *Term {
	var r *Term
	walk(t, func(x *Term) bool {
		if r == nil && f(x) {
			r = x
		}
		return r == nil
	})
	return r
}

// wrapped lists the recipient entries of an encoded header.
func wrapped(msg *Term) []*Term {
	var r []*Term
	ks := fieldIdx(msg, "Keys")
	ps := flat(ks)
	if ks != nil && ks.Op == "seqv" {
		ps = ks.A
	}
	for _, p := range ps {
		if p.Op == "elem" && p.A[0].Op == "pbmsg" {
			r = append(r, p.A[0])
		} else {
			r = append(r, nil)
		}
	}
	return r
}

// derivs are derivations by purpose, in canonical form.
type derivs map[string]map[string]string

func (m derivs) add(name string, t *Term, e string) {
	if m[name] == nil {
		m[name] = map[string]string{}
	}
	k := "?"
	if t != nil {
		k = canonStr(t, map[*Term]string{}, func(*Term) bool { return false })
		if debugRule && m[name][k] == "" {
			fmt.Fprintf(os.Stderr, "DERIV %s %s %s\n", name, e, sk(t))
		}
	}
	m[name][k] = e
}

// nonceShape replaces the position in a nonce by a mark. ok is false when the
// nonce shows no position (a constant one).
func nonceShape(n *Term) (*Term, bool) {
	var r []*Term
	ok := false
	for _, p := range flat(n) {
		k, _ := blen(p).isConst()
		switch p.Op {
		case "be", "le":
			r = append(r, app(fmt.Sprintf("role:%s%d", p.Op, k)))
			ok = true
		default:
			r = append(r, p)
		}
	}
	return cat(r...), ok
}

func seqRole(t *Term, op, role string) *Term {
	return mapTerm(t, map[*Term]*Term{}, func(x *Term) *Term {
		if x.Op == op {
			return app("role:" + role)
		}
		return nil
	})
}

func eventsOf(o *Outcome, kind string) []*Event {
	var r []*Event
	for _, e := range o.st.log.list() {
		if e.kind == kind && !e.failed {
			r = append(r, e)
		}
	}
	return r
}

func noteNonces(shapes map[*Term]map[*Term]string, kind string) func(d *DRun, st *State, e *Event) {
	return func(d *DRun, st *State, e *Event) {
		if e.kind != kind {
			return
		}
		if n, ok := nonceShape(e.args[1]); ok {
			k := e.args[0]
			if shapes[k] == nil {
				shapes[k] = map[*Term]string{}
			}
			shapes[k][n] = e.site
		}
	}
}

func writerDerivs(c *Ctx) derivs {
	m := derivs{}
	shapes := map[*Term]map[*Term]string{} // nonces by key, with the position marked
	c.encEach([]string{"verif_E3_plain", "verif_E3_auth"}, noteNonces(shapes, "seal"), func(d *DRun, o *Outcome, w *encOut) {
		d.end("wire layout", o, w.why == "", w.why)
		if w.why != "" {
			return
		}
		st := o.st
		base := newRmap()
		base.set(w.sum, "HSUM")
		salt, epk := fieldIdx(w.msg, "Salt"), fieldIdx(w.msg, "Pk")
		base.set(salt, "SALT")
		base.set(epk, "EPK")
		dk := findOp(st.get(w.data, "key", tEmpty), func(x *Term) bool { return x.Op == "hkdf" })
		if dk == nil {
			d.end("data key secret", o, false, "the data key is not derived from one secret: "+sk(st.get(w.data, "key", tEmpty)))
			return
		}
		base.set(dk.A[0], "ROOT")
		ks := wrapped(w.msg)
		rc := lastNote(o, "recipients")
		for i, k := range ks {
			if k == nil || rc == nil || i >= len(rc.args) {
				d.end("recipient entry", o, false, "the recipient entries of the header are not those of the recipients added: "+sk(fieldIdx(w.msg, "Keys")))
				continue
			}
			pk := unwrapV(rc.args[i])
			var se *Event
			for _, e := range eventsOf(o, "seal") {
				if e.rets[0] == fieldIdx(k, "DKey") {
					se = e
				}
			}
			d.end("recipient entry", o, se != nil, "a recipient entry does not hold a sealed key: "+sk(fieldIdx(k, "DKey")))
			if se == nil {
				continue
			}
			rm := newRmap()
			for a, b := range base.m {
				rm.m[a] = b
			}
			rm.set(pk, "RPK")
			rm.set(fieldIdx(k, "Nonce"), "RNONCE")
			if epk.Op == "x25519" {
				rm.set(app("x25519", epk.A[0], app("curvepk", pk)), "DH")
			}
			m.add("wrap key", rm.apply(se.args[0]), se.site)
			m.add("wrap nonce", rm.apply(se.args[1]), se.site)
			m.add("wrap plaintext", rm.apply(se.args[2]), se.site)
			m.add("wrap additional data", rm.apply(se.args[3]), se.site)
		}
		for _, e := range eventsOf(o, "seal") {
			switch {
			case isDataSeal(e):
				for n, s := range shapes[e.args[0]] {
					m.add("chunk nonce", base.apply(n), s)
				}
				m.add("chunk key", base.apply(e.args[0]), e.site)
				m.add("chunk additional data length", blen(e.args[3]), e.site)
			case e.rets[0] == fieldIdx(w.msg, "Sender"):
				m.add("sender key", base.apply(e.args[0]), e.site)
				m.add("sender nonce", base.apply(e.args[1]), e.site)
				m.add("sender additional data", base.apply(e.args[3]), e.site)
				if e.args[2].Op == "edsign" {
					m.add("header digest", base.apply(e.args[2].A[1]), e.site)
				}
			}
		}
		if w.tail.Op == "edsign" {
			if w.hmac != "" {
				m.add("mac key", base.apply(st.get(w.hmac, "key", tEmpty)), "trailer")
			}
			m.add("trailer digest", seqRole(w.tail.A[1], "hmac", "MAC"), "trailer")
		}
	})
	return m
}

func readerDerivs(c *Ctx) derivs {
	m := derivs{}
	shapes := map[*Term]map[*Term]string{}
	c.decEach([]string{"verif_D1_plain", "verif_D1_auth"}, "Decrypt", noteNonces(shapes, "open"), func(d *DRun, o *Outcome, ok bool) {
		if !ok {
			return
		}
		st := o.st
		root, id := rootKey(o), pbID(o)
		a := chunkAead(st)
		if root == nil || a == "" {
			d.end("data key secret", o, false, "no chunk was opened under a key bound to the header")
			return
		}
		h, _ := hdrHash(st.get(a, "key", tEmpty))
		rm := newRmap()
		rm.set(h, "HSUM")
		rm.set(root, "ROOT")
		rm2 := newRmap()
		for _, e := range eventsOf(o, "open") {
			if e.rets[0] != root {
				continue
			}
			all := cat(e.args[0], e.args[1], e.args[2], e.args[3])
			epk, salt := findRaw(all, id+".Pk"), findRaw(all, id+".Salt")
			for _, r := range []*rmap{rm, rm2} {
				r.set(epk, "EPK")
				r.set(salt, "SALT")
			}
			dk := findOp(e.args[2], func(x *Term) bool { return x.Op == "raw" && strings.HasSuffix(x.S, ".DKey") })
			d.end("wrapped key opened", o, dk != nil && e.args[2] == dk, "the key opened is not the whole of a recipient entry: "+sk(e.args[2]))
			if dk != nil {
				rm2.set(findRaw(all, strings.TrimSuffix(dk.S, ".DKey")+".Nonce"), "RNONCE")
			}
			if rn := lastNote(o, "recipient"); rn != nil && epk != nil {
				key := unwrapV(rn.args[0])
				rm2.set(app("x25519", app("curvesk", key), epk), "DH")
				if p := findOp(key, func(x *Term) bool { return x.Op == "edpub" }); p != nil {
					rm2.set(p, "RPK")
				}
			}
			m.add("wrap key", rm2.apply(e.args[0]), e.site)
			m.add("wrap nonce", rm2.apply(e.args[1]), e.site)
			m.add("wrap plaintext", app("role:ROOT"), e.site)
			m.add("wrap additional data", rm2.apply(e.args[3]), e.site)
		}
		for _, e := range eventsOf(o, "open") {
			switch {
			case e.rets[0] == root:
			case isDataOpen(e):
				for n, s := range shapes[e.args[0]] {
					m.add("chunk nonce", rm.apply(n), s)
				}
				m.add("chunk key", rm.apply(e.args[0]), e.site)
				m.add("chunk additional data length", blen(e.args[3]), e.site)
			case findRaw(e.args[2], id+".Sender") != nil:
				m.add("sender key", rm.apply(e.args[0]), e.site)
				m.add("sender nonce", rm.apply(e.args[1]), e.site)
				m.add("sender additional data", rm.apply(e.args[3]), e.site)
			}
		}
		for _, e := range verified(o) {
			if mac := findOp(e.args[1], func(x *Term) bool { return x.Op == "hmac" }); mac != nil {
				m.add("mac key", rm.apply(mac.A[0]), e.site)
				m.add("trailer digest", seqRole(e.args[1], "hmac", "MAC"), e.site)
			} else {
				m.add("header digest", rm.apply(e.args[1]), e.site)
			}
		}
	})
	return m
}

var derivNames = []string{"wrap key", "wrap nonce", "wrap plaintext", "wrap additional data", "sender key", "sender nonce", "sender additional data",
	"chunk key", "chunk nonce", "chunk additional data length", "mac key", "header digest", "trailer digest"}

func checkC11(c *Ctx) {
	w, r := writerDerivs(c), readerDerivs(c)
	for _, n := range derivNames {
		c.sameDeriv(n, w[n], r[n])
	}
}

func (c *Ctx) sameDeriv(n string, a, b map[string]string) {
	site := ""
	for _, m := range []map[string]string{a, b} {
		var s []string
		for _, v := range m {
			s = append(s, v)
		}
		sort.Strings(s)
		if len(s) > 0 && site == "" {
			site = s[0]
		} else if len(s) > 0 {
			site += " and " + s[0]
		}
	}
	c.req("derived: "+n, "writer and reader", site, "", len(a) > 0 && len(b) > 0, fmt.Sprintf("no derivation of the %s was found (writer %d, reader %d)", n, len(a), len(b)))
	for k := range a {
		_, ok := b[k]
		c.req("derived: "+n, "writer and reader", site, "", ok, "the writer derives the "+n+" as "+sub(k)+" and the reader as "+sub(keysOf(b)))
	}
	for k := range b {
		_, ok := a[k]
		c.req("derived: "+n, "writer and reader", site, "", ok, "the reader derives the "+n+" as "+sub(k)+" and the writer as "+sub(keysOf(a)))
	}
}

func keysOf(m map[string]string) string {
	var s []string
	for k := range m {
		s = append(s, k)
	}
	sort.Strings(s)
	return strings.Join(s, " | ")
}

func sub(s string) string {
	if len(s) > 300 {
		return s[:300] + "..."
	}
	return s
}

func init() {
	checks["C11"] = checkC11
}
