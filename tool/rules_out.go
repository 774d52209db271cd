package main

// C08: what the encryptor writes in the clear. C12: limits of what it writes.

import (
	"fmt"
	"os"
	"sort"
	"strings"
)

// secretsOf are the values of a path that must stay secret: secrets of key
// derivations, scalars of key agreements, signing keys, and the keys derived.
func secretsOf(o *Outcome, r map[*Term]string) {
	var add func(t *Term, what string)
	add = func(t *Term, what string) {
		for _, p := range flat(whole(t)) {
			switch p.Op {
			case "rand", "hkdf":
				r[p] = what
			case "sub", "elem":
				// a part of it, or a byte computed from it
				if b := p.A[0]; b.Op == "rand" || b.Op == "hkdf" {
					r[b] = what
				} else if p.Op == "elem" {
					if s := scalarRand(o.st.f, t); s != nil {
						r[s] = what
					}
				}
			}
		}
	}
	for _, e := range o.st.log.list() {
		for _, t := range append(append([]*Term{}, e.args...), e.rets...) {
			if t == nil {
				continue
			}
			walk(t, func(x *Term) bool {
				switch x.Op {
				case "hkdf":
					add(x.A[0], "the secret of a derived key")
				case "x25519":
					add(x.A[0], "the secret of a key agreement")
				case "edsign":
					add(x.A[0], "a signing key")
				case "seal":
					add(x.A[0], "an encryption key")
				case "hmac":
					add(x.A[0], "a MAC key")
				}
				return true
			})
		}
	}
}

// clearText tells why a term must not be written as it is.
func clearText(sec map[*Term]string, t *Term, many bool) string {
	why := ""
	exposed(t, func(x *Term) {
		if why != "" {
			return
		}
		if debugRule {
			fmt.Fprintln(os.Stderr, "EXPOSED", x.Op, x.S)
		}
		if w := sec[x]; w != "" {
			why = w + " (" + sk(x) + ")"
			return
		}
		if many && x.Op == "mub" && strings.HasPrefix(x.S, "nn:") {
			// the wrapped keys of an unbounded number of recipients: their
			// fields are decided by the drivers with two recipients
			return
		}
		switch x.Op {
		case "instream", "pt":
			why = "plaintext (" + sk(x) + ")"
		case "hkdf":
			why = "derived key material (" + sk(x) + ")"
		case "x25519":
			if b := x.A[1]; b.Op != "raw" || b.S != "basepoint" {
				why = "an agreed secret (" + sk(x) + ")"
			}
		case "mu", "mub":
			why = "a value of unknown origin (" + sk(x) + ")"
		}
	})
	return why
}

// written is one datum handed to the output.
type written struct {
	data     *Term
	site, fn string
}

func checkC08(c *Ctx) {
	for _, n := range append([]string{"verif_E3_plain", "verif_E3_auth"}, encDrivers...) {
		seen := map[written]bool{}
		var ws []written
		d := c.run("sign", n, runOpts{}, func(d *DRun, st *State, e *Event) {
			if e.kind == "write" && e.args[0].S == "writer:out|" {
				if debugRule {
					fmt.Fprintln(os.Stderr, "WRITE", len(d.x.stack), d.x.stack, sk(e.args[1]))
				}
				w := written{whole(e.args[1]), e.site, d.x.curFn()}
				if !seen[w] {
					seen[w] = true
					ws = append(ws, w)
				}
			}
		})
		sec := map[*Term]string{}
		for i := range d.outs {
			secretsOf(&d.outs[i], sec)
		}
		for _, w := range ws {
			why := clearText(sec, w.data, !strings.HasPrefix(n, "verif_E3"))
			c.req("nothing secret in the clear", n, w.site, w.fn, why == "", "the data written hold "+why)
		}
		found := len(ws) > 3
		for i := range d.outs {
			o := &d.outs[i]
			rc := lastNote(o, "recipients")
			if rc == nil {
				continue
			}
			// the root key is sealed for named recipients only
			for _, e := range eventsOf(o, "seal") {
				if sealRole(e.args[2]) != "wrap" {
					continue
				}
				ok := false
				for _, a := range rc.args {
					pk := app("curvepk", unwrapV(a))
					k := findOp(e.args[0], func(x *Term) bool { return x.Op == "hkdf" })
					if k == nil {
						continue
					}
					s := whole(k.A[0])
					if s.Op == "x25519" && s.A[1] == pk && scalarRand(o.st.f, s.A[0]) != nil {
						ok = true
					}
				}
				d.end("wrapped for a recipient", o, ok, "the root key is sealed under a key that is not agreed with a recipient that was added: "+sk(e.args[0]))
			}
		}
		c.req("reachable", n, n, n, found, "no path of the driver writes anything")
	}
}

// hull is the range of an integer over all paths seen.
type hull struct {
	lo, hi int64
	set    bool
}

func (h *hull) add(f *Facts, t *Term) {
	lo, hi := f.lb(t), f.ub(t)
	if !h.set {
		h.lo, h.hi, h.set = lo, hi, true
		return
	}
	h.lo, h.hi = min(h.lo, lo), max(h.hi, hi)
}

func (h *hull) String() string { return fmt.Sprintf("%d..%d", h.lo, h.hi) }

// limits are what every file of the writer satisfies.
type limits struct {
	prefix                            string
	chunk, size, salt, pk, keys, dkey hull
}

// writerLimits: what holds for every file that is written completely.
func writerLimits(c *Ctx) *limits {
	w := &limits{}
	for _, n := range []string{"verif_E1_plain", "verif_E1_auth", "verif_E3_plain", "verif_E3_auth"} {
		dk := 0
		d := c.run("sign", n, runOpts{}, func(d *DRun, st *State, e *Event) {
			switch {
			case e.kind == "seal" && sealRole(e.args[2]) == "wrap":
				if !senderSeal(e) {
					dk++
					w.dkey.add(st.f, blen(e.rets[0]))
				}
			case isDataSeal(e):
				msg := headerMsg(e.args[0])
				d.at("header before chunks", e, msg != nil, "a chunk is sealed before the header was encoded")
				if msg != nil {
					cs := fieldIdx(msg, "ChunkSize")
					d.at("chunk within the block size", e, cs != nil && st.f.entailLE(blen(e.args[2]), cs), "a chunk may be larger than the block size in the header: "+sk(blen(e.args[2]))+" against "+sk(cs))
				}
			}
		})
		for i := range d.outs {
			o := &d.outs[i]
			if !succeeded(o, "Encrypt") {
				refusedClean(d, o)
				continue
			}
			t := takeApart(d, o)
			d.end("header is written", o, t.why == "", t.why)
			if t.why != "" {
				continue
			}
			p := flat(cat(t.hdr...))
			if p[0].Op == "bytes" {
				if w.prefix == "" {
					w.prefix = p[0].S
				}
				d.end("fixed prefix", o, w.prefix == p[0].S, "files start differently")
			}
			f := o.st.f
			w.chunk.add(f, fieldIdx(t.msg, "ChunkSize"))
			w.size.add(f, app("pbsize", t.msg))
			w.salt.add(f, blen(fieldIdx(t.msg, "Salt")))
			w.pk.add(f, blen(fieldIdx(t.msg, "Pk")))
			w.keys.add(f, keyCount(t.msg))
		}
		c.req("reachable", n, n, n, dk > 0, "no key is wrapped on any path")
	}
	return w
}

// senderSeal: the seal is that of the sender's signature.
func senderSeal(e *Event) bool {
	return findOp(e.args[2], func(x *Term) bool { return x.Op == "edsign" }) != nil
}

func keyCount(msg *Term) *Term {
	ks := fieldIdx(msg, "Keys")
	if ks.Op == "seqv" {
		n := num(0)
		for _, k := range ks.A {
			n = add(n, blen(k))
		}
		return n
	}
	return blen(ks)
}

// refusedClean: an operation that fails although nothing went wrong wrote
// nothing (except that a stream may grow too long).
func refusedClean(d *DRun, o *Outcome) {
	if lastNote(o, "Encrypt") == nil || o.kind != "" {
		return
	}
	for _, e := range o.st.log.list() {
		if e.failed || isDataSeal(e) {
			return
		}
	}
	d.end("refused before writing", o, o.st.get("writer:out", "out", tEmpty) == tEmpty, "the operation is refused after output was written")
}

func checkC12(c *Ctx) {
	w := writerLimits(c)
	c.req("limits known", "verif_E1", "limits", "sign", w.chunk.set && w.dkey.set && w.prefix != "", "the writer's header could not be taken apart")
	c.notes = append(c.notes, fmt.Sprintf("every file written: prefix %q, block size %s, header size %s, salt %s, keys %s, wrapped key %s", w.prefix, &w.chunk, &w.size, &w.salt, &w.keys, &w.dkey))
	for _, n := range decDrivers {
		opened := 0
		d := c.run("sign", n, runOpts{}, func(d *DRun, st *State, e *Event) {
			if e.kind == "open" && !isDataOpen(e) {
				if r := findOp(e.args[2], func(x *Term) bool { return x.Op == "raw" && strings.HasSuffix(x.S, "DKey") }); r != nil {
					opened++
					f := st.f.clone()
					l := blen(e.args[2])
					bad := false
					for _, k := range []int64{w.dkey.lo, w.dkey.hi} {
						g := f.clone()
						if !g.assume(eq0(subT(l, num(k))), true) || g.contradictory() {
							bad = true
						}
					}
					d.at("wrapped key length", e, !bad, "a wrapped key of the length written ("+w.dkey.String()+") is never opened")
				}
			}
		})
		refused := 0
		for i := range d.outs {
			o := &d.outs[i]
			nd := lastNote(o, "NewDecryptor")
			if nd == nil || lastNote(o, "SetPrivateKey") != nil || succeeded(o, "NewDecryptor") || o.kind != "" {
				continue
			}
			failed := false
			for _, e := range o.st.log.list() {
				failed = failed || e.failed || strings.HasSuffix(e.kind, ".eof") || strings.HasSuffix(e.kind, ".short")
			}
			if failed {
				continue
			}
			refused++
			d.end("refusal needs a broken limit", o, !w.possible(o), "a file within the limits of the writer ("+w.describe()+") may be refused with "+sk(nd.args[0]))
		}
		c.req("reachable", n, n, n, opened > 0, "no wrapped key is opened")
		c.req("refusals seen", n, "refusals of "+n, n, refused > 0, "the reader refuses nothing")
	}
}

func (w *limits) describe() string {
	return fmt.Sprintf("block size %s, header size %s, salt %s, keys %s, wrapped key %s", &w.chunk, &w.size, &w.salt, &w.keys, &w.dkey)
}

// atoms are the unknowns of the facts.
func (f *Facts) atoms() []*Term {
	seen := map[*Term]bool{}
	var r []*Term
	see := func(a *Term) bool {
		if !seen[a] {
			seen[a] = true
			r = append(r, a)
		}
		return true
	}
	for _, l := range f.lin {
		_, as, _ := linView(l)
		for _, a := range as {
			see(a)
		}
	}
	for c := range f.truth {
		walk(c, see)
	}
	sort.Slice(r, func(i, j int) bool { return r[i].id < r[j].id })
	return r
}

// possible: a file of the writer may take this path of the reader.
func (w *limits) possible(o *Outcome) bool {
	f := o.st.f.clone()
	ok := true
	assume := func(t *Term) { ok = ok && f.assume(t, true) }
	in := func(t *Term, h *hull) {
		assume(mkLE(num(h.lo), t))
		if h.hi < inf {
			assume(mkLE(t, num(h.hi)))
		}
	}
	n := len(w.prefix)
	for i := 0; i < n; i++ {
		assume(eq0(subT(appS("at", "b", appS("instream", "reader:in"), num(int64(i))), num(int64(w.prefix[i])))))
		for j := i + 1; j <= n; j++ {
			assume(beq(inStream(num(int64(i)), num(int64(j))), intern(Term{Op: "bytes", S: w.prefix[i:j]})))
		}
	}
	v := beget(4, inStream(num(int64(n)), num(int64(n+4))))
	in(v, &w.size)
	end := addK(v, int64(n+4))
	assume(beq(appS("hash", "sha256", inStream(num(0), end)), inStream(end, addK(end, 32))))
	if e := lastEv(o, "pb.unmarshal"); e != nil {
		id := pbID(o)
		in(sym(id+".ChunkSize"), &w.chunk)
		// the lengths of fields, wherever facts mention them
		for _, t := range f.atoms() {
			if t.Op != "sym" || !strings.HasPrefix(t.S, "len(") {
				continue
			}
			switch nm := strings.TrimSuffix(t.S[4:], ")"); {
			case nm == id+".Salt":
				in(t, &w.salt)
			case nm == id+".Pk":
				in(t, &w.pk)
			case strings.HasSuffix(nm, id+".Keys"):
				in(t, &w.keys)
			case strings.HasSuffix(nm, ".DKey"):
				in(t, &w.dkey)
			}
		}
	}
	for c, v := range o.st.f.truth {
		if c.Op == "eq0" && !v && f.entailEq(c.A[0], num(0)) {
			return false
		}
	}
	return ok && !f.contradictory()
}

func init() {
	checks["C08"] = checkC08
	checks["C12"] = checkC12
}
