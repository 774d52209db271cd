package main

// Rules on the writing side: what an encryption context emits.

import "strings"

type sealRec struct {
	key, nonce, pt, ad, ct *Term
	obj, site              string
	role                   string
}

// sealRole tells what a seal is for, from what it seals.
func sealRole(pt *Term) string {
	for _, s := range flat(pt) {
		switch s.Op {
		case "edsign":
			return "sender"
		case "rand":
			return "wrap"
		}
	}
	if k, ok := blen(pt).isConst(); ok && k == 64 && (pt.Op == "zero" || pt.Op == "bytes") {
		return "sender"
	}
	return "data"
}

func mkSeal(e *Event) sealRec {
	return sealRec{e.args[0], e.args[1], e.args[2], e.args[3], e.rets[0], objOf(e.args[4].S), e.site, sealRole(e.args[2])}
}

// encOut is the file an encryption wrote, taken apart.
type encOut struct {
	msg    *Term // header message
	hdr    []*Term
	sum    *Term // checksum of hdr as stored
	data   string
	adct   *Term
	tail   *Term
	hmac   string
	why    string
	nonces []*Term
}

// sealers are the AEAD objects of a path by role.
func (d *DRun) dataAead(st *State) string {
	for _, o := range objsOf(st, "aead") {
		if a := st.get(o, "adct", tEmpty); a != tEmpty && sealRole(st.get(o, "pt", tEmpty)) == "data" {
			return o
		}
	}
	return ""
}

func takeApart(d *DRun, o *Outcome) *encOut {
	st := o.st
	r := &encOut{}
	fl := flat(st.get("writer:out", "out", tEmpty))
	for i, e := range fl {
		if e.Op == "hash" && i > 0 && e.A[0] == cat(fl[:i]...) {
			r.hdr, r.sum = fl[:i], e
			break
		}
	}
	if r.sum == nil {
		r.why = "the output does not start with a header followed by the hash of exactly that header: " + sk(cat(fl...))
		return r
	}
	for _, e := range r.hdr {
		if e.Op != "pbenc" {
			continue
		}
		if r.msg != nil {
			r.why = "the hashed part of the output holds two encoded headers"
			return r
		}
		r.msg = e.A[0]
	}
	if r.msg == nil {
		r.why = "the hashed part of the output does not hold an encoded header"
		return r
	}
	rest := fl[len(r.hdr)+1:]
	for _, a := range objsOf(st, "aead") {
		ct := st.get(a, "adct", tEmpty)
		if ct != tEmpty && sealRole(st.get(a, "pt", tEmpty)) == "data" && hasPrefixSeq(rest, flat(ct)) {
			r.data, r.adct = a, ct
			r.tail = cat(rest[len(flat(ct)):]...)
			break
		}
	}
	if r.data == "" {
		r.why = "after the header the output is not the sequence of additional data and sealed chunks of one AEAD: " + sk(cat(rest...))
		return r
	}
	for _, h := range objsOf(st, "hmac") {
		if seqEq(st, st.get(h, "buf", tEmpty), st.get(r.data, "adpt", tEmpty)) {
			r.hmac = h
		}
	}
	return r
}

// ctrOf finds the position counter in a nonce: an integer encoded in at least
// four bytes that provably equals n. It returns the nonce with the counter
// replaced by a mark.
func ctrOf(st *State, nonce, n *Term) (*Term, bool) {
	for w := int64(8); w >= 4; w -= 4 {
		for pos := int64(0); pos+w <= 12; pos++ {
			b := bsub(st.f, nonce, num(pos), num(pos+w))
			if b == nil {
				continue
			}
			v := beget(int(w), b)
			if v.Op == "beget" && v != n {
				if v2, ok := leOf(b); ok {
					v = v2
				}
			}
			if v == n || st.f.entailEq(v, n) {
				if v.Op == "wrap" {
					continue
				}
				if k, ok := n.isConst(); ok && k == 0 && w == 8 { // zero bytes look like any width
					continue
				}
				base := cat(bsub(st.f, nonce, num(0), num(pos)), app("role:counter"), bsub(st.f, nonce, num(pos+w), num(12)))
				return base, true
			}
		}
	}
	return nil, false
}

func leOf(b *Term) (*Term, bool) {
	if b.Op == "le" {
		return b.A[0], true
	}
	return nil, false
}

var encDrivers = []string{"verif_E1_plain", "verif_E1_auth", "verif_E2_plain", "verif_E2_auth"}

// encEach runs the encryption drivers with an event and an outcome rule.
func (c *Ctx) encEach(drivers []string, ev func(d *DRun, st *State, e *Event), end func(d *DRun, o *Outcome, w *encOut)) {
	for _, n := range drivers {
		d := c.run("sign", n, runOpts{}, ev)
		found := false
		for i := range d.outs {
			o := &d.outs[i]
			if !succeeded(o, "Encrypt") {
				continue
			}
			found = true
			w := takeApart(d, o)
			end(d, o, w)
		}
		c.req("reachable", n, n, n, found, "no path of the driver encrypts successfully")
	}
}

// dataNonce: each chunk is sealed under a nonce that holds its position.
func dataNonce(d *DRun, st *State, e *Event, op string) {
	obj := objOf(e.args[4].S)
	n := st.get(obj, "n"+op, nil)
	if n == nil {
		d.at("chunk position", e, false, "the AEAD used for chunks is of unknown origin")
		return
	}
	base, ok := ctrOf(st, e.args[1], n)
	d.at("chunk position", e, ok, "the nonce "+sk(e.args[1])+" does not hold the full position "+sk(n)+" of the chunk in the stream")
	if ok {
		u := unknowns(base)
		bad := false
		for _, x := range u {
			if x.Op == "fresh" {
				bad = true
			}
		}
		d.at("chunk nonce", e, !bad, "the rest of the nonce is not fixed for the stream: "+sk(base))
	}
}

// lenWord: the additional data is the length of the chunk and the end mark.
func sealLen(d *DRun, st *State, e *Event) {
	pt, ad := e.args[2], e.args[3]
	n, ok := blen(ad).isConst()
	d.at("chunk length word", e, ok && n == 4, "the additional data of a chunk is not its length word: "+sk(ad))
	if !ok || n != 4 {
		return
	}
	w := beget(4, ad)
	l := blen(pt)
	plain := st.f.entailEq(w, l)
	final := st.f.entailEq(w, addK(l, 1<<31))
	d.at("chunk length word", e, plain || final, "the additional data "+sk(ad)+" is neither the length of the chunk nor that with the end mark: length "+sk(l))
	if plain {
		d.at("chunk length word", e, st.f.entailLE(l, num(1<<31-1)), "the length of the chunk may reach the end mark")
		d.at("no empty chunk before the end", e, st.f.entailLE(num(1), l), "an empty chunk without end mark may be sealed")
	}
	// nothing follows the end mark
	m := st.get(objOf(e.args[4].S), "eofs", nil)
	d.at("end mark is last", e, m != nil && st.f.entailLE(m, num(0)), "a chunk may be sealed after the chunk with the end mark")
}

func isDataSeal(e *Event) bool { return e.kind == "seal" && sealRole(e.args[2]) == "data" }

func checkC03w(c *Ctx) {
	c.encEach(encDrivers, func(d *DRun, st *State, e *Event) {
		if isDataSeal(e) {
			dataNonce(d, st, e, "seal")
		}
	}, func(d *DRun, o *Outcome, w *encOut) {})
}

func checkC04w(c *Ctx) {
	c.encEach(encDrivers, func(d *DRun, st *State, e *Event) {
		if isDataSeal(e) {
			sealLen(d, st, e)
		}
	}, func(d *DRun, o *Outcome, w *encOut) {
		d.end("wire layout", o, w.why == "", w.why)
		if w.why == "" {
			d.end("one end mark", o, o.st.f.entailEq(o.st.get(w.data, "eofs", num(0)), num(1)), "the stream does not have exactly one end mark: "+sk(o.st.get(w.data, "eofs", num(0))))
		}
	})
}

func checkC05w(c *Ctx) {
	var last map[string][]sealRec
	c.encEach(encDrivers, func(d *DRun, st *State, e *Event) {
		if isDataSeal(e) {
			if last == nil {
				last = map[string][]sealRec{}
			}
			last[d.name] = append(last[d.name], mkSeal(e))
			// the key material depends on the checksum of the whole header
			for i, what := range []string{"data key", "nonce"} {
				ok := false
				walk(e.args[i], func(t *Term) bool {
					if t.Op == "hash" && t.S == "sha256" {
						for _, p := range flat(t.A[0]) {
							if p.Op == "pbenc" {
								ok = true
							}
						}
					}
					return !ok
				})
				d.at("key material bound to the header", e, ok, "the "+what+" of the chunks does not depend on the header checksum: "+sk(e.args[i]))
			}
		}
	}, func(d *DRun, o *Outcome, w *encOut) {
		d.end("header checksum", o, w.sum != nil && (w.why == "" || !strings.Contains(w.why, "hash")), w.why)
		if w.sum == nil || w.data == "" {
			return
		}
		st := o.st
		d.end("header checksum", o, blen(w.sum) == num(32) && w.sum.S == "sha256", "the header checksum is not a SHA-256")
		d.end("key material bound to the header", o, contains(st.get(w.data, "key", tEmpty), w.sum), "the data key does not depend on the header checksum")
		for _, h := range objsOf(st, "hmac") {
			if k := st.get(h, "key", tEmpty); k.Op != "bytes" {
				d.end("key material bound to the header", o, contains(k, w.sum), "the MAC key does not depend on the header checksum")
			}
		}
	})
}

func checkC07w(c *Ctx) {
	c.encEach([]string{"verif_E1_auth", "verif_E2_auth", "verif_E3_auth"}, nil, func(d *DRun, o *Outcome, w *encOut) {
		d.end("wire layout", o, w.why == "", w.why)
		if w.why != "" {
			return
		}
		st := o.st
		d.end("mac input", o, w.hmac != "", "no MAC was computed over the length words and plaintexts of all chunks in order")
		if w.hmac == "" {
			return
		}
		k := st.get(w.hmac, "key", tEmpty)
		d.end("mac key", o, contains(k, w.sum) && len(secretRoots(k)) > 0, "the MAC key is not derived from the header-bound key material: "+sk(k))
		ok := false
		if w.tail.Op == "edsign" {
			walk(w.tail.A[1], func(t *Term) bool {
				if t.Op == "hmac" && t.A[len(t.A)-1] == st.get(w.hmac, "buf", tEmpty) && t.A[0] == k {
					ok = true
				}
				return !ok
			})
		}
		d.end("trailer", o, ok, "the trailer is not the sender's signature over the MAC of the stream: "+sk(w.tail))
		if e := lastNote(o, "sender"); e != nil && ok {
			d.end("trailer", o, w.tail.A[0] == unwrapV(e.args[0]), "the trailer is not signed with the sender's own key")
		}
	})
}

// secretRoots are the random values a key is derived from as secrets.
func secretRoots(t *Term) []*Term {
	var r []*Term
	walk(t, func(x *Term) bool {
		if x.Op == "hkdf" {
			for _, s := range flat(x.A[0]) {
				r = append(r, s)
			}
		}
		return true
	})
	return r
}
