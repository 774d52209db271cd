package main

// Rules on signatures of messages and files.

import "strings"

// noteArg is an argument of the last note of a path, as a value.
func noteArg(o *Outcome, tag string, i int) *Term {
	if e := lastNote(o, tag); e != nil && i < len(e.args) {
		return unwrapV(e.args[i])
	}
	return nil
}

// fileContent finds the part of a file's content that a digest covers: a
// window of the content from its start. It returns the file and the length.
func fileContent(t *Term) (string, *Term) {
	for _, p := range flat(t) {
		switch p.Op {
		case "sub":
			if f, lo, hi := win(p, "instream"); f != "" && lo == num(0) {
				return f, hi
			}
		case "hash":
			if f, n := fileContent(p.A[0]); f != "" {
				return f, n
			}
		}
	}
	return "", nil
}

// wholeFile tells why a digest does not cover the whole content of a file and
// its length, if it does not.
func wholeFile(o *Outcome, dg *Term) string {
	st := o.st
	var f string
	var n *Term
	length := false
	// the length comes after the content, in the same hash
	walk(dg, func(x *Term) bool {
		if x.Op != "hash" {
			return true
		}
		for _, p := range flat(x.A[0]) {
			if g, lo, hi := win(p, "instream"); g != "" && lo == num(0) && f == "" {
				f, n = g, hi
			} else if (p.Op == "be" || p.Op == "le") && p.N >= 8 {
				v := p.A[0]
				if f == "" {
					// an empty file
					length = v == num(0)
				} else {
					length = st.f.entailEq(v, n)
				}
			}
		}
		return true
	})
	if f == "" {
		// nothing was read: the file must be known to be empty
		for _, k := range objsOf(st, "file") {
			if isTrue(st, st.get(k, "eof", tFalse)) && st.f.entailEq(st.get(k, "pos", num(0)), num(0)) && length {
				return ""
			}
		}
		return "the digest does not cover the content of the file: " + sk(dg)
	}
	if !st.f.entailEq(st.get(f, "pos", num(0)), n) {
		return "the digest covers " + sk(n) + " bytes of the file, read were " + sk(st.get(f, "pos", num(0)))
	}
	if !isTrue(st, st.get(f, "eof", tFalse)) {
		return "the end of the file may not have been reached"
	}
	if st.get(f, "rerr", tFalse) != tFalse {
		return "a read of the file may have failed"
	}
	if !length {
		return "the length of the file is not part of the digest: " + sk(dg)
	}
	nm := st.get(f, "name", nil)
	if nm == nil || findRaw(nm, "file") == nil && !strings.Contains(nm.S, "file#") {
		return "the file read is not the one named: " + sk(nm)
	}
	return ""
}

// verifyEach runs a verification driver; end sees every path that may report
// a verified signature, with the facts that hold then.
func (c *Ctx) verifyEach(n string, end func(d *DRun, o *Outcome, g *Facts)) {
	d := c.run("sign", n, runOpts{}, nil)
	found := false
	for i := range d.outs {
		o := &d.outs[i]
		v := noteArg(o, "Verify", 0)
		if v == nil || o.kind != "" {
			continue
		}
		g := o.st.f.clone()
		if !g.assume(v, true) || g.contradictory() {
			d.end("verdict", o, true, "")
			continue
		}
		found = true
		end(d, o, g)
	}
	c.req("reachable", n, n, n, found, "no path verifies a signature")
}

// checked finds the successful verification behind a verdict.
func checked(d *DRun, o *Outcome, g *Facts) *Event {
	for _, e := range eventsOf(o, "edverify") {
		if g.eval(e.rets[0]) == 1 {
			return e
		}
	}
	d.end("verdict", o, false, "verified is reported without a successful signature check")
	return nil
}

func checkS01(c *Ctx) {
	for _, n := range []string{"verif_S_verify", "verif_S_verifyfile"} {
		c.verifyEach(n, func(d *DRun, o *Outcome, g *Facts) {
			e := checked(d, o, g)
			if e == nil {
				return
			}
			pk, msg, sig := noteArg(o, "given", 0), noteArg(o, "given", 1), noteArg(o, "given", 2)
			d.end("verdict", o, e.args[0] == pk, "the signature was checked under another key: "+sk(e.args[0]))
			d.end("verdict", o, e.args[2] == sig, "another signature was checked: "+sk(e.args[2]))
			if n == "verif_S_verify" {
				d.end("digest covers the message", o, covers(e.args[1], msg), "the digest that was checked does not cover the message: "+sk(e.args[1]))
			} else {
				why := wholeFile(o, e.args[1])
				d.end("digest covers the file", o, why == "", why)
			}
			er := lastNote(o, "Verify").args[1]
			d.end("no verdict with an error", o, er == tNil || nilStatus(g, er) == 1, "verified is reported together with an error")
		})
	}
}

// digestForm is a digest with the message replaced by its role.
func digestForm(o *Outcome, dg, msg *Term) string {
	r := newRmap()
	if msg != nil {
		r.set(msg, "MSG")
	} else if f, n := fileContent(dg); f != "" {
		r.set(rawSub(appS("instream", f), num(0), n), "CONTENT")
		r.set(n, "LENGTH")
	} else {
		// an empty file: content and length are known
		return ""
	}
	return r.apply(dg).String()
}

func checkS02(c *Ctx) {
	forms := func(n string, sign bool) derivs {
		m := derivs{}
		collect := func(d *DRun, o *Outcome, dg, msg *Term, site string) {
			d.end("label", o, labelled(dg), "the digest does not start with a constant label: "+sk(dg))
			if f := digestForm(o, dg, msg); f != "" {
				if m["digest"] == nil {
					m["digest"] = map[string]string{}
				}
				m["digest"][f] = site
			}
		}
		if !sign {
			c.verifyEach(n, func(d *DRun, o *Outcome, g *Facts) {
				if e := checked(d, o, g); e != nil {
					var msg *Term
					if n == "verif_S_verify" {
						msg = noteArg(o, "given", 1)
					}
					collect(d, o, e.args[1], msg, e.site)
				}
			})
			return m
		}
		d := c.run("sign", n, runOpts{}, nil)
		found := false
		for i := range d.outs {
			o := &d.outs[i]
			if !succeeded(o, "Sign") {
				continue
			}
			found = true
			es := eventsOf(o, "edsign")
			d.end("one signature", o, len(es) == 1, "the number of signatures made is not one")
			if len(es) != 1 {
				continue
			}
			e := es[0]
			d.end("signing key", o, e.args[0] == noteArg(o, "key", 0), "the signature is made with other bytes than those of the key: "+sk(e.args[0]))
			d.end("signature returned", o, noteArg(o, "sig", 0) == app("edsign", e.args[0], e.args[1]), "the signature returned is not the one made: "+sk(noteArg(o, "sig", 0)))
			var msg *Term
			if n == "verif_S_sign" {
				msg = noteArg(o, "Sign", 1)
			}
			collect(d, o, e.args[1], msg, e.site)
		}
		c.req("reachable", n, n, n, found, "no path signs")
		return m
	}
	c.sameDeriv("digest of a message", forms("verif_S_sign", true)["digest"], forms("verif_S_verify", false)["digest"])
	c.sameDeriv("digest of a file", forms("verif_S_signfile", true)["digest"], forms("verif_S_verifyfile", false)["digest"])
}

// labelled: the digest is a hash of a constant followed by the rest.
func labelled(dg *Term) bool {
	if dg.Op != "hash" {
		return false
	}
	fl := flat(dg.A[0])
	return len(fl) == 2 && fl[0].Op == "bytes" && len(fl[0].S) >= 8
}

func checkS03(c *Ctx) {
	inputFails := func(d *DRun, o *Outcome) {
		for _, e := range o.st.log.list() {
			if e.failed && inputKind(e.kind) {
				d.end("failure is reported", o, false, "the operation succeeds although "+e.kind+" failed at "+e.site)
			}
		}
		d.end("failure is reported", o, true, "")
	}
	d := c.run("sign", "verif_S_signfile", runOpts{}, nil)
	found := false
	for i := range d.outs {
		o := &d.outs[i]
		if !succeeded(o, "Sign") {
			continue
		}
		found = true
		inputFails(d, o)
		for _, e := range eventsOf(o, "edsign") {
			why := wholeFile(o, e.args[1])
			d.end("whole file signed", o, why == "", why)
		}
	}
	c.req("reachable", d.name, d.name, d.name, found, "no path signs")
	// every verdict: also a negative one is made from the whole file
	d = c.run("sign", "verif_S_verifyfile", runOpts{}, nil)
	found = false
	for i := range d.outs {
		o := &d.outs[i]
		if v := lastNote(o, "Verify"); v == nil || o.kind != "" || !mayBeNil(o.st, v.args[1]) {
			continue
		}
		inputFails(d, o)
		for _, e := range eventsOf(o, "edverify") {
			found = true
			why := wholeFile(o, e.args[1])
			d.end("whole file verified", o, why == "", why)
		}
	}
	c.req("reachable", d.name, d.name, d.name, found, "no path verifies")
}

func inputKind(k string) bool {
	return strings.HasPrefix(k, "read") || strings.HasPrefix(k, "os.") || strings.HasPrefix(k, "file.")
}

// yamlField is a field of a marshalled document.
func yamlOut(b *Term) (*Term, map[string]*Term) {
	y := findOp(b, func(x *Term) bool { return x.Op == "yaml" })
	if y == nil {
		return nil, nil
	}
	m := map[string]*Term{}
	for i, n := range strings.Split(y.S, ",") {
		if i < len(y.A) {
			m[n] = y.A[i]
		}
	}
	return y, m
}

// decodedFrom is the name of the stored field a value was decoded from.
func decodedFrom(t *Term) string {
	if t == nil || t.Op != "b64dec" || t.S != "StdEncoding" || t.A[0].Op != "raw" || !strings.HasPrefix(t.A[0].S, "yaml") {
		return ""
	}
	return t.A[0].S[strings.IndexByte(t.A[0].S, '.')+1:]
}

func checkS04(c *Ctx) {
	// storing a signature that was loaded gives the same fields back
	fields := map[string]bool{}
	d := c.run("sign", "verif_S_store", runOpts{}, nil)
	for i := range d.outs {
		o := &d.outs[i]
		if !succeeded(o, "Marshal") {
			continue
		}
		y, m := yamlOut(noteArg(o, "Marshal", 1))
		d.end("stored form", o, y != nil && y == noteArg(o, "Marshal", 1), "what is stored is not one encoded document: "+sk(noteArg(o, "Marshal", 1)))
		n := 0
		for k, v := range m {
			if v.Op != "b64" {
				continue
			}
			n++
			fields[k] = true
			d.end("field "+k, o, v.S == "StdEncoding" && decodedFrom(v.A[0]) == k, "the field "+k+" is stored as "+sk(v)+", which is not read back from there")
		}
		d.end("both fields stored", o, n == 2, "the stored form does not have exactly two encoded fields")
		sig := decodedFrom(noteArg(o, "given", 0))
		d.end("both fields stored", o, fields[sig], "the signature was not loaded from a field that is stored")
	}
	c.req("reachable", d.name, d.name, d.name, len(fields) == 2, "no path stores a signature")
	// a signature made here is stored with the signer's key hash
	d = c.run("sign", "verif_S_signstore", runOpts{}, nil)
	sigField := ""
	for i := range d.outs {
		o := &d.outs[i]
		if !succeeded(o, "Marshal") {
			continue
		}
		_, m := yamlOut(noteArg(o, "Marshal", 1))
		for _, w := range []struct {
			what string
			i    int
		}{{"hash of the signer's key", 0}, {"signature", 1}} {
			n := 0
			for k, v := range m {
				if v.Op == "b64" && v.A[0] == noteArg(o, "key", w.i) {
					n++
					if w.i == 1 {
						sigField = k
					}
				}
			}
			d.end("stored "+w.what, o, n == 1, "the "+w.what+" is not stored in a field of its own")
		}
	}
	c.req("reachable", d.name, d.name, d.name, sigField != "", "no path stores a signature")
	for _, n := range []string{"verif_S_load", "verif_S_read"} {
		d := c.run("sign", n, runOpts{}, nil)
		found := false
		for i := range d.outs {
			o := &d.outs[i]
			if !succeeded(o, "Unmarshal") {
				continue
			}
			found = true
			d.end("signature from its field", o, decodedFrom(noteArg(o, "loaded", 0)) == sigField, "the signature loaded is "+sk(noteArg(o, "loaded", 0)))
			bad := ""
			for _, e := range o.st.log.list() {
				if e.failed && e.kind != "close" {
					bad = e.kind + " failed at " + e.site
				}
			}
			d.end("undecodable is an error", o, bad == "", "loading succeeds although "+bad)
		}
		c.req("reachable", n, n, n, found, "no path loads a signature")
	}
	d = c.run("sign", "verif_S_match", runOpts{}, nil)
	found := false
	for i := range d.outs {
		o := &d.outs[i]
		v := noteArg(o, "Match", 0)
		if v == nil || o.kind != "" {
			continue
		}
		g := o.st.f.clone()
		if !g.assume(v, true) || g.contradictory() {
			continue
		}
		found = true
		h := noteArg(o, "given", 0)
		ok := false
		for k := range fields {
			if k == sigField {
				continue
			}
			for t, val := range g.truth {
				if val && t.Op == "beq" && (t.A[0] == h && decodedFrom(t.A[1]) == k || t.A[1] == h && decodedFrom(t.A[0]) == k) {
					ok = true
				}
			}
		}
		d.end("match means equal hashes", o, ok, "a match is reported although the hashes were not found equal")
	}
	c.req("reachable", d.name, d.name, d.name, found, "no path reports a match")
}

func init() {
	checks["S01"] = checkS01
	checks["S02"] = checkS02
	checks["S03"] = checkS03
	checks["S04"] = checkS04
}
