package main

// Rules on the reading side: what a decryption context accepts and releases.

import (
	"strconv"
	"strings"
)

// isStreamCt: the ciphertext was read from the input as it is (chunks), and
// not taken from a decoded header field.
func isStreamCt(ct *Term) bool {
	fl := flat(ct)
	if len(fl) == 0 {
		return false
	}
	for _, s := range fl {
		if s.Op == "mub" {
			continue
		}
		if o, _, _ := win(s, "instream"); o == "" {
			return false
		}
	}
	return true
}

// isDataOpen: the event opens a chunk of the stream.
func isDataOpen(e *Event) bool { return e.kind == "open" && isStreamCt(e.args[2]) }

// chunkAead is the AEAD that opened the chunks of a path.
func chunkAead(st *State) string {
	for _, o := range objsOf(st, "aead") {
		if a := st.get(o, "adct", tEmpty); a != tEmpty && isStreamCt(a) {
			return o
		}
	}
	return ""
}

// hdrHash finds the checksum of the received header in a key: a hash of the
// input from its first byte. It returns the hash and the end of its input.
func hdrHash(t *Term) (*Term, *Term) {
	var h, end *Term
	walk(t, func(x *Term) bool {
		if x.Op == "hash" && x.S == "sha256" && h == nil {
			a := x.A[0]
			if o, lo, hi := win(a, "instream"); o == "reader:in" && lo == num(0) {
				h, end = x, hi
			}
		}
		return h == nil
	})
	return h, end
}

func inStream(a, b *Term) *Term {
	return rawSub(appS("instream", "reader:in"), a, b)
}

// win takes a window of a stream apart: its object and its bounds.
func win(t *Term, op string) (string, *Term, *Term) {
	if t.Op == "sub" && t.A[0].Op == op {
		return t.A[0].S, t.A[1], t.A[2]
	}
	return "", nil, nil
}

// lastEv is the last event of a kind on a path.
func lastEv(o *Outcome, kind string) *Event {
	for l := o.st.log; l != nil; l = l.prev {
		if l.ev.kind == kind && !l.ev.failed && !l.ev.may {
			return l.ev
		}
	}
	return nil
}

var decDrivers = []string{"verif_D1_plain", "verif_D1_auth", "verif_D2_plain", "verif_D2_auth"}

// decEach runs the decryption drivers. end sees every path; ok tells whether
// the operation may have been reported as successful.
func (c *Ctx) decEach(drivers []string, op string, ev func(d *DRun, st *State, e *Event), end func(d *DRun, o *Outcome, ok bool)) {
	for _, n := range drivers {
		d := c.run("sign", n, runOpts{}, ev)
		found := false
		for i := range d.outs {
			o := &d.outs[i]
			ok := succeeded(o, op)
			found = found || ok
			end(d, o, ok)
		}
		c.req("reachable", n, n, n, found, "no path of the driver reaches a successful "+op)
	}
}

func checkC01d(c *Ctx) {
	c.decEach(decDrivers, "Decrypt", nil, func(d *DRun, o *Outcome, ok bool) {
		if ok {
			completeStream(d, o)
		}
	})
}

// completeStream: the path consumed a whole stream: header, chunks up to the
// authenticated end mark, trailer.
func completeStream(d *DRun, o *Outcome) {
	st := o.st
	a := chunkAead(st)
	d.end("end mark authenticated", o, a != "", "success without opening any chunk")
	if a == "" {
		return
	}
	eofs := st.get(a, "eofs", num(0))
	d.end("end mark authenticated", o, st.f.entailEq(eofs, num(1)), "success although the number of authenticated end marks is "+sk(eofs)+" and not 1")
	d.end("end mark authenticated", o, st.get(a, "badopen", tFalse) == tFalse, "success although a chunk may not have been authentic")
	h, hend := hdrHash(st.get(a, "key", tEmpty))
	if h == nil {
		d.end("stream is contiguous", o, false, "the chunk key does not depend on a hash of the received header")
		return
	}
	ct := st.get(a, "adct", tEmpty)
	from := addK(hend, 32)
	co, clo, chi := win(ct, "instream")
	okc := co == "reader:in" && st.f.entailEq(clo, from)
	d.end("stream is contiguous", o, okc, "the authenticated length words and chunks are not the input from the end of the header: "+sk(ct))
	if !okc {
		return
	}
	pos := st.get("reader:in", "pos", num(0))
	d.end("trailer read", o, st.f.entailLE(addK(chi, 64), pos), "success without reading a whole 64 byte trailer: input read up to "+sk(pos)+", chunks end at "+sk(chi))
}

func checkC02d(c *Ctx) {
	c.decEach(decDrivers, "Decrypt", nil, func(d *DRun, o *Outcome, ok bool) {
		released(d, o, ok)
	})
}

func released(d *DRun, o *Outcome, ok bool) {
	st := o.st
	out := st.get("writer:out", "out", tEmpty)
	a := chunkAead(st)
	if out != tEmpty {
		po, lo, hi := win(out, "pt")
		good := po != "" && po == a && lo == num(0)
		d.end("only opened plaintext is written", o, good, "the output is not the plaintext of authenticated chunks from the first on: "+sk(out))
		if good {
			d.end("only opened plaintext is written", o, st.f.entailLE(hi, st.get(a, "npt", num(0))), "the output "+sk(out)+" may reach beyond what was authenticated")
		}
	}
	if !ok {
		return
	}
	d.end("everything is written", o, a != "" && st.f.entailEq(blen(out), st.get(a, "npt", num(0))), "success with output "+sk(out)+" although the plaintext has another length")
	if a != "" {
		d.end("bad chunk fails", o, st.get(a, "badopen", tFalse) == tFalse, "success although opening a chunk failed")
	}
}

func checkC03d(c *Ctx) {
	c.decEach(decDrivers, "Decrypt", func(d *DRun, st *State, e *Event) {
		if isDataOpen(e) {
			dataNonce(d, st, e, "open")
		}
	}, func(d *DRun, o *Outcome, ok bool) {})
}

// word is the length word authenticated with a chunk and its parts.
func openLen(d *DRun, st *State, e *Event, chunkSize *Term) {
	ct, ad := e.args[2], e.args[3]
	n, okn := blen(ad).isConst()
	ao, _, ahi := win(ad, "instream")
	isw := okn && n == 4 && ao == "reader:in"
	d.at("chunk length word", e, isw, "the additional data of a chunk is not the length word read from the stream: "+sk(ad))
	if !isw {
		return
	}
	co, clo, _ := win(ct, "instream")
	okc := co == "reader:in" && st.f.entailEq(clo, ahi)
	d.at("chunk follows its length word", e, okc, "the chunk "+sk(ct)+" does not follow its length word "+sk(ad))
	w := beget(4, ad)
	lenw := subT(w, scale(bitOf(w, 31), 1<<31))
	l := addK(blen(ct), -16)
	if !st.f.entailEq(l, lenw) {
		// an equality test after the opening is as good: seen at the next use
		d.lenLate(e, l, lenw)
	} else {
		d.at("announced length", e, true, "")
	}
	if chunkSize != nil {
		d.at("chunk size limit", e, st.f.entailLE(l, chunkSize), "a chunk may be larger than the chunk size in the header: "+sk(l))
	} else {
		d.at("chunk size limit", e, false, "the header was not decoded")
	}
	m := st.get(objOf(e.args[4].S), "eofs", nil)
	d.at("end mark is last", e, m != nil && st.f.entailLE(m, num(0)), "a chunk may be opened after the chunk with the end mark")
}

func (d *DRun) lenLate(e *Event, l, lenw *Term) {
	d.at("announced length", e, false, "the chunk is not known to have the announced length: "+sk(l)+" against "+sk(lenw))
}

func checkC04d(c *Ctx) {
	var id string
	c.decEach(decDrivers, "Decrypt", func(d *DRun, st *State, e *Event) {
		if e.kind == "pb.unmarshal" && !e.failed {
			id = "pb" + strconv.Itoa(e.args[0].id)
		}
		if isDataOpen(e) {
			var cs *Term
			if id != "" {
				cs = sym(id + ".ChunkSize")
			}
			openLen(d, st, e, cs)
		}
	}, func(d *DRun, o *Outcome, ok bool) {
		if ok {
			a := chunkAead(o.st)
			co, _, _ := win(o.st.get(a, "adct", tEmpty), "instream")
			d.end("wire layout", o, a != "" && co != "", "the opened chunks and length words are not one piece of the input")
		}
	})
}

func checkC05d(c *Ctx) {
	keyed := func(d *DRun, st *State, e *Event, what string, t *Term) {
		h, end := hdrHash(t)
		d.at("key material bound to the header", e, h != nil, "the "+what+" does not depend on a hash of the received header: "+sk(t))
		if h != nil {
			d.at("checksum compared", e, isTrue(st, beq(h, inStream(end, addK(end, 32)))), "the checksum of the header was not found equal to the stored one")
		}
	}
	c.decEach(decDrivers, "Decrypt", func(d *DRun, st *State, e *Event) {
		switch {
		case e.kind == "pb.unmarshal":
			in := e.args[0]
			io, _, hi := win(in, "instream")
			ok := io == "reader:in"
			if ok {
				h := appS("hash", "sha256", inStream(num(0), hi))
				ok = isTrue(st, beq(h, inStream(hi, addK(hi, 32))))
			}
			d.at("checksum before decoding", e, ok, "the header is decoded from "+sk(in)+" before a checksum over everything up to its end was found equal to the stored one")
		case isDataOpen(e):
			keyed(d, st, e, "data key", e.args[0])
			keyed(d, st, e, "nonce", e.args[1])
		case e.kind == "edverify":
			walk(e.args[1], func(t *Term) bool {
				if t.Op == "hmac" {
					keyed(d, st, e, "MAC key", t.A[0])
				}
				return true
			})
		}
	}, func(d *DRun, o *Outcome, ok bool) {})
}

// covers: the digest or message t depends on the whole of x through hashes
// and concatenations only.
func covers(t, x *Term) bool {
	if x == tEmpty {
		return true
	}
	xs := flat(x)
	var w func(t *Term) bool
	w = func(t *Term) bool {
		fl := flat(t)
		for i := 0; i+len(xs) <= len(fl); i++ {
			if hasPrefixSeq(fl[i:], xs) {
				return true
			}
		}
		for _, s := range fl {
			if (s.Op == "hash" || s.Op == "hmac") && w(s.A[len(s.A)-1]) {
				return true
			}
		}
		return false
	}
	return w(t)
}

// coversConst: the hashed data holds a constant that contains s.
func coversConst(t *Term, s string) bool {
	ok := false
	for _, p := range flat(t) {
		switch p.Op {
		case "bytes":
			ok = ok || strings.Contains(p.S, s)
		case "hash", "hmac":
			ok = ok || coversConst(p.A[len(p.A)-1], s)
		}
	}
	return ok
}

// verified lists the signature checks that are known to have succeeded.
func verified(o *Outcome) []*Event {
	var r []*Event
	for l := o.st.log; l != nil; l = l.prev {
		if e := l.ev; e.kind == "edverify" && isTrue(o.st, e.rets[0]) {
			r = append(r, e)
		}
	}
	return r
}

// pbID names the fields of the header decoded on a path.
func pbID(o *Outcome) string {
	e := lastEv(o, "pb.unmarshal")
	if e == nil {
		return "?"
	}
	return "pb" + strconv.Itoa(e.args[0].id)
}

// coversRaw: the digest covers the whole of a decoded field.
func coversRaw(t *Term, name string) bool {
	for _, p := range flat(t) {
		switch p.Op {
		case "raw":
			if p.S == name {
				return true
			}
		case "hash", "hmac":
			if coversRaw(p.A[len(p.A)-1], name) {
				return true
			}
		}
	}
	return false
}

// rootKey is the secret from which the header-bound keys of a path are made.
func rootKey(o *Outcome) *Term {
	var r *Term
	for _, a := range objsOf(o.st, "aead") {
		walk(o.st.get(a, "key", tEmpty), func(t *Term) bool {
			if t.Op == "hkdf" {
				if h, _ := hdrHash(t.A[1]); h != nil {
					r = t.A[0]
				}
			}
			return r == nil
		})
	}
	return r
}

// senderVerified finds the header signature check of a path.
func senderVerified(o *Outcome) (string, bool) {
	s := lastNote(o, "sender")
	if s == nil {
		return "no sender was given", false
	}
	pk := unwrapV(s.args[0])
	why := "no signature was verified"
	for _, e := range verified(o) {
		if e.args[0] != pk {
			why = "the signature is verified with another key: " + sk(e.args[0])
			continue
		}
		dg := e.args[1]
		miss := ""
		for _, f := range []string{"Pk", "Salt"} {
			if !coversRaw(dg, pbID(o)+"."+f) {
				miss += " the header's " + f
			}
		}
		if !coversConst(dg, "SigTool\x03") {
			miss += " the magic and version"
		}
		if root := rootKey(o); root == nil || !covers(dg, root) {
			miss += " the root key"
		}
		if miss == "" {
			return "", true
		}
		why = "the verified digest does not cover" + miss + ": " + sk(dg)
	}
	return why, false
}

func checkC06(c *Ctx) {
	c.decEach([]string{"verif_D1_auth"}, "SetPrivateKey", nil, func(d *DRun, o *Outcome, ok bool) {
		why, v := senderVerified(o)
		if ok {
			d.end("sender verified", o, v, "opening the file with a sender key succeeds, but "+why)
		}
		if n := lastNote(o, "SetPrivateKey"); n != nil && o.kind == "" {
			d.end("authenticated sender", o, v || isFalse(o.st, unwrapV(n.args[1])), "AuthenticatedSender() may be true, but "+why)
		}
	})
	c.decEach([]string{"verif_D1_plain"}, "SetPrivateKey", nil, func(d *DRun, o *Outcome, ok bool) {
		if n := lastNote(o, "SetPrivateKey"); n != nil && o.kind == "" {
			d.end("authenticated sender", o, isFalse(o.st, unwrapV(n.args[1])), "AuthenticatedSender() may be true although no sender key was given")
		}
		if !ok {
			return
		}
		// the sender field opens to the all zero mark of an unsigned file
		un := false
		for l := o.st.log; l != nil; l = l.prev {
			if e := l.ev; e.kind == "open" && !e.failed && !isStreamCt(e.args[2]) && isTrue(o.st, beq(zeros(num(64)), e.rets[0])) {
				un = un || coversRaw(e.args[2], pbID(o)+".Sender")
			}
		}
		d.end("signed file needs a sender key", o, un, "a file is opened without a sender key although it is not known to be unsigned")
	})
}

func isFalse(st *State, c *Term) bool { return c == tFalse || st.f.eval(c) == 0 }

func checkC07d(c *Ctx) {
	c.decEach([]string{"verif_D1_auth"}, "Decrypt", nil, func(d *DRun, o *Outcome, ok bool) {
		if !ok {
			return
		}
		why, v := senderVerified(o)
		d.end("sender verified", o, v, why)
		why, v = trailerVerified(o)
		d.end("trailer verified", o, v, why)
	})
}

// trailerVerified: the trailer read from the input is a signature of the
// sender over the MAC of all chunks opened.
func trailerVerified(o *Outcome) (string, bool) {
	st := o.st
	a := chunkAead(st)
	s := lastNote(o, "sender")
	if a == "" || s == nil {
		return "no chunk was opened", false
	}
	ct, adpt := st.get(a, "adct", tEmpty), st.get(a, "adpt", tEmpty)
	why := "success without a verified signature over the MAC of all length words and plaintexts"
	for _, e := range verified(o) {
		var mac *Term
		walk(e.args[1], func(t *Term) bool {
			if t.Op == "hmac" && mac == nil {
				mac = t
			}
			return mac == nil
		})
		if mac == nil {
			continue
		}
		h, _ := hdrHash(mac.A[0])
		switch {
		case e.args[0] != unwrapV(s.args[0]):
			why = "the trailer is verified with another key: " + sk(e.args[0])
		case !covers(e.args[1], mac):
			why = "the verified digest does not cover the MAC: " + sk(e.args[1])
		case !seqEq(st, mac.A[1], adpt):
			why = "the verified MAC is not over the length word and plaintext of every chunk in order: " + sk(mac.A[1]) + " against " + sk(adpt)
		case h == nil:
			why = "the MAC key is not bound to the header: " + sk(mac.A[0])
		case len(secretRoots(mac.A[0])) == 0:
			why = "the MAC key is not derived from a secret: " + sk(mac.A[0])
		case !isSub(st, e.args[2], ct):
			why = "the verified signature is not the trailer that follows the chunks: " + sk(e.args[2])
		default:
			return "", true
		}
	}
	return why, false
}

// isSub: sig is the 64 bytes of input after ct.
func isSub(st *State, sig, ct *Term) bool {
	so, slo, shi := win(sig, "instream")
	co, _, chi := win(ct, "instream")
	return so != "" && so == co && st.f.entailEq(slo, chi) && st.f.entailEq(shi, addK(slo, 64))
}

func checkC15(c *Ctx) {
	c.encEach(encDrivers, nil, func(d *DRun, o *Outcome, w *encOut) {
		outputOK(d, o, true)
	})
	c.decEach(decDrivers, "Decrypt", nil, func(d *DRun, o *Outcome, ok bool) {
		if ok {
			outputOK(d, o, false)
		}
	})
}

func outputOK(d *DRun, o *Outcome, closed bool) {
	st := o.st
	d.end("write failures reported", o, st.get("writer:out", "failed", tFalse) == tFalse, "success although a write or the close of the output may have failed")
	if closed {
		d.end("output closed", o, st.get("writer:out", "closed", tFalse) == tTrue, "success although the output was not closed")
	}
}

func checkC16(c *Ctx) {
	c.encEach([]string{"verif_E1_plain", "verif_E1_auth"}, nil, func(d *DRun, o *Outcome, w *encOut) {
		st := o.st
		d.end("read failures reported", o, st.get("reader:in", "rerr", tFalse) == tFalse, "success although a read of the input may have failed")
		d.end("input read to its end", o, st.get("reader:in", "eof", tFalse) == tTrue, "success although the end of the input was not reached")
		pos := st.get("reader:in", "pos", num(0))
		pt := tEmpty
		if w.data != "" {
			pt = st.get(w.data, "pt", tEmpty)
		}
		po, lo, hi := win(pt, "instream")
		ok := pt == tEmpty && st.f.entailEq(pos, num(0)) || po == "reader:in" && lo == num(0) && st.f.entailEq(hi, pos)
		d.end("all input encrypted", o, ok, "the sealed plaintext is not all the input: sealed "+sk(pt)+", read up to "+sk(pos))
	})
	c.decEach(decDrivers, "Decrypt", nil, func(d *DRun, o *Outcome, ok bool) {
		if ok {
			d.end("read failures reported", o, o.st.get("reader:in", "rerr", tFalse) == tFalse, "success although a read of the input may have failed")
		}
	})
}

func both(fs ...checkFn) checkFn {
	return func(c *Ctx) {
		for _, f := range fs {
			f(c)
		}
	}
}

func init() {
	checks["C01"] = checkC01d
	checks["C02"] = checkC02d
	checks["C03"] = both(checkC03w, checkC03d)
	checks["C04"] = both(checkC04w, checkC04d)
	checks["C05"] = both(checkC05w, checkC05d)
	checks["C06"] = checkC06
	checks["C07"] = both(checkC07w, checkC07d)
	checks["C15"] = checkC15
	checks["C16"] = checkC16
}
