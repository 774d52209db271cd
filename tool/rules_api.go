package main

// Rules on the order of calls: which calls a context accepts and what the
// refused ones leave behind.

import "strings"

// used: the context of an S13 driver was used for a stream: its first use
// succeeded or sealed something before it failed.
func used(st *State) bool {
	for l := st.log; l != nil; l = l.prev {
		if l.ev.kind != "note:first" || l.ev.may {
			continue
		}
		if mayBeNil(st, l.ev.args[0]) {
			return true
		}
		for l = l.prev; l != nil; l = l.prev {
			if isDataSeal(l.ev) {
				return true
			}
		}
		return false
	}
	return false
}

// refuses: the callback of the C13 drivers.
func refuses(seen map[string]bool) func(d *DRun, st *State, e *Event) {
	return func(d *DRun, st *State, e *Event) {
		if d.name != "verif_S13_add" && !used(st) {
			return
		}
		switch {
		case e.kind == "note:AddRecipient":
			seen[d.name+" AddRecipient"] = true
			if d.name == "verif_S13_add" {
				err, n, m := e.args[0], unwrapV(e.args[1]), unwrapV(e.args[2])
				switch nilStatus(st.f, err) {
				case 1:
					d.at("successful AddRecipient adds one", e, st.f.entailEq(m, addK(n, 1)), "a call that succeeded changes the number of recipients from "+sk(n)+" to "+sk(m))
				case 0:
					d.at("failed AddRecipient changes nothing", e, st.f.entailEq(m, n), "a call that failed changes the number of recipients from "+sk(n)+" to "+sk(m))
				default:
					d.at("failed AddRecipient changes nothing", e, false, "undecided result "+sk(err))
				}
				return
			}
			d.at("no recipient after the start", e, !mayBeNil(st, e.args[0]), "AddRecipient may succeed on a context that was used")
			d.at("no recipient after the start", e, st.f.entailEq(unwrapV(e.args[1]), unwrapV(e.args[2])), "AddRecipient changes the recipients of a context that was used")
		case e.kind == "note:Encrypt" || e.kind == "note:NewStreamWriter":
			tag := strings.TrimPrefix(e.kind, "note:")
			seen[d.name+" "+tag] = true
			d.at("second use refused", e, !mayBeNil(st, e.args[0]), tag+" may succeed on a context that was used or has no recipients")
		case e.kind == "write" && strings.HasPrefix(e.args[0].S, "writer:out2"):
			d.at("refused calls write nothing", e, false, "a refused call writes "+sk(e.args[1]))
		case isDataSeal(e):
			d.at("refused calls seal nothing", e, false, "a chunk is sealed for a second stream of the same context")
		case e.kind == "append:pb.WrappedKey":
			d.at("no recipient after the start", e, false, "a recipient is added to a context that was used")
		}
	}
}

func checkC13(c *Ctx) {
	for _, n := range []string{"verif_S13_encrypt", "verif_S13_stream", "verif_S13_none", "verif_S13_add"} {
		seen := map[string]bool{}
		c.run("sign", n, runOpts{}, refuses(seen))
		for _, t := range []string{"AddRecipient", "Encrypt", "NewStreamWriter"} {
			if strings.HasSuffix(n, "none") && t == "AddRecipient" || strings.HasSuffix(n, "add") != (t == "AddRecipient") && strings.HasSuffix(n, "add") {
				continue
			}
			c.req("reachable", n, n, n+" "+t, seen[n+" "+t], "no path of the driver reaches "+t+" after the first use")
		}
	}
}

// noted: the path passed a note.
func noted(st *State, tag string) bool {
	for l := st.log; l != nil; l = l.prev {
		if l.ev.kind == "note:"+tag && !l.ev.may {
			return true
		}
	}
	return false
}

// headerMsg is the header message that a key is bound to.
func headerMsg(key *Term) *Term {
	var m *Term
	walk(key, func(x *Term) bool {
		if x.Op == "hash" && m == nil {
			for _, p := range flat(x.A[0]) {
				if p.Op == "pbenc" {
					m = p.A[0]
				}
			}
		}
		return m == nil
	})
	return m
}

func checkC17(c *Ctx) {
	seen := map[string]bool{}
	c.encEach([]string{"verif_E2_plain", "verif_E2_auth"}, func(d *DRun, st *State, e *Event) {
		switch {
		case isDataSeal(e):
			l := blen(e.args[2])
			var cs *Term
			if m := headerMsg(e.args[0]); m != nil {
				cs = fieldIdx(m, "ChunkSize")
			}
			if cs == nil {
				d.at("chunks have the block size", e, false, "the chunk key does not depend on an encoded header")
				return
			}
			w := num(-1)
			if n, ok := blen(e.args[3]).isConst(); ok && n == 4 {
				w = beget(4, e.args[3])
			}
			if !st.f.entailEq(w, addK(l, 1<<31)) {
				seen["sealed chunk"] = true
				d.at("chunks have the block size", e, st.f.entailEq(l, cs), "a chunk before the last has length "+sk(l)+" and not the block size "+sk(cs))
			}
			d.at("chunks have the block size", e, st.f.entailLE(l, cs), "a chunk of length "+sk(l)+" exceeds the block size "+sk(cs))
		case e.kind == "note:Write":
			seen["Write"] = true
			for _, a := range objsOf(st, "aead") {
				if k := st.get(a, "eofs", num(0)); a == d.dataAead(st) {
					d.at("end mark only at Close", e, st.f.entailLE(k, num(0)), "Write may seal a chunk with the end mark")
				}
			}
			err, n, l, failed := e.args[0], unwrapV(e.args[1]), unwrapV(e.args[2]), unwrapV(e.args[3])
			if mayBeNil(st, err) {
				d.at("full count or error", e, st.f.entailEq(n, l), "Write returns "+sk(n)+" of "+sk(l)+" bytes without an error")
				d.at("errors stay", e, st.f.eval(failed) == 0, "Write may succeed after a Write that failed")
			}
		case e.kind == "note:Close":
			seen["Close"] = true
			if mayBeNil(st, e.args[0]) {
				d.at("errors stay", e, st.f.eval(unwrapV(e.args[1])) == 0, "Close may succeed after a Write that failed")
			}
		}
	}, func(d *DRun, o *Outcome, w *encOut) {
		d.end("wire layout", o, w.why == "", w.why)
		if w.data == "" {
			return
		}
		st := o.st
		pt := st.get(w.data, "pt", tEmpty)
		d.end("each byte once and in order", o, seqEq(st, pt, inStream(num(0), st.get("reader:in", "pos", num(0)))), "the sealed plaintext is not the concatenation of the written buffers: "+sk(pt))
	})
	for _, t := range []string{"Write", "Close", "sealed chunk"} {
		c.req("reachable", "verif_E2_plain", t, t, seen[t], "no path reaches "+t)
	}
	late := map[string]bool{}
	c.run("sign", "verif_E2_late", runOpts{}, func(d *DRun, st *State, e *Event) {
		if !noted(st, "closed") {
			return
		}
		switch {
		case e.kind == "note:Write" || e.kind == "note:Close":
			late[e.kind] = true
			d.at("calls after the end fail", e, !mayBeNil(st, e.args[0]), "a call after Close may succeed")
		case e.kind == "seal":
			d.at("calls after the end do nothing", e, false, "a call after Close seals "+sk(e.args[2]))
		case e.kind == "write":
			d.at("calls after the end do nothing", e, false, "a call after Close writes "+sk(e.args[1]))
		}
	})
	for _, t := range []string{"Write", "Close"} {
		c.req("reachable", "verif_E2_late", "late "+t, t, late["note:"+t], "no path reaches "+t+" after Close")
	}
}

func init() {
	checks["C17"] = checkC17
	checks["C13"] = checkC13
}
