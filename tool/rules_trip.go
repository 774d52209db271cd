package main

import "strings"

// What is encrypted and decrypted again, signed and verified: runs that keep
// every value exact, over data of a few chunks of any size.

// tripSteps are the calls that have to succeed on the way.
var tripSteps = map[string]bool{
	"NewEncryptor": true, "AddRecipient": true, "Encrypt": true, "NewDecryptor": true, "SetPrivateKey": true, "Decrypt": true,
	"NewStreamWriter": true, "Write": true, "Close": true, "NewStreamReader": true, "Read": true,
	"Marshal sk": true, "MakePrivateKey": true, "Marshal pk": true, "MakePublicKey": true,
	"SignMessage": true, "Marshal sig": true, "Unmarshal sig": true,
}

// trip analyses one driver. Every path has to end with the given note.
func (c *Ctx) trip(n, end string, f func(d *DRun, o *Outcome)) {
	d := c.run("sign", n, runOpts{pb: true, bounds: true, exact: true, fresh: true}, nil)
	done := 0
	for i := range d.outs {
		o := &d.outs[i]
		if readOwnAsSSH(o) {
			continue // the text of our own keys is no base64 in its second word
		}
		d.end("returns", o, o.kind == "", "a path ends in "+o.kind)
		if o.kind != "" {
			continue
		}
		ok := true
		for _, e := range o.st.log.list() {
			tag := noteTag(e)
			if !tripSteps[tag] {
				continue
			}
			if nilStatus(o.st.f, e.args[0]) != 1 {
				ok = false
				if end != "" {
					d.end("succeeds", o, false, tag+" may fail: "+sk2(e.args[0]))
				}
				break
			}
		}
		if end == "" {
			done++
			f(d, o)
			continue
		}
		if !ok {
			continue
		}
		d.end("succeeds", o, lastNote(o, end) != nil, "the way back does not end")
		if lastNote(o, end) != nil {
			done++
			f(d, o)
		}
	}
	c.req("reachable", n, n, n, done > 0, "no path of "+n+" ends")
}

func noteTag(e *Event) string {
	if len(e.kind) > 5 && e.kind[:5] == "note:" {
		return e.kind[5:]
	}
	return ""
}

// readOwnAsSSH: the path on which a key that was stored is taken for one of
// ssh.
func readOwnAsSSH(o *Outcome) bool {
	after := false
	for _, e := range o.st.log.list() {
		if e.kind == "yaml.marshal" {
			after = true
		}
		if after && e.kind == "ssh.unmarshal" && !e.failed {
			return true
		}
	}
	return false
}

var tripDrivers = []string{"one", "eof", "self", "auth", "rcpt1", "rcpt2", "rcpt3", "size", "write", "read", "keys", "nopw"}

func checkC22(c *Ctx) {
	ns := tripDrivers
	if c.thorough {
		ns = append(append([]string{}, ns...), "long")
	}
	signed := map[string]bool{"self": true, "auth": true, "rcpt2": true, "write": true, "keys": true}
	for _, n := range ns {
		c.trip("verif_R_"+n, "back", func(d *DRun, o *Outcome) {
			st := o.st
			a, b := noteArg(o, "back", 0), noteArg(o, "back", 1)
			d.end("same bytes", o, tripEq(st, a, b), "decrypted is "+sk2(b)+", encrypted was "+sk2(a))
			rest := unwrapV(noteArg(o, "back", 2))
			d.end("all read", o, st.f.entailEq(rest, num(0)), "some of the file is left: "+sk2(rest))
			for _, e := range o.st.log.list() {
				if e.kind == "note:count" {
					d.end("count", o, st.f.entailEq(unwrapV(e.args[0]), num(0)), "Write tells another number of bytes than it was given")
				}
			}
			au := unwrapV(noteArg(o, "authenticated", 0))
			want := 0
			if signed[n] {
				want = 1
			}
			d.end("sender told", o, st.f.eval(au) == want, "the sender is said to be authenticated: "+sk2(au))
		})
	}
	allTried(c)
	// a key that is no recipient's, a sender that did not sign
	for _, n := range []string{"other", "sender", "nosender"} {
		c.trip("verif_R_"+n, "", func(d *DRun, o *Outcome) {
			e := lastNote(o, "SetPrivateKey")
			d.end("refused", o, e != nil && nilStatus(o.st.f, e.args[0]) == 0 && lastNote(o, "back") == nil, "a key or sender that has no part in the file is accepted")
		})
	}
}

func tripEq(st *State, a, b *Term) bool {
	if a == nil || b == nil {
		return false
	}
	if a.Op == "nil" || b.Op == "nil" {
		x := a
		if a.Op == "nil" {
			x = b
		}
		return x.Op == "nil" || st.f.entailLE(blen(x), num(0))
	}
	return seqEq(st, a, b)
}

func checkS05(c *Ctx) {
	c.trip("verif_R_sig", "verdict", func(d *DRun, o *Outcome) {
		st := o.st
		for i, what := range []string{"the hash of the key does not match the signature", "the signature does not verify"} {
			v := unwrapV(noteArg(o, "verdict", i))
			d.end("accepted", o, st.f.eval(v) == 1, what+": "+sk2(v))
		}
		for i, what := range []string{"", "another key verifies the signature", "the signature verifies for another message"} {
			if what != "" {
				v := unwrapV(noteArg(o, "verdict", 2+i))
				d.end("refused", o, st.f.eval(v) == 0, what+": "+sk2(v))
			}
		}
	})
}

func init() {
	checks["C22"] = checkC22
	checks["S05"] = checkS05
}

// wrapEntry is the entry of the list of wrapped keys that a seal was taken
// from: its index.
func wrapEntry(ct *Term) *Term {
	r := findOp(ct, func(x *Term) bool { return x.Op == "raw" && strings.HasSuffix(x.S, ".DKey") })
	if r == nil || !strings.HasPrefix(r.S, "t") {
		return nil
	}
	p := opaqueOf["@"+strings.TrimSuffix(r.S[1:], ".DKey")]
	if p == nil || p.Op != "at" || len(p.A) < 2 {
		return nil
	}
	return p.A[1]
}

// allTried: a private key is turned away only after every wrapped key was
// tried with it, each one in turn.
func allTried(c *Ctx) {
	n := "verif_T_tried"
	turned := 0
	w := writerLimits(c)
	d := c.run("sign", n, runOpts{tally: true}, func(d *DRun, st *State, e *Event) {
		if e.kind != "open" || isStreamCt(e.args[2]) || findOp(e.args[2], func(x *Term) bool { return x.Op == "raw" && strings.HasSuffix(x.S, ".DKey") }) == nil {
			return
		}
		i := wrapEntry(e.args[2])
		k := st.get("rands", "opens", num(0))
		d.at("each wrapped key in turn", e, i != nil && st.f.entailEq(i, k), "it is not known that the next one of the wrapped keys is tried: entry "+sk2(i)+" after "+sk2(k))
	})
	for i := range d.outs {
		o := &d.outs[i]
		e := lastNote(o, "SetPrivateKey")
		if o.kind != "" || e == nil || nilStatus(o.st.f, e.args[0]) == 1 {
			continue
		}
		other := false
		for _, e := range o.st.log.list() {
			other = other || e.kind == "open" && !e.failed || e.failed && e.kind != "open"
		}
		if other || !w.possible(o) {
			continue
		}
		turned++
		k := o.st.get("rands", "opens", num(0))
		d.end("every wrapped key is tried", o, o.st.f.entailEq(k, unwrapV(e.args[1])), "the key is turned away after "+sk2(k)+" of "+sk2(unwrapV(e.args[1]))+" wrapped keys")
	}
	c.req("reachable", n, n, n, turned > 0, "no key is turned away")
}
