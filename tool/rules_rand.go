package main

// C10: keys, salts and nonces are whole outputs of the system's generator.

// freshRoles names the random values of a header; each must be the whole
// output of a read of the generator, and no two may be the same read.
type freshRole struct {
	name string
	t    *Term
	n    int64
}

// scalarRand is the random value behind a clamped scalar: all but its outer
// bytes are those of one 32 byte read, and nothing else enters it.
func scalarRand(f *Facts, s *Term) *Term {
	mid := bsub(f, s, num(1), num(31))
	if mid == nil {
		return nil
	}
	var r *Term
	if mid.Op == "sub" {
		r = mid.A[0]
	}
	if !fullRand(r, 32) || bsub(f, r, num(1), num(31)) != mid {
		return nil
	}
	ok := true
	walk(s, func(x *Term) bool {
		switch x.Op {
		case "rand":
			ok = ok && x == r
			return false
		case "raw", "mu", "mub", "imu", "fresh", "sym", "instream":
			ok = false
		}
		return ok
	})
	for _, i := range []int64{0, 31} {
		if !contains(bsub(f, s, num(i), num(i+1)), r) {
			ok = false
		}
	}
	if !ok {
		return nil
	}
	return r
}

func (d *DRun) freshAll(o *Outcome, rs []freshRole) {
	seen := map[*Term]string{}
	for _, r := range rs {
		d.end("fresh "+r.name, o, fullRand(r.t, r.n), "the "+r.name+" is not the whole output of a read of the system's random generator: "+skn(r.t))
		if r.t == nil || !fullRand(r.t, r.n) {
			continue
		}
		p, dup := seen[r.t]
		d.end("fresh "+r.name, o, !dup, "the "+r.name+" is the same random value as the "+p)
		seen[r.t] = r.name
	}
	for l := o.st.log; l != nil; l = l.prev {
		if l.ev.kind == "rand" && l.ev.failed && !l.ev.may {
			d.end("random failure reported", o, false, "a path succeeds although the random generator failed at "+l.ev.site)
		}
	}
}

func skn(t *Term) string {
	if t == nil {
		return "(nothing)"
	}
	return sk(t)
}

// whole unwraps a byte sequence made of one part.
func whole(t *Term) *Term {
	if t == nil {
		return nil
	}
	if fl := flat(t); len(fl) == 1 {
		return fl[0]
	}
	return t
}

func checkC10(c *Ctx) {
	c.encEach([]string{"verif_E3_plain", "verif_E3_auth"}, nil, func(d *DRun, o *Outcome, w *encOut) {
		d.end("wire layout", o, w.why == "", w.why)
		if w.why != "" {
			return
		}
		st := o.st
		var rs []freshRole
		dk := findOp(st.get(w.data, "key", tEmpty), func(x *Term) bool { return x.Op == "hkdf" })
		if dk != nil {
			rs = append(rs, freshRole{"root key", whole(dk.A[0]), 32})
		} else {
			d.end("fresh root key", o, false, "the chunk key is not derived: "+sk(st.get(w.data, "key", tEmpty)))
		}
		epk := fieldIdx(w.msg, "Pk")
		if epk != nil && epk.Op == "x25519" {
			rs = append(rs, freshRole{"ephemeral secret", scalarRand(st.f, epk.A[0]), 32})
		} else {
			d.end("fresh ephemeral secret", o, false, "the header's public key is not that of an ephemeral secret: "+skn(epk))
		}
		rs = append(rs, freshRole{"salt", whole(fieldIdx(w.msg, "Salt")), 32})
		for _, k := range wrapped(w.msg) {
			if k == nil {
				rs = append(rs, freshRole{"recipient nonce", nil, 12})
				continue
			}
			rs = append(rs, freshRole{"recipient nonce", whole(fieldIdx(k, "Nonce")), 12})
		}
		if d.name == "verif_E3_plain" {
			rs = append(rs, freshRole{"unsigned trailer", whole(w.tail), 64})
		}
		d.freshAll(o, rs)
	})
	// any number of recipients
	c.encEach([]string{"verif_E1_plain"}, func(d *DRun, st *State, e *Event) {
		if e.kind != "seal" || sealRole(e.args[2]) != "wrap" {
			return
		}
		k := findOp(e.args[0], func(x *Term) bool { return x.Op == "hkdf" })
		ok := false
		if k != nil {
			walk(k.A[1], func(x *Term) bool {
				if fullRand(x, 12) && x != whole(e.args[2]) {
					// and not one of an earlier round: the last read made there
					n := st.get("rands", x.S, nil)
					ok = ok || n != nil && st.f.entailEq(addK(x.A[0], 1), n)
				}
				return true
			})
		}
		d.at("fresh recipient nonce", e, ok, "the key that wraps the root key for a recipient is not salted with a random nonce: "+sk(e.args[0]))
	}, func(d *DRun, o *Outcome, w *encOut) {})
	d := c.run("sign", "verif_N2", runOpts{}, nil)
	done := false
	for i := range d.outs {
		o := &d.outs[i]
		a, b := lastNote(o, "first"), lastNote(o, "second")
		if a == nil || b == nil {
			continue
		}
		done = true
		var rs []freshRole
		for _, e := range []*Event{a, b} {
			rs = append(rs, freshRole{"salt", whole(unwrapV(e.args[0])), 32})
			var esk, root *Term
			if p := unwrapV(e.args[1]); p.Op == "x25519" {
				esk = scalarRand(o.st.f, p.A[0])
			}
			rs = append(rs, freshRole{"ephemeral secret", esk, 32}, freshRole{"recipient nonce", whole(unwrapV(e.args[2])), 12})
			for _, s := range eventsOf(o, "seal") {
				if s.rets[0] == unwrapV(e.args[3]) {
					root = whole(s.args[2])
				}
			}
			rs = append(rs, freshRole{"root key", root, 32})
		}
		d.freshAll(o, rs)
	}
	c.req("reachable", "verif_N2", "verif_N2", "verif_N2", done, "no path makes two contexts")
	d = c.run("sign", "verif_newkeys", runOpts{}, nil)
	done = false
	for i := range d.outs {
		o := &d.outs[i]
		n := lastNote(o, "keys")
		if n == nil {
			continue
		}
		done = true
		var rs []freshRole
		for j := range n.args {
			fl := flat(unwrapV(n.args[j]))
			var seed *Term
			if len(fl) == 2 && fl[1] == app("edpub", fl[0]) {
				seed = fl[0]
			}
			rs = append(rs, freshRole{"signing key", seed, 32})
		}
		d.freshAll(o, rs)
	}
	c.req("reachable", "verif_newkeys", "verif_newkeys", "verif_newkeys", done, "no path makes two keys")
	// the salt of a stored private key
	d = c.run("sign", "verif_K_store", runOpts{}, nil)
	done = false
	for i := range d.outs {
		o := &d.outs[i]
		if !succeeded(o, "Marshal") {
			continue
		}
		for _, e := range eventsOf(o, "scrypt") {
			done = true
			d.freshAll(o, []freshRole{{"key file salt", whole(e.args[1]), 16}})
		}
	}
	c.req("reachable", "verif_K_store", "verif_K_store", "verif_K_store", done, "no path stores a private key under a salted passphrase")
}

func init() {
	checks["C10"] = checkC10
}
