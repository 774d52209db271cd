package main

// C09: no pair of AEAD key and nonce is used for two seals.

// randsOf are the random values a term depends on.
func randsOf(t *Term) map[*Term]bool {
	r := map[*Term]bool{}
	walk(t, func(x *Term) bool {
		if x.Op == "rand" {
			r[x] = true
		}
		return true
	})
	return r
}

// labelOf is the constant that separates a derived key from others.
func labelOf(t *Term) (*Term, bool) {
	for t.Op == "sub" {
		t = t.A[0]
	}
	if t.Op == "hkdf" && len(t.A) > 2 && len(unknowns(t.A[2])) == 0 {
		return t.A[2], true
	}
	return nil, false
}

// apart: two keys are different except by chance.
func apart(a, b *Term) bool {
	if a == b {
		return false
	}
	la, oka := labelOf(a)
	lb, okb := labelOf(b)
	if oka && okb && la != lb {
		return true
	}
	ra, rb := randsOf(a), randsOf(b)
	for x := range ra {
		if !rb[x] {
			return true
		}
	}
	for x := range rb {
		if !ra[x] {
			return true
		}
	}
	return false
}

func checkC09(c *Ctx) {
	roles := map[string]bool{}
	for _, n := range []string{"verif_E1_plain", "verif_E1_auth", "verif_E2_plain", "verif_E2_auth", "verif_E2_late", "verif_E3_plain", "verif_E3_auth", "verif_E4", "verif_S13_encrypt", "verif_S13_stream"} {
		c.run("sign", n, runOpts{}, func(d *DRun, st *State, e *Event) {
			if e.kind != "seal" {
				return
			}
			a := objOf(e.args[4].S)
			k := e.args[0]
			role := sealRole(e.args[2])
			roles[role] = true
			d.at("key is random", e, len(randsOf(k)) > 0, "the key depends on no random value: "+sk(k))
			ns := st.get(a, "nseal", nil)
			switch {
			case ns == nil:
				d.at("nonce used once", e, false, "the AEAD is of unknown origin: "+a)
			case st.f.entailEq(ns, num(0)):
				d.at("nonce used once", e, true, "")
			default:
				base, ok := ctrOf(st, e.args[1], ns)
				d.at("nonce used once", e, ok, "the nonce "+sk(e.args[1])+" is not distinct for each of the seals under this key: seals before this one "+sk(ns))
				if ok {
					for _, u := range unknowns(base) {
						d.at("nonce used once", e, u.Op != "fresh", "the rest of the nonce is not fixed: "+sk(base))
					}
				}
			}
			for _, b := range objsOf(st, "aead") {
				if b == a || st.f.entailEq(st.get(b, "nseal", num(0)), num(0)) {
					continue
				}
				kb := st.get(b, "key", nil)
				d.at("keys differ", e, kb != nil && apart(k, kb), "the "+role+" key "+sk(k)+" may be the same as one used for sealing before")
			}
			for l := st.log; l != nil; l = l.prev {
				if l.ev.kind == "seal" && objOf(l.ev.args[4].S) != a {
					d.at("keys differ", e, apart(k, l.ev.args[0]), "the "+role+" key "+sk(k)+" may be the same as one used for sealing before")
				}
			}
		})
	}
	for _, r := range []string{"data", "wrap", "sender"} {
		c.req("reachable", "verif_E1_auth", r, r, roles[r], "no path seals "+r)
	}
}

func init() { checks["C09"] = checkC09 }
