package main

// What the primitives have in common in runs that keep every value exact.

// hasPair: the public key belongs to the signing key.
func hasPair(sk, pk *Term) bool {
	fl := flat(sk)
	return len(fl) == 2 && pk.Op == "edpub" && fl[0] == pk.A[0] && fl[1] == pk
}

// scalarOf is the secret number behind a point of Curve25519.
func scalarOf(p *Term) *Term {
	switch {
	case p.Op == "x25519" && isBasepoint(p.A[1]):
		return p.A[0]
	case p.Op == "curvepk" && p.A[0].Op == "edpub": // of the same key pair
		return app("curvesk", cat(p.A[0].A[0], p.A[0]))
	}
	return nil
}

func isBasepoint(p *Term) bool {
	return p.Op == "raw" && p.S == "basepoint" || len(p.A) == 0 && p.Op != "raw"
}

// sharedSecret is the same for both parties of a key agreement.
func sharedSecret(a, p *Term) *Term {
	if isBasepoint(p) {
		return app("x25519", a, p)
	}
	b := scalarOf(p)
	if b == nil {
		return app("x25519", a, p)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return appS("x25519", "shared", a, b)
}

// wholeOf: a part that is all of something is that.
func wholeOf(st *State, t *Term) *Term {
	var r []*Term
	for _, p := range flat(t) {
		if p.Op == "sub" && st.f.entailEq(p.A[1], num(0)) && st.f.entailEq(p.A[2], blen(p.A[0])) {
			p = p.A[0]
		}
		if !st.f.entailLE(blen(p), num(0)) {
			r = append(r, p)
		}
	}
	return cat(r...)
}
