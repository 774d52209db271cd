package main

// Rules on key files and on the conversion of keys.

import (
	"fmt"
	"strings"
)

// afterNote lists the events that follow the first note of a kind.
func afterNote(o *Outcome, tag string) []*Event {
	ev := o.st.log.list()
	for i, e := range ev {
		if e.kind == "note:"+tag {
			return ev[i+1:]
		}
	}
	return nil
}

func anyFailed(o *Outcome, except ...string) string {
	for _, e := range o.st.log.list() {
		if !e.failed {
			continue
		}
		skip := false
		for _, x := range except {
			if e.kind == x {
				skip = true
			}
		}
		if !skip {
			return e.kind + " failed at " + e.site
		}
	}
	return ""
}

// leaks finds a part of t that shows something of a secret; sealed parts and
// public keys do not.
func leaks(t *Term, secret func(*Term) bool) *Term {
	var r *Term
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if r != nil || seen[t] {
			return
		}
		seen[t] = true
		switch t.Op {
		case "edpub":
			return
		case "seal":
			w(t.A[1])
			w(t.A[3])
			return
		}
		if secret(t) {
			r = t
			return
		}
		for _, a := range t.A {
			w(a)
		}
	}
	w(t)
	return r
}

func checkK01(c *Ctx) {
	d := c.run("sign", "verif_K_store", runOpts{}, nil)
	found := false
	for i := range d.outs {
		o := &d.outs[i]
		if !succeeded(o, "Marshal") {
			continue
		}
		found = true
		sk, pw := noteArg(o, "given", 0), noteArg(o, "given", 1)
		doc := noteArg(o, "Marshal", 1)
		y, m := yamlOut(doc)
		d.end("one document", o, y != nil && y == doc, "what is returned is not one encoded document: "+sub(sk2(doc)))
		if y == nil {
			continue
		}
		var fresh []*Term
		for _, e := range afterNote(o, "given") {
			if e.kind == "rand" && !e.failed {
				fresh = append(fresh, e.rets...)
			}
		}
		n := 0
		for k, v := range m {
			if v.Op != "b64" || v.A[0].Op != "seal" {
				continue
			}
			se := v.A[0]
			if findOp(se.A[2], func(x *Term) bool { return x == sk }) == nil && se.A[2] != sk {
				continue
			}
			n++
			d.end("secret sealed", o, se.A[2] == sk, "the field "+k+" seals "+sk2(se.A[2])+" instead of the secret key")
			kd := se.A[0]
			ok := kd.Op == "kdf" && kd.S == "scrypt"
			d.end("sealed under scrypt", o, ok, "the secret is sealed under "+sk2(kd))
			if !ok {
				continue
			}
			d.end("whole passphrase", o, covers(kd.A[0], pw), "the key does not depend on the whole passphrase: "+sk2(kd.A[0]))
			salt := kd.A[1]
			isFresh := false
			for _, f := range fresh {
				if f == salt {
					isFresh = true
				}
			}
			d.end("fresh salt", o, isFresh && fullRand(salt, 16), "the salt is not fresh random data of this call: "+sk2(salt))
			N, _ := kd.A[2].isConst()
			r, _ := kd.A[3].isConst()
			p, _ := kd.A[4].isConst()
			d.end("cost of the key derivation", o, N >= 1<<19 && r >= 8 && p >= 1, fmt.Sprintf("scrypt runs with N=%s r=%s p=%s, below the documented cost of 524288, 8, 1", sk2(kd.A[2]), sk2(kd.A[3]), sk2(kd.A[4])))
			d.end("key length", o, kd.A[5] == num(32), "the derived key has length "+sk2(kd.A[5]))
		}
		d.end("secret sealed", o, n == 1, fmt.Sprintf("%d fields hold the sealed secret key", n))
		l := leaks(doc, func(x *Term) bool {
			return x == sk || x == pw || x.Op == "kdf" || x.Op == "rand" && contains(sk, x) || x.Op == "raw" && contains(pw, x)
		})
		d.end("nothing else shows the secret", o, l == nil, "outside the sealed part the document depends on "+sk2(orNil(l)))
	}
	c.req("reachable", d.name, d.name, d.name, found, "no path stores a key")
}

func orNil(t *Term) *Term {
	if t == nil {
		return tNil
	}
	return t
}

func sk2(t *Term) string { return sk(orNil(t)) }

// loads runs a driver that reads a private key; f sees the paths that may
// return a key.
func (c *Ctx) loads(n string, o runOpts, f func(d *DRun, o *Outcome, ssh bool)) {
	d := c.run("sign", n, o, nil)
	for i := range d.outs {
		o := &d.outs[i]
		if o.kind != "" || lastNote(o, "Load") == nil {
			continue
		}
		if !succeeded(o, "Load") {
			continue
		}
		pem := false
		for _, e := range o.st.log.list() {
			if e.kind == "pem" && !e.failed {
				pem = true
			}
		}
		f(d, o, pem)
	}
}

var loadDrivers = []string{"verif_K_load", "verif_K_read", "verif_K_unmarshal"}

// keyNotes: the key of a path, as its driver noted it.
func checkK02(c *Ctx) {
	for _, n := range loadDrivers {
		found := false
		c.loads(n, runOpts{}, func(d *DRun, o *Outcome, ssh bool) {
			if ssh {
				return
			}
			found = true
			key := noteArg(o, "key", 0)
			var op *Event
			for _, e := range eventsOf(o, "open") {
				if key != nil && (e.rets[0] == key || key == rawSub(e.rets[0], num(0), num(64)) && o.st.f.entailEq(blen(e.rets[0]), num(64))) {
					op = e
				}
			}
			d.end("opened with authentication", o, op != nil, "the key returned is not the result of a successful authenticated decryption: "+sk2(key))
			bad := anyFailed(o, "close")
			d.end("every failure is an error", o, bad == "", "a key is returned although "+bad)
			pf := false
			for _, e := range o.st.log.list() {
				if e.kind == "note:pwfail" {
					pf = true
				}
			}
			d.end("every failure is an error", o, !pf, "a key is returned although the passphrase callback failed")
			if op == nil {
				return
			}
			kd := op.args[0]
			ok := kd.Op == "kdf" && kd.S == "scrypt"
			d.end("key derivation", o, ok, "the stored secret is opened under "+sk2(kd))
			if !ok {
				return
			}
			if n != "verif_K_unmarshal" { // which has no passphrase
				pw := noteArg(o, "pw", 0)
				d.end("the passphrase supplied", o, pw != nil && covers(kd.A[0], pw), "the key is derived from "+sk2(kd.A[0]))
			}
			d.end("stored salt", o, decodedFrom(kd.A[1]) != "", "the salt is not the stored one: "+sk2(kd.A[1]))
			for i := 2; i <= 4; i++ {
				st := kd.A[i].Op == "sym" && strings.HasPrefix(kd.A[i].S, "yaml")
				d.end("stored parameters", o, st, "a parameter of scrypt is not the stored one: "+sk2(kd.A[i]))
			}
			ct := op.args[2]
			d.end("stored secret", o, decodedFrom(ct) != "" && ct != kd.A[1], "what is opened is not a stored field: "+sk2(ct))
		})
		c.req("reachable", n, n, n, found, "no path returns a key")
		// what the caller gets with an error
		d := c.run("sign", n, runOpts{}, nil)
		for i := range d.outs {
			o := &d.outs[i]
			e := lastNote(o, "Load")
			if o.kind != "" || e == nil || nilStatus(o.st.f, e.args[0]) == 1 {
				continue
			}
			if succeeded(o, "Load") {
				continue
			}
			got := unwrapV(e.args[1])
			if n == "verif_K_unmarshal" {
				got = noteArg(o, "key", 0)
			}
			d.end("no key with an error", o, got == nil || got == tNil || got == tEmpty, "a key comes with the error: "+sk2(got))
		}
	}
}

// sshField is field i of the ssh structure decoded from data.
func sshBytes(data *Term, i int) *Term {
	nm := fmt.Sprintf("ssh%d.%d", data.id, i)
	return rawSeq(nm, setRange(sym("len("+nm+")"), 0, inf))
}
func sshInt(data *Term, i int) *Term { return sym(fmt.Sprintf("ssh%d.%d", data.id, i)) }

// constOf is the constant a string is known to equal.
func constOf(f *Facts, t *Term) string {
	for c, v := range f.truth {
		if !v || c.Op != "beq" {
			continue
		}
		if c.A[0] == t && c.A[1].Op == "bytes" {
			return c.A[1].S
		}
		if c.A[1] == t && c.A[0].Op == "bytes" {
			return c.A[0].S
		}
	}
	return ""
}

func checkK03(c *Ctx) {
	kinds := map[string]bool{}
	sshEach := func(n string, o runOpts, f func(d *DRun, o *Outcome, us []*Event)) {
		found := false
		c.loads(n, o, func(d *DRun, o *Outcome, ssh bool) {
			if !ssh {
				return
			}
			found = true
			f(d, o, eventsOf(o, "ssh.unmarshal"))
		})
		c.req("reachable", n, n, n, found, "no path returns an OpenSSH key")
	}
	for _, n := range loadDrivers {
		sshEach(n, runOpts{}, func(d *DRun, o *Outcome, us []*Event) {
			st := o.st
			bad := anyFailed(o, "close")
			d.end("every failure is an error", o, bad == "", "a key is returned although "+bad)
			for _, e := range o.st.log.list() {
				if e.kind == "note:pwfail" {
					d.end("every failure is an error", o, false, "a key is returned although the passphrase callback failed")
				}
			}
			if len(us) < 3 {
				d.end("structure decoded", o, false, fmt.Sprintf("only %d structures of the file are decoded", len(us)))
				return
			}
			hdr := us[0].args[0]
			// the magic in front of the header
			var whole *Term
			magic := "openssh-key-v1\x00"
			if hdr.Op == "sub" && hdr.A[1] == num(int64(len(magic))) {
				whole = hdr.A[0]
			}
			ok := whole != nil && (isTrue(st, pred("hasprefix", whole, bconst(magic))) || constOf(st.f, rawSub(whole, num(0), num(int64(len(magic))))) == magic)
			d.end("format magic", o, ok, "the magic in front of the header is not checked: "+sk2(hdr))
			d.end("one key", o, st.f.entailEq(sshInt(hdr, 3), num(1)), "the number of keys is not checked")
			cip, kdf := constOf(st.f, sshBytes(hdr, 0)), constOf(st.f, sshBytes(hdr, 1))
			kinds[kdf+"/"+cip] = true
			blob := sshBytes(hdr, 5)
			alg := map[string]string{"bcrypt/aes256-cbc": "cbcdec", "bcrypt/aes256-ctr": "ctr", "none/none": "-"}[kdf+"/"+cip]
			d.end("cipher and KDF", o, alg != "", "a key is accepted with the cipher "+cip+" and the KDF "+kdf)
			var priv, key *Event
			for i, e := range us {
				a := e.args[0]
				if a == blob || a.Op == "ciph" && findOp(a, func(x *Term) bool { return x == blob }) != nil {
					priv = e
					if i+1 < len(us) {
						key = us[i+1]
					}
				}
			}
			d.end("private block decoded", o, priv != nil && key != nil, "the private block of the header is not what is decoded")
			if priv == nil || key == nil {
				return
			}
			pb := priv.args[0]
			switch alg {
			case "-":
				d.end("decryption", o, pb == blob, "an unencrypted block is decoded as "+sk2(pb))
			case "cbcdec", "ctr":
				good := pb.Op == "ciph" && pb.S == alg && len(pb.A) >= 3 && pb.A[0] == blob
				d.end("decryption", o, good, "the block is not decrypted with "+cip+": "+sk2(pb))
				if good {
					pw := noteArg(o, "pw", 0)
					opts := sshBytes(hdr, 2)
					k, iv := pb.A[1], pb.A[2]
					kd := findOp(k, func(x *Term) bool { return x.Op == "kdf" && x.S == "bcrypt_pbkdf" })
					ok := kd != nil && rawSub(kd, num(0), num(32)) == k && rawSub(kd, num(32), num(48)) == iv
					d.end("key and IV", o, ok, "key and IV are not the 48 bytes derived: "+sk2(k)+" and "+sk2(iv))
					if kd != nil && n != "verif_K_unmarshal" {
						d.end("passphrase", o, pw != nil && kd.A[0] == pw, "the key is derived from "+sk2(kd.A[0]))
					}
					if kd != nil {
						d.end("salt and rounds of the file", o, kd.A[1] == sshBytes(opts, 0) && kd.A[2] == sshInt(opts, 1), "the salt and rounds used are "+sk2(kd.A[1])+" and "+sk2(kd.A[2]))
					}
				}
			}
			d.end("check values", o, st.f.entailEq(sshInt(pb, 0), sshInt(pb, 1)), "the two check values are not compared")
			kt := constOf(st.f, sshBytes(pb, 2))
			d.end("key type", o, kt == "ssh-ed25519", "the key type accepted is "+kt)
			d.end("private part decoded", o, key.args[0] == sshBytes(pb, 3), "the key is decoded from "+sk2(key.args[0]))
			sk := noteArg(o, "key", 0)
			want := sshBytes(key.args[0], 1)
			d.end("private key length", o, st.f.entailEq(blen(want), num(64)), "the length of the private key is not checked")
			d.end("private key", o, sk != nil && (sk == want || seqEq(st, sk, want) || sameRaw(sk, want)), "the key returned is "+sk2(sk))
		})
	}
	for _, k := range []string{"bcrypt/aes256-cbc", "bcrypt/aes256-ctr", "none/none"} {
		c.req("supported", "verif_K_load", k, "", kinds[k], "no path accepts a key with "+k)
	}
	// the padding, byte by byte, for some lengths
	lens := []int{1, 2, 3, 7, 16}
	if c.thorough {
		lens = []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 24, 32, 64}
	}
	for _, l := range lens {
		sshEach("verif_K_load", runOpts{rest: l}, func(d *DRun, o *Outcome, us []*Event) {
			pad := rawSeq(sshBytes(us[len(us)-1].args[0], 3).S, num(int64(l)))
			bad := ""
			for i := 0; i < l; i++ {
				if !o.st.f.entailEq(appS("at", "b", pad, num(int64(i))), num(int64(i+1))) {
					bad = fmt.Sprintf("byte %d of %d bytes of padding is not checked", i, l)
				}
			}
			d.end("padding", o, bad == "", bad)
		})
	}
}

// sameRaw: the same unknown bytes, whatever is known of their length.
func sameRaw(a, b *Term) bool {
	if a.Op == "sub" && a.A[1] == num(0) {
		a = a.A[0]
	}
	return a.Op == "raw" && b.Op == "raw" && a.S == b.S
}

// badPK tells what is wrong with a public key made from an input.
func badPK(st *State, pk, hash *Term, ssh []*Event) string {
	if pk == nil || hash == nil {
		return "there is no key"
	}
	if !st.f.entailEq(blen(pk), num(32)) {
		return "the key has " + sk2(blen(pk)) + " bytes"
	}
	if hash != rawSub(app1("hash", "sha256", pk), num(0), num(16)) {
		return "the hash of the key is " + sk2(hash)
	}
	src := pk
	if src.Op == "sub" {
		src = src.A[0]
		if pk.A[1] != num(0) || !st.f.entailEq(blen(src), num(32)) {
			return "the key is a part of a longer input: " + sk2(pk)
		}
	}
	switch {
	case src.Op == "b64dec":
		return ""
	case src.Op == "raw" && strings.HasPrefix(src.S, "ssh"):
		og := symOrigin[src.S]
		if og == nil || og.S != "0" {
			return "the key is not the key field of the structure: " + sk2(pk)
		}
		data := og.A[0]
		if !st.f.entailEq(blen(sshBytes(data, 1)), num(0)) {
			return "data after the key are accepted"
		}
		if data.Op != "sub" || data.A[0].Op != "b64dec" {
			return "the key is decoded from " + sk2(data)
		}
		typ := rawSub(data.A[0], num(4), data.A[1])
		if t := constOf(st.f, typ); t != "ssh-ed25519" {
			return "the type of the key is not checked: " + t
		}
		if !st.f.entailEq(data.A[2], blen(data.A[0])) {
			return "a part of the input is left out: " + sk2(data)
		}
		return ""
	}
	return "the key is not the bytes of the input: " + sk2(pk)
}

func app1(op, s string, a *Term) *Term { return appS(op, s, a) }

// ptrField is a field of the structure behind a pointer, byte slices as their content.
func ptrField(st *State, p *Term, name string) *Term {
	if p == nil || p.Op != "ptr" {
		return nil
	}
	v := st.heap[p.S+"."+name]
	if v != nil && v.Op == "slice" {
		v = st.bytesOf(v)
	}
	return v
}

func checkK05(c *Ctx) {
	for _, n := range []string{"verif_P_load", "verif_P_read", "verif_P_string"} {
		d := c.run("sign", n, runOpts{}, nil)
		forms := map[string]bool{}
		for i := range d.outs {
			o := &d.outs[i]
			if !succeeded(o, "Load") {
				continue
			}
			p := lastNote(o, "Load").args[1]
			if p.Op == "ifaceval" {
				p = p.A[0]
			}
			d.end("not nil", o, p != nil && p != tNil && p.Op == "ptr", "a nil key may be returned without an error")
			pk := noteArg(o, "key", 0)
			bad := badPK(o.st, pk, noteArg(o, "key", 1), nil)
			d.end("key of the input", o, bad == "", bad)
			if pk != nil {
				if findOp(pk, func(x *Term) bool { return x.Op == "raw" && strings.HasPrefix(x.S, "ssh") }) != nil {
					forms["ssh"] = true
				} else {
					forms["sigtool"] = true
				}
			}
		}
		c.req("reachable", n, n, n, forms["ssh"] && forms["sigtool"], "one of the two forms of a public key is never accepted")
	}
	n := 0
	fields := map[string]bool{}
	c.run("sign", "verif_P_auth", runOpts{}, func(d *DRun, st *State, e *Event) {
		if !strings.HasPrefix(e.kind, "append:") || !strings.HasSuffix(e.kind, ".PublicKey") {
			return
		}
		n++
		p := e.args[0]
		d.at("not nil", e, p.Op == "ptr" || nilStatus(st.f, p) == 0, "a nil key may be added to the list: "+sk2(p))
		if p.Op == "ptr" {
			bad := badPK(st, ptrField(st, p, "Pk"), ptrField(st, p, "hash"), nil)
			d.at("key of the input", e, bad == "", bad)
			fields[p.S] = true
		} else if nilStatus(st.f, p) == 0 {
			d.at("key of the input", e, false, "the key added is not known: "+sk2(p))
		}
	})
	c.req("reachable", "verif_P_auth", "verif_P_auth", "", n > 0, "no path adds a key to the list")
}

// pubOf: the public key is the one of the private key.
func pubOf(sk, pk, hash *Term) string {
	if sk == nil || pk == nil {
		return "there is no key"
	}
	ok := pk == rawSub(sk, num(32), num(64))
	if !ok && sk.Op == "cat" {
		ps := flat(sk)
		ok = len(ps) == 2 && ps[1] == pk
	}
	if !ok {
		return "the public half " + sk2(pk) + " is not the one of " + sk2(sk)
	}
	if hash != nil && hash != rawSub(app1("hash", "sha256", pk), num(0), num(16)) {
		return "the hash of the public half is " + sk2(hash)
	}
	return ""
}

func checkK06(c *Ctx) {
	for _, n := range []string{"verif_K_rt", "verif_P_rt"} {
		d := c.run("sign", n, runOpts{}, nil)
		found := false
		for i := range d.outs {
			o := &d.outs[i]
			if o.kind != "" || lastNote(o, "RT") == nil {
				continue
			}
			after := false
			sshRead := false
			for _, e := range o.st.log.list() {
				if e.kind == "yaml.marshal" {
					after = true
				}
				if after && e.kind == "ssh.unmarshal" && !e.failed {
					sshRead = true
				}
			}
			if n == "verif_P_rt" && sshRead {
				continue // the text of our own keys is no base64 in its second word
			}
			ok := nilStatus(o.st.f, lastNote(o, "RT").args[0]) == 1
			d.end("read back", o, ok, "a stored key may be refused: "+sk2(lastNote(o, "RT").args[0]))
			if !ok {
				continue
			}
			found = true
			for j, what := range []string{"key", "public key", "hash"} {
				if n == "verif_P_rt" {
					what = []string{"key", "hash", ""}[j]
				}
				if what == "" {
					continue
				}
				a, b := noteArg(o, "given", j), noteArg(o, "key", j)
				d.end("same "+what, o, a != nil && a == b, "the "+what+" read back is "+sk2(b)+", stored was "+sk2(a))
			}
		}
		c.req("reachable", n, n, n, found, "no path stores and reads a key")
	}
	for _, n := range []string{"verif_K_load", "verif_K_read"} {
		c.loads(n, runOpts{}, func(d *DRun, o *Outcome, ssh bool) {
			why := pubOf(noteArg(o, "key", 0), noteArg(o, "key", 1), noteArg(o, "key", 2))
			d.end("public half", o, why == "", why)
		})
	}
	for _, n := range []string{"verif_G_new", "verif_G_sk2"} {
		d := c.run("sign", n, runOpts{}, nil)
		for i := range d.outs {
			o := &d.outs[i]
			if lastNote(o, "pub") == nil || o.kind != "" {
				continue
			}
			why := pubOf(noteArg(o, "pub", 0), noteArg(o, "pub", 1), noteArg(o, "pub", 2))
			d.end("public half", o, why == "", why)
		}
	}
}

// evalByte evaluates an integer term for one value of an atom.
func evalByte(t, atom *Term, v int64) (int64, bool) {
	if t == atom {
		return v, true
	}
	bin := func(f func(a, b int64) int64) (int64, bool) {
		a, ok := evalByte(t.A[0], atom, v)
		b, ok2 := evalByte(t.A[1], atom, v)
		return f(a, b), ok && ok2
	}
	switch t.Op {
	case "lin":
		n, as, cs := linView(t)
		for i := range as {
			x, ok := evalByte(as[i], atom, v)
			if !ok {
				return 0, false
			}
			n += cs[i] * x
		}
		return n, true
	case "and":
		return bin(func(a, b int64) int64 { return a & b })
	case "or":
		return bin(func(a, b int64) int64 { return a | b })
	case "xor":
		return bin(func(a, b int64) int64 { return a ^ b })
	case "wrap", "trunc", "byteof":
		x, ok := evalByte(t.A[0], atom, v)
		return x & 255, ok && t.Op != "byteof"
	case "b2i":
		if b := t.A[0]; b.Op == "bit" {
			x, ok := evalByte(b.A[0], atom, v)
			return x >> uint(b.N) & 1, ok
		}
	}
	return 0, false
}

// byteFn: the byte term is f of the atom, for every value of it.
func byteFn(t, atom *Term, f func(x int64) int64) bool {
	for x := int64(0); x < 256; x++ {
		if r, ok := evalByte(t, atom, x); !ok || r&255 != f(x) {
			return false
		}
	}
	return true
}

// byteAt is byte i of a sequence whose parts have known lengths.
func byteAt(f *Facts, t *Term, i int64) *Term {
	for _, p := range flat(t) {
		n, ok := blen(p).isConst()
		if !ok {
			return nil
		}
		if i < n {
			if p.Op == "elem" {
				return p.A[0]
			}
			if p.Op == "sub" {
				return appS("at", "b", p.A[0], addK(p.A[1], i))
			}
			return appS("at", "b", p, num(i))
		}
		i -= n
	}
	return nil
}

// badCurveSK tells what is wrong with the converted secret.
func badCurveSK(st *State, cv, sk *Term) string {
	if cv == nil || sk == nil {
		return "there is no converted key"
	}
	if n, _ := blen(cv).isConst(); n != 32 {
		return "the converted key has " + sk2(blen(cv)) + " bytes"
	}
	h := app1("hash", "sha512", bsub(st.f, sk, num(0), num(32)))
	for i := int64(0); i < 32; i++ {
		b := byteAt(st.f, cv, i)
		a := appS("at", "b", h, num(i))
		ok := b != nil
		if ok {
			switch i {
			case 0:
				ok = byteFn(b, a, func(x int64) int64 { return x & 248 })
			case 31:
				ok = byteFn(b, a, func(x int64) int64 { return x&127 | 64 })
			default:
				ok = b == a
			}
		}
		if !ok {
			return fmt.Sprintf("byte %d of the converted secret is not that of the clamped hash of the seed: %s", i, sk2(b))
		}
	}
	return ""
}

// badCurvePK tells what is wrong with the converted public key: it must be
// computed from all bytes of the key and from nothing else.
func badCurvePK(st *State, cv, pk *Term) string {
	if cv == nil || pk == nil {
		return "there is no converted key"
	}
	if n, _ := blen(cv).isConst(); n != 32 {
		return "the converted key has " + sk2(blen(cv)) + " bytes"
	}
	other := ""
	var have [32]bool
	conv := false
	leaf := pk
	if leaf.Op == "sub" {
		leaf = leaf.A[0]
	}
	sources(cv, func(x *Term) bool {
		switch {
		case x == pk:
			for i := range have {
				have[i] = true
			}
			return false
		case x.Op == "at" && (x.A[0] == pk || x.A[0] == leaf):
			if i, ok := x.A[1].isConst(); ok && i >= 0 && i < 32 {
				have[i] = true
			} else if !ok {
				for i := range have {
					have[i] = true
				}
			}
			return false
		case x.Op == "sub" && (x.A[0] == pk || x.A[0] == leaf):
			lo, ok := x.A[1].isConst()
			hi, ok2 := x.A[2].isConst()
			for i := range have {
				if !ok || !ok2 || int64(i) >= lo && int64(i) < hi {
					have[i] = true
				}
			}
			return false
		case x == leaf:
			return false
		case x.Op == "big" && x.S == "Mod", x.Op == "bigbytes":
			conv = true
		case x.Op == "rand", x.Op == "edpub", x.Op == "b64dec", x.Op == "raw" && !strings.HasPrefix(x.S, "big"):
			other = sk2(x)
			return false
		}
		return true
	})
	if other != "" {
		return "the converted key depends on " + other + ", the key is " + sk2(pk)
	}
	for i := range have {
		if !have[i] {
			return fmt.Sprintf("the converted key does not depend on byte %d of the key: %s", i, sk2(cv))
		}
	}
	if !conv {
		return "the key is not converted"
	}
	return ""
}

func checkK07(c *Ctx) {
	for _, n := range []string{"verif_G_pk", "verif_G_pk2", "verif_G_new", "verif_G_sk", "verif_G_sk2"} {
		d := c.run("sign", n, runOpts{curve: true}, nil)
		found := false
		for i := range d.outs {
			o := &d.outs[i]
			if o.kind != "" {
				continue
			}
			for _, e := range o.st.log.list() {
				if e.kind != "note:curve" {
					continue
				}
				found = true
				cv, k := unwrapV(e.args[0]), unwrapV(e.args[1])
				why := ""
				if strings.HasPrefix(n, "verif_G_sk") {
					why = badCurveSK(o.st, cv, k)
				} else {
					why = badCurvePK(o.st, cv, k)
				}
				d.end("conversion noted at "+e.site, o, why == "", why)
			}
		}
		c.req("reachable", n, n, n, found, "no path converts a key")
	}
	// the key used for a recipient
	for _, n := range []string{"verif_E3_plain", "verif_E3_auth"} {
		d := c.run("sign", n, runOpts{}, nil)
		found := false
		for i := range d.outs {
			o := &d.outs[i]
			rc := lastNote(o, "recipients")
			if o.kind != "" || rc == nil {
				continue
			}
			found = true
			want := map[*Term]bool{}
			for _, a := range rc.args {
				want[app("curvepk", unwrapV(a))] = true
			}
			for _, e := range eventsOf(o, "x25519") {
				if e.args[1].Op != "curvepk" {
					continue
				}
				d.end("key of the recipient", o, want[e.args[1]], "a key is wrapped for "+sk2(e.args[1])+", which is no recipient")
				delete(want, e.args[1])
			}
			d.end("key of the recipient", o, len(want) == 0, "for one of the recipients nothing is computed from its own key")
		}
		c.req("reachable", n, n, n, found, "no path adds two recipients")
	}
}

func init() {
	checks["K01"] = checkK01
	checks["K02"] = checkK02
	checks["K03"] = checkK03
	checks["K05"] = checkK05
	checks["K06"] = checkK06
	checks["K07"] = checkK07
}
