package main

// F07: what messages and errors say.

import (
	"fmt"
	"os"
	"strings"
)

// said is one text: a message or an error, with what goes into it.
type said struct {
	ts       []*Term
	site, fn string
	kind     string
}

// textOf: an event that shows something to the user, and what it shows.
func textOf(e *Event) []*Term {
	switch {
	case e.kind == "print":
		return e.args
	case e.kind == "write":
		if n := objName(e.args[0]); n == stdErr || n == stdOut {
			return e.args[1:]
		}
	case strings.HasPrefix(e.kind, "log.") || strings.HasPrefix(e.kind, "(*log.") || strings.HasPrefix(e.kind, "log/") || strings.HasPrefix(e.kind, "(*log/") ||
		strings.HasPrefix(e.kind, "fmt.") || strings.HasPrefix(e.kind, "runtime/debug."):
		return e.args
	case e.kind == "panic":
		return e.args
	}
	return nil
}

// keyParts adds the parts of a key to the secrets of a run.
func keyParts(t *Term, what string, r map[*Term]string) {
	for _, p := range flat(whole(t)) {
		for p.Op == "sub" || p.Op == "elem" || p.Op == "byteof" || p.Op == "curvesk" {
			p = p.A[0]
		}
		switch p.Op {
		case "rand", "hkdf", "raw", "pt", "open", "kdf:scrypt", "kdf:bcrypt_pbkdf", "crypt", "sel":
			if p.S != "basepoint" {
				r[p] = what
			}
		}
	}
}

// secretKeys are the keys and secrets that a path used.
func secretKeys(log *LogNode, r map[*Term]string) {
	for _, e := range log.list() {
		for _, t := range append(append([]*Term{}, e.args...), e.rets...) {
			if t == nil {
				continue
			}
			walk(t, func(x *Term) bool {
				switch x.Op {
				case "hkdf":
					keyParts(x.A[0], "the secret of a derived key", r)
				case "x25519":
					keyParts(x.A[0], "a private key", r)
				case "edsign", "edpub":
					keyParts(x.A[0], "a private key", r)
				case "seal", "open":
					keyParts(x.A[0], "an encryption key", r)
				case "hmac":
					keyParts(x.A[0], "a MAC key", r)
				case "kdf:scrypt", "kdf:bcrypt_pbkdf":
					keyParts(x.A[0], "a passphrase", r)
				}
				return true
			})
		}
	}
}

// secretText tells why a text must not be shown.
func secretText(ts []*Term, sec map[*Term]string, plain, data bool) string {
	why := ""
	for _, t := range ts {
		exposed(t, func(x *Term) {
			if why != "" {
				return
			}
			if w := sec[x]; w != "" {
				why = w + " (" + sk(x) + ")"
				return
			}
			switch x.Op {
			case "hkdf":
				why = "derived key material (" + sk(x) + ")"
			case "kdf:scrypt", "kdf:bcrypt_pbkdf":
				why = "the key made from a passphrase"
			case "askpass", "env":
				why = "a passphrase"
			case "pt", "open", "crypt":
				why = "decrypted data (" + sk(x) + ")"
			case "raw":
				og := symOrigin[x.S]
				if data && (strings.HasPrefix(x.S, "data#") || strings.HasPrefix(x.S, "pem") && strings.HasSuffix(x.S, ".Bytes") || og != nil && og.Op == "readfile") {
					why = "the data of a private key (" + sk(x) + ")"
				}
			case "instream":
				if plain {
					why = "plaintext (" + sk(x) + ")"
				}
			case "x25519":
				if b := x.A[1]; b.Op != "raw" || b.S != "basepoint" {
					why = "an agreed secret (" + sk(x) + ")"
				}
			}
		})
	}
	return why
}

// silentDrivers are the operations of the package: what they read may be
// plaintext, or the data of a private key.
var silentDrivers = []struct {
	name  string
	plain bool // the input stream is plaintext
	data  bool // the data read are those of a private key
}{
	{"verif_E1_plain", true, false}, {"verif_E1_auth", true, false},
	{"verif_E3_plain", true, false}, {"verif_E3_auth", true, false},
	{"verif_E2_plain", true, false}, {"verif_E2_auth", true, false},
	{"verif_D1_plain", false, false}, {"verif_D1_auth", false, false},
	{"verif_D2_plain", false, false}, {"verif_D2_auth", false, false},
	{"verif_S_sign", false, false}, {"verif_S_signfile", false, false}, {"verif_S_verify", false, false},
	{"verif_K_store", false, false}, {"verif_K_load", false, true}, {"verif_K_read", false, true}, {"verif_K_unmarshal", false, true},
	{"verif_G_sk", false, false}, {"verif_G_new", false, false},
}

func checkF07(c *Ctx) {
	for _, sd := range silentDrivers {
		seen := map[string]bool{}
		var texts []said
		add := func(d *DRun, kind, site string, ts []*Term) {
			var k strings.Builder
			k.WriteString(kind + site)
			for _, t := range ts {
				k.WriteString(" " + fmt.Sprint(t.id))
			}
			if seen[k.String()] {
				return
			}
			seen[k.String()] = true
			texts = append(texts, said{ts: ts, site: site, fn: d.x.curFn(), kind: kind})
		}
		sec := map[*Term]string{}
		d := c.run("sign", sd.name, runOpts{fresh: true, onErr: func(d *DRun, cc *CallCtx, args []*Term) {
			add(d, "error", cc.site, args)
		}}, func(d *DRun, st *State, e *Event) {
			if ts := textOf(e); ts != nil {
				add(d, "message", e.site, ts)
			}
			switch {
			case e.kind == "note:pw":
				keyParts(unwrapV(e.args[0]), "a passphrase", sec)
			case e.kind == "note:key":
				keyParts(unwrapV(e.args[0]), "a private key", sec)
			}
		})
		for i := range d.outs {
			secretKeys(d.outs[i].st.log, sec)
		}
		for _, t := range texts {
			why := secretText(t.ts, sec, sd.plain, sd.data)
			c.req("no secret in a "+t.kind, sd.name, t.site, t.fn, why == "", "the "+t.kind+" tells "+why)
		}
		if debugRule {
			for t, w := range sec {
				fmt.Fprintln(os.Stderr, "SECRET", sd.name, w, sk(t))
			}
		}
		if sd.name != "verif_S_verify" {
			c.req("reachable", sd.name, sd.name, "", len(sec) > 0, "no secret is used")
		}
	}
	// the commands
	n := 0
	for _, r := range cliRuns {
		show := func(d *DRun, st *State, kind, site string, ts []*Term) {
			sec := map[*Term]string{}
			for l := st.log; l != nil; l = l.prev {
				e := l.ev
				if (e.kind == "api:readsk" || e.kind == "api:newkey" || e.kind == "api:setkey") && len(e.args) > 0 {
					if k := unwrapI(e.args[0]); k.Op == "ptr" {
						sec[k] = "a private key"
					}
				}
			}
			why := secretText(ts, sec, false, false)
			for _, t := range ts {
				exposed(t, func(x *Term) {
					if x.Op == "raw" && (strings.HasPrefix(x.S, "plain") || strings.HasPrefix(x.S, "skdoc")) {
						why = "decrypted data or a private key"
					}
				})
			}
			c.req("no secret in a "+kind, d.name, site, d.x.curFn(), why == "", "the "+kind+" tells "+why)
		}
		opt := runOpts{cli: true, fresh: true, cmd: r.cmd, nargs: r.nargs, onErr: func(d *DRun, cc *CallCtx, args []*Term) {
			show(d, cc.st, "error", cc.site, args)
		}}
		d := c.run("main", "verif_F_main", opt, func(d *DRun, st *State, e *Event) {
			if e.kind == "api:debug" {
				n++
				d.at("debug output only on request", e, st.f.eval(flagBool("debug")) == 1, "debug output is turned on although the user did not ask for it")
			}
			if ts := textOf(e); ts != nil {
				if e.kind == "write" && objName(e.args[0]) == stdOut && role(e.args[1]) == "plain" && r.cmd == "decrypt" {
					return // the output of the command
				}
				show(d, st, "message", e.site, ts)
			}
		})
		d.name = "main:" + r.cmd
	}
	c.req("reachable", "commands", "commands", "", n > 0, "no command turns on debug output")
}

func init() {
	checks["F07"] = checkF07
}
