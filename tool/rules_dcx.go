package main

// Rules on the decryption context: key setup first, then one way of reading.

import "strings"

// opened: the root key of the context was recovered by opening a wrapped key
// with the recipient's private key.
func opened(st *State) (string, bool) {
	o := &Outcome{st: st}
	root := rootKey(o)
	if root == nil {
		return "no data key was derived from a recovered key", false
	}
	if root.Op != "open" {
		return "the file key " + sk(root) + " is not an opened wrapped key", false
	}
	rc := noteArg(o, "recipient", 0)
	if rc == nil {
		return "no recipient", false
	}
	if has(root.A[0], rc) {
		return "", true
	}
	return "the wrapped key is opened with a key that does not depend on the recipient's private key: " + sk(root), false
}

func has(t, x *Term) bool {
	f := false
	walk(t, func(y *Term) bool {
		f = f || y == x
		return !f
	})
	return f
}

func checkC14(c *Ctx) {
	seen := map[string]bool{}
	quiet := func(d *DRun, st *State, e *Event) {
		tag := strings.TrimPrefix(e.kind, "note:")
		switch {
		case e.kind == "write" && strings.HasPrefix(e.args[0].S, "writer:out"):
			d.at("refused calls deliver nothing", e, false, "a refused call writes "+sk(e.args[1]))
		case isDataOpen(e):
			d.at("refused calls deliver nothing", e, false, "a refused call opens a chunk")
		case e.kind == "note:Decrypt" || e.kind == "note:NewStreamReader":
			seen[d.name+" "+tag] = true
			d.at("refused", e, !mayBeNil(st, e.args[0]), tag+" may succeed")
		}
	}
	for _, n := range []string{"verif_S14_plain", "verif_S14_auth"} {
		c.run("sign", n, runOpts{}, func(d *DRun, st *State, e *Event) {
			if e.kind == "note:SetPrivateKey" && mayBeNil(st, e.args[0]) {
				seen[n+" SetPrivateKey"] = true
				why, ok := opened(st)
				d.at("a wrapped key was opened", e, ok, why)
			}
			quiet(d, st, e)
		})
	}
	for _, n := range []string{"verif_S14_stream", "verif_S14_done", "verif_S14_drained"} {
		c.run("sign", n, runOpts{}, func(d *DRun, st *State, e *Event) {
			if !noted(st, "started") && !noted(st, "finished") {
				return
			}
			if e.kind == "read" || e.kind == "readfull" {
				d.at("refused calls read nothing", e, false, "a refused call reads on")
			}
			quiet(d, st, e)
			if e.kind == "note:Decrypt" && n == "verif_S14_done" {
				_, m := unwrapErr(e.args[0])
				d.at("end of data reported", e, m, "Decrypt of a finished context reports "+sk(e.args[0])+" and not the end of data")
			}
		})
	}
	for n, ts := range map[string]string{
		"verif_S14_plain": "SetPrivateKey Decrypt NewStreamReader", "verif_S14_auth": "SetPrivateKey Decrypt NewStreamReader",
		"verif_S14_stream": "Decrypt", "verif_S14_done": "Decrypt NewStreamReader", "verif_S14_drained": "Decrypt NewStreamReader",
	} {
		for _, t := range strings.Fields(ts) {
			c.req("reachable", n, n, n+" "+t, seen[n+" "+t], "no path of the driver reaches "+t)
		}
	}
}

// unwrapErr: e is io.EOF.
func unwrapErr(e *Term) (*Term, bool) { return e, e.Op == "gvar" && e.S == "io.EOF" }

var streamDrivers = []string{"verif_D2_plain", "verif_D2_auth"}

func checkC18(c *Ctx) {
	seen := map[string]bool{}
	c.decEach(streamDrivers, "Decrypt", func(d *DRun, st *State, e *Event) {
		switch e.kind {
		case "note:Read":
			seen["Read"] = true
			err, n, l := e.args[0], unwrapV(e.args[1]), unwrapV(e.args[2])
			d.at("fits the buffer", e, st.f.entailLE(num(0), n) && st.f.entailLE(n, l), "Read returns "+sk(n)+" for a buffer of "+sk(l)+" bytes")
			if mayBeNil(st, err) {
				g := st.f.clone()
				ok := g.assume(mkLE(num(1), l), true) && g.assume(mkLE(n, num(0)), true) && !g.contradictory()
				d.at("progress", e, !ok, "Read may return no data and no error for a non-empty buffer")
			} else {
				d.at("no data with an error", e, st.f.entailLE(n, num(0)), "Read returns data together with an error: "+sk(n))
			}
		case "note:again":
			seen["again"] = true
			d.at("errors stay", e, !mayBeNil(st, e.args[0]), "Read may succeed after a Read that reported an error or the end of data")
			d.at("errors stay", e, st.f.entailLE(unwrapV(e.args[1]), num(0)), "Read delivers data after a Read that reported an error or the end of data: "+sk(unwrapV(e.args[1])))
		}
	}, func(d *DRun, o *Outcome, ok bool) {
		released(d, o, ok)
		if ok {
			completeStream(d, o)
		}
	})
	for _, t := range []string{"Read", "again"} {
		c.req("reachable", "verif_D2_plain", t, t, seen[t], "no path reaches "+t)
	}
}

func init() {
	checks["C14"] = checkC14
	checks["C18"] = checkC18
}
