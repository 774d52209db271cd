package main

// Rules on hostile input: no panic, no unbounded allocation.

// hostileEnd: an input must not be able to end a driver in a panic. A failing
// random generator is no input.
func hostileEnd(d *DRun) {
	for i := range d.outs {
		o := &d.outs[i]
		if o.kind == "" {
			d.end("returns", o, true, "")
			continue
		}
		rnd := false
		for l := o.st.log; l != nil; l = l.prev {
			if l.ev.kind == "rand" && l.ev.failed {
				rnd = true
			}
		}
		d.end("no-panic", o, rnd, "the input makes the code end in "+o.kind)
	}
}

// checkC20: opening, keying and decrypting any input.
func checkC20(c *Ctx) {
	for _, n := range decDrivers {
		hostileEnd(c.run("sign", n, runOpts{bounds: true}, nil))
	}
	hostileEnd(c.run("pb", "verif_U1", runOpts{pb: true, bounds: true}, nil))
}

var parserDrivers = []string{
	"verif_K_load", "verif_K_read", "verif_K_unmarshal",
	"verif_P_load", "verif_P_read", "verif_P_string", "verif_P_auth",
	"verif_S_load", "verif_S_read", "verif_S_match", "verif_S_verify",
}

// checkK04: the parsers of keys and signatures.
func checkK04(c *Ctx) {
	for _, n := range parserDrivers {
		hostileEnd(c.run("sign", n, runOpts{bounds: true}, nil))
	}
}

// checkC19: memory taken for hostile input.
func checkC19(c *Ctx) {
	for _, n := range append(append([]string(nil), decDrivers...), parserDrivers...) {
		c.run("sign", n, runOpts{bounds: true}, nil)
	}
	c.run("pb", "verif_U1", runOpts{pb: true, bounds: true}, nil)
}

func init() {
	checks["C19"] = checkC19
	checks["C20"] = checkC20
	checks["K04"] = checkK04
}
