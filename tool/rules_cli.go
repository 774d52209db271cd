package main

// F01-F12: the commands and the files they write.

import (
	"fmt"
	"go/types"
	"strings"
)

// cliRun is one analysis of the program with one command.
type cliRun struct {
	cmd   string
	nargs int
	keep  string // kinds of steps that keep paths apart
}

var cliRuns = []cliRun{{cmd: "generate", nargs: 0}, {cmd: "sign", nargs: 0}, {cmd: "verify", nargs: 0}, {cmd: "encrypt", nargs: 0}, {cmd: "encrypt", nargs: 2}, {cmd: "encrypt", nargs: 3}, {cmd: "decrypt", nargs: 0}}

// exact runs only: every path by itself
var cliExact = []cliRun{{cmd: "generate", nargs: 0}, {cmd: "sign", nargs: 0}, {cmd: "verify", nargs: 0}, {cmd: "encrypt", nargs: 2}, {cmd: "encrypt", nargs: 3}, {cmd: "decrypt", nargs: 0}}

func (c *Ctx) cli(r cliRun, ev func(d *DRun, st *State, e *Event)) *DRun {
	d := c.run("main", "verif_F_main", runOpts{cli: true, fresh: true, cmd: r.cmd, nargs: r.nargs, keep: r.keep}, ev)
	d.name = "main:" + r.cmd
	if r.nargs > 0 {
		d.name += fmt.Sprintf("/%d", r.nargs)
	}
	return d
}

func flagBool(n string) *Term { return intern(Term{Op: "bool", S: "flag:" + n}) }
func flagStr(n string) *Term  { return appS("flag", n) }

// exitZero: the path may end with status 0.
func exitZero(o *Outcome) bool {
	switch o.kind {
	case "":
		return true
	case "panic":
		return false
	}
	for l := o.st.log; l != nil; l = l.prev {
		if e := l.ev; e.kind == "exit" {
			v := eq0(e.args[0])
			return o.st.f.eval(v) != 0
		}
	}
	return true
}

// info: the user asked for help or the version.
func info(o *Outcome) bool {
	return o.st.f.eval(flagBool("help")) == 1 || o.st.f.eval(flagBool("version")) == 1
}

// role tells what kind of data is written.
func role(t *Term) string {
	for _, p := range flat(whole(t)) {
		if p.Op == "raw" || p.Op == "sub" {
			q := p
			for q.Op == "sub" {
				q = q.A[0]
			}
			for _, r := range []string{"skdoc", "pkdoc", "sigdoc", "encrypted", "plain"} {
				if q.Op == "raw" && strings.HasPrefix(q.S, r) {
					return r
				}
			}
		}
	}
	return ""
}

// completeOut tells whether data are a whole output.
func completeOut(t *Term) bool {
	fl := flat(whole(t))
	named := func(t *Term, n string) bool { return t.Op == "raw" && strings.HasPrefix(t.S, n+"#") }
	switch len(fl) {
	case 1:
		return named(fl[0], "skdoc") || named(fl[0], "pkdoc") || named(fl[0], "sigdoc")
	case 2:
		return named(fl[0], "encrypted1") && named(fl[1], "encrypted2") || named(fl[0], "plain1") && named(fl[1], "plain2")
	}
	return false
}

const stdOut = "writer@os.Stdout"
const stdErr = "writer@os.Stderr"

func objName(t *Term) string {
	if t.Op == "ptr" {
		if pathOf(t.S) != "" {
			return objOf(t.S) + "|" + pathOf(t.S)
		}
		return objOf(t.S)
	}
	return t.String()
}

// badFailure names a failed step of a path that its end should tell.
func badFailure(o *Outcome) string {
	ev := o.st.log.list()
	has := func(kind string) bool {
		for _, e := range ev {
			if e.kind == kind && !e.failed {
				return true
			}
		}
		return false
	}
	for _, e := range ev {
		if !e.failed || e.may {
			continue
		}
		switch {
		case e.kind == "os.stat" || e.kind == "os.lstat" || e.kind == "file.stat" || e.kind == "print":
			continue
		case e.kind == "write" && (objName(e.args[0]) == stdErr || objName(e.args[0]) == stdOut && role(e.args[1]) == ""):
			continue // messages
		case e.kind == "close" && strings.HasPrefix(kindOf(o.st, objName(e.args[0])), "file") && fileRead(o, objName(e.args[0])):
			continue // input files
		case e.kind == "close" && objName(e.args[0]) == "writer@os.Stdin":
			continue
		case e.kind == "api:parsepk" && has("api:readpk"):
			continue // not a key: it is the name of a file
		case e.kind == "api:authkeys":
			continue // then no recipient is found in it
		}
		return e.kind + " failed at " + e.site
	}
	return ""
}

func kindOf(st *State, o string) string {
	if x := st.objs[o]; x != nil {
		return x.kind
	}
	return ""
}

// fileRead: the file was only read.
func fileRead(o *Outcome, n string) bool { return o.st.get(n, "out", tEmpty) == tEmpty }

func (o *Outcome) is(n, flag string) bool {
	return o.st.f.eval(o.st.get(n, flag, tFalse)) == 1
}

// outputs of a command: where its data must have gone
func outFlag(cmd string) string {
	switch cmd {
	case "sign":
		return "output"
	case "encrypt", "decrypt":
		return "outfile"
	}
	return ""
}

func checkF04(c *Ctx) {
	for _, r := range cliRuns {
		d := c.cli(r, nil)
		found := false
		for i := range d.outs {
			o := &d.outs[i]
			if !exitZero(o) {
				continue
			}
			bad := badFailure(o)
			d.end("failure ends with a status", o, bad == "", "the program ends with status 0 although "+bad)
			if info(o) {
				continue
			}
			found = true
			// and the work was done
			want := map[string][]string{
				"generate": {"api:newkey", "api:marshalsk", "api:marshalpk"},
				"sign":     {"api:readsk", "api:signfile", "api:marshalsig"},
				"verify":   {"api:readsig", "api:verify"},
				"encrypt":  {"api:newenc", "api:encrypt"},
				"decrypt":  {"api:readsk", "api:newdec", "api:setkey", "api:decrypt"},
			}[r.cmd]
			for _, w := range want {
				d.end("all steps are done", o, len(eventsOf(o, w)) > 0, "the program ends with status 0 without having done "+w)
			}
			roles := map[string]bool{}
			for _, s := range objsOf(o.st, "safefile") {
				done := o.is(s, "closed") && !o.is(s, "aborted") && completeOut(o.st.get(s, "out", tEmpty))
				if done {
					roles[role(o.st.get(s, "out", tEmpty))] = true
				}
				d.end("output finished", o, done, "the program ends with status 0 without having finished its output file")
			}
			so := o.st.get(stdOut, "out", tEmpty)
			if ro := role(so); ro != "" {
				done := completeOut(so) && !o.is(stdOut, "failed")
				if done {
					roles[ro] = true
				}
				d.end("output finished", o, done, "the program ends with status 0 without having written all of its output to the standard output")
			}
			var need []string
			switch r.cmd {
			case "generate":
				need = []string{"skdoc", "pkdoc"}
			case "sign":
				need = []string{"sigdoc"}
			case "encrypt":
				need = []string{"encrypted"}
			case "decrypt":
				if o.st.f.eval(flagBool("test")) != 1 {
					need = []string{"plain"}
				}
			}
			for _, n := range need {
				d.end("output finished", o, roles[n], "the program ends with status 0 without having written its output ("+n+")")
			}
			// to the file the user named
			if of := outFlag(r.cmd); of != "" && len(need) > 0 {
				f := flagStr(of)
				given := o.st.f.eval(eq0(blen(f))) == 0 && o.st.f.eval(beq(f, bconst("-"))) == 0
				if given {
					ok := false
					for _, s := range objsOf(o.st, "safefile") {
						if o.st.get(s, "name", tEmpty) == f {
							ok = true
						}
					}
					d.end("output goes to the file named", o, ok, "the output file that was named is not the one written")
				}
			}
		}
		c.req("reachable", d.name, d.name, d.name, found, "no path of "+r.cmd+" succeeds")
	}
	// a command that does not exist
	d := c.cli(cliRun{cmd: "", nargs: 0}, nil)
	for i := range d.outs {
		o := &d.outs[i]
		d.end("unknown command", o, !exitZero(o) || info(o), "an unknown command ends with status 0")
	}
}

// fileWrites are the ways to create or change files that leave the target
// incomplete or unprotected.
func directWrite(e *Event) string {
	switch e.kind {
	case "os.create", "os.writefile":
		return e.kind
	case "os.openfile":
		if fl, ok := e.args[1].isConst(); !ok || fl&^0x80000 != 0 {
			return "os.OpenFile for writing"
		}
	}
	for _, p := range []string{"os.", "(*os.File).", "syscall.", "golang.org/x/sys/unix.", "io/ioutil."} {
		if strings.HasPrefix(e.kind, p) {
			n := e.kind[strings.LastIndex(e.kind, ".")+1:]
			for _, w := range []string{"Rename", "Remove", "RemoveAll", "Truncate", "Link", "Symlink", "Write", "WriteAt", "Pwrite", "Unlink", "Open", "Creat", "CreateTemp", "TempFile", "Ftruncate", "Renameat", "ReadFrom", "CopyFS"} {
				if n == w {
					return e.kind
				}
			}
		}
	}
	if strings.Contains(e.kind, "go-fio.") && strings.Contains(e.kind, "Copy") {
		return e.kind
	}
	return ""
}

var serialDrivers = []string{"verif_F_skserialize", "verif_F_pkserialize", "verif_F_sigserialize"}

// files runs the commands and the serializers.
func (c *Ctx) files(runs []cliRun, ev func(d *DRun, st *State, e *Event), end func(d *DRun, cmd string, o *Outcome)) {
	for _, r := range runs {
		d := c.cli(r, ev)
		for i := range d.outs {
			if end != nil {
				end(d, r.cmd, &d.outs[i])
			}
		}
	}
	for _, n := range serialDrivers {
		d := c.run("sign", n, runOpts{cli: true, fresh: true}, ev)
		for i := range d.outs {
			if end != nil {
				end(d, "", &d.outs[i])
			}
		}
	}
}

func checkF01(c *Ctx) {
	nw := 0
	c.files(cliExact, func(d *DRun, st *State, e *Event) {
		w := directWrite(e)
		d.at("no direct write", e, w == "", "a file is written or changed by "+w)
		switch e.kind {
		case "write":
			n := objName(e.args[0])
			k := kindOf(st, n)
			r := role(e.args[1])
			ok := k == "safefile" || n == stdOut || n == stdErr || r == "" && k != "file"
			d.at("output through a temporary", e, ok, "data go to "+n+", which is not a temporary file")
			if k == "safefile" {
				nw++
			}
		case "close":
			n := objName(e.args[0])
			if e.failed || kindOf(st, n) != "safefile" {
				return
			}
			out := st.get(n, "out", tEmpty)
			d.at("the target is replaced by a complete file", e, completeOut(out) && st.f.eval(st.get(n, "failed", tFalse)) == 0, "the output file is put in place with "+sub(sk2(out)))
			why := ""
			switch role(out) {
			case "plain":
				if !loggedOK(st, "api:decrypt") {
					why = "decryption"
				}
			case "encrypted":
				if !loggedOK(st, "api:encrypt") {
					why = "encryption"
				}
			}
			d.at("the target is replaced by a complete file", e, why == "", "the output file is put in place before the end of the "+why)
		}
	}, nil)
	c.req("reachable", "commands", "commands", "", nw > 0, "no command writes a file")
}

func loggedOK(st *State, kind string) bool {
	for l := st.log; l != nil; l = l.prev {
		if l.ev.kind == kind && !l.ev.failed && !l.ev.may {
			return true
		}
	}
	return false
}

// asked: the user or the caller allowed to overwrite.
func asked(st *State) bool {
	if st.f.eval(flagBool("overwrite")) == 1 {
		return true
	}
	for l := st.log; l != nil; l = l.prev {
		if l.ev.kind == "note:overwrite" {
			return st.f.eval(unwrapV(l.ev.args[0])) == 1
		}
	}
	return false
}

func checkF02(c *Ctx) {
	n, over := 0, 0
	c.files(cliExact, func(d *DRun, st *State, e *Event) {
		w := directWrite(e)
		d.at("no other way to replace a file", e, w == "", "a file is written or changed by "+w)
		if e.kind != "safefile.new" || e.failed {
			return
		}
		n++
		v, ok := e.args[1].isConst()
		d.at("options are known", e, ok, "the options of the output file are not known: "+sk2(e.args[1]))
		if ok && v&1 != 0 {
			over++
			d.at("overwritten only on request", e, asked(st), "an existing file is replaced although nobody asked for it")
		}
	}, nil)
	c.req("reachable", "commands", "commands", "", n > 0 && over > 0, "no output file is created")
}

func checkF03(c *Ctx) {
	n := 0
	for _, r := range []cliRun{{cmd: "encrypt", nargs: 2}, {cmd: "encrypt", nargs: 3}, {cmd: "decrypt", nargs: 0}} {
		var ins []string // the inputs that are compared with an output
		distinct := func(st *State, in string, name *Term) bool {
			for l := st.log; l != nil; l = l.prev {
				if (l.ev.kind == "os.stat.notexist" || l.ev.kind == "os.lstat.notexist") && l.ev.args[0] == name {
					return true
				}
			}
			var outs, is []*Term
			for l := st.log; l != nil; l = l.prev {
				e := l.ev
				if e.failed || len(e.rets) == 0 {
					continue
				}
				switch {
				case e.kind == "os.stat" && e.args[0] == name:
					outs = append(outs, e.rets[0])
				case e.kind == "os.stat" && e.args[0] == st.get(in, "name", tEmpty), e.kind == "file.stat" && e.args[0].S == in:
					is = append(is, e.rets[0])
				}
			}
			for _, a := range outs {
				for _, b := range is {
					x, y := a, b
					if x.id > y.id {
						x, y = y, x
					}
					if st.f.eval(pred("samefile", x, y)) == 0 {
						return true
					}
				}
			}
			return false
		}
		_ = ins
		d := c.cli(r, func(d *DRun, st *State, e *Event) {
			switch e.kind {
			case "safefile.new":
				if e.failed {
					return
				}
				for _, f := range objsOf(st, "file") {
					n++
					d.at("the output is not the input", e, distinct(st, f, e.args[0]), "the output file may be the input file")
				}
			case "api:newdec", "api:encrypt.start":
				// what is read and what is written
				rd := unwrapI(e.args[1])
				in := objName(rd)
				if kindOf(st, in) != "file" {
					return
				}
				for _, s := range objsOf(st, "safefile") {
					n++
					d.at("the output is not the input", e, distinct(st, in, st.get(s, "name", tEmpty)), "the output file may be the input file")
				}
			}
			w := directWrite(e)
			d.at("no other way to write a file", e, w == "", "a file is written or changed by "+w)
		})
		_ = d
	}
	c.req("reachable", "commands", "commands", "", n > 0, "no command reads and writes a file")
}

func checkF05(c *Ctx) {
	n := 0
	c.files(cliRuns, nil, func(d *DRun, cmd string, o *Outcome) {
		failed := !exitZero(o)
		if cmd == "" { // a serializer
			e := lastNote(o, "Serialize")
			if o.kind == "" && e == nil {
				return
			}
			failed = o.kind != "" || nilStatus(o.st.f, e.args[0]) != 1
		}
		if !failed {
			return
		}
		for _, s := range objsOf(o.st, "safefile") {
			n++
			if o.is(s, "closed") {
				// the key of a pair whose other file could not be written
				ok := cmd == "generate" && completeOut(o.st.get(s, "out", tEmpty))
				d.end("target untouched", o, ok, "the command fails but its output file is in place")
				continue
			}
			d.end("temporary removed", o, o.is(s, "aborted"), "the command fails and leaves its temporary file behind")
		}
	})
	c.req("reachable", "commands", "commands", "", n > 0, "no command fails with an output file open")
}

func checkF06(c *Ctx) {
	n := map[string]bool{}
	c.files(cliExact, func(d *DRun, st *State, e *Event) {
		if strings.HasSuffix(e.kind, "Chmod") || strings.HasSuffix(e.kind, "Fchmod") || strings.HasSuffix(e.kind, ".Umask") {
			d.at("permissions are not changed", e, false, "the permissions of a file are changed by "+e.kind)
		}
		w := directWrite(e)
		d.at("no other way to write a file", e, w == "", "a file is written or changed by "+w)
		if e.kind != "write" || e.failed {
			return
		}
		o := objName(e.args[0])
		r := role(e.args[1])
		if kindOf(st, o) != "safefile" {
			if r != "" && o != stdOut {
				d.at("written to its file", e, false, "the output goes to "+o)
			}
			return
		}
		m, ok := st.get(o, "mode", tNil).isConst()
		d.at("permissions are known", e, ok, "the permissions of the output file are not known")
		n[r] = true
		switch r {
		case "pkdoc", "sigdoc":
			d.at("not writable by others", e, ok && m&022 == 0 && m&^0777 == 0, fmt.Sprintf("a public file is created with permissions %o", m))
		default:
			d.at("private to the user", e, ok && m&077 == 0 && m&^0777 == 0, fmt.Sprintf("a private file (%s) is created with permissions %o", r, m))
		}
	}, nil)
	for _, r := range []string{"skdoc", "pkdoc", "sigdoc", "encrypted", "plain"} {
		c.req("reachable", "commands", "commands", "", n[r], "no output of kind "+r+" is written to a file")
	}
}

// keyOrigin tells where a public key came from: "file" and the name, "auth"
// and the comment, or "".
func keyOrigin(st *State, pk *Term) (string, *Term) {
	pk = unwrapI(pk)
	for l := st.log; l != nil; l = l.prev {
		e := l.ev
		if (e.kind == "api:readpk" || e.kind == "api:parsepk") && !e.failed && e.args[0] == pk {
			return e.kind[4:], e.args[1]
		}
	}
	if pk.Op == "psym" {
		if og := symOrigin[pk.S]; og != nil && og.Op == "lookup" {
			return "lookup", og.A[1]
		}
	}
	if isAuthKey(pk) {
		return "auth", commentOf(st, pk)
	}
	return "", nil
}

// isAuthKey: an element of what ParseAuthorizedKeys returned.
func isAuthKey(pk *Term) bool {
	return findOp(pk, func(x *Term) bool {
		return strings.Contains(x.S, "nn:authkeys#")
	}) != nil
}

var pubKeyType types.Type

func commentOf(st *State, pk *Term) *Term {
	loc := st.target(pk, nil)
	return st.load(loc+".Comment", tyStr)
}

func checkF08(c *Ctx) {
	for _, r := range rcptRuns {
		arg := func(i int) *Term { return makeSym(newState(), tyStr, fmt.Sprintf("arg%d", i)) }
		found := false
		d := c.cli(r, nil)
		for i := range d.outs {
			o := &d.outs[i]
			st := eventsOf(o, "api:encrypt.start")
			if len(st) == 0 {
				continue
			}
			found = true
			d.end("one encryption", o, len(st) == 1, "the input is encrypted more than once")
			en := st[0].args[0]
			var rc []*Event
			for _, e := range o.st.log.list() {
				if e == st[0] {
					break
				}
				if e.kind == "api:addrcpt" && !e.failed && e.args[0] == en {
					rc = append(rc, e)
				}
			}
			d.end("every recipient", o, len(rc) == r.nargs-1, fmt.Sprintf("%d recipients are added where %d are named", len(rc), r.nargs-1))
			for k := 0; k < r.nargs-1; k++ {
				n := 0
				for _, e := range rc {
					how, nm := keyOrigin(o.st, e.args[1])
					if nm == arg(k) || how == "auth" && nm != nil && o.st.f.eval(beq(nm, arg(k))) == 1 {
						n++
					}
				}
				d.end("the key that the argument names", o, n > 0, fmt.Sprintf("no recipient is added from the key that argument %d names", k+1))
			}
			// the last argument is what is encrypted
			last := arg(r.nargs - 1)
			rd := unwrapI(st[0].args[1])
			ok := false
			if rd == gvar("os.Stdin") {
				ok = o.st.f.eval(beq(last, bconst("-"))) == 1
			} else if n := objName(rd); kindOf(o.st, n) == "file" {
				ok = o.st.get(n, "name", tEmpty) == last
			}
			d.end("the input", o, ok, "what is encrypted is not the file named last")
		}
		c.req("reachable", d.name, d.name, d.name, found, "nothing is encrypted")
	}
	// any number of recipients
	d := c.cli(cliRun{cmd: "encrypt", nargs: 0}, func(d *DRun, st *State, e *Event) {
		if e.kind != "api:encrypt.start" || e.failed {
			return
		}
		var args *Term
		for l := st.log; l != nil && args == nil; l = l.prev {
			if l.ev.kind == "flag.parse" {
				args = appS("flagargs", "", l.ev.args[0])
			}
		}
		n := sym(`len(args:"encrypt")`)
		d.at("as many recipients as named", e, st.f.entailEq(addK(e.args[3], 1), n), "the number of recipients added is not known to be that of the recipients named")
	})
	_ = d
}

func checkF09(c *Ctx) {
	d := c.cli(cliRun{cmd: "verify", nargs: 0}, nil)
	a := func(o *Outcome, i int) *Term { return argTerm("verify", i) }
	found, all := false, false
	for i := range d.outs {
		o := &d.outs[i]
		var vf, pm *Event
		for _, e := range o.st.log.list() {
			if e.kind == "api:verify" {
				vf = e
			}
			if e.kind == "api:pkmatch" {
				pm = e
			}
		}
		good := vf != nil && pm != nil && o.st.f.eval(vf.args[0]) == 1 && o.st.f.eval(pm.args[0]) == 1
		if good {
			how, nm := keyOrigin(o.st, vf.args[1])
			good = how != "" && nm == a(o, 0) && pm.args[1] == vf.args[3] && pm.args[2] == vf.args[1] && vf.args[2] == a(o, 2)
			sig := false
			for _, e := range eventsOf(o, "api:readsig") {
				if e.args[0] == vf.args[3] && e.args[1] == a(o, 1) {
					sig = true
				}
			}
			good = good && sig && len(eventsOf(o, "api:verify.start")) > 0
		}
		said := false
		for _, e := range o.st.log.list() {
			if e.kind == "print" || e.kind == "write" {
				for _, t := range e.args {
					if says(t, "verified") {
						said = true
					}
				}
			}
		}
		d.end("success is said only when verified", o, !said || good, "the command says that the signature is verified where it is not")
		if exitZero(o) && !info(o) {
			found = true
			d.end("status 0 only when verified", o, good, "the command ends with status 0 without a verified signature of the file under the key named")
		}
		if good && o.kind != "panic" {
			all = true
			d.end("verified means status 0", o, exitZero(o), "a verified signature ends with a status other than 0")
		}
	}
	c.req("reachable", d.name, d.name, d.name, found && all, "nothing is verified")
}

// argTerm is an argument of the command.
func argTerm(cmd string, i int) *Term {
	st := newState()
	a := makeSym(st, types.NewSlice(tyStr), "args:"+bconst(cmd).String())
	loc, off, _, _ := st.sliceParts(a)
	x := &Exec{}
	return x.elemOf(st, st.seq(loc), addK(off, int64(i)), tyStr)
}

func says(t *Term, w string) bool {
	return findOp(t, func(x *Term) bool { return x.Op == "bytes" && strings.Contains(x.S, w) }) != nil
}

// passOK: a passphrase is the one the user selected.
func passOK(st *State, pw *Term, verify bool) string {
	env := flagStr("env-password")
	given := st.f.eval(eq0(blen(env)))
	none := st.f.eval(flagBool("no-password")) == 1
	pw = whole(pw)
	if pw == tNil || pw == tEmpty {
		if none {
			return ""
		}
		return "no passphrase is used although the user did not say so"
	}
	switch {
	case pw == app("env", env):
		if given != 0 {
			return "the passphrase is taken from the environment although no variable was named"
		}
		return ""
	case pw.Op == "askpass":
		if given != 1 {
			return "the user is asked for a passphrase although a variable was named"
		}
		if none {
			return "the user is asked for a passphrase although none was wanted"
		}
		if verify && pw.A[0] != tTrue {
			return "the passphrase of a new key is not confirmed"
		}
		return ""
	}
	return "the passphrase is not the one the user selected: " + sk2(pw)
}

func checkF10(c *Ctx) {
	n := map[string]int{}
	for _, r := range []cliRun{{cmd: "generate", nargs: 0}, {cmd: "sign", nargs: 0}, {cmd: "encrypt", nargs: 2}, {cmd: "decrypt", nargs: 0}} {
		d := c.cli(r, func(d *DRun, st *State, e *Event) {
			switch {
			case e.kind == "api:unlock":
				n[r.cmd]++
				why := passOK(st, e.args[0], false)
				d.at("the passphrase selected", e, why == "", why)
			case e.kind == "api:marshalsk" && !e.failed:
				n[r.cmd]++
				why := passOK(st, e.args[2], true)
				d.at("the passphrase selected", e, why == "", why)
			}
		})
		for i := range d.outs {
			o := &d.outs[i]
			for _, e := range o.st.log.list() {
				if e.kind == "askpass" && e.failed && !e.may {
					d.end("a failed prompt ends the command", o, !exitZero(o), "the command succeeds although the user could not be asked for the passphrase")
					ok := true
					for _, x := range eventsOf(o, "api:marshalsk") {
						_ = x
						ok = false
					}
					d.end("a failed prompt ends the command", o, ok, "a key is made although the user could not be asked for the passphrase")
				}
			}
		}
		c.req("reachable", d.name, d.name, d.name, n[r.cmd] > 0, "no passphrase is used by "+r.cmd)
	}
}

func checkF11(c *Ctx) {
	n, maps := 0, 0
	for _, r := range rcptRuns {
		c.cli(r, func(d *DRun, st *State, e *Event) {
			switch e.kind {
			case "mapupdate":
				v := unwrapI(e.args[2])
				if !isAuthKey(v) {
					return
				}
				maps++
				k := e.args[1]
				cm := commentOf(st, v)
				d.at("listed under its comment", e, k == cm || st.f.eval(beq(k, cm)) == 1, "a key of the authorized keys is listed under something else than its comment")
			case "api:authkeys":
				if e.failed {
					return
				}
				// the file that was read, or nothing
				t := whole(e.args[0])
				ok := t == tEmpty || t == tNil
				if og := symOrigin[t.S]; t.Op == "raw" && og != nil && og.Op == "readfile" {
					fl := flat(og.A[0])
					ok = len(fl) == 2 && fl[0].Op == "homedir" && fl[1] == bconst("/.ssh/authorized_keys")
				}
				d.at("the authorized keys of the user", e, ok, "the keys are not read from the authorized_keys file of the user: "+sk2(t))
			case "api:addrcpt":
				if e.failed {
					return
				}
				how, nm := keyOrigin(st, e.args[1])
				n++
				d.at("the key of the recipient named", e, how != "", "the key of a recipient does not come from a file or a matching entry: "+sk2(e.args[1]))
				arg := nm
				ok := false
				for k := 0; k < r.nargs-1; k++ {
					a := makeSym(st, tyStr, fmt.Sprintf("arg%d", k))
					if arg == a || how == "auth" && nm != nil && st.f.eval(beq(nm, a)) == 1 {
						ok = true
						// a string with an @ is never the name of a file
						if how == "readpk" {
							d.at("a user is not a file", e, !mayBeUser(st, a), "a recipient user@host may be taken from a file of that name")
						}
						if how == "lookup" {
							d.at("an entry that exists", e, st.f.eval(intern(Term{Op: "bool", S: "has" + strings.TrimPrefix(unwrapI(e.args[1]).S, "lookup")})) == 1 || nilStatus(st.f, unwrapI(e.args[1])) == 0,
								"the recipient may not be listed")
						}
					}
				}
				d.at("the key of the recipient named", e, ok, "the key of a recipient is that of something else: "+sk2(orNil(nm)))
			}
		})
	}
	c.req("reachable", "encrypt", "encrypt", "", n > 0, "no recipient is added")
}

// mayBeUser: the program asked for the position of an @ in a string and what
// it knows of the answer leaves room for one past the first character.
func mayBeUser(st *State, a *Term) bool {
	for _, n := range []string{"Index", "IndexByte", "LastIndex", "IndexRune"} {
		for _, at := range []*Term{bconst("@"), num('@')} {
			if _, hi := st.f.bounds(appS("index", n, a, at)); hi > 0 && hi < inf {
				return true
			}
			if st.f.entailLE(num(1), appS("index", n, a, at)) {
				return true
			}
		}
	}
	return false
}

func checkF12(c *Ctx) {
	d := c.cli(cliRun{cmd: "decrypt", keep: ",api:readpk,api:setkey,"}, func(d *DRun, st *State, e *Event) {
		switch e.kind {
		case "write":
			n := objName(e.args[0])
			if kindOf(st, n) == "safefile" || n == stdOut && role(e.args[1]) != "" {
				// what is written to the target comes from the decryption
				ok := role(e.args[1]) == "plain" && len(flat(whole(e.args[1]))) == 1
				d.at("only what was decrypted", e, ok, "something else than the decrypted data is written: "+sub(sk2(e.args[1])))
			}
		case "close":
			n := objName(e.args[0])
			if kindOf(st, n) == "safefile" && !e.failed {
				d.at("finished only after success", e, loggedOK(st, "api:decrypt") && completeOut(st.get(n, "out", tEmpty)), "the output file is put in place without a complete decryption")
			}
		}
	})
	vs := flagStr("verify-sender")
	found, with := false, false
	for i := range d.outs {
		o := &d.outs[i]
		ev := o.st.log.list()
		given := o.st.f.eval(eq0(blen(vs)))
		for k, e := range ev {
			if e.kind != "api:decrypt.start" || e.failed {
				continue
			}
			found = true
			var sk *Event
			for _, x := range ev[:k] {
				if x.kind == "api:setkey" && !x.failed && x.args[0] == e.args[0] {
					sk = x
				}
			}
			d.end("keyed before use", o, sk != nil, "the file is decrypted without a key being set")
			if sk == nil {
				continue
			}
			pk := unwrapI(sk.args[2])
			if given == 0 {
				with = true
				how, nm := keyOrigin(o.st, pk)
				d.end("the sender key given", o, how != "" && nm == vs, "the file is not verified against the sender's key that was given")
			} else {
				d.end("the sender key given", o, given == 1 && pk == tNil, "it is not known that no sender's key was given")
			}
			// the key and the file
			okk := false
			for _, x := range ev[:k] {
				if x.kind == "api:readsk" && !x.failed && x.args[0] == unwrapI(sk.args[1]) && x.args[1] == argTerm("decrypt", 0) {
					okk = true
				}
			}
			d.end("the private key named", o, okk, "the file is decrypted with another key than the one named: "+sk2(unwrapI(sk.args[1])))
		}
	}
	c.req("reachable", d.name, d.name, d.name, found && with, "nothing is decrypted with a sender's key")
}

// theArg is argument i of a command that was given n arguments.
func theArg(i int) *Term { return makeSym(newState(), tyStr, fmt.Sprintf("arg%d", i)) }

// suffixed: the term is a name with a suffix.
func suffixed(st *State, t *Term, names []*Term, suffix string) bool {
	fl := flat(whole(t))
	if len(fl) != 2 || fl[1] != bconst(suffix) {
		return false
	}
	for _, n := range names {
		if fl[0] == n {
			return true
		}
	}
	return false
}

// madeBy finds the last step of a kind whose result is a term.
func madeBy(ev []*Event, kind string, i int, t *Term) *Event {
	for k := len(ev) - 1; k >= 0; k-- {
		if e := ev[k]; e.kind == kind && !e.failed && !e.may && i < len(e.args) && unwrapI(e.args[i]) == t {
			return e
		}
	}
	return nil
}

func checkF13(c *Ctx) {
	n := map[string]int{}
	for _, r := range []cliRun{
		{cmd: "generate", nargs: 1}, {cmd: "sign", nargs: 2}, {cmd: "encrypt", nargs: 2, keep: ",api:newenc,"},
		{cmd: "decrypt", nargs: 1, keep: ",?test,"}, {cmd: "decrypt", nargs: 2, keep: ",?test,"},
	} {
		d := c.cli(r, func(d *DRun, st *State, e *Event) {
			if e.failed {
				return
			}
			ev := st.log.list()
			switch e.kind {
			case "api:signfile":
				n["signfile"]++
				rd := madeBy(ev, "api:readsk", 0, unwrapI(e.args[1]))
				d.at("the key and the file named", e, rd != nil && rd.args[1] == theArg(0), "the signing key is not the one named")
				d.at("the key and the file named", e, e.args[2] == theArg(1), "what is signed is not the file named")
			case "api:marshalsig":
				d.at("the key and the file named", e, madeBy(ev, "api:signfile", 0, unwrapI(e.args[1])) != nil, "the signature that is written is not the one made")
			case "api:marshalsk":
				n["marshalsk"]++
				d.at("the new key", e, madeBy(ev, "api:newkey", 0, unwrapI(e.args[1])) != nil, "the private key that is written is not the one generated")
				d.at("the comment given", e, whole(e.args[3]) == flagStr("comment"), "the comment of the key is not the one given")
			case "api:marshalpk":
				n["marshalpk"]++
				po := madeBy(ev, "api:pubof", 0, unwrapI(e.args[1]))
				d.at("the new key", e, po != nil && madeBy(ev, "api:marshalsk", 1, unwrapI(po.args[1])) != nil, "the public key that is written is not that of the private key")
				d.at("the comment given", e, whole(e.args[2]) == flagStr("comment"), "the comment of the key is not the one given")
			case "api:newenc":
				n["newenc"]++
				given := st.f.eval(eq0(blen(flagStr("sign"))))
				sk := unwrapI(e.args[1])
				if sk == tNil {
					d.at("the sender named", e, given == 1, "the file is encrypted without a sender although one may be named")
				} else {
					n["sender"]++
					rd := madeBy(ev, "api:readsk", 0, sk)
					d.at("the sender named", e, rd != nil && rd.args[1] == flagStr("sign") && given == 0, "the sender is not the one named")
				}
				d.at("the block size given", e, e.args[2] == app("parsesize", flagStr("block-size")), "the block size is not the one given")
			case "api:newdec":
				n["newdec"]++
				rd := unwrapI(e.args[1])
				ok := false
				if rd == gvar("os.Stdin") {
					ok = r.nargs == 1 || st.f.eval(beq(theArg(1), bconst("-"))) == 1
				} else if n := objName(rd); kindOf(st, n) == "file" {
					ok = r.nargs == 2 && st.get(n, "name", tEmpty) == theArg(1)
				}
				d.at("the input named", e, ok, "what is decrypted is not the file named")
			case "api:decrypt.start":
				nd := madeBy(ev, "api:newdec", 0, unwrapI(e.args[0]))
				d.at("the input named", e, nd != nil, "what is decrypted is not what was opened")
				d.at("to the output", e, wantsOutput(st, unwrapI(e.args[1])), "the decrypted data do not go to the output that was asked for: "+sk2(unwrapI(e.args[1])))
			case "api:encrypt.start":
				n["encrypt"]++
				d.at("to the output", e, wantsOutput(st, unwrapI(e.args[2])), "the encrypted data do not go to the output that was asked for")
			case "safefile.new":
				var ok bool
				switch r.cmd {
				case "generate":
					a := []*Term{theArg(0), app("cleanpath", theArg(0))}
					ok = suffixed(st, e.args[0], a, ".key") || suffixed(st, e.args[0], a, ".pub")
				case "sign":
					f := flagStr("output")
					given := st.f.eval(eq0(blen(f)))
					ok = given == 0 && e.args[0] == f && st.f.eval(beq(f, bconst("-"))) == 0 || given == 1 && suffixed(st, e.args[0], []*Term{theArg(1)}, ".sig")
				default:
					f := flagStr("outfile")
					ok = e.args[0] == f && st.f.eval(eq0(blen(f))) == 0 && st.f.eval(beq(f, bconst("-"))) == 0
					if r.cmd == "decrypt" {
						d.at("a test writes nothing", e, st.f.eval(flagBool("test")) != 1, "an output file is created although only a test was asked for")
					}
				}
				d.at("the output named", e, ok, "the output file is not the one named: "+sk2(e.args[0]))
			case "write":
				o := objName(e.args[0])
				ro := role(e.args[1])
				if ro == "" {
					return
				}
				if r.cmd == "generate" {
					suf := map[string]string{"skdoc": ".key", "pkdoc": ".pub"}[ro]
					a := []*Term{theArg(0), app("cleanpath", theArg(0))}
					d.at("the output named", e, kindOf(st, o) == "safefile" && suffixed(st, st.get(o, "name", tEmpty), a, suf), "a key is written to the wrong file")
				}
				if r.cmd == "sign" && o == stdOut {
					d.at("the output named", e, st.f.eval(beq(flagStr("output"), bconst("-"))) == 1, "the signature goes to the standard output although nobody asked for that")
				}
			}
		})
		_ = d
	}
	for _, k := range []string{"signfile", "marshalsk", "marshalpk", "newenc", "sender", "newdec", "encrypt"} {
		c.req("reachable", "commands", "commands", "", n[k] > 0, "no command does "+k)
	}
}

// wantsOutput: the target of encrypt or decrypt is the one the options ask
// for.
func wantsOutput(st *State, w *Term) bool {
	f := flagStr("outfile")
	if n := objName(w); st.f.eval(flagBool("test")) == 1 {
		return w != gvar("os.Stdout") && kindOf(st, n) != "safefile" && kindOf(st, n) != "file"
	}
	empty, dash := st.f.eval(eq0(blen(f))), st.f.eval(beq(f, bconst("-")))
	if w == gvar("os.Stdout") {
		// the two ways to ask for it may have been joined; the exits where
		// the file was named are decided by F04
		return empty != 0 || dash != 0
	}
	if n := objName(w); kindOf(st, n) == "safefile" {
		return empty == 0 && dash == 0
	}
	return false
}

func init() {
	checks["F13"] = checkF13
	checks["F01"] = checkF01
	checks["F02"] = checkF02
	checks["F03"] = checkF03
	checks["F04"] = checkF04
	checks["F05"] = checkF05
	checks["F06"] = checkF06
	checks["F08"] = checkF08
	checks["F09"] = checkF09
	checks["F10"] = checkF10
	checks["F11"] = checkF11
	checks["F12"] = checkF12
}

// rcptRuns keep apart what happened to the recipients.
var rcptRuns = []cliRun{
	{cmd: "encrypt", nargs: 2, keep: ",api:authkeys,api:addrcpt,api:readpk,api:parsepk,"},
	{cmd: "encrypt", nargs: 3, keep: ",api:authkeys,api:addrcpt,api:readpk,api:parsepk,"},
}
