package main

import (
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func tagOf(t *Term) string {
	if t.Op == "bytes" {
		return t.S
	}
	return t.String()
}

func init() {
	reg(func(x *Exec, c *CallCtx) []MOut { return one(c.st, otherErr(c.st, tagOf(c.args[0]))) }, "verif:verif_error")
	// a fresh unknown each time it is asked for
	unk := func(x *Exec, c *CallCtx) []MOut {
		return one(c.st, makeSym(c.st, c.sig.Results().At(0).Type(), freshName(tagOf(c.args[0]))))
	}
	reg(unk, "verif:verif_bool", "verif:verif_uint32", "verif:verif_uint64", "verif:verif_int", "verif:verif_string")
	reg(func(x *Exec, c *CallCtx) []MOut {
		ln := setRange(sym(freshName("len:"+tagOf(c.args[0]))), 0, inf)
		return one(c.st, newBytes(x, c.st, c, rawSeq(freshName(tagOf(c.args[0])), ln)))
	}, "verif:verif_bytes", "verif:verif_room")
	reg(func(x *Exec, c *CallCtx) []MOut {
		return one(c.st, setRange(sym(freshName(tagOf(c.args[0]))), 0, 127))
	}, "verif:verif_digit")
	reg(func(x *Exec, c *CallCtx) []MOut {
		return one(c.st, setRange(sym(freshName(tagOf(c.args[0]))), 1, 1<<16))
	}, "verif:verif_chunk")
	reg(func(x *Exec, c *CallCtx) []MOut {
		st := c.st.clone()
		return []MOut{{st: st, ret: num(0)}, {st: c.st, ret: setRange(sym(freshName(tagOf(c.args[0]))), 1<<17, 1<<62)}}
	}, "verif:verif_big")
	reg(func(x *Exec, c *CallCtx) []MOut {
		ln := setRange(sym(freshName("len:"+tagOf(c.args[0]))), 0, 29)
		return one(c.st, newBytes(x, c.st, c, rawSeq(freshName(tagOf(c.args[0])), ln)))
	}, "verif:verif_small")
	reg(func(x *Exec, c *CallCtx) []MOut {
		return one(c.st, newBytes(x, c.st, c, rawSeq(freshName(tagOf(c.args[0])), c.args[1])))
	}, "verif:verif_buffer")
	mkObj := func(kind string) Model {
		return func(x *Exec, c *CallCtx) []MOut {
			st := c.st
			n := st.newObj(kind+":"+tagOf(c.args[0]), kind, nil)
			switch kind {
			case "reader":
				st.set(n, "pos", num(0), tyInt)
				st.set(n, "eof", tFalse, tyBool)
				st.set(n, "rerr", tFalse, tyBool)
			case "writer":
				st.set(n, "out", tEmpty, tyStr)
				st.set(n, "failed", tFalse, tyBool)
				st.set(n, "closed", tFalse, tyBool)
			}
			return one(st, ptrTo(n, ""))
		}
	}
	reg(mkObj("reader"), "verif:verif_reader")
	// the next bytes of the data of the user: any number of them
	reg(func(x *Exec, c *CallCtx) []MOut {
		st := c.st
		o := objFor(st, c.args[0], "reader")
		pos := st.get(o, "pos", num(0))
		np := add(pos, setRange(fresh("n"), 0, inf))
		st.set(o, "pos", np, tyInt)
		return one(st, newBytes(x, st, c, rawSub(appS("instream", o), pos, np)))
	}, "verif:verif_next")
	reg(mkObj("writer"), "verif:verif_writer")
	// from here on counters are told apart where paths join
	reg(func(x *Exec, c *CallCtx) []MOut {
		x.opts.partInts = true
		return one(c.st, tUnit)
	}, "verif:verif_precise")
	// what the user received
	reg(func(x *Exec, c *CallCtx) []MOut {
		st := c.st
		data := st.bytesOf(c.args[1])
		o := objFor(st, c.args[0], "writer")
		x.ev(st, c, "sink", false, []*Term{ptrTo(o, ""), data})
		st.set(o, "out", cat(st.get(o, "out", tEmpty), data), tyStr)
		return one(st, tUnit)
	}, "verif:verif_sink")
	reg(func(x *Exec, c *CallCtx) []MOut {
		x.ev(c.st, c, "note:"+tagOf(c.args[0]), false, variadic(x, c, 1))
		return one(c.st, tUnit)
	}, "verif:verif_note")
	reg(func(x *Exec, c *CallCtx) []MOut {
		if c.st.f.eval(c.args[0]) == 0 || !c.st.f.assume(c.args[0], true) {
			return nil
		}
		return one(c.st, tUnit)
	}, "verif:verif_assume")
	// what the mode of a file tells
	reg(func(x *Exec, c *CallCtx) []MOut {
		o := objOf(c.args[0].S)
		return one(c.st, pred("regular", fileMode(appS("file.stat", "", appS("fdstat", o)))))
	}, "verif:verif_regular")
	reg(func(x *Exec, c *CallCtx) []MOut {
		u := unwrapI(c.args[0])
		if u.Op == "isym" && symOrigin[u.S] != nil {
			return one(c.st, fileMode(symOrigin[u.S]))
		}
		return defaultModel(x, c)
	}, "(io/fs.FileInfo).Mode")
	reg(func(x *Exec, c *CallCtx) []MOut { return one(c.st, pred("regular", c.args[0])) }, "(io/fs.FileMode).IsRegular")
}

// fileMode is the mode of what a stat call looked at.
func fileMode(origin *Term) *Term {
	return setRange(app("fmode", origin), 0, 1<<32-1)
}

// redirects are library functions that call back into the program: they are
// analysed as the function of the harness that does what they do.
var redirects = map[string]string{
	"github.com/opencoff/go-mmap.Reader": "verif_mmapReader",
	"io.Copy":                            "verif_ioCopy",
}

func (x *Exec) redirect(name string, st *State, args []*Term) *ssa.Function {
	h := redirects[name]
	if x.opts.exact && name == "io.ReadFull" && args[0].Op == "iface" && strings.Contains(args[0].S, "verif_buf") {
		h = "verif_readFull"
		args[0] = args[0].A[0]
	}
	if h == "" {
		return nil
	}
	for p := range x.mods {
		if f := p.Func(h); f != nil {
			return f
		}
	}
	return nil
}

var _ = types.Typ
