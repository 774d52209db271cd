package main

import (
	"fmt"
	"go/types"
)

// The commands are analysed with the package they use behind contracts: the
// stand-ins of harness/sign_contracts.go.txt, whose effects on files are
// those that other properties establish.

const signPkg = "github.com/opencoff/sigtool/sign."

var contracts = map[string]string{}

func init() {
	m := func(recv, name string) string {
		return "(*" + signPkg + recv + ")." + name
	}
	for n, h := range map[string]string{
		signPkg + "ReadPrivateKey":            "ReadPrivateKey",
		signPkg + "ReadPublicKey":             "ReadPublicKey",
		signPkg + "MakePublicKeyFromString":   "MakePublicKeyFromString",
		signPkg + "ParseAuthorizedKeys":       "ParseAuthorizedKeys",
		signPkg + "NewEncryptor":              "NewEncryptor",
		m("Encryptor", "AddRecipient"):        "AddRecipient",
		m("Encryptor", "Encrypt"):             "Encrypt",
		signPkg + "NewDecryptor":              "NewDecryptor",
		m("Decryptor", "SetPrivateKey"):       "SetPrivateKey",
		m("Decryptor", "AuthenticatedSender"): "AuthenticatedSender",
		m("Decryptor", "Decrypt"):             "Decrypt",
		m("PrivateKey", "SignFile"):           "SignFile",
		m("Signature", "MarshalBinary"):       "SigMarshal",
		signPkg + "ReadSignature":             "ReadSignature",
		m("Signature", "IsPKMatch"):           "IsPKMatch",
		m("PublicKey", "VerifyFile"):          "VerifyFile",
		signPkg + "NewPrivateKey":             "NewPrivateKey",
		signPkg + "Debug":                     "Debug",
		m("PrivateKey", "PublicKey"):          "PublicKey",
		m("PrivateKey", "MarshalBinary"):      "SKMarshal",
		m("PublicKey", "MarshalBinary"):       "PKMarshal",
	} {
		contracts[n] = "verif_c_" + h
	}

	reg(func(x *Exec, c *CallCtx) []MOut {
		return failing(x, c, "api:"+tagOf(c.args[0]), variadicRaw(x, c, 1), func(st *State) *Term { return tNil },
			func(st *State, e *Term) *Term { return e })
	}, "verif:verif_api")
	reg(func(x *Exec, c *CallCtx) []MOut {
		x.ev(c.st, c, "api:"+tagOf(c.args[0]), false, variadicRaw(x, c, 1))
		return one(c.st, tUnit)
	}, "verif:verif_event")
	reg(func(x *Exec, c *CallCtx) []MOut {
		n := 0
		for l := c.st.log; l != nil; l = l.prev {
			if l.ev.kind == "api:"+tagOf(c.args[0]) {
				n++
			}
		}
		nm := "nn:" + tagOf(c.args[0]) + "#" + shortHash(fmt.Sprint(c.ctx, c.site, n))
		symOrigin[nm] = app("authkeys", c.st.bytesOf(c.args[1]))
		return one(c.st, makeSym(c.st, types.NewSlice(c.sig.Results().At(0).Type().Underlying().(*types.Slice).Elem()), nm))
	}, "verif:verif_keys")
}

// variadicRaw are the variable arguments: byte slices by content, others as
// they are.
func variadicRaw(x *Exec, c *CallCtx, i int) []*Term {
	if i >= len(c.args) {
		return nil
	}
	s := c.args[len(c.args)-1]
	if s.Op == "nil" {
		return nil
	}
	var r []*Term
	for _, e := range flat(c.st.bytesOf(s)) {
		if e.Op == "elem" {
			e = e.A[0]
		}
		e = unwrapI(e)
		if e.Op == "slice" {
			e = c.st.bytesOf(e)
		}
		r = append(r, e)
	}
	return r
}
