// Demonstrations of the genuine defects repaired by the "fix:" commits in
// /repo (see ../DESIGN.md). Not used by any check: they document the failing
// inputs. Run with ./run.sh (go test -overlay, inside package sign).
package sign

import (
	"bytes"
	"encoding/base64"
	"encoding/binary"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"os"
	"testing"

	"golang.org/x/crypto/ssh"
)

type vbuf struct{ bytes.Buffer }

func (*vbuf) Close() error { return nil }

func vEnc(t *testing.T, sender *PrivateKey, rx *PublicKey, blk uint64, msg []byte) []byte {
	e, err := NewEncryptor(sender, blk)
	if err != nil {
		t.Fatal(err)
	}
	if err = e.AddRecipient(rx); err != nil {
		t.Fatal(err)
	}
	var w vbuf
	if err = e.Encrypt(bytes.NewReader(msg), &w); err != nil {
		t.Fatal(err)
	}
	return w.Bytes()
}

func vDec(t *testing.T, sk *PrivateKey, spk *PublicKey, b []byte) ([]byte, error) {
	d, err := NewDecryptor(bytes.NewReader(b))
	if err != nil {
		return nil, err
	}
	if err = d.SetPrivateKey(sk, spk); err != nil {
		return nil, err
	}
	var w vbuf
	err = d.Decrypt(&w)
	return w.Bytes(), err
}

func noPanic(t *testing.T, f func()) {
	defer func() {
		if r := recover(); r != nil {
			t.Fatalf("panic: %v", r)
		}
	}()
	f()
}

func hdrLen(b []byte) int {
	return _FixedHdrLen + int(binary.BigEndian.Uint32(b[_MagicLen+1:])) + 32
}

// C01: forged end marker
func TestDefectTruncation(t *testing.T) {
	s, _ := NewPrivateKey()
	r, _ := NewPrivateKey()
	b := vEnc(t, s, r.PublicKey(), 16, bytes.Repeat([]byte("0123456789abcdef"), 4))
	n := hdrLen(b) + 2*(4+16+16)
	cut := append(append([]byte{}, b[:n]...), 0x80, 0, 0, 0)
	out, err := vDec(t, r, s.PublicKey(), cut)
	if err == nil {
		t.Fatalf("truncated file decrypts to %q without error", out)
	}
}

// C06: unsigned file accepted although a sender key was given
func TestDefectUnsignedSender(t *testing.T) {
	s, _ := NewPrivateKey()
	r, _ := NewPrivateKey()
	b := vEnc(t, nil, r.PublicKey(), 16, []byte("forged"))
	if out, err := vDec(t, r, s.PublicKey(), b); err == nil {
		t.Fatalf("unsigned file accepted as sent by s: %q", out)
	}
}

// C12: limits
func TestDefectMaxChunk(t *testing.T) {
	r, _ := NewPrivateKey()
	e, err := NewEncryptor(nil, 1<<30)
	if err != nil {
		return
	}
	e.AddRecipient(r.PublicKey())
	var w vbuf
	if err := e.Encrypt(bytes.NewReader([]byte("x")), &w); err != nil {
		return
	}
	if _, err := NewDecryptor(bytes.NewReader(w.Bytes())); err != nil {
		t.Fatal(err)
	}
}

func TestDefectNoRecipients(t *testing.T) {
	e, _ := NewEncryptor(nil, 16)
	var w vbuf
	if err := e.Encrypt(bytes.NewReader([]byte("x")), &w); err == nil {
		t.Fatal("encrypted to nobody")
	}
}

func TestDefectHeaderTooBig(t *testing.T) {
	r, _ := NewPrivateKey()
	e, _ := NewEncryptor(nil, 16)
	for i := 0; i < 17000; i++ {
		if err := e.AddRecipient(r.PublicKey()); err != nil {
			return
		}
	}
	var w vbuf
	if err := e.Encrypt(bytes.NewReader([]byte("x")), &w); err != nil {
		return
	}
	if _, err := NewDecryptor(bytes.NewReader(w.Bytes())); err != nil {
		t.Fatal(err)
	}
}

// C09: nonce reuse
func TestDefectReuse(t *testing.T) {
	r, _ := NewPrivateKey()
	e, _ := NewEncryptor(nil, 16)
	e.AddRecipient(r.PublicKey())
	var w, w2 vbuf
	if err := e.Encrypt(bytes.NewReader([]byte("aaaaaaaaaa")), &w); err != nil {
		t.Fatal(err)
	}
	if err := e.Encrypt(bytes.NewReader([]byte("bbbbbbbbbb")), &w2); err == nil {
		t.Fatal("second Encrypt reuses the data key and nonces")
	}
	e, _ = NewEncryptor(nil, 16)
	e.AddRecipient(r.PublicKey())
	if _, err := e.NewStreamWriter(&w); err != nil {
		t.Fatal(err)
	}
	if _, err := e.NewStreamWriter(&w2); err == nil {
		t.Fatal("second stream writer reuses the data key and nonces")
	}
}

func TestDefectCounterWrap(t *testing.T) {
	r, _ := NewPrivateKey()
	e, _ := NewEncryptor(nil, 1)
	e.AddRecipient(r.PublicKey())
	var w vbuf
	wio, _ := e.NewStreamWriter(&w)
	wio.(*encWriter).blk = 1<<32 - 1 // as after 4 GiB of one-byte chunks
	if _, err := wio.Write([]byte("abc")); err == nil && wio.(*encWriter).blk < 16 {
		t.Fatal("block counter wrapped to 0")
	}
}

// C14: failed SetPrivateKey
func TestDefectHalfKeyed(t *testing.T) {
	s, _ := NewPrivateKey()
	x, _ := NewPrivateKey()
	r, _ := NewPrivateKey()
	b := vEnc(t, s, r.PublicKey(), 16, []byte("hello"))
	noPanic(t, func() {
		d, _ := NewDecryptor(bytes.NewReader(b))
		if err := d.SetPrivateKey(r, x.PublicKey()); err == nil {
			t.Fatal("wrong sender accepted")
		}
		var w vbuf
		if err := d.Decrypt(&w); err == nil {
			t.Fatal("decrypted")
		}
	})
}

// C16: read error taken for the end of the input
type failRd struct{ n int }

func (f *failRd) Read(b []byte) (int, error) {
	if f.n == 0 {
		return 0, io.ErrUnexpectedEOF
	}
	m := min(f.n, len(b))
	f.n -= m
	return m, nil
}

func TestDefectReadError(t *testing.T) {
	r, _ := NewPrivateKey()
	e, _ := NewEncryptor(nil, 16)
	e.AddRecipient(r.PublicKey())
	var w vbuf
	if err := e.Encrypt(&failRd{40}, &w); err == nil {
		t.Fatal("read failure reported as success")
	}
}

// K04/K05: panics on malformed keys
func rsaBlob() string {
	b := ssh.Marshal(struct {
		A string
		E []byte
		N []byte
	}{"ssh-rsa", []byte{1, 0, 1}, bytes.Repeat([]byte{7}, 256)})
	return base64.StdEncoding.EncodeToString(b)
}

func TestDefectRSAPublic(t *testing.T) {
	noPanic(t, func() {
		if _, err := MakePublicKey([]byte("ssh-rsa " + rsaBlob() + " a@b")); err == nil {
			t.Fatal("rsa key accepted")
		}
	})
	noPanic(t, func() {
		if pk, err := MakePublicKeyFromString(rsaBlob()); err == nil {
			t.Fatalf("rsa key accepted: %v", pk)
		}
	})
}

func pemSSH(b []byte) []byte {
	return append([]byte("\n"), pem.EncodeToMemory(&pem.Block{Type: "OPENSSH PRIVATE KEY", Bytes: b})...)
}

func TestDefectSSHPrivate(t *testing.T) {
	pw := func() ([]byte, error) { return []byte("x"), nil }
	noPanic(t, func() {
		if _, err := MakePrivateKey(pemSSH([]byte("short")), pw); err == nil {
			t.Fatal("accepted")
		}
	})
	opts := ssh.Marshal(struct {
		S []byte
		R uint32
	}{[]byte("saltsaltsalt"), 1})
	k := append([]byte("openssh-key-v1\x00"), ssh.Marshal(opensshHeader{"aes256-cbc", "bcrypt", string(opts), 1, "p", "notablockmultiple"})...)
	noPanic(t, func() {
		if _, err := MakePrivateKey(pemSSH(k), pw); err == nil {
			t.Fatal("accepted")
		}
	})
	noPanic(t, func() {
		if _, err := MakePrivateKey(pemSSH(k), nil); err == nil {
			t.Fatal("accepted")
		}
	})
}

func TestDefectYamlPrivate(t *testing.T) {
	pw := func() ([]byte, error) { return []byte("x"), nil }
	for _, y := range []string{
		"esk: AAAA\nsalt: AAAA\nZ: 2\nr: 8\np: 1\n",
		"esk: AAAA\nsalt: AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA\nZ: 2\nr: 8\n",
		"esk: AAAA\nsalt: AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA\nZ: 2\np: 1\n",
		"esk: AAAA\nsalt: AAAAAAAAAAAAAAAAAAAAAAAAAAAAAAAA\nZ: 1125899906842624\nr: 8\np: 1\n",
	} {
		noPanic(t, func() {
			if _, err := MakePrivateKey([]byte(y), pw); err == nil {
				t.Fatal("accepted")
			}
		})
	}
}

func pipeWith(t *testing.T, s string) string {
	r, w, err := os.Pipe()
	if err != nil {
		t.Fatal(err)
	}
	t.Cleanup(func() { r.Close() })
	go func() { w.Write([]byte(s)); w.Close() }()
	return fmt.Sprintf("/dev/fd/%d", r.Fd())
}

func TestDefectPipe(t *testing.T) {
	sk, _ := NewPrivateKey()
	sig, err := sk.SignFile(pipeWith(t, "hello"))
	if err != nil {
		t.Fatal(err)
	}
	if ok, _ := sk.PublicKey().VerifyFile(pipeWith(t, "something else"), sig); ok {
		t.Fatal("verified other data")
	}
	if ok, err := sk.PublicKey().VerifyFile(pipeWith(t, "hello"), sig); !ok {
		t.Fatal("not verified", err)
	}
}

func TestDefectReadAgain(t *testing.T) {
	a, _ := NewPrivateKey()
	b, _ := NewPrivateKey()
	ab, _ := a.PublicKey().MarshalBinary("a")
	bb, _ := b.PublicKey().MarshalBinary("b")
	var pk PublicKey
	pk.UnmarshalBinary(ab)
	pk.ToCurve25519PK()
	pk.UnmarshalBinary(bb)
	if !bytes.Equal(pk.ToCurve25519PK(), b.PublicKey().ToCurve25519PK()) {
		t.Fatal("public: conversion of the previous key served")
	}
}

func TestDefectComment(t *testing.T) {
	a, _ := NewPrivateKey()
	as, _ := a.MarshalBinary("my OPENSSH PRIVATE KEY- copy", []byte("x"))
	b, err := MakePrivateKey(as, func() ([]byte, error) { return []byte("x"), nil })
	if err != nil || !bytes.Equal(a.Sk, b.Sk) {
		t.Fatal("cannot read back:", err)
	}
}

var _ = errors.New
