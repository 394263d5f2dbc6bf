package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/rsa"
	"crypto/x509/pkix"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"io"
	"math/big"
	"os"
	"path/filepath"
	"strconv"
	"strings"

	"mon/ref"

	"github.com/mmdet/mcrypto/pkcs12"
	"github.com/mmdet/mcrypto/sm2"
	mx "github.com/mmdet/mcrypto/x509"
)

func init() {
	register(&Prop{
		ID:   "C29",
		Rule: "operations on random secrets (private keys, passwords, plaintexts, nonces), succeeding and failing; every public result and every error text is searched for any 8 bytes of a secret, as they are, reversed, in hexadecimal, base 64, decimal or UTF-16; distinct (operation, secret)",
		Groups: []Group{
			{Name: "results", N: [2]int{2500, 100000}, Fn: c29Results},
			{Name: "ciphertexts", N: [2]int{1500, 100000}, Fn: c29Cipher},
			{Name: "passwords", N: [2]int{1600, 30000}, Fn: c29Password},
			{Name: "key errors", N: [2]int{4000, 200000}, Fn: c29KeyErrors},
			{Name: "other errors", N: [2]int{2000, 80000}, Fn: c29OtherErrors},
		},
	})
}

const leakWindow = 8 // a chance find is out of the question: secrets are uniform

// forms are the ways a secret may show up.
func forms(b []byte) (out [][]byte) {
	rev := clone(b)
	for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
		rev[i], rev[j] = rev[j], rev[i]
	}
	return [][]byte{b, rev}
}

// hides fails if out has a part of the secret in it.
func (t *T) hides(what string, out []byte, secret string, b []byte) {
	t.evals++
	if len(out) == 0 || len(b) < leakWindow {
		return
	}
	try := func(how string, form []byte, w int) {
		for i := 0; i+w <= len(form); i++ {
			if bytes.Contains(out, form[i:i+w]) {
				t.Failf("%s has part of the %s in it (%s %q): %s", what, secret, how, form[i:i+w], hx(out))
			}
		}
	}
	for _, f := range forms(b) {
		try("as it is", f, leakWindow)
		try("hexadecimal", []byte(hex.EncodeToString(f)), 2*leakWindow)
		try("hexadecimal", []byte(strings.ToUpper(hex.EncodeToString(f))), 2*leakWindow)
		for k := 0; k < 3; k++ { // at any alignment
			try("base 64", []byte(base64.RawStdEncoding.EncodeToString(f[k:])), 16)
			try("base 64", []byte(base64.RawURLEncoding.EncodeToString(f[k:])), 16)
		}
	}
	if len(b) <= 80 {
		try("decimal", []byte(new(big.Int).SetBytes(b).String()), 24)
	}
	list := b[:min(len(b), 80)]
	try("list", []byte(fmt.Sprint(list)), 40)
	try("list", []byte(fmt.Sprintf("%#v", list)), 60)
	if bytes.IndexByte(out, '\\') >= 0 {
		un := unescape(out)
		for _, f := range forms(b) {
			for i := 0; i+leakWindow <= len(f); i++ {
				if bytes.Contains(un, f[i:i+leakWindow]) {
					t.Failf("%s has part of the %s in it (quoted, %q): %s", what, secret, f[i:i+leakWindow], hx(out))
				}
			}
		}
	}
}

// unescape undoes the escapes %q writes, wherever they are.
func unescape(text []byte) (out []byte) {
	s := string(text)
	for len(s) > 0 {
		if s[0] == '\\' {
			if c, mb, tail, err := strconv.UnquoteChar(s, '"'); err == nil {
				if mb {
					out = append(out, string(c)...)
				} else {
					out = append(out, byte(c))
				}
				s = tail
				continue
			}
		}
		out = append(out, s[0])
		s = s[1:]
	}
	return out
}

func (t *T) hidesIn(what string, err error, secret string, b []byte) {
	if err != nil {
		t.hides("the error of "+what, []byte(err.Error()), secret, b)
		t.hides("the error of "+what, []byte(fmt.Sprintf("%+v %#v", err, err)), secret, b)
	}
}

// secretsOf are the private numbers of a key.
func secretsOf(k any) (out [][]byte) {
	switch k := k.(type) {
	case *sm2.PrivateKey:
		return [][]byte{b32(k.D)}
	case *ecdsa.PrivateKey:
		return [][]byte{k.D.FillBytes(make([]byte, (k.Curve.Params().BitSize+7)/8))}
	case ed25519.PrivateKey:
		return [][]byte{k.Seed()}
	case *rsa.PrivateKey:
		out = append(out, k.D.Bytes())
		for _, p := range k.Primes {
			out = append(out, p.Bytes())
		}
		return append(out, k.Precomputed.Dp.Bytes(), k.Precomputed.Dq.Bytes(), k.Precomputed.Qinv.Bytes())
	}
	return nil
}

// fullKey has no short or special scalar.
func fullKey(r *Rng, kinds ...string) tkey {
	kind := pick(r, kinds...)
	if kind == "SM2" {
		return wrapSM2(newSM2(r.Big(new(big.Int).Rsh(ref.N, 4), nm2)))
	}
	for {
		k := genKey(r, kind)
		if p, ok := k.priv.(*ecdsa.PrivateKey); !ok || p.D.BitLen() > p.Curve.Params().BitSize-8 && sub(p.Curve.Params().N, p.D).BitLen() > p.Curve.Params().BitSize-8 {
			return k
		}
	}
}

func (t *T) hidesKey(what string, out []byte, k tkey) {
	for _, s := range secretsOf(k.priv) {
		t.hides(what, out, "private key", s)
	}
}

func (t *T) hidesKeyIn(what string, err error, k tkey) {
	for _, s := range secretsOf(k.priv) {
		t.hidesIn(what, err, "private key", s)
	}
}

// recorded is a random source that keeps what it gave.
type recorded struct {
	r   io.Reader
	got []byte
}

func (r *recorded) Read(p []byte) (int, error) {
	n, err := r.r.Read(p)
	r.got = append(r.got, p[:n]...)
	return n, err
}

func c29Results(t *T, i int) {
	k := fullKey(t.Rng, "SM2", "SM2", "SM2", "P256", "P384", "Ed25519", "RSA small")
	if i%8 == 6 {
		k = fullKey(t.Rng, append([]string{"SM2", "RSA", "RSA"}, keyKinds...)...)
	} else if i%8 >= 4 {
		k = fullKey(t.Rng, "SM2")
	}
	priv, _ := k.priv.(*sm2.PrivateKey)
	rd := &recorded{r: t.sys}
	ca := genTemplate(t.Rng, true)
	ca.SubjectKeyId = t.Bytes(20)
	ca.KeyUsage |= mx.KeyUsageCRLSign
	now := genTime(t.Rng)
	what := ""
	var out []byte
	var err error
	switch i % 8 {
	case 0:
		what = "certificate"
		tmpl := genTemplate(t.Rng, false)
		tmpl.SignatureAlgorithm = 0
		sub := fullKey(t.Rng, "SM2", "P256", "Ed25519")
		out, err = mx.CreateCertificate(rd, tmpl, ca, sub.pub, k.signer)
		t.hidesKey(what, out, sub)
		// its own key identifier is derived
		ca.SubjectKeyId, ca.SignatureAlgorithm = nil, 0
		self, serr := mx.CreateCertificate(rd, ca, ca, k.pub, k.signer)
		t.noErr("self-signed certificate", serr)
		t.hidesKey("self-signed certificate", self, k)
	case 1:
		what = "request"
		req := genRequest(t.Rng)
		req.SignatureAlgorithm = 0
		out, err = mx.CreateCertificateRequest(rd, req, k.signer)
	case 2:
		what = "list"
		if t.Chance(1, 2) {
			out, err = ca.CreateCRL(rd, k.signer, genEntries(t.Rng), now, now)
		} else {
			out, err = mx.CreateRevocationList(rd, &mx.RevocationList{Number: bi(5), ThisUpdate: now, NextUpdate: now, RevokedCertificates: genEntries(t.Rng)}, ca, k.signer)
		}
	case 3:
		what = "public key"
		out, err = mx.MarshalPKIXPublicKey(k.pub)
		if p, ok := k.pub.(*rsa.PublicKey); ok && err == nil {
			out = cat(out, mx.MarshalPKCS1PublicKey(p))
		}
	case 4:
		what = "signed message"
		c := newSDCert(t, priv, t.Name(5), genSerial(t.Rng))
		t.WithSysRand(rd.Read, func() { out, err = mx.NewSignedData(c.c, priv, t.Bytes(t.IntN(60))) })
	case 5:
		what = "signature"
		msg := t.Bytes(t.IntN(60))
		var r, s *big.Int
		r, s, err = sm2.SignRS(rd, priv, msg, genID(t.Rng))
		t.noErr(what, err)
		out, err = sm2.Sign(rd, priv, msg, nil)
		out = cat(out, b32(r), b32(s))
		var rr, ss *big.Int
		dig := ref.SM3(msg)
		rr, ss, err = sm2.SignDigestRS(rd, priv, dig)
		t.noErr(what, err)
		out = cat(out, b32(rr), b32(ss))
		// nor the nonce
		t.hides(what, out, "nonce", b32(ref.RecoverK(priv.D, rr, ss)))
	case 6:
		what = "PKCS #12 file"
		pw := t.Name(16)
		c, perr := mx.ParseCertificate(certFor(t.Rng, k, 10))
		t.noErr(what, perr)
		t.WithSysRand(func(p []byte) (int, error) { return t.sys.Read(p) }, func() { out, err = pkcs12.Encode(k.priv, c, nil, pw) })
		t.hides(what, out, "password", []byte(pw))
		t.hides(what, out, "password", bmp(pw))
		rd.got = nil // salts are public
	case 7:
		what = "digest and user identity"
		out, err = priv.PublicKey.SM3Digest(t.Bytes(20), nil)
		g, gerr := sm2.GenerateKey(rd)
		t.noErr("GenerateKey", gerr)
		out = cat(out, b32(g.X), b32(g.Y))
		t.hides(what, out, "generated private key", b32(g.D))
	}
	t.noErr(what, err)
	t.hidesKey(what, out, k)
	if len(rd.got) > 0 && k.kind == "SM2" {
		t.hides(what, out, "randomness", rd.got)
	}
	t.Key("%s %x", what, secretsOf(k.priv)[0])
	t.Cover("no secret in a " + what)
	t.Sample("%s, %s key: %d bytes searched", what, k.kind, len(out))
}

func c29Cipher(t *T, i int) {
	k := fullKey(t.Rng, "SM2")
	priv := k.priv.(*sm2.PrivateKey)
	msg := t.Bytes(leakWindow + t.Len(400))
	if t.Chance(1, 4) {
		msg = bytes.Repeat(t.Bytes(16), 1+t.IntN(12))
	}
	rd := &recorded{r: t.sys}
	ct, err := sm2.Encryt(rd, &priv.PublicKey, msg)
	t.noErr("Encryt", err)
	t.hides("the ciphertext", ct, "message", msg)
	t.hides("the ciphertext", ct, "randomness", rd.got)
	t.hidesKey("the ciphertext", ct, k)
	// the shared point
	x, y := new(big.Int).SetBytes(ct[1:33]), new(big.Int).SetBytes(ct[33:65])
	sp := ref.Mul(ref.Pt{X: x, Y: y}, priv.D)
	t.hides("the ciphertext", ct, "shared point", cat(b32(sp.X), b32(sp.Y)))
	// one key stream is never used twice
	ct2, err := sm2.Encryt(rd, &priv.PublicKey, msg)
	t.noErr("Encryt", err)
	n := len(msg)
	t.Check(!bytes.Equal(ct[len(ct)-n:], ct2[len(ct2)-n:]), "the same message encrypted twice gives the same bytes")
	// failures say nothing about the message
	bad := clone(ct)
	switch t.IntN(4) {
	case 0:
		bad[t.IntN(len(bad))] ^= 1 << t.IntN(8)
	case 1:
		bad[65+t.IntN(len(bad)-65)] ^= 1 << t.IntN(8)
	case 2:
		bad = bad[:65+t.IntN(len(bad)-65)]
	case 3:
		bad = append(bad, t.Bytes(1+t.IntN(5))...)
	}
	pt, err := sm2.Decryt(priv, bad)
	t.wantErr("Decryt of an altered ciphertext", err)
	t.Check(len(pt) == 0, "Decryt of an altered ciphertext: %d bytes along with %v", len(pt), err)
	t.hidesIn("Decryt", err, "message", msg)
	t.hidesIn("Decryt", err, "shared point", cat(b32(sp.X), b32(sp.Y)))
	t.hidesKeyIn("Decryt", err, k)
	wrong := fullKey(t.Rng, "SM2")
	_, err = sm2.Decryt(wrong.priv.(*sm2.PrivateKey), ct)
	t.wantErr("Decryt with another key", err)
	t.hidesKeyIn("Decryt", err, wrong)
	t.Key("%x", ct)
	t.Cover("ciphertext")
}

func c29Password(t *T, i int) {
	k := fullKey(t.Rng, "SM2", "P256", "Ed25519", "RSA small")
	certs := [][]byte{certFor(t.Rng, k, t.IntN(50))}
	pw, other := t.Name(16), t.Name(16)
	f, _ := refSpec(t, k, certs, bmp(pw), true)
	file := ref.EncodePFX(f, bmp(pw))
	if t.Chance(1, 3) {
		file = p12Encode(t, k, certs[0], nil, pw)
	}
	use := pw
	what := ""
	switch i % 8 {
	case 6, 7:
		// the password is right, but what it decrypts to does not end as it should: the key cut, or badly padded
		what = "encrypted key cut"
		p8 := keyDER8(k)
		cut := 8 * (1 + t.IntN((len(p8)+7)/8))
		if i%8 == 7 {
			// within the private numbers, or just behind them
			what = "encrypted key cut in or after a private number"
			s := pick(t.Rng, secretsOf(k.priv)...)
			if at := bytes.Index(p8, s); at >= 0 {
				cut = min((at+8+t.IntN(len(s)))/8*8, len(p8)/8*8)
			}
		}
		for j := range f.Safes {
			for l := range f.Safes[j].Bags {
				if b := &f.Safes[j].Bags[l]; b.Key {
					if cut >= len(p8) {
						what = "encrypted key badly padded"
						b.Data, b.Pad = p8, t.Bytes(cut-len(p8))
						if len(b.Pad) == 0 {
							b.Pad = t.Bytes(8)
						}
					} else {
						b.Data, b.Pad = p8[:cut], []byte{}
					}
				}
			}
		}
		file = ref.EncodePFX(f, bmp(pw))
	case 0:
		what, use = "wrong password", other
	case 1:
		what = "altered file"
		file, _ = mutate(t.Rng, file, certs[0])
		if hugeIter(file) {
			return
		}
	case 2:
		what = "cut file"
		file = file[:t.IntN(len(file))]
	case 3:
		what = "password that has no encoding"
		use = pw + badPassword(t.Rng)
	case 4:
		what = "key that does not parse" // the password is right, and the contents of the key bag are seen
		p8 := keyDER8(k)
		for {
			m, _ := mutate(t.Rng, p8, certs[0])
			if t.Chance(1, 3) {
				m = p8[:t.IntN(len(p8))]
			}
			if !bytes.Equal(m, p8) {
				p8 = m
				break
			}
		}
		for j := range f.Safes {
			for l := range f.Safes[j].Bags {
				if f.Safes[j].Bags[l].Key {
					f.Safes[j].Bags[l].Data = p8
				}
			}
		}
		file = ref.EncodePFX(f, bmp(pw))
	case 5:
		what = "certificate that does not parse"
		for j := range f.Safes {
			for l := range f.Safes[j].Bags {
				if !f.Safes[j].Bags[l].Key {
					f.Safes[j].Bags[l].Data, _ = mutate(t.Rng, certs[0], certs[0])
				}
			}
		}
		file = ref.EncodePFX(f, bmp(pw))
	}
	look := func(f string, err error) {
		if err == nil {
			t.Cover("accepted")
			return
		}
		for _, p := range []string{pw, use} {
			t.hidesIn(f+", "+what, err, "password", []byte(p))
			if b, ok := ref.BMP(p); ok {
				t.hidesIn(f+", "+what, err, "password", b)
			}
		}
		t.hidesKeyIn(f+", "+what, err, k)
		t.Cover("error, " + what)
	}
	t.guard(what, func() {
		_, _, err := pkcs12.DecodeAll(clone(file), use)
		look("DecodeAll", err)
		_, _, err = pkcs12.Decode(clone(file), use)
		look("Decode", err)
		_, err = pkcs12.ToPEM(clone(file), use)
		look("ToPEM", err)
	})
	dir := tempDir(t)
	defer os.RemoveAll(dir)
	fn := filepath.Join(dir, "f.p12")
	if err := os.WriteFile(fn, file, 0600); err != nil {
		panic(err)
	}
	t.guard(what, func() {
		_, _, err := pkcs12.SM2P12Decrypt(fn, use)
		look("SM2P12Decrypt", err)
		c, err := mx.ParseCertificate(certs[0])
		t.noErr("ParseCertificate", err)
		_, err = pkcs12.Encode(k.priv, c, nil, pw+badPassword(t.Rng))
		t.wantErr("Encode", err)
		look("Encode", err)
		_, err = pkcs12.Encode("a key", c, nil, pw)
		t.wantErr("Encode", err)
		look("Encode", err)
		if p, ok := k.priv.(*sm2.PrivateKey); ok {
			err = pkcs12.SM2P12Encrypt(c, pw, p, filepath.Join(dir, "no", "such", "f.p12"))
			t.wantErr("SM2P12Encrypt", err)
			look("SM2P12Encrypt", err)
		}
	})
	t.Key("%s %s", what, pw)
}

// c29KeyErrors: what is wrong with a private key is said without telling it.
func c29KeyErrors(t *T, i int) {
	k := fullKey(t.Rng, "SM2", "SM2", "P256", "P521", "Ed25519", "RSA small")
	in := keyDER8(k)
	switch p := k.priv.(type) {
	case *sm2.PrivateKey:
		vs := sm2Variants(p.D, refPub(&p.PublicKey))
		in = pick(t.Rng, in, vs["SEC1 curve=true point=true"], vs["PKCS8 curve=true point=false"])
	case *rsa.PrivateKey:
		if t.Chance(1, 2) {
			in = mx.MarshalPKCS1PrivateKey(p)
		}
	}
	how := "as it is"
	switch t.IntN(7) {
	case 0:
	case 6: // private numbers of another length, whatever holds them
		in, how = otherLength(t, k), "with numbers of another length"
	case 1:
		in, how = in[:t.IntN(len(in))], "cut"
	default:
		in, how = mutate(t.Rng, in, pkixSM2(genPoint(t.Rng)))
	}
	what := "a private key, " + how
	n := 0
	look := func(name string, err error) {
		if err != nil {
			n++
		}
		t.hidesKeyIn(name+" on "+what, err, k)
	}
	t.guard(what, func() {
		_, err := mx.ParsePKCS8PrivateKey(clone(in))
		look("ParsePKCS8PrivateKey", err)
		_, err = mx.ParseECPrivateKey(clone(in))
		look("ParseECPrivateKey", err)
		_, err = mx.ParsePKCS1PrivateKey(clone(in))
		look("ParsePKCS1PrivateKey", err)
		_, err = mx.ParsePKCS1PublicKey(clone(in))
		look("ParsePKCS1PublicKey", err)
		_, err = mx.ParsePKIXPublicKey(clone(in))
		look("ParsePKIXPublicKey", err)
		_, err = mx.ParseCertificate(clone(in))
		look("ParseCertificate", err)
	})
	t.Key("%x", in)
	t.Cover(fmt.Sprintf("%d errors", n))
}

// otherLength writes a key whose private numbers are cut or extended in an otherwise correct structure.
func otherLength(t *T, k tkey) []byte {
	longer := func(b []byte) []byte {
		switch t.IntN(4) {
		case 0:
			return b[:t.IntN(len(b))]
		case 1:
			return append(t.Bytes(1+t.IntN(40)), b...)
		case 2:
			return append([]byte{0}, b...)
		}
		return append(clone(b), t.Bytes(1+t.IntN(40))...)
	}
	p8 := func(alg, key []byte) []byte { return ref.TLV(0x30, ref.Int(bi(0)), alg, ref.TLV(4, key)) }
	e := elems(keyDER8(k))
	switch p := k.priv.(type) {
	case ed25519.PrivateKey:
		return p8(e[1], ref.TLV(4, longer(p.Seed())))
	case *sm2.PrivateKey:
		d := longer(b32(p.D))
		return pick(t.Rng, p8(e[1], ref.TLV(0x30, ref.Int(bi(1)), ref.TLV(4, d))), ref.TLV(0x30, ref.Int(bi(1)), ref.TLV(4, d), ref.TLV(0xa0, elems(e[1])[1])), p8(e[1], d))
	case *ecdsa.PrivateKey:
		d := longer(p.D.FillBytes(make([]byte, (p.Curve.Params().BitSize+7)/8)))
		return pick(t.Rng, p8(e[1], ref.TLV(0x30, ref.Int(bi(1)), ref.TLV(4, d))), ref.TLV(0x30, ref.Int(bi(1)), ref.TLV(4, d), ref.TLV(0xa0, elems(e[1])[1])), p8(e[1], d))
	case *rsa.PrivateKey:
		in := elems(body(e[2]))
		at := 3 + t.IntN(len(in)-3)
		n, _, _ := ref.ReadInt(in[at])
		in[at] = ref.Int(new(big.Int).SetBytes(longer(n.Bytes())))
		der := ref.TLV(0x30, in...)
		return pick(t.Rng, der, p8(e[1], der))
	}
	panic("key type")
}

// c29OtherErrors: calls with a private key that fail.
func c29OtherErrors(t *T, i int) {
	k := fullKey(t.Rng, "SM2", "SM2", "P256", "Ed25519", "RSA small")
	other := fullKey(t.Rng, "SM2", "P256", "Ed25519")
	ca := genTemplate(t.Rng, true)
	ca.SignatureAlgorithm = 0
	now := genTime(t.Rng)
	what := ""
	var err error
	switch i % 8 {
	case 0:
		what = "certificate by a key that is not the parent's"
		parent := genTemplate(t.Rng, true)
		parent.PublicKey = other.pub
		_, err = mx.CreateCertificate(t.sys, ca, parent, other.pub, k.signer)
	case 1:
		what = "algorithm that does not fit"
		ca.SignatureAlgorithm = mx.ECDSAWithSHA256
		if k.kind == "P256" {
			ca.SignatureAlgorithm = mx.SM2WithSM3
		}
		_, err = mx.CreateCertificate(t.sys, ca, ca, k.pub, k.signer)
	case 2:
		what = "private key in place of a public one"
		_, err = mx.MarshalPKIXPublicKey(k.priv)
	case 3:
		what = "private key value"
		var v any = k.priv
		switch p := k.priv.(type) {
		case *sm2.PrivateKey:
			v = *p
		case *ecdsa.PrivateKey:
			v = *p
		case *rsa.PrivateKey:
			v = *p
		case ed25519.PrivateKey:
			v = struct{ K ed25519.PrivateKey }{p}
		}
		_, err = mx.MarshalPKCS8PrivateKey(v)
		t.wantErr(what, err)
		t.hidesKeyIn(what, err, k)
		_, err = mx.CreateCertificate(t.sys, ca, ca, k.pub, v)
		t.wantErr(what, err)
		t.hidesKeyIn(what, err, k)
		c := genSDCert(t)
		_, err = mx.NewSignedData(c.c, v, []byte("x"))
		t.wantErr(what, err)
		t.hidesKeyIn(what, err, k)
		_, err = pkcs12.Encode(v, c.c, nil, "x")
	case 4:
		what = "subject that is the private key"
		_, err = mx.CreateCertificate(t.sys, ca, ca, k.priv, other.signer)
		if k.kind == "Ed25519" && err == nil {
			return
		}
	case 5:
		what = "list by no issuer"
		ca.SubjectKeyId = nil
		_, err = mx.CreateRevocationList(t.sys, &mx.RevocationList{Number: bi(5), ThisUpdate: now, NextUpdate: now}, ca, k.signer)
	case 6:
		what = "message by another kind of key"
		if k.kind == "SM2" {
			k = fullKey(t.Rng, "P256", "Ed25519")
		}
		_, err = mx.NewSignedData(genSDCert(t).c, k.priv, []byte("x"))
	case 7:
		what = "random source that fails"
		s := newSrc(t, t.sys)
		s.failAt = t.IntN(30)
		priv := fullKey(t.Rng, "SM2")
		k = priv
		_, err = sm2.Sign(s, priv.priv.(*sm2.PrivateKey), []byte("x"), nil)
		if !s.failed {
			return
		}
		t.wantErr(what, err)
		t.hidesKeyIn(what, err, k)
		_, err = mx.CreateCertificateRequest(s, &mx.CertificateRequest{Subject: pkix.Name{CommonName: "x"}}, priv.signer)
	}
	t.wantErr(what, err)
	t.hidesKeyIn(what, err, k)
	t.Key("%s %x", what, secretsOf(k.priv)[0])
	t.Cover("error: " + what)
	t.Sample("%s: %v", what, err)
}
