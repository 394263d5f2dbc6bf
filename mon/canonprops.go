package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/rsa"
	"crypto/x509/pkix"
	"fmt"
	"math/big"
	"time"

	"mon/ref"

	"github.com/mmdet/mcrypto/sm2"
	mx "github.com/mmdet/mcrypto/x509"
)

func init() {
	register(&Prop{
		ID:   "C27",
		Rule: "every writing function over generated values, in a program whose local time zone is not UTC; the output is walked by a strict DER checker, into the values of the standard extensions, attributes and the decrypted parts of PKCS #12 files; distinct outputs",
		// The local time zone is not UTC in any case: nothing written may depend on it.
		Before: func() { time.Local = time.FixedZone("local", 5*3600+1800) },
		Groups: []Group{
			{Name: "certificates", N: [2]int{1500, 60000}, Fn: c27Cert},
			{Name: "requests", N: [2]int{1000, 40000}, Fn: c27Request},
			{Name: "lists", N: [2]int{1000, 40000}, Fn: c27List},
			{Name: "messages", N: [2]int{1200, 50000}, Fn: c27Message},
			{Name: "files", N: [2]int{500, 15000}, Fn: c27File},
			{Name: "keys", N: [2]int{2500, 100000}, Fn: c27Key},
			{Name: "signatures", N: [2]int{4000, 150000}, Fn: c27Sig},
		},
	})
}

func (t *T) canon(what string, b []byte) {
	t.evals++
	if err := ref.Canonical(b); err != nil {
		t.Failf("%s is not canonical DER: %v: %s", what, err, hx(b))
	}
}

// canonSig checks signature values that are themselves DER.
func (t *T) canonSig(what string, k tkey, sig []byte) {
	switch k.pub.(type) {
	case *sm2.PublicKey, *ecdsa.PublicKey:
		t.canon(what+": signature value", sig)
	}
}

// canonExts walks a SEQUENCE OF Extension. own are the caller's ready-made ones.
func (t *T) canonExts(what string, list []byte, own []pkix.Extension) {
	n := 0
	seen := map[string]bool{}
	for _, e := range elems(list) {
		p := elems(e)
		id, val := p[0], body(p[len(p)-1])
		t.Check(p[len(p)-1][0] == 4 && (len(p) == 2 || len(p) == 3 && bytes.Equal(p[1], []byte{1, 1, 255})), "%s: extension %s", what, hx(e))
		t.Check(!seen[string(id)] || isOwn(id, own), "%s: extension %x occurs twice", what, id)
		seen[string(id)] = true
		if isOwn(id, own) {
			continue
		}
		n++
		t.canon(fmt.Sprintf("%s: value of extension %x", what, body(id)), val)
		if bytes.Equal(id, ref.OID(2, 5, 29, 15)) { // named bits: no trailing zeros
			v := body(val)
			t.Check(len(v) == 1 || v[len(v)-1]>>v[0]&1 == 1, "%s: key usage %x has trailing zero bits", what, val)
		}
	}
	t.evals += n
}

func isOwn(id []byte, own []pkix.Extension) bool {
	for _, x := range own {
		if bytes.Equal(ref.OID([]int(x.Id)...), id) {
			return true
		}
	}
	return false
}

func c27Cert(t *T, i int) {
	k, alg, info := caKey(t.Rng)
	sub := genKey(t.Rng, pick(t.Rng, "SM2", "P256", "P521", "Ed25519", "RSA small"))
	tmpl, parent := genTemplate(t.Rng, false), genTemplate(t.Rng, true)
	tmpl.SignatureAlgorithm = alg
	what := fmt.Sprintf("certificate for %s by %s with %s", sub.kind, k.kind, info.name)
	var der []byte
	var err error
	t.guard(what, func() { der, err = mx.CreateCertificate(t.sys, tmpl, parent, sub.pub, k.signer) })
	t.noErr(what, err)
	t.canon(what, der)
	tbs, _, sig := parts3(t, what, der)
	t.canonSig(what, k, sig)
	e := elems(tbs)
	if last := e[len(e)-1]; last[0] == 0xa3 {
		t.canonExts(what, split(body(last))[0], tmpl.ExtraExtensions)
		t.Cover("with extensions")
	}
	t.Key("%x", der)
	t.Cover("certificate by " + k.kind)
	t.Sample("%s, %d bytes", what, len(der))
}

func c27Request(t *T, i int) {
	k, alg, info := caKey(t.Rng)
	tmpl := genRequest(t.Rng)
	tmpl.RawSubject = nil // may be anything
	tmpl.SignatureAlgorithm = alg
	what := fmt.Sprintf("request by %s with %s", k.kind, info.name)
	var der []byte
	var err error
	t.guard(what, func() { der, err = mx.CreateCertificateRequest(t.sys, tmpl, k.signer) })
	t.noErr(what, err)
	t.canon(what, der)
	tbs, _, sig := parts3(t, what, der)
	t.canonSig(what, k, sig)
	e := elems(tbs)
	t.Check(len(e) == 4 && e[3][0] == 0xa0, "%s: signed part %s", what, hx(tbs))
	if at := elems(e[3]); len(at) > 0 {
		t.Check(len(at) == 1, "%s: %d attributes", what, len(at))
		p := elems(at[0])
		t.Check(len(p) == 2 && p[1][0] == 0x31, "%s: attribute %s", what, hx(at[0]))
		t.canonExts(what, body(p[1]), tmpl.ExtraExtensions)
		t.Cover("with extensions")
	}
	t.Key("%x", der)
	t.Cover("request by " + k.kind)
}

func c27List(t *T, i int) {
	k, alg, info := caKey(t.Rng)
	tm := genTemplate(t.Rng, true)
	tm.SubjectKeyId = t.Bytes(1 + t.IntN(30))
	tm.KeyUsage |= mx.KeyUsageCRLSign
	entries := genEntries(t.Rng)
	this := genTime(t.Rng)
	next := this.Add(time.Hour)
	if next.UTC().Year() > 9999 {
		next = this
	}
	var der []byte
	var err error
	what := fmt.Sprintf("list by %s with %s", k.kind, info.name)
	var own []pkix.Extension
	if i%2 == 0 {
		own = genExtra(t.Rng)
		rl := &mx.RevocationList{SignatureAlgorithm: alg, RevokedCertificates: entries, Number: genSerial(t.Rng), ThisUpdate: this, NextUpdate: next, ExtraExtensions: own}
		t.guard(what, func() { der, err = mx.CreateRevocationList(t.sys, rl, tm, k.signer) })
	} else {
		what = "CreateCRL: " + what
		t.guard(what, func() { der, err = tm.CreateCRL(t.sys, k.signer, entries, this, next) })
	}
	t.noErr(what, err)
	t.canon(what, der)
	tbs, _, sig := parts3(t, what, der)
	t.canonSig(what, k, sig)
	e := elems(tbs)
	for _, x := range e {
		if x[0] == 0xa0 {
			t.canonExts(what, split(body(x))[0], own)
			t.Cover("with extensions")
		}
	}
	t.Key("%x", der)
	t.Cover(what[:min(len(what), 18)])
}

func c27Message(t *T, i int) {
	c := genSDCert(t)
	content := c13Content(t)
	var der []byte
	var err error
	what := fmt.Sprintf("SignedData over %d bytes", len(content))
	t.guard(what, func() {
		if i%2 == 0 {
			der, err = mx.NewSignedData(c.c, c.key, content)
		} else {
			what += " with a callback"
			der, err = mx.NewSignedDataCallBack(c.c, func(b []byte) ([]byte, error) {
				t.canon(what+": bytes to sign", b)
				return refSign(t.Rng, c.key.D, refPub(&c.key.PublicKey), b), nil
			}, content)
		}
	})
	t.noErr(what, err)
	t.canon(what, der)
	s, err := readSD(der)
	t.noErr(what+": independent reader", err)
	for _, g := range s.signers {
		t.canon(what+": signature value", g.sig)
		sorted := sortSet(g.attrs)
		for j := range sorted {
			t.Check(bytes.Equal(sorted[j], g.attrs[j]), "%s: the SET of attributes is not in order", what)
		}
	}
	t.Key("%x", der)
	t.Cover(fmt.Sprintf("message, callback=%v", i%2 == 1))
}

func c27File(t *T, i int) {
	k, certs, pw := genP12(t)
	file := p12Encode(t, k, certs[0], certs[1:], pw)
	what := fmt.Sprintf("PKCS #12 file, %s key, %d certificates", k.kind, len(certs))
	t.canon(what, file)
	f, err := ref.DecodePFX(file, bmp(pw))
	t.noErr(what+": independent reader", err)
	t.Check(f.MacIter != 1 || f.NoMacIter, "%s: the default MAC iteration count is written out", what)
	t.canon(what+": authenticated safe", f.AuthSafe)
	for _, s := range f.Safes {
		t.canon(what+": safe contents", s.Raw)
		for _, b := range s.Bags {
			if b.Key {
				t.canon(what+": private key", b.Data)
				t.canonKey8(what, b.Data)
			}
		}
	}
	t.Key("%x", file)
	t.Cover("file with a " + k.kind + " key")
}

// canonKey8 looks inside a PKCS #8 private key.
func (t *T) canonKey8(what string, der []byte) {
	p := elems(der)
	t.Check(len(p) >= 3 && p[2][0] == 4, "%s: PKCS #8 %s", what, hx(der))
	t.canon(what+": key inside PKCS #8", body(p[2]))
}

func c27Key(t *T, i int) {
	k := anyKey(t.Rng)
	var der []byte
	var err error
	t.guard("MarshalPKIXPublicKey", func() { der, err = mx.MarshalPKIXPublicKey(k.pub) })
	t.noErr("MarshalPKIXPublicKey", err)
	t.canon(k.kind+" public key", der)
	if _, ok := k.pub.(*rsa.PublicKey); ok {
		t.canon("RSA key inside", body(elems(der)[1])[1:])
	}
	t.Key("%x", der)
	t.guard("MarshalPKCS8PrivateKey", func() { der, err = mx.MarshalPKCS8PrivateKey(k.priv) })
	t.noErr("MarshalPKCS8PrivateKey", err)
	t.canon(k.kind+" private key", der)
	t.canonKey8(k.kind+" private key", der)
	switch p := k.priv.(type) {
	case *ecdsa.PrivateKey:
		t.guard("MarshalECPrivateKey", func() { der, err = mx.MarshalECPrivateKey(p) })
		t.noErr("MarshalECPrivateKey", err)
		t.canon("EC private key", der)
	case *rsa.PrivateKey:
		t.canon("PKCS #1 private key", mx.MarshalPKCS1PrivateKey(p))
		t.canon("PKCS #1 public key", mx.MarshalPKCS1PublicKey(&p.PublicKey))
	}
	t.Cover(k.kind)
}

func c27Sig(t *T, i int) {
	d, _ := genD(t.Rng)
	k := newSM2(d)
	msg, id := t.Bytes(t.Len(300)), genID(t.Rng)
	var sig []byte
	var err error
	switch i % 3 {
	case 0:
		t.guard("sm2.Sign", func() { sig, err = sm2.Sign(t.sys, k, msg, id) })
	case 1:
		t.guard("SignDigest", func() { sig, err = k.SignDigest(t.sys, ref.SM3(msg)) })
	case 2:
		edge := func() *big.Int {
			switch t.IntN(4) {
			case 0:
				return bi(int64(t.IntN(70000)))
			case 1:
				return new(big.Int).SetBytes(cat([]byte{0x80}, t.Bytes(t.IntN(32))))
			case 2:
				return new(big.Int).SetBytes(t.Bytes(t.IntN(33)))
			}
			return edgeRS(t.Rng)
		}
		r, s := edge(), edge()
		t.guard("MarshalSign", func() { sig, err = sm2.MarshalSign(r, s) })
		t.noErr("MarshalSign", err)
		t.mustEq(fmt.Sprintf("MarshalSign(%x, %x)", r, s), sig, ref.MarshalSig(r, s))
	}
	t.noErr("signature", err)
	t.canon("signature", sig)
	p := elems(sig)
	t.Check(len(p) == 2 && p[0][0] == 2 && p[1][0] == 2, "signature %x is not two integers", sig)
	t.Key("%x", sig)
	t.Cover(fmt.Sprintf("signature, way %d", i%3))
}
