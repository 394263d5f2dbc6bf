package main

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/rsa"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/pem"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"runtime"
	"syscall"
	"time"

	"mon/ref"

	"github.com/mmdet/mcrypto/pkcs12"
	"github.com/mmdet/mcrypto/sm2"
	mx "github.com/mmdet/mcrypto/x509"
)

// A door is a place where bytes from outside enter the library, with what a program does next.
type door struct {
	name  string
	fresh func(t *T) []byte          // a well-formed message
	enter func(t *T, in []byte) bool // hands it over; reports acceptance
	big   func(t *T, n int) []byte   // a large one, of roughly n bytes
}

// env is what the doors need besides the bytes: it is made once per case.
type env struct {
	key  *sm2.PrivateKey
	pw   string
	cert *mx.Certificate
	dir  string
}

func (t *T) env() *env {
	if t.e == nil {
		d, _ := genD(t.Rng)
		t.e = &env{key: newSM2(d), pw: "password"}
		var err error
		if t.e.cert, err = mx.ParseCertificate(certFor(t.Rng, wrapSM2(t.e.key), 10)); err != nil {
			t.Failf("certificate: %v", err)
		}
	}
	return t.e
}

// usePub does with a parsed public key what programs do.
func usePub(t *T, what string, k any) {
	if k == nil {
		t.Failf("%s: nil key without an error", what)
	}
	if _, dsa := k.(interface{ Public() crypto.PublicKey }); dsa {
		t.Failf("%s: a private key", what)
	}
	der, err := mx.MarshalPKIXPublicKey(k)
	if s, ok := k.(*sm2.PublicKey); ok {
		t.noErr(what+": encoding the key again", err)
		ct, err := sm2.Encryt(t.sys, s, t.Bytes(t.IntN(70)))
		t.Check(err == nil && len(ct) > 0, "%s: encrypting to the key: %v", what, err)
		msg := t.Bytes(t.IntN(50))
		t.Check(!sm2.Verify(s, msg, nil, t.Bytes(70)), "%s: random bytes verify", what)
		_ = s.VerifyDigestRS(msg, t.Big(one, nm1), t.Big(one, nm1))
		_, err = s.SM3Digest(msg, t.Bytes(t.IntN(40)))
		t.noErr(what+": SM3Digest", err)
		t.Check(s.Equal(s), "%s: not equal to itself", what)
	}
	if err == nil {
		b, err := mx.ParsePKIXPublicKey(der)
		t.Check(err == nil && samePub(b, k), "%s: the key does not survive encoding: %v", what, err)
	} else {
		t.Cover(fmt.Sprintf("%T cannot be encoded", k))
	}
	c := &mx.Certificate{PublicKey: k, PublicKeyAlgorithm: pick(t.Rng, mx.RSA, mx.ECDSA, mx.Ed25519, mx.SM2)}
	for _, a := range algs {
		_ = c.CheckSignature(a.alg, t.Bytes(30), t.Bytes(pick(t.Rng, 0, 64, 70, 128, 256)))
	}
}

// usePriv does with a parsed private key what programs do.
func usePriv(t *T, what string, k any) {
	der, err := mx.MarshalPKCS8PrivateKey(k)
	t.noErr(what+": encoding the key again", err)
	b, err := mx.ParsePKCS8PrivateKey(der)
	t.Check(err == nil && samePriv(b, k), "%s: the key does not survive encoding: %v", what, err)
	msg := t.Bytes(t.IntN(60))
	var s crypto.Signer
	var pub any
	switch k := k.(type) {
	case *sm2.PrivateKey:
		sig, err := sm2.Sign(t.sys, k, msg, nil)
		t.noErr(what+": signing", err)
		t.Check(sm2.Verify(&k.PublicKey, msg, nil, sig), "%s: own signature does not verify", what)
		ct, err := sm2.Encryt(t.sys, &k.PublicKey, msg)
		t.noErr(what+": encrypting", err)
		pt, err := sm2.Decryt(k, ct)
		t.Check(err == nil && string(pt) == string(msg), "%s: own ciphertext does not decrypt: %v", what, err)
		t.Check(k.Equal(k), "%s: not equal to itself", what)
		s, pub = sm2Signer{k}, &k.PublicKey
	case *ecdsa.PrivateKey:
		s, pub = k, &k.PublicKey
		_, err := mx.MarshalECPrivateKey(k)
		t.noErr(what+": MarshalECPrivateKey", err)
	case *rsa.PrivateKey:
		s, pub = k, &k.PublicKey
		_ = mx.MarshalPKCS1PrivateKey(k)
		_ = mx.MarshalPKCS1PublicKey(&k.PublicKey)
	case ed25519.PrivateKey:
		s, pub = k, k.Public()
	default:
		t.Failf("%s: a %T without an error", what, k)
	}
	csr, err := mx.CreateCertificateRequest(t.sys, &mx.CertificateRequest{Subject: pkix.Name{CommonName: "x"}}, s)
	if err == nil {
		c, err := mx.ParseCertificateRequest(csr)
		t.noErr(what+": request made with the key", err)
		t.noErr(what+": signature made with the key", c.CheckSignature())
	} else if r, ok := k.(*rsa.PrivateKey); !ok || (r.N.BitLen() >= 1024 && len(r.Primes) == 2) { // the standard library does not validate keys of several primes
		t.Failf("%s: request with the key: %v: %s", what, err, hx(der))
	}
	usePub(t, what, pub)
}

// useCert does with a parsed certificate what programs do.
func useCert(t *T, what string, c *mx.Certificate) {
	if c == nil {
		t.Failf("%s: nil certificate without an error", what)
	}
	e := t.env()
	_ = c.CheckSignatureFrom(c)
	_ = c.CheckSignatureFrom(e.cert)
	_ = e.cert.CheckSignatureFrom(c)
	_ = c.CheckSignature(c.SignatureAlgorithm, c.RawTBSCertificate, c.Signature)
	t.Check(c.Equal(c) && !c.Equal(nil), "%s: Equal", what)
	_ = fmt.Sprint(c.Subject, c.Issuer, c.SignatureAlgorithm, c.PublicKeyAlgorithm, c.NotAfter)
	again, err := mx.ParseCertificate(c.Raw)
	t.Check(err == nil && again.Equal(c), "%s: Raw does not parse again: %v", what, err)
	if c.PublicKey != nil && t.Chance(1, 3) {
		usePub(t, what+": its key", c.PublicKey)
	}
	if !t.Chance(1, 4) {
		return
	}
	s := sm2Signer{e.key}
	if der, err := mx.CreateCertificate(t.sys, c, e.cert, &e.key.PublicKey, s); err == nil {
		_, err = mx.ParseCertificate(der)
		t.Eval()
		_ = err
	}
	if der, err := mx.CreateCertificate(t.sys, e.cert, c, &e.key.PublicKey, s); err == nil {
		_, _ = mx.ParseCertificate(der)
	}
	x := *c
	x.KeyUsage |= mx.KeyUsageCRLSign
	_, _ = mx.CreateRevocationList(t.sys, &mx.RevocationList{Number: bi(1), ThisUpdate: c.NotBefore, NextUpdate: c.NotAfter}, &x, s)
	if l, err := c.CreateCRL(t.sys, s, []pkix.RevokedCertificate{{SerialNumber: c.SerialNumber, RevocationTime: c.NotAfter}}, c.NotBefore, c.NotAfter); err == nil {
		if p, err := mx.ParseCRL(l); err == nil {
			_ = c.CheckCRLSignature(p)
		}
	}
	if sd, err := mx.NewSignedData(c, e.key, t.Bytes(9)); err == nil {
		if p, err := mx.ParsePKCS7(sd); err == nil {
			_ = p.Verify()
			_ = p.GetOnlySigner()
		}
	}
}

func useP7(t *T, what string, p *mx.PKCS7) {
	if p == nil {
		t.Failf("%s: nil message without an error", what)
	}
	for n := 0; n < 2; n++ {
		if err := p.Verify(); err != nil {
			_ = err.Error()
		}
	}
	if c := p.GetOnlySigner(); c != nil {
		_ = c.Subject.String()
	}
	var (
		b  []byte
		o  asn1.ObjectIdentifier
		tm time.Time
		rv asn1.RawValue
		s  string
		n  int
	)
	for _, id := range []asn1.ObjectIdentifier{{1, 2, 840, 113549, 1, 9, 3}, {1, 2, 840, 113549, 1, 9, 4}, {1, 2, 840, 113549, 1, 9, 5}, {1, 2, 3}, nil} {
		for _, out := range []any{&b, &o, &tm, &rv, &s, &n} {
			_ = p.UnmarshalSignedAttribute(id, out)
		}
	}
	for i := range p.CRLs {
		_ = p.CRLs[i].HasExpired(time.Unix(1e9, 0))
		_ = t.env().cert.CheckCRLSignature(&p.CRLs[i])
	}
	p.Content = append([]byte(nil), t.Bytes(5)...)
	_ = p.Verify()
	p.Certificates = nil
	_ = p.Verify()
	_ = p.GetOnlySigner()
}

func useP12(t *T, in []byte, pw string, file bool) bool {
	k, cs, err := pkcs12.DecodeAll(in, pw)
	if err == nil {
		t.Check(k != nil && len(cs) > 0, "DecodeAll: %T and %d certificates without an error", k, len(cs))
		for _, c := range cs {
			_ = c.CheckSignatureFrom(cs[0])
		}
		if t.Chance(1, 4) {
			usePriv(t, "key of a PKCS #12 file", k)
		}
	}
	ok := err == nil
	if t.Chance(1, 2) {
		k, c, err := pkcs12.Decode(in, pw)
		t.Check(err != nil || (k != nil && c != nil), "Decode: %T and %v without an error", k, c)
	}
	if t.Chance(1, 2) {
		bl, err := pkcs12.ToPEM(in, pw)
		if err == nil {
			for _, b := range bl {
				_ = pem.EncodeToMemory(b)
			}
		}
	}
	if file {
		e := t.env()
		if e.dir == "" {
			e.dir = tempDir(t)
			t.clean = append(t.clean, func() { os.RemoveAll(e.dir) })
		}
		fn := filepath.Join(e.dir, "f.p12")
		if err := os.WriteFile(fn, in, 0600); err != nil {
			panic(err)
		}
		c, k, err := pkcs12.SM2P12Decrypt(fn, pw)
		t.Check(err != nil || (c != nil && k != nil), "SM2P12Decrypt: %v and %T without an error", c, k)
	}
	return ok
}

func keyDoor(name string, fresh func(t *T) []byte, parse func(in []byte) (any, error), priv bool, big func(t *T, n int) []byte) door {
	return door{name, fresh, func(t *T, in []byte) bool {
		k, err := parse(in)
		if err != nil {
			return false
		}
		if priv {
			usePriv(t, name, k)
		} else {
			usePub(t, name, k)
		}
		return true
	}, big}
}

func many(n int, one []byte) []byte {
	out := make([]byte, 0, n+len(one))
	for len(out) < n {
		out = append(out, one...)
	}
	return out
}

func bigCert(t *T, n int) []byte {
	var ext []byte
	name := nameDER("x")
	switch t.IntN(9) {
	case 0:
		ext = extDER(ref.OID(2, 5, 29, 17), false, ref.TLV(0x30, many(n, ref.TLV(0x82, []byte("a.example")))))
	case 1:
		ext = extDER(ref.OID(2, 5, 29, 30), true, ref.TLV(0x30, ref.TLV(0xa0, many(n, ref.TLV(0x30, ref.TLV(0x82, []byte("a.example")))))))
	case 2:
		ext = extDER(ref.OID(2, 5, 29, 37), false, ref.TLV(0x30, many(n, ref.OID(1, 2, 3, 4))))
	case 3:
		ext = extDER(ref.OID(2, 5, 29, 32), false, ref.TLV(0x30, many(n, ref.TLV(0x30, ref.OID(1, 2, 3, 4)))))
	case 4:
		ext = extDER(ref.OID(2, 5, 29, 31), false, ref.TLV(0x30, many(n, ref.TLV(0x30, ref.TLV(0xa0, ref.TLV(0xa0, ref.TLV(0x86, []byte("http://x"))))))))
	case 5: // many extensions
		for i := 0; len(ext) < n; i++ {
			ext = append(ext, extDER(ref.OID(1, 2, 3, i), t.Chance(1, 2), []byte{1})...)
		}
	case 6: // a long name
		name = ref.TLV(0x30, many(n, ref.TLV(0x31, ref.TLV(0x30, ref.OID(2, 5, 4, 11), ref.TLV(12, []byte("u"))))))
	case 7: // one set of many
		name = ref.TLV(0x30, ref.TLV(0x31, many(n, ref.TLV(0x30, ref.OID(2, 5, 4, 11), ref.TLV(12, []byte("u"))))))
	case 8:
		ext = extDER(ref.OID(1, 2, 3), false, t.Bytes(n))
	}
	e := t.env()
	c := certSpec{serial: bi(1), issuer: name, subject: name, spki: pkixSM2(refPub(&e.key.PublicKey)), alg: oidSM2WithSM3, sign: func(tbs []byte) []byte { return t.Bytes(70) }}
	if ext != nil {
		c.exts = [][]byte{ext}
	}
	return c.der()
}

var doors = []door{
	{"sm2.Decryt", func(t *T) []byte {
		ct, err := sm2.Encryt(t.sys, &t.env().key.PublicKey, t.Bytes(t.IntN(100)))
		t.noErr("Encryt", err)
		return ct
	}, func(t *T, in []byte) bool {
		_, err := sm2.Decryt(t.env().key, in)
		return err == nil
	}, func(t *T, n int) []byte {
		ct, err := sm2.Encryt(t.sys, &t.env().key.PublicKey, t.Bytes(n))
		t.noErr("Encryt", err)
		if t.Chance(1, 2) {
			ct[len(ct)-1] ^= 1
		}
		return ct
	}},
	{"sm2 signature", func(t *T) []byte { return ref.MarshalSig(t.Big(one, nm1), pick(t.Rng, t.Big(one, nm1), edgeRS(t.Rng))) },
		func(t *T, in []byte) bool {
			k := &t.env().key.PublicKey
			ok := sm2.Verify(k, in, nil, in)
			ok = sm2.VerifyDigest(k, in, in) || ok
			ok = k.Verify([]byte("m"), in, in) || ok
			r, s, err := sm2.UnmarshalSign(in)
			if err == nil {
				_ = sm2.VerifyRS(k, in, nil, r, s)
				_ = k.VerifyDigestRS(in, r, s)
				_, err = sm2.MarshalSign(r, s)
				t.noErr("MarshalSign of what UnmarshalSign gave", err)
			}
			return err == nil
		}, func(t *T, n int) []byte {
			return ref.TLV(0x30, ref.Int(t.Big(one, new(big.Int).Lsh(one, uint(4*n)))), ref.Int(t.Big(one, new(big.Int).Lsh(one, uint(4*n)))))
		}},
	{"sm2 user id and message", func(t *T) []byte { return t.Bytes(t.Len(400)) }, func(t *T, in []byte) bool {
		k := t.env().key
		_ = k.PublicKey.Verify(in, in, []byte{1})
		_, err := k.PublicKey.SM3Digest(in, in)
		if err == nil {
			sig, err := k.Sign(t.sys, in, in)
			t.noErr("Sign", err)
			t.Check(k.PublicKey.Verify(in, in, sig), "own signature over %d bytes with such an id does not verify", len(in))
		}
		dig, err2 := k.SignDigest(t.sys, in)
		if err2 == nil {
			_ = k.PublicKey.VerifyDigest(in, dig)
		}
		return err == nil
	}, func(t *T, n int) []byte { return t.Bytes(n) }},
	{"ParseCertificate", func(t *T) []byte {
		switch t.IntN(3) {
		case 0:
			return handCert(t.Rng)
		case 1:
			tm := genTemplate(t.Rng, true)
			k := genKey(t.Rng, pick(t.Rng, "SM2", "P256", "Ed25519"))
			der, err := mx.CreateCertificate(t.sys, tm, tm, k.pub, k.signer)
			t.noErr("CreateCertificate", err)
			return der
		}
		return certFor(t.Rng, anyKey(t.Rng), t.IntN(40))
	}, func(t *T, in []byte) bool {
		c, err := mx.ParseCertificate(in)
		if err == nil {
			useCert(t, "certificate", c)
		}
		return err == nil
	}, bigCert},
	{"ParseCertificates", func(t *T) []byte {
		var b []byte
		for n := t.IntN(4); n > 0; n-- {
			b = append(b, certFor(t.Rng, genKey(t.Rng, pick(t.Rng, "SM2", "Ed25519")), t.IntN(40))...)
		}
		return append(b, handCert(t.Rng)...)
	}, func(t *T, in []byte) bool {
		cs, err := mx.ParseCertificates(in)
		if err == nil && len(cs) > 0 {
			useCert(t, "certificate in a list", cs[t.IntN(len(cs))])
		}
		return err == nil
	}, func(t *T, n int) []byte { return many(n, certFor(t.Rng, genKey(t.Rng, "Ed25519"), 1)) }},
	{"ParseCertificateRequest", func(t *T) []byte {
		k := genKey(t.Rng, pick(t.Rng, "SM2", "SM2", "P256", "Ed25519", "RSA small", "P521"))
		if t.Chance(1, 2) {
			return signed3(handCSR(t.Rng, k), pick(t.Rng, algs...).id(), t.Bytes(70))
		}
		der, err := mx.CreateCertificateRequest(t.sys, genRequest(t.Rng), k.signer)
		t.noErr("CreateCertificateRequest", err)
		return der
	}, func(t *T, in []byte) bool {
		c, err := mx.ParseCertificateRequest(in)
		if err != nil {
			return false
		}
		_ = c.CheckSignature()
		_ = fmt.Sprint(c.Subject, c.Attributes)
		if c.PublicKey != nil && t.Chance(1, 3) {
			usePub(t, "key of a request", c.PublicKey)
		}
		if t.Chance(1, 3) {
			c.SignatureAlgorithm = 0
			_, _ = mx.CreateCertificateRequest(t.sys, c, sm2Signer{t.env().key})
		}
		return true
	}, func(t *T, n int) []byte {
		k := wrapSM2(t.env().key)
		at := many(n, ref.TLV(0x30, ref.OID(1, 2, 840, 113549, 1, 9, 14), ref.TLV(0x31, ref.TLV(0x30, extDER(ref.OID(2, 5, 29, 17), false, ref.TLV(0x30, ref.TLV(0x82, []byte("a"))))))))
		return signed3(ref.TLV(0x30, ref.Int(bi(0)), nameDER("x"), k.pubDER(), ref.TLV(0xa0, at)), algs[0].id(), t.Bytes(70))
	}},
	{"ParseCRL", func(t *T) []byte {
		a := pick(t.Rng, algs...).id()
		der := signed3(handCRL(t.Rng, a), a, t.Bytes(70))
		if t.Chance(1, 3) {
			var err error
			der, err = (&mx.Certificate{Subject: genPKIXName(t.Rng), SubjectKeyId: t.Bytes(4)}).CreateCRL(t.sys, sm2Signer{t.env().key}, genEntries(t.Rng), genTime(t.Rng), genTime(t.Rng))
			t.noErr("CreateCRL", err)
		}
		if t.Chance(1, 4) {
			return pem.EncodeToMemory(&pem.Block{Type: "X509 CRL", Bytes: der})
		}
		return der
	}, func(t *T, in []byte) bool {
		_, _ = mx.ParseDERCRL(in)
		l, err := mx.ParseCRL(in)
		if err != nil {
			return false
		}
		_ = l.HasExpired(time.Unix(1e9, 0))
		_ = t.env().cert.CheckCRLSignature(l)
		_ = fmt.Sprint(l.TBSCertList.Issuer)
		return true
	}, func(t *T, n int) []byte {
		now := utcTime(time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC))
		a := algs[0].id()
		der := signed3(ref.TLV(0x30, ref.Int(bi(1)), a, nameDER("issuer"), now, now, ref.TLV(0x30, many(n, ref.TLV(0x30, ref.Int(bi(77)), now)))), a, t.Bytes(70))
		if t.Chance(1, 2) {
			return pem.EncodeToMemory(&pem.Block{Type: "X509 CRL", Bytes: der})
		}
		return der
	}},
	{"ParsePKCS7", func(t *T) []byte {
		s, _ := genSD(t, 2)
		return s.der()
	}, func(t *T, in []byte) bool {
		p, err := mx.ParsePKCS7(in)
		if err == nil {
			useP7(t, "message", p)
		}
		return err == nil
	}, func(t *T, n int) []byte {
		s, _ := genSD(t, 1)
		switch t.IntN(4) {
		case 0:
			s.content = t.Bytes(n)
		case 1:
			g := &s.signers[0]
			for len(g.attrs)*30 < n {
				g.attrs = append(g.attrs, attr(ref.OID(1, 2, 3, 4), ref.TLV(4, []byte{byte(len(g.attrs))})))
			}
		case 2:
			c := s.certs[0]
			for m := 0; m < n; m += len(c) {
				s.certs = append(s.certs, c)
			}
		case 3: // the first signer's signature is false: no work for the others is called for
			g := s.signers[0]
			g.sig = []byte{1}
			for m := 0; m < n; m += 300 {
				s.signers = append([]sdSigner{g}, s.signers...)
			}
		}
		return s.der()
	}},
	keyDoor("ParsePKIXPublicKey", func(t *T) []byte { return anyKey(t.Rng).pubDER() }, func(in []byte) (any, error) { return mx.ParsePKIXPublicKey(in) }, false, bigKey),
	keyDoor("ParsePKCS8PrivateKey", func(t *T) []byte { return keyDER8(anyKey(t.Rng)) }, mx.ParsePKCS8PrivateKey, true, bigKey),
	keyDoor("ParseECPrivateKey", func(t *T) []byte {
		k := genKey(t.Rng, pick(t.Rng, "SM2", "SM2", "P224", "P256", "P384", "P521"))
		if s, ok := k.priv.(*sm2.PrivateKey); ok {
			return sec1SM2(s.D, refPub(&s.PublicKey), t.Chance(1, 2), t.Chance(1, 2))
		}
		der, err := mx.MarshalECPrivateKey(k.priv.(*ecdsa.PrivateKey))
		t.noErr("MarshalECPrivateKey", err)
		return der
	}, mx.ParseECPrivateKey, true, bigKey),
	keyDoor("ParsePKCS1PrivateKey", func(t *T) []byte { return mx.MarshalPKCS1PrivateKey(rsaKey(t.IntN(len(rsaDER)))) },
		func(in []byte) (any, error) { return mx.ParsePKCS1PrivateKey(in) }, true, bigKey),
	keyDoor("ParsePKCS1PublicKey", func(t *T) []byte { return mx.MarshalPKCS1PublicKey(&rsaKey(t.IntN(len(rsaDER))).PublicKey) },
		func(in []byte) (any, error) { return mx.ParsePKCS1PublicKey(in) }, false, bigKey),
	{"pkcs12", func(t *T) []byte {
		var f []byte
		f, t.env().pw = anyP12(t)
		return f
	}, func(t *T, in []byte) bool {
		if hugeIter(in) {
			return false
		}
		pw := t.env().pw
		if t.Chance(1, 6) {
			pw = pick(t.Rng, "", "x", "\xff", "\U0001F512", otherPassword(t.Rng, pw))
		}
		return useP12(t, in, pw, t.Chance(1, 6))
	}, func(t *T, n int) []byte {
		k, certs, pw := genP12(t, "SM2")
		t.env().pw = pw
		for m := 0; m < n; m += len(certs[0]) {
			certs = append(certs, certs[0])
		}
		f, _ := refSpec(t, k, certs, bmp(pw), true)
		return ref.EncodePFX(f, bmp(pw))
	}},
	{"pkcs12 contents", func(t *T) []byte { // the content info sequence: entering it adds a valid MAC
		k, certs, pw := genP12(t, "SM2", "P256")
		t.env().pw = pw
		f, _ := refSpec(t, k, certs, bmp(pw), true)
		as, _, _ := splitPFX(t, ref.EncodePFX(f, bmp(pw)))
		return as
	}, func(t *T, in []byte) bool {
		if hugeIter(in) {
			return false
		}
		bp := bmp(t.env().pw)
		return useP12(t, ref.WrapAuthSafe(in, ref.PFX{MacSalt: []byte("salt"), MacIter: 1}, bp), t.env().pw, false)
	}, nil},
	{"pkcs12 bags", func(t *T) []byte { // the bags of one content: entering it wraps them, in the clear or encrypted
		k, certs, pw := genP12(t, "SM2", "P256")
		t.env().pw = pw
		f, _ := refSpec(t, k, certs, bmp(pw), true)
		var bags [][]byte
		for _, s := range f.Safes {
			for _, b := range s.Bags {
				b.Iter = 1 + t.IntN(2)
				bags = append(bags, ref.EncodeBag(b, bmp(pw)))
			}
		}
		return ref.TLV(0x30, bags...)
	}, func(t *T, in []byte) bool {
		if hugeIter(in) {
			return false
		}
		bp := bmp(t.env().pw)
		content := ref.TLV(0x30, ref.OIDData, ref.TLV(0xa0, ref.TLV(4, in)))
		if t.Chance(1, 3) {
			content = ref.EncryptedContent(in, pick(t.Rng, ref.OID3DES, ref.OIDRC240), []byte("saltsalt"), 1, bp)
		}
		var other []byte
		if t.Chance(1, 4) {
			other = content
		} else {
			other = ref.TLV(0x30, ref.OIDData, ref.TLV(0xa0, ref.TLV(4, []byte{0x30, 0})))
		}
		return useP12(t, ref.WrapAuthSafe(ref.TLV(0x30, content, other), ref.PFX{MacSalt: []byte("salt"), MacIter: 1}, bp), t.env().pw, t.Chance(1, 10))
	}, nil},
	{"pkcs12 key", func(t *T) []byte { // the private key structure: entering it encrypts it into a file
		t.env().pw = genPassword(t.Rng)
		return keyDER8(anyKey(t.Rng))
	}, func(t *T, in []byte) bool {
		bp := bmp(t.env().pw)
		f := ref.PFX{MacSalt: []byte("salt"), MacIter: 1, Safes: []ref.Safe{{}, {Bags: []ref.Bag{
			{Key: true, Data: in, Salt: []byte("saltsalt"), Iter: 1, PBE: pick(t.Rng, ref.OID3DES, ref.OIDRC240)}, {Data: t.env().cert.Raw}}}}}
		return useP12(t, ref.EncodePFX(f, bp), t.env().pw, t.Chance(1, 10))
	}, nil},
}

// bigKey is some key structure with very long numbers.
func bigKey(t *T, n int) []byte {
	x := ref.TLV(2, []byte{0x7f}, t.Bytes(n))
	short := ref.Int(bi(65537))
	rsaPub := ref.TLV(0x30, x, short)
	rsaOID := ref.TLV(0x30, ref.OID(1, 2, 840, 113549, 1, 1, 1), derNull)
	switch t.IntN(6) {
	case 0:
		return rsaPub
	case 1:
		return spki(rsaOID, rsaPub)
	case 2:
		return ref.TLV(0x30, ref.Int(bi(0)), x, short, short, short, short, short, short, short)
	case 3:
		return ref.TLV(0x30, ref.Int(bi(0)), rsaOID, ref.TLV(4, ref.TLV(0x30, ref.Int(bi(0)), x, short, short, short, short, short, short, short)))
	case 4:
		return ref.TLV(0x30, ref.Int(bi(1)), ref.TLV(4, t.Bytes(n)), ref.TLV(0xa0, oidSM2))
	}
	return spki(ref.TLV(0x30, oidECPub, oidSM2), cat([]byte{4}, t.Bytes(n)))
}

func init() {
	register(&Prop{
		ID: "C20",
		Rule: "seventeen doors (every parser, verifier, decrypter and decoder, followed by the methods a program calls on the result: verifying, using and encoding keys, issuing from parsed certificates): structure-aware mutants of fresh well-formed messages (also behind a valid PKCS #12 MAC), " +
			"every input of up to two bytes, false lengths at every element, deep nesting, random element trees; serial runs meter memory and CPU over messages of up to 256 KiB. A panic, a fatal error, a runaway case, memory or time beyond the budget is a violation, and so is a parsed key that cannot be used or encoded. Distinct inputs",
		Groups: []Group{
			{Name: "storm", N: [2]int{3300, 400000}, Fn: c20Storm},
			{Name: "short", N: [2]int{257, 257}, Fn: c20Short},
			{Name: "lengths", N: [2]int{600, 20000}, Fn: c20Lengths},
			{Name: "trees", N: [2]int{1500, 200000}, Fn: c20Trees},
			{Name: "elements", N: [2]int{204, 20000}, Fn: c20Elements},
			{Name: "names", N: [2]int{300, 20000}, Fn: c20Names},
			{Name: "memory", N: [2]int{180, 4000}, Fn: c20Memory, Serial: true},
			{Name: "large", N: [2]int{90, 900}, Fn: c20Large, Serial: true},
			{Name: "growth", N: [2]int{136, 4000}, Fn: c20Growth, Serial: true},
		},
	})
}

// enter passes bytes through a door under guard.
func (t *T) enter(d door, how string, in []byte) (ok bool) {
	defer func() {
		if e := recover(); e != nil {
			if a, is := e.(abort); is {
				panic(a)
			}
			t.Logf("in %s, %s: %s", d.name, how, hx(in))
			panic(fmt.Sprintf("%s, %s: %s: %v", d.name, how, hx(in), e))
		}
	}()
	ok = d.enter(t, in)
	t.Eval()
	if ok {
		t.Cover(d.name + ": accepted")
	} else {
		t.Cover(d.name + ": refused")
	}
	return
}

func c20Storm(t *T, i int) {
	d := doors[i%len(doors)]
	seed := d.fresh(t)
	var donor []byte
	if t.Chance(1, 2) {
		donor = seed
		if t.Chance(1, 2) {
			donor = pick(t.Rng, doors...).fresh(t)
			if d.name == "pkcs12" || d.name == "pkcs12 contents" {
				seed = d.fresh(t) // the password belongs to the last file made
			}
		}
	}
	if t.Chance(1, 10) {
		t.enter(d, "unchanged", clone(seed))
	}
	for n := 8; n > 0; n-- {
		in, how := mutate(t.Rng, seed, donor)
		for t.Chance(1, 4) {
			var h string
			in, h = mutate(t.Rng, in, donor)
			how += " then " + h
		}
		t.enter(d, how, in)
		t.Key("%s %x", d.name, sha1sum(in))
	}
}

// c20Short: every input of at most two bytes, and empty ones.
func c20Short(t *T, i int) {
	for _, d := range doors {
		if i == 256 {
			t.enter(d, "nil", nil)
			t.enter(d, "empty", []byte{})
			continue
		}
		t.enter(d, "short", []byte{byte(i)})
		if d.name == "sm2 user id and message" || (d.name[:3] == "pkc" && i%8 != 0) {
			continue
		}
		for j := 0; j < 256; j++ {
			t.enter(d, "short", []byte{byte(i), byte(j)})
		}
	}
	t.Key("short %d", i)
}

// falseLengths returns the places of the length octets in der.
func lengthPlaces(der []byte, base int, out []int) []int {
	for len(der) > 0 {
		_, c, rest, ok := ref.ReadTLV(der)
		if !ok {
			return out
		}
		out = append(out, base+1)
		h := len(der) - len(rest) - len(c)
		if der[0]&0x20 != 0 || (der[0] == 4 && len(c) > 2 && c[0] == 0x30) {
			out = lengthPlaces(c, base+h, out)
		}
		base += len(der) - len(rest)
		der = rest
	}
	return out
}

func c20Lengths(t *T, i int) {
	d := doors[i%len(doors)]
	seed := d.fresh(t)
	places := lengthPlaces(seed, 0, nil)
	if len(places) == 0 {
		return
	}
	for n := 25; n > 0; n-- {
		at := pick(t.Rng, places...)
		lie := pick(t.Rng, []byte{0x80}, []byte{0x84, 0xff, 0xff, 0xff, 0xff}, []byte{0x84, 0x7f, 0xff, 0xff, 0xff}, []byte{0x88, 0x7f, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff}, []byte{0x88, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff, 0xff},
			[]byte{0xff}, []byte{0x83, 0xff, 0xff, 0xff}, []byte{0x82, 0xff, 0xff}, []byte{0x81, 0xff}, []byte{0}, []byte{1}, []byte{0x7f}, []byte{0x85, 1, 0, 0, 0, 0}, []byte{0x84, 0, 0, 0, 5}, []byte{0x81, 5}, []byte{seed[at] + 1}, []byte{seed[at] - 1})
		in := cat(seed[:at], lie, seed[at+1:])
		if t.Chance(1, 3) {
			in = cat(seed[:at], lie)
		}
		t.enter(d, fmt.Sprintf("length at %d replaced by %x", at, lie), in)
		t.Key("%s %x", d.name, sha1sum(in))
	}
}

// c20Elements: every element of a well-formed message replaced by each of a list of extreme ones, one at a time.
func c20Elements(t *T, i int) {
	d := doors[i%len(doors)]
	seed := d.fresh(t)
	ns, ok := parseNodes(seed, 0)
	if !ok {
		return
	}
	type job struct {
		n *node
		k int
	}
	var jobs []job
	for _, s := range allSlots(&ns, nil) {
		n := (*s.list)[s.i]
		for k := n.sweepOps() - 1; k >= 0; k-- {
			jobs = append(jobs, job{n, k})
		}
	}
	t.Rng.Shuffle(len(jobs), func(a, b int) { jobs[a], jobs[b] = jobs[b], jobs[a] })
	for _, j := range jobs[:min(len(jobs), 600)] {
		j.n.as, j.n.over = sweepElement(j.k, j.n.tag, j.n.content()), true
		in := nodesBytes(ns)
		j.n.over = false
		t.enter(d, fmt.Sprintf("element %02x, change %d", j.n.tag, j.k), in)
		t.Key("%s %x", d.name, sha1sum(in))
	}
	t.Cover("elements swept: " + d.name)
}

// namePlaces are the places of certificates and requests that hold general names, and strings.
var namePlaces = []func(tag byte, text []byte) []byte{
	func(tag byte, s []byte) []byte {
		return extDER(ref.OID(2, 5, 29, 17), false, ref.TLV(0x30, ref.TLV(tag, s)))
	},
	func(tag byte, s []byte) []byte {
		return extDER(ref.OID(2, 5, 29, 30), true, ref.TLV(0x30, ref.TLV(0xa0, ref.TLV(0x30, ref.TLV(tag, s)))))
	},
	func(tag byte, s []byte) []byte {
		return extDER(ref.OID(2, 5, 29, 30), true, ref.TLV(0x30, ref.TLV(0xa1, ref.TLV(0x30, ref.TLV(0x82, []byte("x")), ref.TLV(0x30, ref.TLV(tag, s))))))
	},
	func(tag byte, s []byte) []byte {
		return extDER(ref.OID(2, 5, 29, 30), true, ref.TLV(0x30, ref.TLV(0xa1, ref.TLV(0x30, ref.TLV(tag, s)))))
	},
	func(tag byte, s []byte) []byte {
		return extDER(ref.OID(2, 5, 29, 31), false, ref.TLV(0x30, ref.TLV(0x30, ref.TLV(0xa0, ref.TLV(0xa0, ref.TLV(tag, s))))))
	},
	func(tag byte, s []byte) []byte {
		return extDER(ref.OID(1, 3, 6, 1, 5, 5, 7, 1, 1), false, ref.TLV(0x30, ref.TLV(0x30, ref.OID(1, 3, 6, 1, 5, 5, 7, 48, 1), ref.TLV(tag, s))))
	},
	func(tag byte, s []byte) []byte {
		return extDER(ref.OID(1, 3, 6, 1, 5, 5, 7, 1, 1), false, ref.TLV(0x30, ref.TLV(0x30, ref.OID(1, 3, 6, 1, 5, 5, 7, 48, 2), ref.TLV(tag, s))))
	},
}

// c20Names: texts with odd grammar in every place that holds a name.
func c20Names(t *T, i int) {
	e := t.env()
	cert, req := doors[3], doors[5]
	if cert.name != "ParseCertificate" || req.name != "ParseCertificateRequest" {
		panic("doors moved")
	}
	full := cert
	// mostly parsing only: using what was parsed takes a hundred times longer
	light := door{name: full.name, enter: func(t *T, in []byte) bool {
		c, err := mx.ParseCertificate(in)
		return err == nil && c.CheckSignature(c.SignatureAlgorithm, c.RawTBSCertificate, c.Signature) == nil
	}}
	one := func(s string) {
		for _, tag := range []byte{0x81, 0x82, 0x86, 0x87} {
			for p, place := range namePlaces {
				x := place(tag, []byte(s))
				c := certSpec{serial: bi(1), issuer: nameDER("x"), subject: nameDER("x"), spki: pkixSM2(refPub(&e.key.PublicKey)), alg: oidSM2WithSM3, exts: [][]byte{x}, sign: func(tbs []byte) []byte { return t.Bytes(70) }}
				cert = light
				if t.Chance(1, 12) {
					cert = full
				}
				t.enter(cert, fmt.Sprintf("name %q, tag %02x, place %d", s, tag, p), c.der())
				if p == 0 {
					at := ref.TLV(0x30, ref.OID(1, 2, 840, 113549, 1, 9, 14), ref.TLV(0x31, ref.TLV(0x30, x)))
					t.enter(req, fmt.Sprintf("name %q, tag %02x", s, tag), signed3(ref.TLV(0x30, ref.Int(bi(0)), nameDER("x"), pkixSM2(refPub(&e.key.PublicKey)), ref.TLV(0xa0, at)), algs[0].id(), t.Bytes(70)))
				}
			}
		}
		t.Key("name %q", s)
	}
	if i < len(oddText) {
		one(oddText[i])
		t.Cover("names: listed")
		return
	}
	for n := 4; n > 0; n-- {
		one(randomText(t.Rng))
	}
	t.Cover("names: random")
}

// tree makes a random tree of elements, from identifiers the parsers look for.
func tree(r *Rng, depth int) []byte {
	if depth == 0 || r.Chance(1, 3) {
		switch r.IntN(7) {
		case 0:
			return ref.Int(pick(r, bi(0), bi(1), bi(3), bi(-1), r.Big(one, ref.N)))
		case 1:
			return pick(r, oidSM2, oidECPub, oidSM2WithSM3, oidSM3Hash, oidAttrDigest, ref.OIDData, ref.OIDEncData, ref.OIDKeyBag, ref.OIDCertBag, ref.OIDX509Cert, ref.OID3DES, ref.OIDRC240, ref.OID(2, 5, 29, 17), ref.OID(1, 2, 156, 10197, 6, 1, 4, 2, 2))
		case 2:
			return ref.TLV(4, r.Bytes(r.IntN(40)))
		case 3:
			return ref.TLV(3, []byte{byte(r.IntN(9))}, r.Bytes(r.IntN(40)))
		case 4:
			return pick(r, derNull, []byte{1, 1, 0xff}, utcTime(time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC)), ref.TLV(12, []byte("x")), ref.TLV(19, []byte("y")))
		case 5:
			return ref.TLV(byte(0x80+r.IntN(6)), r.Bytes(r.IntN(10)))
		}
		return ref.TLV(byte(r.IntN(256)&^0x1f|r.IntN(31)), r.Bytes(r.IntN(10)))
	}
	var kids [][]byte
	for n := r.IntN(6); n > 0; n-- {
		kids = append(kids, tree(r, depth-1))
	}
	return ref.TLV(pick(r, byte(0x30), 0x30, 0x30, 0x31, 0xa0, 0xa1, 0xa3, 4, 0x24), kids...)
}

func c20Trees(t *T, i int) {
	in := tree(t.Rng, 2+t.IntN(7))
	if i%50 == 0 { // deep nesting
		tag := pick(t.Rng, byte(0x30), 0xa0, 0x31, 4, 0x24, 3)
		in = []byte{5, 0}
		for n := 200 + t.IntN(3000); n > 0; n-- {
			if tag == 3 {
				in = ref.TLV(3, []byte{0}, in)
			} else {
				in = ref.TLV(tag, in)
			}
		}
		t.Cover("deep nesting")
	}
	if len(in) > 100000 {
		return
	}
	t.env()
	for _, d := range doors {
		t.enter(d, "element tree", clone(in))
	}
	t.Key("%x", sha1sum(in))
}

// ---- meters

// metered runs f alone and returns the bytes it allocated and the CPU seconds of its thread.
func metered(f func()) (bytes uint64, cpu float64) {
	runtime.LockOSThread()
	defer runtime.UnlockOSThread()
	var a, b runtime.MemStats
	var u, v syscall.Rusage
	runtime.ReadMemStats(&a)
	syscall.Getrusage(1, &u) // RUSAGE_THREAD
	f()
	syscall.Getrusage(1, &v)
	runtime.ReadMemStats(&b)
	s := func(r syscall.Rusage) float64 {
		return float64(r.Utime.Sec+r.Stime.Sec) + float64(r.Utime.Usec+r.Stime.Usec)/1e6
	}
	return b.TotalAlloc - a.TotalAlloc, s(v) - s(u)
}

// budget is far above what any door needs (the most seen is about a tenth), and far below what a false length would take.
func (t *T) budget(d door, how string, in []byte) {
	var ok bool
	mem, cpu := metered(func() { ok = t.enter(d, how, in) })
	n := uint64(len(in))
	t.Check(mem < 256<<20+20000*n, "%s, %s, %d bytes: allocated %d bytes (accepted %v): %s", d.name, how, n, mem, ok, hx(in))
	t.Check(cpu < 10+1e-4*float64(n), "%s, %s, %d bytes: took %.1f s (accepted %v): %s", d.name, how, n, cpu, ok, hx(in))
	top := "up to 1 MB"
	for m, s := range map[uint64]string{1: "1", 4: "4", 16: "16", 64: "64"} {
		_ = s
		if mem > m<<20 && mem <= m<<22 {
			top = fmt.Sprintf("up to %d MB", m*4)
		}
	}
	t.Cover("memory " + top)
	if os.Getenv("MON_METER") != "" && (mem > 64<<20 || cpu > 1) {
		fmt.Fprintf(os.Stderr, "%s %s n=%d mem=%d cpu=%.2f\n", d.name, how, n, mem, cpu)
	}
}

// varied is a copy of an element with its first identifier, number or text changed, so that it differs from its siblings.
func varied(n *node, k int) []byte {
	m := n.clone()
	var change func(m *node) bool
	change = func(m *node) bool {
		if m.open {
			for _, c := range m.kids {
				if change(c) {
					return true
				}
			}
			return false
		}
		switch {
		case m.tag == 6:
			m.prim = cat(m.prim, []byte{0x81, 0x80 | byte(k>>7&127), byte(k & 127)})
		case m.tag == 2 || m.tag == 4 || m.tag == 0x87:
			m.prim = cat(m.prim, []byte{byte(k >> 8), byte(k)})
		case m.tag == 12 || m.tag == 19 || m.tag == 22 || m.tag&0xe0 == 0x80:
			m.prim = cat(m.prim, []byte(fmt.Sprint(k)))
		default:
			return false
		}
		return true
	}
	change(m)
	return m.bytes()
}

// grows enters a message of some size and one four times as large, built and used alike.
func (t *T) grows(d door, how string, build func(size int) []byte, size int) {
	rng, sys := t.Rng, t.sys
	defer func() { t.Rng, t.sys = rng, sys }()
	var mem [2]uint64
	var cpu [2]float64
	var n [2]int
	var ok bool
	for j := range mem {
		// the same decisions for both
		t.Rng, t.sys = newRng("growth", t.i, how), newRng("system", t.i, how)
		in := build(size << (2 * j))
		n[j] = len(in)
		mem[j], cpu[j] = metered(func() { ok = t.enter(d, how, in) })
	}
	// Linear is 4 times, quadratic 16 times as much.
	t.Check(mem[1] < 24<<20+8*mem[0], "%s, %s: %d bytes allocated %d bytes, %d bytes allocated %d", d.name, how, n[0], mem[0], n[1], mem[1])
	t.Check(cpu[1] < 2+9*cpu[0], "%s, %s: %d bytes took %.2f s, %d bytes took %.2f s", d.name, how, n[0], cpu[0], n[1], cpu[1])
	if ok {
		t.Cover("growth: " + d.name + " accepted")
	} else {
		t.Cover("growth: " + d.name + " refused")
	}
	if os.Getenv("MON_METER") != "" && (mem[1] > 32<<20 || cpu[1] > .3) {
		fmt.Fprintf(os.Stderr, "%s %s n=%d,%d mem=%d,%d cpu=%.2f,%.2f %v\n", d.name, how, n[0], n[1], mem[0], mem[1], cpu[0], cpu[1], ok)
	}
}

// c20Growth: one element of a message many times, and four times as many times.
func c20Growth(t *T, i int) {
	d := doors[i%len(doors)]
	if d.big != nil && i%len(doors) < 8 || d.name == "pkcs12" {
		t.grows(d, "large", func(n int) []byte { return d.big(t, n) }, 1<<14)
		t.Key("%s growth %d", d.name, i)
	}
	seed := d.fresh(t)
	ns, ok := parseNodes(seed, 0)
	if !ok {
		return
	}
	for c := 9; c > 0; c-- {
		sl := allSlots(&ns, nil)
		if len(sl) == 0 {
			return
		}
		s := sl[t.IntN(len(sl))]
		was := (*s.list)[s.i]
		one := was.bytes()
		if len(one) > 3000 {
			continue
		}
		vary := t.Chance(1, 2)
		how := fmt.Sprintf("element %x many times", one[:min(len(one), 12)])
		if vary {
			how = "varied " + how
		}
		t.grows(d, how, func(n int) []byte {
			var b []byte
			for k := 0; len(b) < n; k++ {
				if vary {
					b = append(b, varied(was, k)...)
				} else {
					b = append(b, one...)
				}
			}
			(*s.list)[s.i] = &node{over: true, as: b}
			out := nodesBytes(ns)
			(*s.list)[s.i] = was
			return out
		}, pick(t.Rng, 1<<12, 1<<14, 1<<15))
		t.Key("%s growth %x %v", d.name, sha1sum(one), vary)
	}
}

func c20Memory(t *T, i int) {
	d := doors[i%len(doors)]
	seed := d.fresh(t)
	places := lengthPlaces(seed, 0, nil)
	for n := 6; n > 0; n-- {
		in, how := mutate(t.Rng, seed, nil)
		if len(places) > 0 && n%2 == 0 {
			at := pick(t.Rng, places...)
			l := t.Bytes(4)
			l[0] &= 0x7f
			how = "false length"
			in = cat(seed[:at], []byte{0x84}, l, seed[at+1:])
		}
		t.budget(d, how, in)
		t.Key("%s %x", d.name, sha1sum(in))
	}
}

func c20Large(t *T, i int) {
	d := doors[i%len(doors)]
	if d.big == nil {
		return
	}
	n := 1 << (10 + t.IntN(9))
	if d.name[:2] == "Pa" && d.big != nil && i >= 0 {
		switch d.name {
		case "ParsePKIXPublicKey", "ParsePKCS8PrivateKey", "ParseECPrivateKey", "ParsePKCS1PrivateKey", "ParsePKCS1PublicKey":
			n = 1 << (10 + t.IntN(4)) // arithmetic on such numbers is not linear
		}
	}
	if d.name == "pkcs12" {
		n = min(n, 1<<16)
	}
	in := d.big(t, n)
	t.budget(d, "large", in)
	t.Key("%s large %x", d.name, sha1sum(in))
	t.Cover("large: " + d.name)
}
