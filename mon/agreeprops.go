package main

import (
	"bytes"
	"crypto"
	"crypto/ecdsa"
	"crypto/rsa"
	stdx "crypto/x509"
	"encoding/asn1"
	"encoding/pem"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"time"

	"mon/ref"

	"github.com/mmdet/mcrypto/pkcs12"
	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/sm3"
	mx "github.com/mmdet/mcrypto/x509"
)

func init() {
	register(&Prop{
		ID:   "C31",
		Rule: "inputs that are genuine, altered, cut, extended or made up, handed to every entry point of the same operation: verdicts and results must agree. Signing and encryption with equal random streams. Non-trivial: a distinct input on which two or more entry points were compared",
		Groups: []Group{
			{Name: "verification", N: [2]int{600, 40000}, Fn: c31Verify},
			{Name: "signing", N: [2]int{250, 20000}, Fn: c31Sign},
			{Name: "digests", N: [2]int{2000, 60000}, Fn: c31Digest},
			{Name: "certificates", N: [2]int{3000, 200000}, Fn: c31Certs},
			{Name: "lists", N: [2]int{2500, 100000}, Fn: c31Lists},
			{Name: "wrapped keys", N: [2]int{4000, 150000}, Fn: c31Keys},
			{Name: "subject keys", N: [2]int{3000, 100000}, Fn: c31SubjectKeys},
			{Name: "files", N: [2]int{2000, 100000}, Fn: c31Files},
			{Name: "signature checks", N: [2]int{2000, 80000}, Fn: c31Checks},
			{Name: "messages", N: [2]int{700, 30000}, Fn: c31Messages},
		},
	})
}

// sameErr: both succeed or both fail.
func sameErr(a, b error) bool { return (a == nil) == (b == nil) }

func c31Verify(t *T, i int) {
	d, _ := genD(t.Rng)
	p := ref.BaseMul(d)
	pub := sm2Pub(p)
	msg, uid := t.Bytes(t.Len(200)), t.Bytes(pick(t.Rng, 0, 0, 1, 16, 20, 8191, 8192, t.IntN(50)))
	dig, derr := pub.SM3Digest(msg, uid)
	if derr == nil && len(uid) == 0 {
		t.mustEq("SM3Digest without an id and with the default one", dig, must(ref.MsgDigest(p.X, p.Y, msg, nil)))
	}
	var sig []byte
	how := "genuine"
	if derr == nil {
		sig = refSignDigest(t.Rng, d, dig)
	} else {
		sig = refSign(t.Rng, d, p, msg)
	}
	switch t.IntN(10) {
	case 0, 8, 9:
	case 1:
		how, msg = "other message", append(clone(msg), 1)
		dig, derr = pub.SM3Digest(msg, uid)
	case 2:
		how, uid = "other id", append(clone(uid), 1)
		dig, derr = pub.SM3Digest(msg, uid)
	case 3:
		how, sig = "made up", ref.MarshalSig(edgeRS(t.Rng), edgeRS(t.Rng))
	case 4:
		how, sig = "cut", sig[:t.IntN(len(sig))]
	case 5:
		how, sig = "extended", append(clone(sig), t.Bytes(1+t.IntN(3))...)
	default:
		sig, how = mutate(t.Rng, sig, ref.MarshalSig(bi(1), bi(2)))
	}
	what := "signature " + how
	t.guard(what, func() {
		v := map[string]bool{}
		v["Verify"] = sm2.Verify(pub, msg, uid, sig)
		v["PublicKey.Verify"] = pub.Verify(msg, uid, sig)
		r, s, err := sm2.UnmarshalSign(sig)
		if err == nil {
			v["UnmarshalSign and VerifyRS"] = sm2.VerifyRS(pub, msg, uid, r, s)
			v["UnmarshalSign and PublicKey.VerifyRS"] = pub.VerifyRS(msg, uid, r, s)
			if b, err := sm2.MarshalSign(r, s); err == nil {
				t.mustEq(what+": MarshalSign of what UnmarshalSign read", b, sig)
			}
		} else {
			v["UnmarshalSign"] = false
		}
		if derr == nil {
			v["VerifyDigest"] = sm2.VerifyDigest(pub, dig, sig)
			v["PublicKey.VerifyDigest"] = pub.VerifyDigest(dig, sig)
			if err == nil {
				v["VerifyDigestRS"] = sm2.VerifyDigestRS(pub, dig, r, s)
				v["PublicKey.VerifyDigestRS"] = pub.VerifyDigestRS(dig, r, s)
			}
		}
		if len(uid) == 0 {
			def := []byte("1234567812345678")
			v["Verify with the default id"] = sm2.Verify(pub, msg, def, sig)
			v["Verify with a nil id"] = sm2.Verify(pub, msg, nil, sig)
			c := &mx.Certificate{PublicKey: pub, PublicKeyAlgorithm: mx.SM2}
			v["Certificate.CheckSignature"] = c.CheckSignature(mx.SM2WithSM3, msg, sig) == nil
		}
		for n, x := range v {
			t.Check(x == v["Verify"], "%s: Verify says %v, %s says %v (message %s, id %s, signature %s)", what, v["Verify"], n, x, hx(msg), hx(uid), hx(sig))
		}
		t.Cover(fmt.Sprintf("signature accepted: %v", v["Verify"]))
	})
	t.Key("%x %x", msg, sig)
}

func c31Sign(t *T, i int) {
	d, _ := genD(t.Rng)
	k := newSM2(d)
	msg, uid := t.Bytes(t.Len(200)), t.Bytes(pick(t.Rng, 0, 0, 1, 16, 20, t.IntN(50)))
	if t.Chance(1, 4) {
		uid = nil
	}
	dig, err := k.SM3Digest(msg, uid)
	t.noErr("SM3Digest", err)
	stream := t.Bytes(4000)
	src := func() *bytes.Reader { return bytes.NewReader(stream) }
	want, err := sm2.Sign(src(), k, msg, uid)
	t.noErr("Sign", err)
	same := func(what string, sig []byte, err error) {
		t.noErr(what, err)
		t.mustEq(what+" with the random stream of Sign", sig, want)
	}
	rs := func(what string, r, s *big.Int, err error) {
		t.noErr(what, err)
		b, err := sm2.MarshalSign(r, s)
		same(what+" and MarshalSign", b, err)
	}
	b, err := k.Sign(src(), msg, uid)
	same("PrivateKey.Sign", b, err)
	b, err = sm2.SignDigest(src(), k, dig)
	same("SignDigest", b, err)
	b, err = k.SignDigest(src(), dig)
	same("PrivateKey.SignDigest", b, err)
	r, s, err := sm2.SignRS(src(), k, msg, uid)
	rs("SignRS", r, s, err)
	r, s, err = k.SignRS(src(), msg, uid)
	rs("PrivateKey.SignRS", r, s, err)
	r, s, err = sm2.SignDigestRS(src(), k, dig)
	rs("SignDigestRS", r, s, err)
	r, s, err = k.SignDigestRS(src(), dig)
	rs("PrivateKey.SignDigestRS", r, s, err)
	if len(uid) == 0 {
		b, err = sm2.Sign(src(), k, msg, []byte("1234567812345678"))
		same("Sign with the default id", b, err)
	}
	ct, err := sm2.Encryt(src(), &k.PublicKey, append(clone(msg), 1))
	t.noErr("Encryt", err)
	pub, ok := k.Public().(*sm2.PublicKey)
	t.Check(ok && pub.Equal(&k.PublicKey), "Public() is not the public key")
	again, err := sm2.Encryt(src(), pub, append(clone(msg), 1))
	t.noErr("Encryt", err)
	t.mustEq("Encryt to Public() with the same stream", again, ct)
	t.Key("%x %x", msg, want)
	t.Cover("equal random streams")
}

func c31Digest(t *T, i int) {
	msg := t.Bytes(t.Len(3000))
	want := sm3.Sum(msg)
	for n, h := range map[string]interface {
		Write([]byte) (int, error)
		Sum([]byte) []byte
	}{"sm3.New": sm3.New(), "x509.SM3.New": mx.SM3.New()} {
		rest := msg
		for len(rest) > 0 {
			m := min(len(rest), 1+t.IntN(200))
			h.Write(rest[:m])
			rest = rest[m:]
		}
		t.mustEq(n+" against Sum", h.Sum(nil), want[:])
	}
	t.Key("%x", msg)
}

// certInput makes something certificates may be parsed from.
func certInput(t *T) ([]byte, string) {
	var der []byte
	switch t.IntN(3) {
	case 0:
		der = anyCert(t)
	case 1:
		k := anyKey(t.Rng)
		der = certFor(t.Rng, k, t.Len(300))
	case 2:
		der = genSDCert(t).der
	}
	switch t.IntN(6) {
	case 0:
		return der, "genuine"
	case 1:
		return der[:t.IntN(len(der)+1)], "cut"
	case 2:
		return append(clone(der), t.Bytes(1+t.IntN(4))...), "extended"
	}
	return mutate(t.Rng, der, nameDER("donor"))
}

func c31Certs(t *T, i int) {
	in, how := certInput(t)
	what := "certificate, " + how
	var one *mx.Certificate
	var list []*mx.Certificate
	var e1, e2 error
	t.guard(what, func() {
		one, e1 = mx.ParseCertificate(clone(in))
		list, e2 = mx.ParseCertificates(clone(in))
	})
	if e1 == nil {
		t.Check(e2 == nil && len(list) == 1, "%s: ParseCertificate reads it, ParseCertificates gives %d, %v: %s", what, len(list), e2, hx(in))
		d := firstDiff(dump(one, false), dump(list[0], false))
		t.Check(d == "" || dumpString(one) == dumpString(list[0]), "%s: ParseCertificate and ParseCertificates differ: %s", what, d)
	} else {
		t.Check(e2 != nil || len(list) != 1, "%s: ParseCertificate: %v, ParseCertificates reads one certificate: %s", what, e1, hx(in))
	}
	// Concatenations: all or nothing.
	other, _ := certInput(t)
	_, eo := mx.ParseCertificate(clone(other))
	first, second := in, other
	if t.Chance(1, 2) {
		first, second = other, in
	}
	var both []*mx.Certificate
	var eb error
	t.guard(what, func() { both, eb = mx.ParseCertificates(cat(first, second)) })
	if e1 == nil && eo == nil {
		t.Check(eb == nil && len(both) == 2, "two certificates that parse alone give %d, %v together: %s %s", len(both), eb, hx(first), hx(second))
		t.mustEq("first of two", both[0].Raw, first)
		t.mustEq("second of two", both[1].Raw, second)
		t.Check(dumpString(one) == dumpString(both[map[bool]int{true: 0, false: 1}[bytes.Equal(first, in)]]), "%s: it reads differently beside another", what)
	} else if e1 == nil || eo == nil {
		// one does not parse: unless bytes of it complete the other, neither do both
		for _, c := range both {
			_, e := mx.ParseCertificate(c.Raw)
			t.noErr("certificate from a concatenation, alone", e)
		}
		if len(first) > 0 && len(second) > 0 {
			whole := func(b []byte) bool { _, _, rest, ok := ref.ReadTLV(b); return ok && len(rest) == 0 }
			if whole(first) && whole(second) {
				t.Check(eb != nil, "a certificate that does not parse alone parses beside another: %s %s", hx(first), hx(second))
			}
		}
	}
	t.Check(eb == nil || both == nil, "ParseCertificates: certificates along with an error")
	t.Cover(fmt.Sprintf("certificate parses: %v", e1 == nil))
	t.Key("%x", in)
}

func c31Lists(t *T, i int) {
	var der []byte
	if t.Chance(1, 2) {
		der = anyCRL(t)
	} else {
		der = handCRL(t.Rng, ref.TLV(0x30, oidSM2WithSM3))
		alg := ref.TLV(0x30, oidSM2WithSM3)
		der = signed3(der, alg, t.Bytes(70))
	}
	how := "genuine"
	switch t.IntN(6) {
	case 0:
	case 1:
		der, how = der[:t.IntN(len(der)+1)], "cut"
	case 2:
		der, how = append(clone(der), t.Bytes(1+t.IntN(4))...), "extended"
	default:
		der, how = mutate(t.Rng, der, nameDER("donor"))
	}
	if bytes.HasPrefix(der, []byte("-----")) {
		return
	}
	what := "list, " + how
	t.guard(what, func() {
		a, e1 := mx.ParseDERCRL(clone(der))
		want := ""
		if e1 == nil {
			want = dumpString(a)
		}
		block := &pem.Block{Type: "X509 CRL", Bytes: der}
		if t.Chance(1, 4) {
			block.Headers = map[string]string{"Note": t.Name(5), "Proc-Type": "x"}
		}
		text := pem.EncodeToMemory(block)
		if t.Chance(1, 4) {
			text = append(text, pick(t.Rng, []byte("\n\n"), []byte(t.Name(20)), clone(text))...)
		}
		if t.Chance(1, 3) {
			text = bytes.ReplaceAll(text, []byte("\n"), []byte("\r\n"))
		}
		for n, in := range map[string][]byte{"DER": clone(der), "PEM": text} {
			b, e2 := mx.ParseCRL(in)
			t.Check(sameErr(e1, e2), "%s: ParseDERCRL: %v, ParseCRL of the %s: %v: %s", what, e1, n, e2, hx(der))
			if e1 == nil {
				t.Check(dumpString(b) == want, "%s: ParseDERCRL and ParseCRL of the %s differ", what, n)
			}
		}
		t.Cover(fmt.Sprintf("list parses: %v", e1 == nil))
	})
	t.Key("%x", der)
}

var oidEC, oidRSA = ref.OID(1, 2, 840, 10045, 2, 1), ref.OID(1, 2, 840, 113549, 1, 1, 1)

// c31Keys: a key inside PKCS #8 or PKIX and the same key as it is.
func c31Keys(t *T, i int) {
	wrap := func(alg, key []byte) []byte { return ref.TLV(0x30, ref.Int(bi(0)), alg, ref.TLV(4, key)) }
	rsaAlg := ref.TLV(0x30, oidRSA, derNull)
	var inner []byte
	how := "genuine"
	alter := func(donor []byte) {
		switch t.IntN(5) {
		case 0:
		case 1:
			inner, how = inner[:t.IntN(len(inner)+1)], "cut"
		case 2:
			inner, how = append(clone(inner), t.Bytes(1+t.IntN(4))...), "extended"
		default:
			inner, how = mutate(t.Rng, inner, donor)
		}
	}
	var a, b any
	var e1, e2 error
	what := ""
	switch i % 3 {
	case 0:
		k := genKey(t.Rng, pick(t.Rng, "SM2", "SM2", "P224", "P256", "P384", "P521"))
		curve := elems(elems(keyDER8(k))[1])[1]
		inner = sec1Of(k, ref.TLV(0xa0, curve))
		alter(ref.TLV(0x30, ref.Int(bi(1)), ref.TLV(4, t.Bytes(32)), ref.TLV(0xa0, curve)))
		what = "EC key, " + how
		// The curve beside the key decides: only where the key still names that one is the comparison due.
		var sec struct {
			Version    int
			PrivateKey []byte
			Curve      asn1.ObjectIdentifier `asn1:"optional,explicit,tag:0"`
			Public     asn1.BitString        `asn1:"optional,explicit,tag:1"`
		}
		var oid asn1.ObjectIdentifier
		asn1.Unmarshal(curve, &oid)
		_, err := asn1.Unmarshal(inner, &sec)
		alg := ref.TLV(0x30, oidEC, curve)
		if err == nil && !sec.Curve.Equal(oid) {
			if len(sec.Curve) > 0 && t.Chance(1, 2) {
				return
			}
			// no curve beside it: the key itself names one, or nothing does
			alg = ref.TLV(0x30, oidEC)
		}
		t.guard(what, func() {
			a, e1 = mx.ParseECPrivateKey(clone(inner))
			b, e2 = mx.ParsePKCS8PrivateKey(wrap(alg, inner))
		})
	case 1:
		inner = stdx.MarshalPKCS1PrivateKey(genKey(t.Rng, "RSA small").priv.(*rsa.PrivateKey))
		alter(ref.Int(bi(65537)))
		what = "RSA key, " + how
		t.guard(what, func() {
			var k *rsa.PrivateKey
			if k, e1 = mx.ParsePKCS1PrivateKey(clone(inner)); k != nil {
				a = k
			}
			b, e2 = mx.ParsePKCS8PrivateKey(wrap(rsaAlg, inner))
		})
	case 2:
		inner = stdx.MarshalPKCS1PublicKey(genKey(t.Rng, "RSA small").pub.(*rsa.PublicKey))
		alter(ref.Int(bi(65537)))
		what = "RSA public key, " + how
		t.guard(what, func() {
			var k *rsa.PublicKey
			if k, e1 = mx.ParsePKCS1PublicKey(clone(inner)); k != nil {
				a = k
			}
			b, e2 = mx.ParsePKIXPublicKey(ref.TLV(0x30, rsaAlg, ref.TLV(3, []byte{0}, inner)))
		})
	}
	t.Cover(fmt.Sprintf("%T alone: %v, wrapped: %v", pick(t.Rng, a), e1 == nil, e2 == nil))
	if i%3 == 2 {
		// Here the two parsers differ in what odd forms they let pass, as the standard library's do.
		if how == "genuine" {
			t.Check(sameErr(e1, e2), "%s: alone: %v, wrapped: %v: %s", what, e1, e2, hx(inner))
		}
		if e1 == nil && e2 == nil {
			t.Check(samePub(a, b), "%s: alone it is %s, wrapped %s", what, showKey(a), showKey(b))
		}
	} else {
		t.Check(sameErr(e1, e2), "%s: alone: %v, wrapped: %v: %s", what, e1, e2, hx(inner))
		if e1 == nil && e2 == nil {
			t.Check(samePriv(a, b), "%s: alone it is %s, wrapped %s", what, showKey(a), showKey(b))
		}
	}
	t.Key("%x", inner)
}

// sec1Of is the SEC 1 form of a key with the given curve element.
func sec1Of(k tkey, curve []byte) []byte {
	switch p := k.priv.(type) {
	case *sm2.PrivateKey:
		return ref.TLV(0x30, ref.Int(bi(1)), ref.TLV(4, b32(p.D)), curve, ref.TLV(0xa1, ref.TLV(3, []byte{0}, point(refPub(&p.PublicKey)))))
	case *ecdsa.PrivateKey:
		return must(stdx.MarshalECPrivateKey(p))
	}
	panic("key type")
}

// c31SubjectKeys: the key of a certificate or request and the same structure parsed by itself.
func c31SubjectKeys(t *T, i int) {
	k := anyKey(t.Rng)
	spki, how := k.pubDER(), "genuine"
	if !t.Chance(1, 5) {
		spki, how = mutate(t.Rng, spki, anyKey(t.Rng).pubDER())
	}
	if _, _, rest, ok := ref.ReadTLV(spki); !ok || len(rest) > 0 {
		return
	}
	what := "public key, " + how
	var own any
	var e1 error
	t.guard(what, func() { own, e1 = mx.ParsePKIXPublicKey(clone(spki)) })
	name := nameDER("x")
	c := certSpec{serial: bi(1), issuer: name, subject: name, spki: spki, alg: oidSM2WithSM3, sign: func([]byte) []byte { return t.Bytes(70) }}
	alg := ref.TLV(0x30, oidSM2WithSM3)
	req := signed3(ref.TLV(0x30, ref.Int(bi(0)), name, spki, ref.TLV(0xa0)), alg, t.Bytes(70))
	check := func(where string, pub any, raw []byte, err error) {
		if e1 == nil {
			t.noErr(what+" parses alone, in a "+where, err)
			t.Check(samePub(own, pub), "%s: alone it is %s, in a %s %s", what, showKey(own), where, showKey(pub))
		} else if err == nil {
			t.Check(pub == nil, "%s: alone: %v, in a %s it is %s: %s", what, e1, where, showKey(pub), hx(spki))
		}
		if err == nil {
			t.mustEq(what+": raw key in a "+where, raw, spki)
		}
	}
	t.guard(what, func() {
		p, err := mx.ParseCertificate(c.der())
		if err == nil {
			check("certificate", p.PublicKey, p.RawSubjectPublicKeyInfo, nil)
		} else {
			check("certificate", nil, nil, err)
		}
		q, err := mx.ParseCertificateRequest(req)
		if err == nil {
			check("request", q.PublicKey, q.RawSubjectPublicKeyInfo, nil)
		} else {
			check("request", nil, nil, err)
		}
	})
	t.Cover(fmt.Sprintf("public key alone: %v", e1 == nil))
	t.Key("%x", spki)
}

func c31Files(t *T, i int) {
	var in []byte
	var pw string
	how := "genuine"
	switch i % 3 {
	case 0:
		in, pw = anyP12(t)
		if t.Chance(1, 2) {
			in, how = mutate(t.Rng, in, nameDER("donor"))
		}
	case 1: // altered behind a valid MAC
		k, certs, p := genP12(t, "SM2", "P256", "RSA small", "Ed25519")
		pw = p
		if t.Chance(2, 3) {
			certs = certs[:1]
		}
		f, _ := quickSpec(t, k, certs, bmp(pw))
		as, _, _ := splitPFX(t, ref.EncodePFX(f, bmp(pw)))
		if t.Chance(3, 4) {
			as, how = mutate(t.Rng, as, ref.TLV(0x30))
		}
		in = ref.WrapAuthSafe(as, ref.PFX{MacSalt: t.Bytes(8), MacIter: 1}, bmp(pw))
	case 2: // altered bags
		k, certs, p := genP12(t, "SM2", "P256", "RSA small")
		pw = p
		if t.Chance(2, 3) {
			certs = certs[:1]
		}
		f, _ := quickSpec(t, k, certs, bmp(pw))
		var cis []byte
		for _, s := range f.Safes {
			var bags []byte
			for _, b := range s.Bags {
				if !b.Key && t.Chance(1, 8) { // several in one bag, or none
					how = "bag of several certificates or none"
					b.Data = pick(t.Rng, nil, cat(b.Data, b.Data), cat(b.Data, certs[0]))
				}
				e := ref.EncodeBag(b, bmp(pw))
				if t.Chance(1, 4) {
					e, how = mutate(t.Rng, e, ref.EncodeBag(b, bmp(pw)))
				}
				bags = append(bags, e...)
			}
			if t.Chance(1, 2) {
				cis = append(cis, ref.TLV(0x30, ref.OIDData, ref.TLV(0xa0, ref.TLV(4, ref.TLV(0x30, bags))))...)
			} else {
				cis = append(cis, ref.EncryptedContent(ref.TLV(0x30, bags), pick(t.Rng, ref.OID3DES, ref.OIDRC240), t.Bytes(8), 1, bmp(pw))...)
			}
		}
		in = ref.WrapAuthSafe(ref.TLV(0x30, cis), ref.PFX{MacSalt: t.Bytes(8), MacIter: 1}, bmp(pw))
	}
	if hugeIter(in) {
		return
	}
	if t.Chance(1, 12) {
		pw, how = otherPassword(t.Rng, pw), "wrong password"
	}
	what := "file, " + how
	t.guard(what, func() {
		k, cs, e1 := pkcs12.DecodeAll(clone(in), pw)
		k2, c2, e2 := pkcs12.Decode(clone(in), pw)
		bl, e3 := pkcs12.ToPEM(clone(in), pw)
		t.Check(e1 == nil || (k == nil && cs == nil), "%s: DecodeAll: results along with %v", what, e1)
		if e2 == nil {
			// one certificate the standard library reads; DecodeAll reads it unless this library's parser is the stricter
			if e1 == nil {
				t.Check(len(cs) == 1 && bytes.Equal(cs[0].Raw, c2.Raw), "%s: Decode gives one certificate, DecodeAll %d or another: %s", what, len(cs), hx(in))
				t.Check(samePriv(k, k2), "%s: keys differ", what)
			} else {
				_, pe := mx.ParseCertificate(c2.Raw)
				t.Check(pe != nil, "%s: Decode reads it, DecodeAll: %v: %s", what, e1, hx(in))
			}
		}
		if e1 == nil && len(cs) == 1 && e2 != nil {
			_, pe := stdx.ParseCertificate(cs[0].Raw)
			t.Check(pe != nil, "%s: DecodeAll reads one certificate and a key, Decode: %v: %s", what, e2, hx(in))
		}
		if e1 == nil && e3 == nil {
			n := 0
			for _, b := range bl {
				switch b.Type {
				case "CERTIFICATE":
					t.Check(n < len(cs) && bytes.Equal(b.Bytes, cs[n].Raw), "%s: certificate %d in PEM is not DecodeAll's", what, n)
					n++
				case "PRIVATE KEY":
					var pk any
					var err error
					if _, ok := k.(*rsa.PrivateKey); ok {
						pk, err = stdx.ParsePKCS1PrivateKey(b.Bytes)
					} else {
						pk, err = stdx.ParseECPrivateKey(b.Bytes)
					}
					t.Check(err == nil && samePriv(pk, k), "%s: the key in PEM is not DecodeAll's (%v)", what, err)
				}
			}
			t.Check(n == len(cs), "%s: %d certificates in PEM, %d from DecodeAll", what, n, len(cs))
		}
		if t.Chance(1, 3) {
			dir := tempDir(t)
			defer os.RemoveAll(dir)
			fn := filepath.Join(dir, "f.p12")
			os.WriteFile(fn, in, 0600)
			c, k4, e4 := pkcs12.SM2P12Decrypt(fn, pw)
			switch k.(type) {
			case *sm2.PrivateKey, *rsa.PrivateKey:
				t.Check(e4 == nil, "%s: DecodeAll reads it, SM2P12Decrypt: %v", what, e4)
				t.Check(c != nil && bytes.Equal(c.Raw, cs[0].Raw) && samePriv(k, k4), "%s: SM2P12Decrypt gives another key or certificate than DecodeAll", what)
			default:
				t.Check(e4 != nil && c == nil && k4 == nil, "%s: DecodeAll gives %T, %v; SM2P12Decrypt gives %T without an error", what, k, e1, k4)
			}
		}
		t.Cover(fmt.Sprintf("DecodeAll %v, Decode %v, ToPEM %v", e1 == nil, e2 == nil, e3 == nil))
	})
	t.Key("%x", in)
}

// c31Checks: one signature presented as that of a certificate, a request, a list and of bytes.
func c31Checks(t *T, i int) {
	k, _, info := caKey(t.Rng)
	ca := caOf(t, k)
	if info.hash == crypto.MD5 || info.hash == crypto.SHA1 {
		return // what is weak is refused in some places only
	}
	own := info
	tbs := t.Bytes(t.IntN(300))
	sig := primSign(t.Rng, info, k, tbs)
	how := "genuine"
	switch t.IntN(5) {
	case 0:
	case 1:
		how, tbs = "other bytes", append(clone(tbs), 1)
	case 2:
		how = "other algorithm"
		info = pick(t.Rng, algs...)
		if info.hash == crypto.MD5 || info.hash == crypto.SHA1 {
			return
		}
	case 3:
		how, sig = "cut or extended", pick(t.Rng, sig[:t.IntN(len(sig))], append(clone(sig), 0), append([]byte{0}, sig...))
	case 4:
		how, sig = "altered", clone(sig)
		sig[t.IntN(len(sig))] ^= 1 << t.IntN(8)
	}
	what := fmt.Sprintf("%s signature by a %s key as %s", how, k.kind, info.name)
	t.guard(what, func() {
		want := ca.CheckSignature(info.alg, tbs, sig)
		child := &mx.Certificate{SignatureAlgorithm: info.alg, RawTBSCertificate: tbs, Signature: sig}
		err := child.CheckSignatureFrom(ca)
		t.Check(sameErr(want, err), "%s: CheckSignature: %v, CheckSignatureFrom: %v", what, want, err)
		req := &mx.CertificateRequest{SignatureAlgorithm: info.alg, RawTBSCertificateRequest: tbs, Signature: sig, PublicKey: ca.PublicKey, PublicKeyAlgorithm: ca.PublicKeyAlgorithm}
		err = req.CheckSignature()
		t.Check(sameErr(want, err), "%s: CheckSignature: %v, the request's: %v", what, want, err)
		alg := own.id()
		crl := signed3(handCRL(t.Rng, alg), alg, []byte{0})
		l, perr := mx.ParseDERCRL(crl)
		t.noErr("list", perr)
		// The list's own bytes are needed here.
		lsig := primSign(t.Rng, own, k, l.TBSCertList.Raw)
		{
			bad := t.Chance(1, 2)
			if bad {
				lsig = clone(lsig)
				lsig[t.IntN(len(lsig))] ^= 1 << t.IntN(8)
			}
			l.SignatureValue = asn1.BitString{Bytes: lsig, BitLength: 8 * len(lsig)}
			a, b := ca.CheckSignature(own.alg, l.TBSCertList.Raw, lsig), ca.CheckCRLSignature(l)
			t.Check(sameErr(a, b), "%s: CheckSignature of a list's bytes (altered: %v): %v, CheckCRLSignature: %v", what, bad, a, b)
		}
		t.Cover(fmt.Sprintf("signature good: %v", want == nil))
	})
	t.Key("%x", sig)
}

// c31Messages: both ways to make a message, and the ways to read one.
func c31Messages(t *T, i int) {
	if i%2 == 0 {
		c := genSDCert(t)
		content := c13Content(t)
		stream := t.Bytes(4000)
		sign := func(cb bool) (der []byte, err error) {
			at := 0
			t.WithSysRand(func(p []byte) (int, error) {
				n := copy(p, stream[at:])
				at += n
				return n, nil
			}, func() {
				t.guard("SignedData", func() {
					if !cb {
						der, err = mx.NewSignedData(c.c, c.key, content)
						return
					}
					der, err = mx.NewSignedDataCallBack(c.c, func(data []byte) ([]byte, error) {
						return sm2.Sign(t.sys, c.key, data, nil)
					}, content)
				})
			})
			return
		}
		for try := 0; try < 20; try++ {
			a, e1 := sign(false)
			b, e2 := sign(true)
			t.noErr("NewSignedData", e1)
			t.noErr("NewSignedDataCallBack", e2)
			sa, err := readSD(a)
			t.noErr("message", err)
			sb, err := readSD(b)
			t.noErr("message", err)
			ta, _ := attrValue(sa.signers[0].attrs, oidAttrTime)
			tb, _ := attrValue(sb.signers[0].attrs, oidAttrTime)
			if bytes.Equal(ta, tb) {
				// everything but the signature's random part
				sa.signers[0].sig, sb.signers[0].sig = nil, nil
				t.mustEq("message by callback against message by key", sb.der(), sa.der())
				t.Cover("made both ways")
				t.Key("%x", a)
				return
			}
			time.Sleep(20 * time.Millisecond)
		}
		return
	}
	s, certs := genSD(t, 2)
	if t.Chance(1, 2) && len(s.certs) > 1 {
		s.certs = s.certs[:1]
	}
	der := s.der()
	t.guard("message", func() {
		p, err := mx.ParsePKCS7(clone(der))
		t.noErr("ParsePKCS7", err)
		one := p.GetOnlySigner()
		var hit *mx.Certificate
		if len(p.Signers) == 1 {
			g := p.Signers[0].IssuerAndSerialNumber
			for _, c := range p.Certificates {
				if c.SerialNumber.Cmp(g.SerialNumber) == 0 && bytes.Equal(c.RawIssuer, g.IssuerName.FullBytes) {
					hit = c
					break
				}
			}
		}
		t.Check((one == nil) == (hit == nil), "GetOnlySigner: %v, the certificates have it: %v", one != nil, hit != nil)
		if hit != nil {
			t.mustEq("GetOnlySigner", one.Raw, hit.Raw)
		}
		for j, d := range s.certs {
			c, err := mx.ParseCertificate(clone(d))
			t.noErr("certificate", err)
			t.Check(dumpString(c) == dumpString(p.Certificates[j]), "certificate %d of a message reads differently alone", j)
		}
		if p.Verify() == nil {
			for _, g := range p.Signers {
				for _, c := range certs {
					if c.serial.Cmp(g.IssuerAndSerialNumber.SerialNumber) != 0 || !bytes.Equal(c.issuer, g.IssuerAndSerialNumber.IssuerName.FullBytes) {
						continue
					}
					msg := p.Content
					if len(g.AuthenticatedAttributes) > 0 {
						var at [][]byte
						for _, a := range g.AuthenticatedAttributes {
							at = append(at, ref.TLV(0x30, ref.OID([]int(a.Type)...), a.Value.FullBytes))
						}
						msg = ref.TLV(0x31, sortSet(at)...)
					}
					t.noErr("a signature that Verify accepts, through CheckSignature", c.c.CheckSignature(mx.SM2WithSM3, msg, g.EncryptedDigest))
					t.Check(sm2.Verify(&c.key.PublicKey, msg, nil, g.EncryptedDigest), "a signature that PKCS7.Verify accepts, through sm2.Verify: false")
				}
			}
			t.Cover("message verifies")
		}
	})
	t.Key("%x", der)
}
