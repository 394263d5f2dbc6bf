package main

import (
	"crypto/ecdsa"
	"crypto/elliptic"
	"encoding/pem"
	"fmt"
	"math/big"

	"mon/ref"

	"github.com/mmdet/mcrypto/sm2"
	mx "github.com/mmdet/mcrypto/x509"
)

func init() {
	register(&Prop{
		ID: "C25",
		Rule: "pairs of SM2 keys that are the same value in different objects, encodings and ages, or differ in exactly one respect (private number, either coordinate, the point's sign, the curve, the type), and pairs of certificates that share all or all but one byte, part or signature; " +
			"the verdict, both ways round, against equality of the values. Distinct (pair, difference)",
		Groups: []Group{
			{Name: "private keys", N: [2]int{4000, 150000}, Fn: c25Private},
			{Name: "public keys", N: [2]int{4000, 150000}, Fn: c25Public},
			{Name: "certificates", N: [2]int{1500, 60000}, Fn: c25Certs},
		},
	})
}

// copies of a private key by every road there is.
func privCopy(t *T, k *sm2.PrivateKey) (*sm2.PrivateKey, string) {
	switch t.IntN(5) {
	case 0:
		return newSM2(new(big.Int).Set(k.D)), "a new object"
	case 1:
		return k, "itself"
	case 2:
		x, err := mx.ParsePKCS8PrivateKey(pkcs8SM2(k.D, refPub(&k.PublicKey)))
		t.noErr("ParsePKCS8PrivateKey", err)
		return x.(*sm2.PrivateKey), "the key parsed from PKCS #8"
	case 3:
		x, err := mx.ParseECPrivateKey(sec1SM2(k.D, refPub(&k.PublicKey), true, true))
		t.noErr("ParseECPrivateKey", err)
		return x.(*sm2.PrivateKey), "the key parsed from SEC 1"
	}
	// numbers with another internal size
	big2 := func(x *big.Int) *big.Int {
		y := new(big.Int).Lsh(one, uint(600+t.IntN(600)))
		return y.Add(y, x).Sub(y, new(big.Int).Sub(y, x))
	}
	c := *k
	c.D, c.X, c.Y = big2(k.D), big2(k.X), big2(k.Y)
	return &c, "copied numbers"
}

func c25Private(t *T, i int) {
	d, kind := genD(t.Rng)
	k := newSM2(d)
	if t.Chance(1, 20) {
		g, err := sm2.GenerateKey(t.sys)
		t.noErr("GenerateKey", err)
		k = g
	}
	o, how := privCopy(t, k)
	var other any = o
	want := true
	switch t.IntN(12) {
	case 0, 1, 2:
	case 3:
		want, how = false, "another key"
		other = newSM2(t.Big(one, nm2))
	case 4: // near numbers
		nd := add(k.D, pick(t.Rng, bi(1), bi(-1), new(big.Int).Lsh(one, uint(t.IntN(256)))))
		if nd.Sign() <= 0 || nd.Cmp(nm2) > 0 {
			nd = add(modN(nd), one)
		}
		if nd.Cmp(k.D) == 0 || nd.Cmp(nm2) > 0 {
			nd = bi(77)
		}
		want, how = nd.Cmp(k.D) == 0, "a key with a near number"
		other = newSM2(nd)
	case 5: // n-d: the same x coordinate
		nd := sub(ref.N, k.D)
		if nd.Cmp(nm2) > 0 {
			return
		}
		want, how = false, "the negated key"
		other = newSM2(nd)
	case 6: // only the private number differs
		c := *o
		c.D = add(o.D, pick(t.Rng, one, ref.N, new(big.Int).Lsh(one, uint(t.IntN(300)))))
		want, how = false, "only the private number differs"
		other = &c
	case 7: // only a coordinate differs
		c := *o
		if t.Chance(1, 2) {
			c.X = add(o.X, pick(t.Rng, one, bi(-1), ref.P, new(big.Int).Lsh(one, uint(t.IntN(256)))))
			how = "only x differs"
		} else {
			c.Y = add(o.Y, pick(t.Rng, one, bi(-1), ref.P, new(big.Int).Lsh(one, uint(t.IntN(256)))))
			how = "only y differs"
		}
		want, other = false, &c
	case 8:
		c := *o
		c.Curve = pick(t.Rng, elliptic.P256(), elliptic.P224(), elliptic.P384())
		want, how, other = false, "another curve", &c
	case 9: // other types with the same numbers
		e := &ecdsa.PrivateKey{PublicKey: ecdsa.PublicKey{Curve: o.Curve, X: o.X, Y: o.Y}, D: o.D}
		other = pick(t.Rng, any(nil), any(e), any(&o.PublicKey), any(o.D), any(b32(o.D)), any("key"), any(genKey(t.Rng, "Ed25519").priv), any(&struct{ sm2.PrivateKey }{*o}))
		want, how = false, fmt.Sprintf("a %T", other)
	case 10: // the same absolute value
		c := *o
		c.D = new(big.Int).Neg(o.D)
		want, how, other = false, "negative private number", &c
	case 11:
		c := *o
		c.X, c.Y = c.Y, c.X
		want, how, other = c.X.Cmp(c.Y) == 0, "coordinates swapped", &c
	}
	var got bool
	t.guard("PrivateKey.Equal", func() { got = k.Equal(other) })
	t.Check(got == want, "private key %x (%s): Equal with %s is %v", k.D, kind, how, got)
	if p, ok := other.(*sm2.PrivateKey); ok {
		t.guard("PrivateKey.Equal", func() { got = p.Equal(k) })
		t.Check(got == want, "private key %x (%s): Equal from %s is %v", k.D, kind, how, got)
		pub, ok := p.Public().(*sm2.PublicKey)
		t.Check(ok && pub != nil && eqInt(pub.X, p.X) && eqInt(pub.Y, p.Y) && pub.Curve == p.Curve, "Public of %s", how)
		t.Check(p.PublicKey.Equal(pub) && pub.Equal(p.Public()), "Public of %s does not equal itself", how)
		if want {
			t.Check(k.Public().(*sm2.PublicKey).Equal(p.Public()), "the public keys of equal keys differ: %s", how)
		}
	}
	t.Key("%x %s %v", k.D, how, want)
	t.Cover(fmt.Sprintf("private: %s: %v", how, want))
}

func c25Public(t *T, i int) {
	d, _ := genD(t.Rng)
	k := newSM2(d).PublicKey
	o := sm2Pub(ref.Pt{X: new(big.Int).Set(k.X), Y: new(big.Int).Set(k.Y)})
	how, want := "a new object", true
	if t.Chance(1, 3) {
		x, err := mx.ParsePKIXPublicKey(pkixSM2(refPub(&k)))
		t.noErr("ParsePKIXPublicKey", err)
		o, how = x.(*sm2.PublicKey), "the parsed key"
	} else if t.Chance(1, 3) {
		der, err := mx.MarshalPKIXPublicKey(&k)
		t.noErr("MarshalPKIXPublicKey", err)
		x, err := mx.ParsePKIXPublicKey(der)
		t.noErr("ParsePKIXPublicKey", err)
		o, how = x.(*sm2.PublicKey), "the key encoded and parsed"
	}
	var other any = o
	c := *o
	switch t.IntN(8) {
	case 0, 1:
	case 2:
		c.Y = sub(ref.P, o.Y)
		want, how, other = false, "the negated point", &c
	case 3: // another point with the same y
		if x2, ok := ref.LiftY(o.Y); ok && x2.X.Cmp(o.X) != 0 {
			c.X = x2.X
			want, how, other = false, "a point with the same y", &c
		}
	case 4:
		delta := pick(t.Rng, one, bi(-1), ref.P, sub(bi(0), ref.P), new(big.Int).Lsh(one, uint(t.IntN(256))))
		if t.Chance(1, 2) {
			c.X = add(o.X, delta)
		} else {
			c.Y = add(o.Y, delta)
		}
		want, how, other = false, "one coordinate differs", &c
	case 5:
		c.Curve = pick(t.Rng, elliptic.P256(), elliptic.P384(), elliptic.Curve(nil))
		want, how, other = false, "another curve", &c
	case 6:
		other = pick(t.Rng, any(nil), any(&ecdsa.PublicKey{Curve: o.Curve, X: o.X, Y: o.Y}), any(newSM2(d)), any(o.X), any(point(refPub(o))), any(genKey(t.Rng, "Ed25519").pub))
		want, how = false, fmt.Sprintf("a %T", other)
	case 7:
		if t.Chance(1, 2) {
			c.X = new(big.Int).Neg(o.X)
		} else {
			c.Y = new(big.Int).Neg(o.Y)
		}
		want, how, other = false, "negative coordinate", &c
	}
	var got bool
	t.guard("PublicKey.Equal", func() { got = k.Equal(other) })
	t.Check(got == want, "public key %x: Equal with %s is %v", point(refPub(&k)), how, got)
	if p, ok := other.(*sm2.PublicKey); ok {
		t.guard("PublicKey.Equal", func() { got = p.Equal(&k) })
		t.Check(got == want, "public key %x: Equal from %s is %v", point(refPub(&k)), how, got)
	}
	t.Key("%x %s %v", k.X, how, want)
	t.Cover(fmt.Sprintf("public: %s: %v", how, want))
}

func c25Certs(t *T, i int) {
	der := genSDCert(t).der
	switch i % 3 {
	case 0:
		der = certFor(t.Rng, genKey(t.Rng, pick(t.Rng, "P256", "Ed25519", "RSA small")), t.IntN(50))
	case 1:
		k := genKey(t.Rng, "SM2")
		tm := genTemplate(t.Rng, true)
		var err error
		der, err = mx.CreateCertificate(t.sys, tm, tm, k.pub, k.signer)
		t.noErr("CreateCertificate", err)
	}
	a, err := mx.ParseCertificate(clone(der))
	t.noErr("ParseCertificate", err)
	same, err := mx.ParseCertificate(clone(der))
	t.noErr("ParseCertificate", err)
	eq := func(how string, x, y *mx.Certificate, want bool) {
		var p, q bool
		t.guard("Certificate.Equal", func() { p, q = x.Equal(y), y.Equal(x) })
		t.Check(p == want && q == want, "Certificate.Equal, %s: %v one way, %v the other: %s", how, p, q, hx(der))
		t.Cover(fmt.Sprintf("certificates: %s: %v", how, want))
	}
	eq("itself", a, a, true)
	eq("parsed twice", a, same, true)
	b, _ := pem.Decode(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: der}))
	l, err := mx.ParseCertificates(cat(b.Bytes, b.Bytes))
	t.noErr("ParseCertificates", err)
	eq("parsed from a list", a, l[0], true)
	eq("both parsed from a list", l[0], l[1], true)
	eq("the bytes alone", a, &mx.Certificate{Raw: clone(der)}, true)
	var none *mx.Certificate
	eq("with nil", a, none, false)
	eq("nil with nil", none, none, true)
	eq("with an empty certificate", a, new(mx.Certificate), false)

	// Differences in one place only.
	for n := 0; n < 12; n++ {
		d := clone(der)
		at := t.IntN(len(d))
		if n < 4 {
			at = pick(t.Rng, len(d)-1, len(d)-1-t.IntN(60), t.IntN(200)) // signature; serial and names
		}
		d[at] ^= 1 << t.IntN(8)
		x, err := mx.ParseCertificate(d)
		if err != nil {
			x = &mx.Certificate{Raw: d}
		} else {
			t.Cover("differs in one bit and parses")
		}
		eq("one bit differs", a, x, false)
	}
	v, ok := viewCert(der)
	t.Check(ok, "certificate made for the test: %s", hx(der))
	x, err := mx.ParseCertificate(signed3(v.tbs, elems(der)[1], t.Bytes(len(v.sig))))
	t.noErr("ParseCertificate of the certificate with another signature", err)
	eq("another signature", a, x, false)
	eq("one byte more", a, &mx.Certificate{Raw: append(clone(der), 0)}, false)
	eq("one byte less", a, &mx.Certificate{Raw: der[:len(der)-1]}, false)
	c := *a
	c.Subject.CommonName, c.SerialNumber = "other", bi(3)
	eq("fields overwritten, same bytes", a, &c, true)
	t.Key("%x", der)
	t.Sample("certificate of %d bytes", len(der))
}
