package main

import (
	"bytes"
	"crypto"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509/pkix"
	"errors"
	"fmt"
	"math/big"
	"time"

	"mon/ref"

	"github.com/mmdet/mcrypto/sm2"
	mx "github.com/mmdet/mcrypto/x509"
)

func init() {
	register(&Prop{
		ID: "C11",
		Rule: "signatures made without the library over messages, certificates, requests and lists, presented as they are, altered, under every other algorithm label, under other keys, and (certificates) under parents of every version, basic constraint and key usage; " +
			"the verdict must be that of an independent verifier and the constraint table; mutation storms over signed structures: accepted implies genuine. Non-trivial: one judged verdict; accepted and refused are both reached for every algorithm",
		Groups: []Group{
			{Name: "labels", N: [2]int{700, 20000}, Fn: c11Labels},
			{Name: "confused", N: [2]int{400, 20000}, Fn: c11Confused},
			{Name: "altered", N: [2]int{3000, 80000}, Fn: c11Altered},
			{Name: "parents", N: [2]int{3000, 80000}, Fn: c11Parents},
			{Name: "self", N: [2]int{900, 20000}, Fn: c11Self},
			{Name: "requests and lists", N: [2]int{2000, 50000}, Fn: c11Requests},
			{Name: "storm", N: [2]int{4500, 200000}, Fn: c11Storm},
			{Name: "odd keys", N: [2]int{300, 2000}, Fn: c11OddKeys},
		},
	})
}

func fitPSS(a algInfo, k tkey) bool {
	p, ok := k.pub.(*rsa.PublicKey)
	return !ok || !a.pss || a.hash != crypto.SHA512 || p.N.BitLen() >= 1034
}

// genSigned picks a key and an algorithm for it, strong ones mostly.
func genSigned(r *Rng) (tkey, algInfo) {
	for {
		k, _, _ := caKey(r)
		a := pick(r, algsFor(k)...)
		if fitPSS(a, k) {
			return k, a
		}
	}
}

func (a algInfo) md5() bool  { return a.hash == crypto.MD5 }
func (a algInfo) sha1() bool { return a.hash == crypto.SHA1 }

// judge compares a verdict with the expected one. SHA-1 signatures that are genuine may go either way unless betweenCerts.
func judge(t *T, what string, err error, a algInfo, known bool, isGenuine, betweenCerts bool) {
	switch {
	case known && a.md5():
		var ins mx.InsecureAlgorithmError
		t.Check(err != nil, "%s: MD5 signature accepted", what)
		_ = ins
	case known && a.sha1() && isGenuine && !betweenCerts:
		t.Evalf()
	case known && a.sha1() && betweenCerts:
		t.Check(err != nil, "%s: SHA-1 signature between certificates accepted", what)
	case known && isGenuine:
		t.Check(err == nil, "%s: genuine signature refused: %v", what, err)
	default:
		t.Check(err != nil, "%s: accepted, but it is not genuine", what)
	}
	if err == nil {
		t.Cover("accepted " + a.name)
	} else if known {
		t.Cover("refused " + a.name)
	}
}

func holder(t *T, k tkey) *mx.Certificate {
	if t.Chance(1, 2) {
		return &mx.Certificate{PublicKey: k.pub}
	}
	c, err := mx.ParseCertificate(certFor(t.Rng, k, 3))
	if err != nil {
		t.Failf("certificate for a %s key: %v", k.kind, err)
	}
	return c
}

// c11Labels presents one genuine signature under every label.
func c11Labels(t *T, i int) {
	k, a := genSigned(t.Rng)
	msg := t.Bytes(t.Len(2000))
	sig := primSign(t.Rng, a, k, msg)
	c := holder(t, k)
	for l := mx.SignatureAlgorithm(-1); l < 20; l++ {
		info, known := algOf(l)
		what := fmt.Sprintf("%s signature by a %s key presented as %v", a.name, k.kind, l)
		if known {
			what = fmt.Sprintf("%s signature by a %s key presented as %s", a.name, k.kind, info.name)
		}
		var err error
		t.guard(what, func() { err = c.CheckSignature(l, msg, sig) })
		judge(t, what, err, info, known, known && genuine(info, k.pub, msg, sig), false)
		t.Key("%s %s %d", a.name, k.kind, l)
		if known && info.md5() {
			var ins mx.InsecureAlgorithmError
			t.Check(errors.As(err, &ins), "%s: error is %v, not InsecureAlgorithmError", what, err)
		}
	}
}

// c11Confused: what a key of every type signs when it takes the steps of another algorithm.
func c11Confused(t *T, i int) {
	k := genSigner(t.Rng)
	msg := t.Bytes(t.Len(300))
	c := holder(t, k)
	ins := [][]byte{msg, ref.SM3(msg), digest(crypto.SHA224, msg)}
	names := []string{"the message", "its SM3 digest", "its SHA-224 digest"}
	for _, h := range []crypto.Hash{crypto.MD5, crypto.SHA1, crypto.SHA256, crypto.SHA384, crypto.SHA512} {
		ins, names = append(ins, digest(h, msg)), append(names, "its "+h.String()+" digest")
	}
	if p, ok := k.pub.(*sm2.PublicKey); ok {
		e, _ := ref.MsgDigest(p.X, p.Y, msg, nil)
		ins, names = append(ins, e), append(names, "its SM2 digest")
	}
	for j, in := range ins {
		type signed struct {
			how string
			sig []byte
		}
		var l []signed
		switch p := k.priv.(type) {
		case *sm2.PrivateKey:
			l = append(l, signed{"SM2", refSign(t.Rng, p.D, refPub(&p.PublicKey), in)}, signed{"SM2 without the user part", refSignDigest(t.Rng, p.D, in)}, signed{"ECDSA", ecdsaOnSM2(t.Rng, p.D, in)})
		case *rsa.PrivateKey:
			for _, h := range []crypto.Hash{0, crypto.MD5, crypto.SHA1, crypto.SHA256, crypto.SHA384, crypto.SHA512} {
				if h != 0 && h.Size() != len(in) {
					continue
				}
				if g, err := rsa.SignPKCS1v15(rand.Reader, p, h, in); err == nil {
					l = append(l, signed{"PKCS#1 with " + h.String(), g})
				}
				if h != 0 {
					if g, err := rsa.SignPSS(rand.Reader, p, h, in, &rsa.PSSOptions{SaltLength: pick(t.Rng, rsa.PSSSaltLengthEqualsHash, 0)}); err == nil {
						l = append(l, signed{"PSS with " + h.String(), g})
					}
				}
			}
		case *ecdsa.PrivateKey:
			if g, err := ecdsa.SignASN1(rand.Reader, p, in); err == nil {
				l = append(l, signed{"ECDSA", g})
			}
			if n := len(in); n > 0 { // the whole message, left in one piece
				if g, err := ecdsa.SignASN1(rand.Reader, p, append(make([]byte, 1), in...)); err == nil {
					l = append(l, signed{"ECDSA, shifted,", g})
				}
			}
		case ed25519.PrivateKey:
			l = append(l, signed{"Ed25519", ed25519.Sign(p, in)})
			if len(in) == 64 {
				if g, err := p.Sign(rand.Reader, in, crypto.SHA512); err == nil {
					l = append(l, signed{"Ed25519ph", g})
				}
			}
		}
		for _, s := range l {
			for _, a := range algs {
				what := fmt.Sprintf("%s signature by a %s key over %s presented as %s", s.how, k.kind, names[j], a.name)
				var err error
				t.guard(what, func() { err = c.CheckSignature(a.alg, msg, s.sig) })
				judge(t, what, err, a, true, genuine(a, k.pub, msg, s.sig), false)
				t.Key("%s %s %s %d", s.how, k.kind, names[j], a.alg)
			}
		}
	}
}

// otherSigs are signatures that are almost right.
func nearSig(r *Rng, a algInfo, k tkey, msg []byte) (what string, sig []byte) {
	switch p := k.priv.(type) {
	case *sm2.PrivateKey:
		pt := refPub(&p.PublicKey)
		switch r.IntN(5) {
		case 0:
			return "SM2 signature over the SM3 digest instead of the message", refSign(r, p.D, pt, ref.SM3(msg))
		case 1:
			return "SM2 signature without the user part", refSignDigest(r, p.D, ref.SM3(msg))
		case 2:
			e, _ := ref.MsgDigest(pt.X, pt.Y, msg, []byte("another id"))
			return "SM2 signature for another user id", refSignDigest(r, p.D, e)
		case 3:
			e, _ := ref.MsgDigest(pt.X, pt.Y, msg, nil)
			x, y, ok := ref.SignK(p.D, e, r.Big(one, nm1))
			if !ok {
				return "", nil
			}
			return "SM2 signature as r||s", cat(b32(x), b32(y))
		}
		e, _ := ref.MsgDigest(pt.X, pt.Y, msg, nil)
		return "ECDSA on the SM2 curve over the SM2 digest", ecdsaOnSM2(r, p.D, e)
	case *rsa.PrivateKey:
		d := digest(a.hash, msg)
		switch r.IntN(5) {
		case 0:
			for s := 0; s < 3; s++ {
				h := pick(r, crypto.SHA256, crypto.SHA384)
				if g, err := rsa.SignPSS(rand.Reader, p, h, digest(h, msg), &rsa.PSSOptions{SaltLength: pick(r, 0, 20, 31, 33)}); err == nil {
					return "PSS signature with another salt length", g
				}
			}
		case 1:
			g, err := rsa.SignPKCS1v15(rand.Reader, p, 0, d)
			if err == nil {
				return "PKCS#1 signature without digest info", g
			}
		case 2:
			// the encoded block is right but for one byte
			n := (p.N.BitLen() + 7) / 8
			good, err := rsa.SignPKCS1v15(rand.Reader, p, pick(r, crypto.SHA256, crypto.SHA1), digest(pick(r, crypto.SHA256), msg))
			if err != nil {
				return "", nil
			}
			em := new(big.Int).Exp(new(big.Int).SetBytes(good), bi(int64(p.E)), p.N).FillBytes(make([]byte, n))
			em[r.IntN(n)] ^= byte(1 + r.IntN(255))
			if new(big.Int).SetBytes(em).Cmp(p.N) >= 0 {
				return "", nil
			}
			return "PKCS#1 signature with a changed padding byte", new(big.Int).Exp(new(big.Int).SetBytes(em), p.D, p.N).FillBytes(make([]byte, n))
		case 3:
			g := primSign(r, a, k, msg)
			return "signature plus the modulus", add(new(big.Int).SetBytes(g), p.N).FillBytes(make([]byte, len(g)+1))
		}
		return "signature of zero", make([]byte, (p.N.BitLen()+7)/8)
	case *ecdsa.PrivateKey:
		if r.Chance(1, 2) && k.kind == "P256" { // an SM2-style signature by a P-256 key
			return "zeros", ref.MarshalSig(bi(0), bi(0))
		}
		g := primSign(r, a, k, msg)
		x, y, ok := ref.ParseSig(g)
		if !ok {
			return "", nil
		}
		n := p.Curve.Params().N
		switch r.IntN(4) {
		case 0:
			return "s plus the order", ref.MarshalSig(x, add(y, n))
		case 1:
			return "r plus the order", ref.MarshalSig(add(x, n), y)
		case 2:
			return "swapped", ref.MarshalSig(y, x)
		}
		return "negative s", ref.MarshalSig(x, sub(y, n))
	case ed25519.PrivateKey:
		g := primSign(r, a, k, msg)
		if r.Chance(1, 2) {
			// s + L
			l, _ := new(big.Int).SetString("7237005577332262213973186563042994240857116359379907606001950938285454250989", 10)
			s := make([]byte, 32)
			for i := range s {
				s[i] = g[63-i]
			}
			v := add(new(big.Int).SetBytes(s), l)
			v.FillBytes(s)
			for i := range s {
				g[63-i] = s[i]
			}
			return "s plus the order", g
		}
		return "prehashed", ed25519.Sign(p, digest(crypto.SHA512, msg))
	}
	return "", nil
}

func ecdsaOnSM2(r *Rng, d *big.Int, e []byte) []byte {
	k := r.Big(one, nm1)
	p := ref.BaseMul(k)
	x := modN(p.X)
	s := modN(mul(invN(k), add(new(big.Int).SetBytes(e), mul(x, d))))
	return ref.MarshalSig(x, s)
}

func c11Altered(t *T, i int) {
	k, a := genSigned(t.Rng)
	msg := t.Bytes(1 + t.Len(500))
	sig := primSign(t.Rng, a, k, msg)
	pub := k
	what := ""
	switch i % 9 {
	case 0:
		what = "genuine"
	case 1:
		what = "one bit of the message changed"
		msg = clone(msg)
		msg[t.IntN(len(msg))] ^= 1 << t.IntN(8)
	case 2:
		what = "one bit of the signature changed"
		sig[t.IntN(len(sig))] ^= 1 << t.IntN(8)
	case 3:
		what = "another key of the type"
		pub = genKey(t.Rng, k.kind)
	case 4:
		what = "a key of another type"
		pub = genSigner(t.Rng)
	case 5:
		what = "truncated or extended signature"
		if t.Chance(1, 2) {
			sig = sig[:t.IntN(len(sig))]
		} else {
			sig = append(sig, t.Bytes(1+t.IntN(3))...)
		}
	case 6, 7:
		if what, sig = nearSig(t.Rng, a, k, msg); what == "" {
			return
		}
	case 8:
		what = "extended or cut message"
		if t.Chance(1, 2) {
			msg = append(clone(msg), byte(t.IntN(256)))
		} else {
			msg = msg[:len(msg)-1]
		}
	}
	c := holder(t, pub)
	what = fmt.Sprintf("%s %s (%s key), checked with a %s key", a.name, what, k.kind, pub.kind)
	var err error
	t.guard(what, func() { err = c.CheckSignature(a.alg, msg, sig) })
	judge(t, what, err, a, true, genuine(a, pub.pub, msg, sig), false)
	t.Key("%x", sig)
	t.Cover(fmt.Sprintf("altered case %d", i%9))
}

// handParent is a parent certificate of any version and constraints; ok tells whether it may issue.
func handParent(t *T, k tkey) (c *mx.Certificate, ok bool, what string) {
	ok = true
	ver := pick(t.Rng, 3, 3, 3, 3, 1, 2)
	var exts [][]byte
	bc := t.IntN(4)
	ku := t.IntN(4)
	if ver == 3 {
		switch bc {
		case 0:
			ok, what = false, "no basic constraints"
		case 1:
			ok, what = false, "not a CA"
			exts = append(exts, extDER(ref.OID(2, 5, 29, 19), true, ref.TLV(0x30)))
		default:
			what = "CA"
			exts = append(exts, extDER(ref.OID(2, 5, 29, 19), t.Chance(1, 2), ref.TLV(0x30, []byte{1, 1, 255}, pick(t.Rng, nil, nil, ref.Int(bi(int64(t.IntN(4))))))))
		}
		switch ku {
		case 0:
			what += ", no key usage"
		case 1:
			what += ", key usage with certificate signing"
			exts = append(exts, extDER(ref.OID(2, 5, 29, 15), true, pick(t.Rng, ref.TLV(3, []byte{2, 4}), ref.TLV(3, []byte{1, 6}), ref.TLV(3, []byte{0, 0xff}), ref.TLV(3, []byte{7, 0xff, 0x80}))))
		case 2:
			what += ", key usage without certificate signing"
			ok = false
			exts = append(exts, extDER(ref.OID(2, 5, 29, 15), true, pick(t.Rng, ref.TLV(3, []byte{7, 0x80}), ref.TLV(3, []byte{1, 2}), ref.TLV(3, []byte{0, 0xfb}), ref.TLV(3, []byte{7, 0, 0x80}))))
		case 3:
			what += ", empty key usage"
			exts = append(exts, extDER(ref.OID(2, 5, 29, 15), true, ref.TLV(3, []byte{0})))
		}
		t.Shuffle(len(exts), func(i, j int) { exts[i], exts[j] = exts[j], exts[i] })
	} else {
		what = fmt.Sprintf("version %d", ver)
	}
	alg := ref.TLV(0x30, oidSM2WithSM3)
	val := ref.TLV(0x30, utcTime(time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)), utcTime(time.Date(2040, 1, 1, 0, 0, 0, 0, time.UTC)))
	var v, ex []byte
	if ver > 1 {
		v = ref.TLV(0xa0, ref.Int(bi(int64(ver-1))))
	}
	if len(exts) > 0 {
		ex = ref.TLV(0xa3, ref.TLV(0x30, exts...))
	}
	tbs := ref.TLV(0x30, v, ref.Int(bi(7)), alg, nameDER("parent"), val, nameDER("parent"), k.pubDER(), ex)
	der := ref.TLV(0x30, tbs, alg, ref.TLV(3, []byte{0}, t.Bytes(64)))
	c, err := mx.ParseCertificate(der)
	if err != nil {
		t.Failf("hand-made parent (%s): %v", what, err)
	}
	return
}

func c11Parents(t *T, i int) {
	k, a := genSigned(t.Rng)
	parent, ok, pwhat := handParent(t, k)
	sub := genKey(t.Rng, pick(t.Rng, "SM2", "P256"))
	spec := &certSpec{serial: genSerial(t.Rng), issuer: nameDER("parent"), subject: nameDER(pick(t.Rng, t.Name(6), "parent")), spki: sub.pubDER(), alg: a.oid, algParams: a.par,
		exts: [][]byte{extDER(ref.OID(1, 2, 3), false, t.Bytes(1+t.IntN(60)))}}
	what, wantLabel := "genuine", true
	signer, label := k, a
	switch t.IntN(8) {
	case 0:
		what = "signed by another key"
		signer = genKey(t.Rng, k.kind)
		if !fitPSS(a, signer) {
			return
		}
	case 1:
		what = "signed with another algorithm"
		for label = pick(t.Rng, algsFor(k)...); !fitPSS(label, k); label = pick(t.Rng, algsFor(k)...) {
		}
	case 2: // labelled as something else
		l := pick(t.Rng, append(append([]algInfo{}, algs...), otherAlgs...)...)
		what = "labelled " + l.name
		spec.alg, spec.algParams = l.oid, l.par
		a = l
		_, wantLabel = algOf(l.alg)
	case 3:
		what = "odd parameters"
		switch {
		case a.pss:
			h := [][]byte{ref.OID(2, 16, 840, 1, 101, 3, 4, 2, 1), ref.OID(2, 16, 840, 1, 101, 3, 4, 2, 2), ref.OID(1, 3, 14, 3, 2, 26)}[t.IntN(3)]
			spec.algParams = pick(t.Rng, nil, derNull, ref.TLV(0x30), pssPar(h, 20), pssPar(h, 33), pssPar(ref.OID(1, 3, 14, 3, 2, 26), 20))
			wantLabel = false
		case a.kind == "Ed25519":
			spec.algParams, wantLabel = derNull, false
		}
	}
	signed := 0
	spec.sign = func(tbs []byte) []byte { signed++; return primSign(t.Rng, label, signer, tbs) }
	der := spec.der()
	if t.Chance(1, 8) {
		what += ", then one bit of the signed part flipped"
		for {
			d := clone(der)
			v, _ := viewCert(d)
			// inside the extension value, so that it still parses
			p := v.ex[len(v.ex)-1:]
			p[0] ^= 1 << t.IntN(8)
			der = d
			break
		}
	}
	what = fmt.Sprintf("%s certificate (%s) under a %s parent (%s)", a.name, what, k.kind, pwhat)
	c, err := mx.ParseCertificate(der)
	if err != nil {
		t.Failf("%s: does not parse: %v", what, err)
	}
	if t.Chance(1, 4) { // the same parent as a structure
		p := *parent
		parent = &mx.Certificate{Version: p.Version, BasicConstraintsValid: p.BasicConstraintsValid, IsCA: p.IsCA, KeyUsage: p.KeyUsage, PublicKey: p.PublicKey, PublicKeyAlgorithm: p.PublicKeyAlgorithm}
	}
	t.guard(what, func() { err = c.CheckSignatureFrom(parent) })
	v, _ := viewCert(der)
	if !ok {
		t.Check(err != nil, "%s: accepted although the parent may not issue", what)
		t.Cover("parent may not issue")
		if wantLabel && genuine(a, k.pub, v.tbs, v.sig) {
			var cv mx.ConstraintViolationError
			t.Check(errors.As(err, &cv), "%s: error is %v, not ConstraintViolationError", what, err)
		}
	} else {
		judge(t, what, err, a, wantLabel, wantLabel && genuine(a, k.pub, v.tbs, v.sig), true)
	}
	t.Key("%x", der)
}

// c11Self: certificates that name themselves as issuer, checked with themselves, with another of the same key, or of another key.
func c11Self(t *T, i int) {
	k, a := genSigned(t.Rng)
	if i%4 == 0 { // the algorithms that are refused
		a = pick(t.Rng, algsFor(k)...)
		if !fitPSS(a, k) {
			return
		}
	}
	name := nameDER(t.Name(1 + t.IntN(6)))
	spec := func(key, signer tkey) *certSpec {
		return &certSpec{serial: genSerial(t.Rng), issuer: name, subject: name, spki: key.pubDER(), alg: a.oid, algParams: a.par,
			exts: [][]byte{extDER(ref.OID(2, 5, 29, 19), true, ref.TLV(0x30, []byte{1, 1, 255}))},
			sign: func(tbs []byte) []byte { return primSign(t.Rng, a, signer, tbs) }}
	}
	der := spec(k, k).der()
	c, err := mx.ParseCertificate(der)
	t.noErr("self-signed certificate", err)
	parent, what, want := c, "itself", true
	switch t.IntN(3) {
	case 0:
		what = "another certificate of its key and name"
		parent, err = mx.ParseCertificate(spec(k, k).der())
		t.noErr("self-signed certificate", err)
	case 1:
		what = "a certificate of its name and another key"
		o := genKey(t.Rng, k.kind)
		if !fitPSS(a, o) || samePub(o.pub, k.pub) {
			return
		}
		parent, err = mx.ParseCertificate(spec(o, o).der())
		t.noErr("self-signed certificate", err)
		want = false
	}
	what = fmt.Sprintf("%s certificate that names itself as issuer, checked with %s", a.name, what)
	t.guard(what, func() { err = c.CheckSignatureFrom(parent) })
	judge(t, what, err, a, true, want, true)
	t.Key("%x", der)
	t.Cover(fmt.Sprintf("self-issued, accepted %v", err == nil))
}

// signed3 is the outer frame of certificates, requests and lists.
func signed3(tbs, alg, sig []byte) []byte {
	return ref.TLV(0x30, tbs, alg, ref.TLV(3, []byte{0}, sig))
}

func handCSR(r *Rng, k tkey) []byte {
	return ref.TLV(0x30, ref.Int(bi(0)), nameDER(r.Name(8)), k.pubDER(), ref.TLV(0xa0, ref.TLV(0x30, ref.OID(1, 2, 840, 113549, 1, 9, 7), ref.TLV(0x31, ref.TLV(12, []byte(r.Name(10)))))))
}

func handCRL(r *Rng, alg []byte) []byte {
	now := utcTime(time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC))
	var rev [][]byte
	for n := 1 + r.IntN(4); n > 0; n-- {
		rev = append(rev, ref.TLV(0x30, ref.Int(genSerial(r)), now))
	}
	return ref.TLV(0x30, ref.Int(bi(1)), alg, nameDER("issuer"), now, now, ref.TLV(0x30, rev...))
}

func c11Requests(t *T, i int) {
	k, a := genSigned(t.Rng)
	label := a
	if t.Chance(1, 5) {
		label = pick(t.Rng, algs...)
	}
	isCRL := i%2 == 0
	var tbs []byte
	kind := "request"
	if isCRL {
		kind, tbs = "list", handCRL(t.Rng, label.id())
	} else {
		tbs = handCSR(t.Rng, k)
	}
	signer := k
	what := "genuine"
	toSign := tbs
	switch t.IntN(5) {
	case 0:
		what = "signed by another key"
		signer = genKey(t.Rng, k.kind)
		if !fitPSS(a, signer) {
			return
		}
	case 1:
		what = "altered after signing"
		toSign = clone(tbs)
		toSign[len(toSign)-1] ^= 1
	}
	sig := primSign(t.Rng, a, signer, toSign)
	der := signed3(tbs, label.id(), sig)
	what = fmt.Sprintf("%s signed %s by a %s key, labelled %s (%s)", a.name, kind, k.kind, label.name, what)
	var err error
	if isCRL {
		crl, perr := mx.ParseCRL(der)
		t.noErr(what+": parse", perr)
		c := holder(t, k)
		t.guard(what, func() { err = c.CheckCRLSignature(crl) })
	} else {
		csr, perr := mx.ParseCertificateRequest(der)
		t.noErr(what+": parse", perr)
		t.guard(what, func() { err = csr.CheckSignature() })
	}
	judge(t, what, err, label, true, genuine(label, k.pub, tbs, sig), false)
	t.Key("%x", der)
	t.Cover(kind)
}

// labelOf reads an algorithm identifier.
func labelOf(id []byte) (algInfo, bool) {
	for _, a := range algs {
		if bytes.Equal(a.id(), id) {
			return a, true
		}
	}
	// parameters differ from the usual: the object identifier decides
	p := elems(id)
	if len(p) == 0 {
		return algInfo{}, false
	}
	for _, a := range algs {
		if !bytes.Equal(a.oid, p[0]) {
			continue
		}
		if !a.pss {
			return a, true
		}
		if len(p) > 1 && bytes.Equal(pssCore(p[1]), pssCore(a.par)) {
			return a, true
		}
		// encoding/asn1 does not look at the lengths of explicit tags
		if len(p) > 1 && bytes.Count(p[1], split(body(split(body(split(body(a.par))[0]))[0]))[0]) >= 2 && bytes.Contains(p[1], split(body(a.par))[2][2:]) {
			return a, true
		}
	}
	return algInfo{}, false
}

// pssCore is what the parameters say: hash, mask hash and salt length, whatever follows them.
func pssCore(par []byte) (out []byte) {
	f := elems(par)
	if len(f) < 3 {
		return nil
	}
	first := func(b []byte) []byte {
		if e := split(body(b)); len(e) > 0 {
			return e[0]
		}
		return nil
	}
	mgf := split(body(first(f[1])))
	if len(mgf) < 2 {
		return nil
	}
	return cat(first(first(f[0])), mgf[0], first(mgf[1]), first(f[2]))
}

// c11Storm mutates signed structures: whatever is accepted must be genuine.
func c11Storm(t *T, i int) {
	k, a := genSigned(t.Rng)
	for a.md5() || a.sha1() {
		k, a = genSigned(t.Rng)
	}
	var der []byte
	kind := i % 3
	switch kind {
	case 0:
		spec := &certSpec{serial: genSerial(t.Rng), issuer: nameDER("parent"), subject: nameDER(t.Name(6)), spki: standIn, alg: a.oid, algParams: a.par, exts: [][]byte{extDER(ref.OID(1, 2, 3), false, t.Bytes(9))},
			sign: func(tbs []byte) []byte { return primSign(t.Rng, a, k, tbs) }}
		der = spec.der()
	case 1:
		tbs := handCSR(t.Rng, k)
		der = signed3(tbs, a.id(), primSign(t.Rng, a, k, tbs))
	case 2:
		tbs := handCRL(t.Rng, a.id())
		der = signed3(tbs, a.id(), primSign(t.Rng, a, k, tbs))
	}
	for round := 0; round < 6; round++ {
		in, how := mutate(t.Rng, der, nil)
		if round == 0 {
			in, how = der, "nothing"
		} else if t.Chance(1, 3) { // single bits, signature and label favoured
			in, how = clone(der), "one bit"
			j := len(in) - 1 - t.IntN(min(len(in), 150))
			in[j] ^= 1 << t.IntN(8)
		}
		var err error
		var tbs []byte
		var sig []byte
		pub := k.pub
		switch kind {
		case 0:
			c, perr := mx.ParseCertificate(in)
			if perr != nil {
				continue
			}
			parent := &mx.Certificate{Version: 3, BasicConstraintsValid: true, IsCA: true, PublicKey: k.pub, PublicKeyAlgorithm: mx.RSA}
			err = c.CheckSignatureFrom(parent)
		case 1:
			c, perr := mx.ParseCertificateRequest(in)
			if perr != nil {
				continue
			}
			pub = c.PublicKey
			err = c.CheckSignature()
		case 2:
			c, perr := mx.ParseDERCRL(in)
			if perr != nil {
				continue
			}
			err = holder(t, k).CheckCRLSignature(c)
		}
		t.Evalf()
		if err != nil {
			t.Check(round > 0, "%s genuine structure refused: %v", a.name, err)
			t.Cover("mutated and refused by the signature check")
			t.Key("%x", in)
			continue
		}
		top := elems(in)
		t.Check(len(top) >= 3, "accepted a structure without signature: %s", hx(in))
		tbs = top[0]
		sig = rightAlign(body(top[2])[1:], elemUnused(in))
		l, known := labelOf(top[1])
		t.Check(known && !l.md5(), "%s: accepted with algorithm %s after a mutation (%s)", a.name, hx(top[1]), how)
		t.Check(genuine(l, pub, tbs, sig), "%s: accepted after a mutation (%s), but not genuine: %s", a.name, how, hx(in))
		if round > 0 {
			t.Cover("mutated but still genuine")
		} else {
			t.Cover("genuine accepted " + a.name)
		}
	}
}

// c11OddKeys: keys the checks cannot know.
func c11OddKeys(t *T, i int) {
	msg := t.Bytes(40)
	var pub any
	what := ""
	var sig []byte
	l := pick(t.Rng, algs...)
	switch i % 7 {
	case 0:
		what = "no key"
	case 1:
		what, pub = "DSA key", &dsa.PublicKey{Parameters: dsa.Parameters{P: bi(23), Q: bi(11), G: bi(4)}, Y: bi(9)}
		l = pick(t.Rng, append([]algInfo{{alg: mx.DSAWithSHA1, name: "DSA"}, {alg: mx.DSAWithSHA256, name: "DSA"}}, l)...)
	case 2:
		what, pub = "a string", "key"
	case 3: // an SM2 key type on another curve
		d := t.Big(one, bi(1<<60))
		k := ecdsaKey(elliptic.P256(), d)
		what, pub = "SM2 key type on P-256", &sm2.PublicKey{Curve: elliptic.P256(), X: k.X, Y: k.Y}
		sig, _ = ecdsa.SignASN1(rand.Reader, k, digest(crypto.SHA256, msg))
	case 4:
		k := genKey(t.Rng, "RSA small")
		what, pub = "RSA key by value", *k.pub.(*rsa.PublicKey)
		l, _ = algOf(mx.SHA256WithRSA)
		sig = primSign(t.Rng, l, k, msg)
	case 5:
		what, pub = "bytes", t.Bytes(32)
	case 6: // as parent, with an algorithm the parser does not know
		c := &mx.Certificate{SignatureAlgorithm: l.alg, RawTBSCertificate: msg, Signature: t.Bytes(64)}
		p := &mx.Certificate{Version: 3, BasicConstraintsValid: true, IsCA: true, PublicKeyAlgorithm: mx.UnknownPublicKeyAlgorithm}
		t.wantErr("parent of unknown key type", c.CheckSignatureFrom(p))
		t.Key("parent %s", l.name)
		return
	}
	if sig == nil {
		sig = t.Bytes(64)
	}
	c := &mx.Certificate{PublicKey: pub}
	var err error
	t.guard(what, func() { err = c.CheckSignature(l.alg, msg, sig) })
	t.Check(err != nil, "%s: %s signature accepted", what, l.name)
	t.Key("%s %s", what, l.name)
	t.Cover("odd key: " + what)
	crl := &pkix.CertificateList{}
	t.wantErr(what+": empty revocation list", c.CheckCRLSignature(crl))
}
