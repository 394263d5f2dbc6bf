package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/elliptic"
	"encoding/asn1"
	"errors"
	"fmt"
	"math/big"
	"time"

	"mon/ref"

	"github.com/mmdet/mcrypto/sm2"
	mx "github.com/mmdet/mcrypto/x509"
)

func init() {
	register(&Prop{
		ID: "C13",
		Rule: "SignedData made with keys and callbacks over contents of every size class and certificates of many shapes, read by an independent reader, its digest and signature checked by the reference, then parsed and verified by the library; " +
			"unsupported keys, failing and lying random sources and callbacks. Non-trivial: a message was made and judged, or a failure reported as such",
		Groups: []Group{
			{Name: "key", N: [2]int{2500, 60000}, Fn: func(t *T, i int) { c13Make(t, i, false) }},
			{Name: "callback", N: [2]int{2500, 60000}, Fn: func(t *T, i int) { c13Make(t, i, true) }},
			{Name: "failure", N: [2]int{1500, 20000}, Fn: c13Fail},
			{Name: "large", N: [2]int{6, 40}, Fn: c13Large},
		},
	})
	register(&Prop{
		ID: "C14",
		Rule: "messages assembled without the library (one to four signers, with and without attributes, odd but legal forms, decoy certificates), altered in one respect, mutated as DER, or changed after parsing: Verify must succeed exactly for the genuine ones; " +
			"whatever verifies must satisfy the reference. Non-trivial: a message that parsed was judged",
		Groups: []Group{
			{Name: "genuine", N: [2]int{500, 30000}, Fn: c14Genuine},
			{Name: "altered", N: [2]int{2300, 120000}, Fn: c14Altered},
			{Name: "storm", N: [2]int{1000, 60000}, Fn: c14Storm},
			{Name: "after parsing", N: [2]int{500, 30000}, Fn: c14Fields},
			{Name: "bits", N: [2]int{10, 400}, Fn: c14Bits},
		},
	})
}

// ---- C13

func c13Content(t *T) []byte {
	switch t.IntN(8) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2: // looks like DER
		return pick(t.Rng, ref.TLV(4, t.Bytes(5)), ref.TLV(0x24, ref.TLV(4, t.Bytes(5))), ref.TLV(0x30, oidGMSignedData, ref.TLV(0xa0)), []byte{4}, []byte{0x24, 0x80, 0, 0}, ref.TLV(0x31, stdAttrs(nil)...))
	case 3:
		return t.Bytes(pick(t.Rng, 1, 127, 128, 255, 256, 257, 65535, 65536, 65537))
	}
	return t.Bytes(t.Len(5000))
}

// checkSD judges a message made by the library.
func checkSD(t *T, what string, der, content []byte, c *sdCert, from, to time.Time) *sdSpec {
	s, err := readSD(der)
	if err != nil {
		t.Failf("%s: independent reader: %v: %s", what, err, hx(der))
	}
	t.mustEq(what+": content in the message", s.content, content)
	t.Check(len(s.certs) == 1 && bytes.Equal(s.certs[0], c.der), "%s: certificates in the message are not exactly the signer's", what)
	t.Check(len(s.signers) == 1, "%s: %d signers", what, len(s.signers))
	g := s.signers[0]
	t.mustEq(what+": signer's issuer", g.issuer, c.c.RawIssuer)
	t.Check(g.serial.Cmp(c.c.SerialNumber) == 0, "%s: signer's serial %v, want %v", what, g.serial, c.c.SerialNumber)
	v, err := attrValue(g.attrs, oidAttrType)
	t.noErr(what+": content type attribute", err)
	t.mustEq(what+": content type attribute", v, oidGMData)
	v, err = attrValue(g.attrs, oidAttrDigest)
	t.noErr(what+": digest attribute", err)
	t.mustEq(what+": digest attribute", v, ref.TLV(4, ref.SM3(content)))
	v, err = attrValue(g.attrs, oidAttrTime)
	t.noErr(what+": signing time attribute", err)
	var tm time.Time
	_, err = asn1.Unmarshal(v, &tm)
	t.noErr(what+": signing time", err)
	t.Check(!tm.Before(from.Truncate(time.Second)) && !tm.After(to), "%s: signing time %v, was made between %v and %v", what, tm, from, to)
	sorted := sortSet(g.attrs)
	for i := range sorted {
		t.mustEq(what+": attributes in DER order", g.attrs[i], sorted[i])
	}

	p, err := mx.ParsePKCS7(clone(der))
	if err != nil {
		t.Failf("%s: does not parse: %v: %s", what, err, hx(der))
	}
	t.mustEq(what+": parsed content", p.Content, content)
	t.Check(len(p.Certificates) == 1 && p.Certificates[0].Equal(c.c), "%s: parsed certificates", what)
	t.Check(len(p.Signers) == 1, "%s: %d signers parsed", what, len(p.Signers))
	t.Check(len(p.CRLs) == 0, "%s: %d revocation lists parsed", what, len(p.CRLs))
	o := p.GetOnlySigner()
	t.Check(o != nil && o.Equal(c.c), "%s: GetOnlySigner is not the signer's certificate", what)
	var dig []byte
	t.noErr(what+": digest attribute", p.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 4}, &dig))
	t.mustEq(what+": digest attribute by the library", dig, ref.SM3(content))
	var tm2 time.Time
	t.noErr(what+": time attribute", p.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 5}, &tm2))
	t.Check(tm2.Equal(tm), "%s: signing time by the library %v, want %v", what, tm2, tm)
	var ct asn1.ObjectIdentifier
	t.noErr(what+": type attribute", p.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 3}, &ct))
	t.Check(ct.Equal(asn1.ObjectIdentifier{1, 2, 156, 10197, 6, 1, 4, 2, 1}), "%s: content type %v", what, ct)
	t.wantErr(what+": attribute that is not there", p.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 3}, &ct))
	return s
}

func c13Make(t *T, i int, cb bool) {
	c := genSDCert(t)
	content := c13Content(t)
	what := fmt.Sprintf("content of %d bytes", len(content))
	keep := clone(content)
	from := time.Now()
	var der, seen, given []byte
	calls := 0
	var err error
	lying := cb && i%5 == 0
	wipes := cb && i%4 == 1
	t.guard(what, func() {
		if cb {
			der, err = mx.NewSignedDataCallBack(c.c, func(b []byte) ([]byte, error) {
				calls++
				seen = clone(b)
				given = refSign(t.Rng, c.key.D, refPub(&c.key.PublicKey), b)
				if lying {
					given = pick(t.Rng, nil, t.Bytes(70), refSign(t.Rng, c.key.D, refPub(&c.key.PublicKey), keep), given[:len(given)-1])
				}
				if wipes { // the owner of the callback uses the buffer for something else
					for n := range b {
						b[n] = byte(t.IntN(256))
					}
				}
				return clone(given), nil
			}, content)
		} else {
			der, err = mx.NewSignedData(c.c, c.key, content)
		}
	})
	t.noErr(what, err)
	s := checkSD(t, what, der, keep, c, from, time.Now())
	g := s.signers[0]
	set := ref.TLV(0x31, g.attrs...)
	p, _ := mx.ParsePKCS7(der)
	if cb {
		t.Check(calls == 1, "%s: the callback was called %d times", what, calls)
		t.mustEq(what+": bytes given to the callback", seen, set)
		t.mustEq(what+": signature in the message", g.sig, given)
		t.Cover("callback")
	}
	if lying {
		t.wantErr(what+": callback returned a false signature, Verify", p.Verify())
		t.Cover("false signature from the callback")
	} else {
		t.Check(ref.VerifyDER(refPub(&c.key.PublicKey), set, nil, g.sig), "%s: the signature is not genuine over the SET of attributes", what)
		t.noErr(what+": Verify", p.Verify())
	}
	if !cb { // again: a fresh signature
		der2, err := mx.NewSignedData(c.c, c.key, content)
		t.noErr(what, err)
		s2 := checkSD(t, what+", again", der2, keep, c, from, time.Now())
		t.Check(!bytes.Equal(s2.signers[0].sig, g.sig), "%s: two messages carry the same signature", what)
		r1, _, _ := ref.ParseSig(g.sig)
		r2, _, _ := ref.ParseSig(s2.signers[0].sig)
		t.Check(!eqInt(r1, r2), "%s: two signatures share r", what)
	}
	t.Key("%x", der)
	t.Sample("%s, certificate of %d bytes, message of %d", what, len(c.der), len(der))
}

func c13Large(t *T, i int) {
	c := genSDCert(t)
	content := t.Bytes(1<<uint(18+i%6) + i)
	from := time.Now()
	der, err := mx.NewSignedData(c.c, c.key, content)
	t.noErr("large content", err)
	checkSD(t, fmt.Sprintf("content of %d bytes", len(content)), der, content, c, from, time.Now())
	p, _ := mx.ParsePKCS7(der)
	t.noErr("Verify", p.Verify())
	p.Content[t.IntN(len(content))] ^= 1
	t.wantErr("Verify with one bit of the content changed", p.Verify())
	t.Key("%d", len(content))
}

func c13Fail(t *T, i int) {
	c := genSDCert(t)
	content := c13Content(t)
	var der []byte
	var err error
	what := ""
	switch i % 5 {
	case 0:
		k := genKey(t.Rng, pick(t.Rng, "P256", "RSA small", "Ed25519"))
		key := pick(t.Rng, k.priv, any(nil), any("key"), any(*c.key), any(&c.key.PublicKey), any(c.key.D), any(sm2Signer{c.key}), any(&ecdsa.PrivateKey{PublicKey: ecdsa.PublicKey{Curve: elliptic.P256()}}))
		what = fmt.Sprintf("key of type %T", key)
		t.guard(what, func() { der, err = mx.NewSignedData(c.c, key, content) })
	case 1, 2:
		s := newSrc(t, t.sys)
		s.failAt = t.IntN(40)
		s.err = errors.New("source failed " + t.Name(4))
		if t.Chance(1, 2) {
			s.short = 1 + t.IntN(7)
		}
		what = fmt.Sprintf("random source fails after %d bytes", s.failAt)
		t.WithSysRand(s.Read, func() {
			t.guard(what, func() { der, err = mx.NewSignedData(c.c, c.key, content) })
		})
		if !s.failed { // never got that far
			t.noErr(what, err)
			return
		}
		t.Check(errors.Is(err, s.err), "%s: the error is %v, not the source's", what, err)
	case 3, 4:
		e := errors.New("callback failed " + t.Name(4))
		what = "callback fails"
		some := pick(t.Rng, nil, t.Bytes(70))
		t.guard(what, func() {
			der, err = mx.NewSignedDataCallBack(c.c, func(b []byte) ([]byte, error) { return some, e }, content)
		})
		t.Check(errors.Is(err, e), "%s: the error is %v, not the callback's", what, err)
	}
	t.Check(err != nil, "%s: no error", what)
	t.Check(len(der) == 0, "%s: a message of %d bytes along with the error %v", what, len(der), err)
	t.Key("%s %d", what, i)
	t.Cover("failure: " + what[:min(len(what), 22)])
}

// ---- C14

// genSD assembles a genuine message.
func genSD(t *T, maxSigners int) (*sdSpec, []*sdCert) {
	s := &sdSpec{content: c13Content(t)}
	n := 1 + t.IntN(maxSigners)
	if t.Chance(1, 2) {
		n = 1
	}
	var certs []*sdCert
	issuer := t.Name(6)
	for len(certs) < n {
		d, _ := genD(t.Rng)
		serial := genSerial(t.Rng)
		name := issuer
		if len(certs) > 0 {
			switch t.IntN(4) {
			case 0: // same issuer, near serial
				serial = add(certs[0].serial, bi(int64(len(certs))))
			case 1: // same serial, other issuer
				serial, name = certs[0].serial, t.Name(7)
			}
		}
		dup := false
		for _, c := range certs {
			dup = dup || (c.serial.Cmp(serial) == 0 && bytes.Equal(c.issuer, nameDER(name)))
		}
		if dup {
			continue
		}
		certs = append(certs, newSDCert(t, newSM2(d), name, serial))
	}
	plain := t.Chance(1, 4)
	for _, c := range certs {
		var at [][]byte
		if !plain {
			at = stdAttrs(s.content)
			for t.Chance(1, 3) {
				at = append(at, attr(oidDER(t.Rng), pick(t.Rng, ref.TLV(4, t.Bytes(t.IntN(200))), ref.TLV(0x30), ref.TLV(12, []byte(t.Name(3))))))
			}
			if t.Chance(1, 6) { // long values, many attributes
				at = append(at, attr(oidDER(t.Rng), ref.TLV(4, t.Bytes(pick(t.Rng, 120, 128, 200, 255, 256, 1000, 65400, 65536, 70000)))))
				for n := pick(t.Rng, 0, 1, 20, 100); n > 0; n-- {
					at = append(at, attr(oidDER(t.Rng), cat(sortSet([][]byte{ref.TLV(4, t.Bytes(t.IntN(9))), ref.Int(bi(int64(n)))})...)))
				}
			}
			at = sortSet(at)
		}
		s.signers = append(s.signers, c.signer(t.Rng, s.content, at))
		s.certs = append(s.certs, c.der)
	}
	t.Shuffle(len(s.certs), func(i, j int) { s.certs[i], s.certs[j] = s.certs[j], s.certs[i] })
	for t.Chance(1, 3) { // certificates of others
		d := genSDCert(t).der
		if t.Chance(1, 3) {
			d = certFor(t.Rng, genKey(t.Rng, pick(t.Rng, "P256", "Ed25519", "RSA small")), 5)
		}
		at := t.IntN(len(s.certs) + 1)
		s.certs = append(s.certs[:at:at], append([][]byte{d}, s.certs[at:]...)...)
	}
	if t.Chance(1, 5) {
		alg := ref.TLV(0x30, oidSM2WithSM3)
		s.crls = ref.TLV(0xa1, signed3(handCRL(t.Rng, alg), alg, t.Bytes(70)))
	}
	if t.Chance(1, 6) {
		s.signers[0].unauth = ref.TLV(0xa1, attr(oidDER(t.Rng), ref.TLV(4, t.Bytes(5))))
	}
	return s, certs
}

func oidDER(r *Rng) []byte { return ref.OID(1, 2, r.IntN(30), 77, r.IntN(1000)) }

// verdict parses and verifies, and checks that what is accepted is genuine.
func verdict(t *T, what string, der []byte) (p *mx.PKCS7, perr, verr error) {
	t.guard(what, func() { p, perr = mx.ParsePKCS7(clone(der)) })
	if perr != nil {
		t.Check(p == nil, "%s: a message along with the error %v", what, perr)
		return nil, perr, perr
	}
	t.guard(what, func() { verr = p.Verify() })
	if verr == nil {
		why := p7Genuine(p)
		t.Check(why == "", "%s: verified, but %s: %s", what, why, hx(der))
	} else {
		t.Evalf()
	}
	if verr == nil || t.Chance(1, 8) {
		var again error
		t.guard(what, func() { again = p.Verify() })
		t.Check((again == nil) == (verr == nil), "%s: Verify says %v, then %v", what, verr, again)
	}
	return
}

func c14Genuine(t *T, i int) {
	s, certs := genSD(t, 4)
	der := s.der()
	what := fmt.Sprintf("genuine message, %d signers, %d certificates, attributes %v", len(s.signers), len(s.certs), s.signers[0].attrs != nil)
	p, perr, verr := verdict(t, what, der)
	t.noErr(what+": parse: "+hx(der), perr)
	t.noErr(what+": Verify: "+hx(der), verr)
	t.mustEq(what+": content", p.Content, s.content)
	t.Check(len(p.Certificates) == len(s.certs), "%s: %d certificates", what, len(p.Certificates))
	for j, c := range p.Certificates {
		t.mustEq(what+": certificate", c.Raw, s.certs[j])
	}
	t.Check(len(p.Signers) == len(s.signers), "%s: %d signers", what, len(p.Signers))
	for j, g := range p.Signers {
		t.mustEq(what+": signature", g.EncryptedDigest, s.signers[j].sig)
		t.Check(len(g.AuthenticatedAttributes) == len(s.signers[j].attrs), "%s: %d attributes", what, len(g.AuthenticatedAttributes))
		t.Check(g.IssuerAndSerialNumber.SerialNumber.Cmp(s.signers[j].serial) == 0 && bytes.Equal(g.IssuerAndSerialNumber.IssuerName.FullBytes, s.signers[j].issuer), "%s: signer identity", what)
	}
	t.Check((len(p.CRLs) == 1) == (s.crls != nil), "%s: %d revocation lists", what, len(p.CRLs))
	o := p.GetOnlySigner()
	if len(s.signers) == 1 {
		t.Check(o != nil && bytes.Equal(o.Raw, certs[0].der), "%s: GetOnlySigner", what)
	} else {
		t.Check(o == nil, "%s: GetOnlySigner names one of several", what)
	}
	t.Cover(fmt.Sprintf("genuine, %d signers, attributes %v", len(s.signers), s.signers[0].attrs != nil))
	t.Key("%x", der)
}

// c14Altered makes one thing false and expects a refusal.
func c14Altered(t *T, i int) {
	s, certs := genSD(t, 3)
	j := t.IntN(len(s.signers))
	g := &s.signers[j]
	c := certs[j]
	pt := refPub(&c.key.PublicKey)
	what := ""
	resign := func() { *g = c.signer(t.Rng, s.content, g.attrs) }
	withAttrs := func() {
		if g.attrs == nil {
			g.attrs = stdAttrs(s.content)
			resign()
		}
	}
	signOver := func(b []byte) { g.sig = refSign(t.Rng, c.key.D, pt, b) }
	setDigest := func(d []byte) { // signed, but false
		var at [][]byte
		for _, a := range g.attrs {
			if !bytes.Equal(elems(a)[0], oidAttrDigest) {
				at = append(at, a)
			}
		}
		g.attrs = sortSet(append(at, digestAttr(d)))
		resign()
	}
	certOf := func() int { // index of the signer's certificate
		for k, d := range s.certs {
			if bytes.Equal(d, c.der) {
				return k
			}
		}
		return 0
	}
	strangers := func() *sdCert {
		return newSDCert(t, newSM2(t.Big(new(big.Int).Rsh(ref.N, 2), nm2)), t.Name(8), genSerial(t.Rng))
	}
	switch i % 35 {
	case 0:
		what = "content changed"
		s.content = append(clone(s.content), byte(t.IntN(256)))
	case 1:
		what = "one bit of the content changed"
		if len(s.content) == 0 {
			return
		}
		s.content = clone(s.content)
		s.content[t.IntN(len(s.content))] ^= 1 << t.IntN(8)
	case 2:
		what = "content cut"
		if len(s.content) == 0 {
			return
		}
		s.content = s.content[:t.IntN(len(s.content))]
	case 3:
		what = "no content"
		if len(s.content) == 0 {
			return
		}
		s.noContent = true
	case 4:
		what = "no signers"
		s.signers = nil
	case 5:
		what = "no certificates"
		s.certs = nil
	case 6:
		what = "certificate of the signer removed"
		k := certOf()
		s.certs = append(s.certs[:k:k], s.certs[k+1:]...)
		if len(s.certs) == 0 {
			s.certs = [][]byte{strangers().der}
		}
	case 7:
		what = "serial of the signer changed"
		for was := g.serial; g.serial.Cmp(was) == 0; {
			g.serial = pick(t.Rng, add(was, one), sub(was, one), new(big.Int).Neg(was), add(was, new(big.Int).Lsh(one, uint(8*len(was.Bytes())))), bi(0))
		}
	case 8:
		what = "issuer of the signer changed"
		g.issuer = pick(t.Rng, nameDER("nobody here"), ref.TLV(0x30), cat(g.issuer[:len(g.issuer)-1], []byte{g.issuer[len(g.issuer)-1] ^ 1}), cat(g.issuer[:len(g.issuer)-1], []byte{g.issuer[len(g.issuer)-1] ^ 0x20}), nameDER(string(body(split(body(split(body(split(body(g.issuer))[0]))[0]))[1]))+" "))
	case 9:
		what = "issuer and serial of another certificate"
		o := strangers()
		s.certs = append(s.certs, o.der)
		g.issuer, g.serial = o.issuer, o.serial
	case 10:
		what = "key in the certificate replaced"
		o := strangers()
		k := certOf()
		s.certs[k] = transplant(s.certs[k], pkixSM2(refPub(&o.key.PublicKey)))
	case 11:
		what = "certificate with another type of key"
		k := certOf()
		o := genKey(t.Rng, pick(t.Rng, "P256", "Ed25519", "RSA small"))
		s.certs[k] = transplant(s.certs[k], o.pubDER())
		if p, ok := o.priv.(*ecdsa.PrivateKey); ok { // signed with that key
			m := s.content
			if g.attrs != nil {
				m = ref.TLV(0x31, g.attrs...)
			}
			g.sig, _ = ecdsa.SignASN1(t.sys, p, ref.SM3(m))
		}
	case 12:
		what = "one bit of the signature changed"
		g.sig = clone(g.sig)
		g.sig[t.IntN(len(g.sig))] ^= 1 << t.IntN(8)
	case 13:
		what = "signature empty, cut or extended"
		g.sig = pick(t.Rng, nil, g.sig[:t.IntN(len(g.sig))], append(clone(g.sig), t.Bytes(1+t.IntN(3))...), ref.MarshalSig(bi(0), bi(0)), ref.MarshalSig(ref.N, ref.N))
	case 14:
		what = "signature by another key"
		o := strangers()
		m := s.content
		if g.attrs != nil {
			m = ref.TLV(0x31, g.attrs...)
		}
		g.sig = refSign(t.Rng, o.key.D, refPub(&o.key.PublicKey), m)
	case 15:
		what = "attribute changed after signing"
		withAttrs()
		k := t.IntN(len(g.attrs))
		a := clone(g.attrs[k])
		a[len(a)-1] ^= 1 << t.IntN(8)
		g.attrs[k] = a
	case 16:
		what = "attribute added after signing"
		withAttrs()
		g.attrs = sortSet(append(g.attrs, attr(oidDER(t.Rng), ref.TLV(4, t.Bytes(4)))))
	case 17:
		what = "attribute removed after signing"
		withAttrs()
		k := t.IntN(len(g.attrs))
		g.attrs = append(append([][]byte{}, g.attrs[:k]...), g.attrs[k+1:]...)
	case 18:
		what = "attributes removed altogether"
		withAttrs()
		g.attrs, g.emptySet = nil, t.Chance(1, 2)
	case 19:
		what = "attributes added to a signature over the content"
		g.attrs = nil
		resign()
		g.attrs = stdAttrs(s.content)
	case 20:
		what = "signed digest attribute of other content"
		withAttrs()
		d := ref.SM3(s.content)
		setDigest(pick(t.Rng, ref.SM3(append(clone(s.content), 0)), ref.SM3(ref.TLV(4, s.content)), digest(5, s.content), d[:31], append(clone(d), 0), nil, make([]byte, 32), ref.SM3(nil), ref.SM3(d), d[1:], d[:16]))
		if v, _ := attrValue(g.attrs, oidAttrDigest); bytes.Equal(v, ref.TLV(4, d)) {
			return
		}
	case 21:
		what = "no digest attribute"
		withAttrs()
		var at [][]byte
		for _, a := range g.attrs {
			if !bytes.Equal(elems(a)[0], oidAttrDigest) {
				at = append(at, a)
			}
		}
		g.attrs = at
		resign()
	case 22:
		what = "digest attribute of another type"
		withAttrs()
		var at [][]byte
		for _, a := range g.attrs {
			if !bytes.Equal(elems(a)[0], oidAttrDigest) {
				at = append(at, a)
			}
		}
		d := ref.SM3(s.content)
		g.attrs = sortSet(append(at, attr(oidAttrDigest, pick(t.Rng, ref.TLV(12, d), ref.TLV(3, []byte{0}, d), ref.TLV(0x24, ref.TLV(4, d)), ref.TLV(0x30, ref.TLV(4, d)), nil))))
		resign()
	case 23:
		what = "signature over the tagged attributes"
		withAttrs()
		signOver(ref.TLV(0xa0, g.attrs...))
	case 24:
		what = "signature over the attributes without their tag, or over their digest"
		withAttrs()
		signOver(pick(t.Rng, cat(g.attrs...), ref.SM3(ref.TLV(0x31, g.attrs...)), ref.TLV(0x30, g.attrs...)))
	case 25:
		what = "signature over the content although there are attributes"
		withAttrs()
		signOver(s.content)
	case 26:
		what = "signature over the digest of the content"
		g.attrs = nil
		signOver(pick(t.Rng, ref.SM3(s.content), ref.TLV(4, s.content), append(clone(s.content), 0)))
	case 27:
		what = "signature for another user id"
		m := s.content
		if g.attrs != nil {
			m = ref.TLV(0x31, g.attrs...)
		}
		e, _ := ref.MsgDigest(pt.X, pt.Y, m, []byte("1234567812345679"))
		g.sig = refSignDigest(t.Rng, c.key.D, e)
	case 28:
		what = "an extra signer nobody vouches for"
		o := strangers()
		x := o.signer(t.Rng, s.content, g.attrs)
		if t.Chance(1, 2) { // claims to be a certificate that is there
			x.issuer, x.serial = c.issuer, c.serial
		}
		k := t.IntN(len(s.signers) + 1)
		s.signers = append(s.signers[:k:k], append([]sdSigner{x}, s.signers[k:]...)...)
	case 29:
		what = "signature moved from another signer"
		o := strangers()
		s.certs = append(s.certs, o.der)
		x := o.signer(t.Rng, s.content, g.attrs)
		x.sig = g.sig
		s.signers = append(s.signers, x)
	case 30:
		what = "signature and attributes of another message"
		other, oc := genSD(t, 1)
		if bytes.Equal(other.content, s.content) {
			return
		}
		_ = oc
		at := stdAttrs(other.content)
		x := c.signer(t.Rng, other.content, at)
		*g = x
	case 31, 32, 33, 34:
		// what is not signed says nothing
		withAttrs()
		var at [][]byte
		for _, a := range g.attrs {
			if !bytes.Equal(elems(a)[0], oidAttrDigest) {
				at = append(at, a)
			}
		}
		genuine := digestAttr(ref.SM3(s.content))
		more := [][]byte{genuine}
		if t.Chance(1, 2) {
			more = sortSet(append(more, attr(oidDER(t.Rng), ref.TLV(4, t.Bytes(9)))))
		}
		switch i % 35 {
		case 31:
			what = "digest attribute among the unsigned ones only"
			g.attrs = at
			resign()
			g.unauth = ref.TLV(0xa1, more...)
		case 32:
			what = "false digest attribute signed, genuine one unsigned"
			g.attrs = sortSet(append(at, digestAttr(ref.SM3(t.Bytes(9)))))
			resign()
			g.unauth = ref.TLV(0xa1, more...)
		case 33:
			what = "all attributes moved to the unsigned ones"
			g.unauth = ref.TLV(0xa1, g.attrs...)
			g.attrs = nil
		case 34:
			what = "attribute moved to the unsigned ones after signing"
			k := t.IntN(len(g.attrs))
			g.unauth = ref.TLV(0xa1, g.attrs[k])
			g.attrs = append(append([][]byte{}, g.attrs[:k]...), g.attrs[k+1:]...)
		}
	}
	der := s.der()
	what = fmt.Sprintf("%s (signer %d of %d, %d certificates)", what, j, len(s.signers), len(s.certs))
	_, perr, verr := verdict(t, what, der)
	t.Check(verr != nil, "%s: verified: %s", what, hx(der))
	if perr == nil {
		t.Cover(fmt.Sprintf("altered: case %d refused by Verify", i%35))
	}
	t.Key("%x", der)
	t.Sample("%s", what)
}

func c14Storm(t *T, i int) {
	var s *sdSpec
	var der []byte
	if i%3 == 0 {
		c := genSDCert(t)
		var err error
		der, err = mx.NewSignedData(c.c, c.key, c13Content(t))
		t.noErr("NewSignedData", err)
	} else {
		s, _ = genSD(t, 3)
		der = s.der()
	}
	o, _ := genSD(t, 2)
	donor := o.der()
	for n := 0; n < 12; n++ {
		in, how := mutate(t.Rng, der, donor)
		what := "mutated message (" + how + ")"
		p, perr, verr := verdict(t, what, in)
		if perr != nil {
			t.Cover("mutated: does not parse")
			continue
		}
		if verr == nil {
			t.Cover("mutated: still genuine")
		} else {
			t.Cover("mutated: refused by Verify")
		}
		if x, err := readSD(in); err == nil { // well-formed: both readers see the same
			t.mustEq(what+": content", p.Content, x.content)
			t.Check(len(p.Signers) == len(x.signers), "%s: %d signers, want %d", what, len(p.Signers), len(x.signers))
			for k, g := range p.Signers {
				t.mustEq(what+": signature", g.EncryptedDigest, x.signers[k].sig)
			}
		}
		_ = p.GetOnlySigner()
		var b []byte
		_ = p.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 4}, &b)
		t.Key("%x", in)
	}
}

// c14Fields changes the parsed structure, as a program would for detached content.
func c14Fields(t *T, i int) {
	s, certs := genSD(t, 3)
	detached := t.Chance(1, 2)
	content := s.content
	s.noContent = detached
	p, err := mx.ParsePKCS7(s.der())
	t.noErr("parse", err)
	what := "detached content supplied"
	if detached {
		if len(content) > 0 {
			t.wantErr("detached message before the content is supplied: Verify", p.Verify())
		}
		p.Content = content
	} else {
		what = "nothing changed"
	}
	t.noErr(what+": Verify", p.Verify())
	bad := true
	switch i % 7 {
	case 0:
		what = "other content supplied"
		p.Content = append(clone(content), 1)
	case 1:
		what, p.Signers = "signers removed", nil
	case 2:
		what, p.Certificates = "certificates removed", nil
	case 3:
		what = "certificates replaced by one with the same name and serial"
		for j := range p.Certificates {
			d, _ := genD(t.Rng)
			for _, c := range certs {
				if bytes.Equal(p.Certificates[j].Raw, c.der) {
					for d.Cmp(c.key.D) == 0 {
						d, _ = genD(t.Rng)
					}
					x := *p.Certificates[j]
					x.PublicKey = &newSM2(d).PublicKey
					p.Certificates[j] = &x
				}
			}
		}
	case 4:
		what = "signature replaced"
		p.Signers[t.IntN(len(p.Signers))].EncryptedDigest = refSign(t.Rng, t.Big(one, nm2), ref.BaseMul(bi(3)), content)
	case 5:
		what, bad = "certificate added", false
		p.Certificates = append([]*mx.Certificate{genSDCert(t).c}, p.Certificates...)
	case 6:
		what = "attributes emptied"
		if s.signers[0].attrs == nil {
			return
		}
		p.Signers[0].AuthenticatedAttributes = nil
	}
	verr := p.Verify()
	t.Check((verr != nil) == bad, "%s after parsing: Verify says %v", what, verr)
	t.Check((p7Genuine(p) != "") == bad, "the reference disagrees: %s: %s", what, p7Genuine(p))
	t.Cover("after parsing: " + what)
	t.Key("%s %d", what, i)
}

// c14Bits flips every bit of the content, attributes, signature and identity of a small message.
func c14Bits(t *T, i int) {
	d, _ := genD(t.Rng)
	key := newSM2(d)
	c := newSDCert(t, key, "ca", bi(5))
	s := &sdSpec{content: t.Bytes(8), certs: [][]byte{c.der}}
	if i%2 == 0 {
		s.signers = []sdSigner{c.signer(t.Rng, s.content, stdAttrs(s.content))}
	} else {
		s.signers = []sdSigner{c.signer(t.Rng, s.content, nil)}
	}
	der := s.der()
	g := s.signers[0]
	_, _, verr := verdict(t, "small message", der)
	t.noErr("small message", verr)
	parts := [][]byte{ref.TLV(4, s.content), ref.TLV(4, g.sig), ref.TLV(0x30, g.issuer, ref.Int(g.serial)), body(pkixSM2(refPub(&key.PublicKey)))[21+2:]}
	for _, a := range g.attrs {
		parts = append(parts, a)
	}
	for k, part := range parts {
		off := bytes.LastIndex(der, part)
		if off < 0 {
			t.Failf("part %d not found", k)
		}
		for b := 0; b < 8*len(part); b++ {
			in := clone(der)
			in[off+b/8] ^= 1 << (b % 8)
			p, perr, verr := verdict(t, fmt.Sprintf("part %d, bit %d flipped", k, b), in)
			if verr == nil {
				// Only spellings that mean the same may pass: the structure the library sees must be unchanged.
				same := bytes.Equal(p.Content, s.content) && len(p.Signers) == 1 && bytes.Equal(p.Signers[0].EncryptedDigest, g.sig) && len(p.Signers[0].AuthenticatedAttributes) == len(g.attrs)
				t.Check(same, "part %d, bit %d flipped: verified: %s", k, b, hx(in))
				t.Cover("flipped bit without meaning")
			} else if perr == nil {
				t.Cover("flipped bit refused by Verify")
			} else {
				t.Cover("flipped bit refused by the parser")
			}
		}
	}
	t.Key("%x", der)
}

var _ = sm2.Sign
