package main

import (
	"bytes"
	"crypto/x509/pkix"
	"encoding/asn1"
	"errors"
	"fmt"
	"math/big"
	"reflect"
	"time"

	"mon/ref"

	mx "github.com/mmdet/mcrypto/x509"
)

func init() {
	register(&Prop{
		ID: "C26",
		Rule: "well-formed SignedData messages written without the library (no to five signers, genuine or not, any number of certificates and lists, repeated, multi-valued and unknown attributes), every exported field and accessor of the parsed value compared with what was written; " +
			"other content types, trailing and missing parts must be refused. Distinct messages",
		Groups: []Group{
			{Name: "fields", N: [2]int{2500, 120000}, Fn: c26Fields},
			{Name: "attributes", N: [2]int{2500, 120000}, Fn: c26Attributes},
			{Name: "only signer", N: [2]int{1500, 60000}, Fn: c26Only},
			{Name: "refused", N: [2]int{1500, 60000}, Fn: c26Refused},
			again(60, 6000, "ParsePKCS7"),
		},
	})
}

// sdAny is a signer with everything chosen freely.
type sdAny struct {
	version              int
	issuer               []byte
	serial               *big.Int
	digAlg, encAlg       []byte // AlgorithmIdentifiers
	attrs, unauth        [][]byte
	hasAttrs, hasUnauth  bool
	sig                  []byte
	attrTypes, unauthTyp []asn1.ObjectIdentifier
	attrVals, unauthVals [][]byte // contents of the sets
}

func (s *sdAny) der() []byte {
	var a, u []byte
	if s.hasAttrs {
		a = ref.TLV(0xa0, s.attrs...)
	}
	if s.hasUnauth {
		u = ref.TLV(0xa1, s.unauth...)
	}
	return ref.TLV(0x30, ref.Int(bi(int64(s.version))), ref.TLV(0x30, s.issuer, ref.Int(s.serial)), s.digAlg, a, s.encAlg, ref.TLV(4, s.sig), u)
}

func genAttrs(t *T) (ders [][]byte, types []asn1.ObjectIdentifier, vals [][]byte) {
	known := []asn1.ObjectIdentifier{{1, 2, 840, 113549, 1, 9, 3}, {1, 2, 840, 113549, 1, 9, 4}, {1, 2, 840, 113549, 1, 9, 5}, {1, 2, 840, 113549, 1, 9, 16, 2, 12}, genOID(t.Rng)}
	for n := 1 + t.IntN(6); n > 0; n-- {
		id := pick(t.Rng, known...)
		var v []byte
		for m := pick(t.Rng, 1, 1, 1, 2, 3); m > 0; m-- {
			v = append(v, genValue(t)...)
		}
		ders = append(ders, ref.TLV(0x30, ref.OID(id...), ref.TLV(0x31, v)))
		types, vals = append(types, id), append(vals, v)
	}
	return
}

func genValue(t *T) []byte {
	return pick(t.Rng,
		ref.TLV(4, t.Bytes(t.IntN(150))), ref.TLV(12, []byte(t.Name(t.IntN(20)))), ref.TLV(19, []byte(t.Name(3))), ref.OID([]int(genOID(t.Rng))...),
		utcTime(genTime(t.Rng)), ref.Int(t.Big(sub(bi(0), ref.N), ref.N)), ref.TLV(1, []byte{255}), ref.TLV(0x30, ref.Int(bi(5)), ref.TLV(4, t.Bytes(3))), []byte{5, 0}, ref.TLV(3, []byte{0}, t.Bytes(4)))
}

func genAlgID(t *T, oids ...[]byte) []byte {
	return ref.TLV(0x30, pick(t.Rng, oids...), pick(t.Rng, nil, nil, []byte{5, 0}, ref.TLV(0x30, ref.Int(bi(7)))))
}

type sdFull struct {
	content   []byte
	noContent bool
	certs     [][]byte
	hasCerts  bool
	crls      [][]byte
	hasCRLs   bool
	signers   []*sdAny
}

func genFull(t *T) *sdFull {
	m := &sdFull{content: c13Content(t), noContent: t.Chance(1, 12), hasCerts: true}
	for n := pick(t.Rng, 0, 1, 1, 1, 2, 2, 3, 5); n > 0; n-- {
		c := genSDCert(t)
		m.certs = append(m.certs, c.der)
		s := &sdAny{version: pick(t.Rng, 1, 1, 1, 0, 2, 3, 127, 128), issuer: c.issuer, serial: c.serial, digAlg: genAlgID(t, oidSM3Hash, ref.OID(1, 3, 14, 3, 2, 26), ref.OID([]int(genOID(t.Rng))...)),
			encAlg: genAlgID(t, oidSM2Enc, oidSM2WithSM3, ref.OID([]int(genOID(t.Rng))...)), sig: t.Bytes(t.Len(300))}
		if t.Chance(1, 6) {
			s.issuer, s.serial = nameDER(t.Name(4)), genSerial(t.Rng)
		}
		if s.hasAttrs = t.Chance(3, 4); s.hasAttrs {
			s.attrs, s.attrTypes, s.attrVals = genAttrs(t)
		}
		if s.hasUnauth = t.Chance(1, 4); s.hasUnauth {
			s.unauth, s.unauthTyp, s.unauthVals = genAttrs(t)
		}
		m.signers = append(m.signers, s)
	}
	t.Shuffle(len(m.certs), func(i, j int) { m.certs[i], m.certs[j] = m.certs[j], m.certs[i] })
	for t.Chance(1, 3) {
		m.certs = append(m.certs, pick(t.Rng, genSDCert(t).der, certFor(t.Rng, genKey(t.Rng, pick(t.Rng, "P256", "Ed25519")), t.IntN(300))))
	}
	if len(m.certs) == 0 {
		m.hasCerts = t.Chance(1, 2)
	} else if t.Chance(1, 6) {
		m.certs = append(m.certs, clone(m.certs[t.IntN(len(m.certs))])) // twice
	}
	if m.hasCRLs = t.Chance(1, 3); m.hasCRLs {
		for n := t.IntN(4); n > 0; n-- {
			alg := ref.TLV(0x30, pick(t.Rng, oidSM2WithSM3, ref.OID(1, 2, 840, 10045, 4, 3, 2)))
			m.crls = append(m.crls, signed3(handCRL(t.Rng, alg), alg, t.Bytes(60+t.IntN(12))))
		}
	}
	return m
}

func (m *sdFull) sd() []byte {
	ci := ref.TLV(0x30, oidGMData, ref.TLV(0xa0, ref.TLV(4, m.content)))
	if m.noContent {
		ci = ref.TLV(0x30, oidGMData)
	}
	var certs, crls []byte
	if m.hasCerts {
		certs = ref.TLV(0xa0, m.certs...)
	}
	if m.hasCRLs {
		crls = ref.TLV(0xa1, m.crls...)
	}
	var si [][]byte
	for _, s := range m.signers {
		si = append(si, s.der())
	}
	return ref.TLV(0x30, ref.Int(bi(1)), ref.TLV(0x31, ref.TLV(0x30, oidSM3Hash)), ci, certs, crls, ref.TLV(0x31, si...))
}

func (m *sdFull) der() []byte { return ref.TLV(0x30, oidGMSignedData, ref.TLV(0xa0, m.sd())) }

func (m *sdFull) parse(t *T, what string) *mx.PKCS7 {
	in := m.der()
	var p *mx.PKCS7
	var err error
	t.guard(what, func() { p, err = mx.ParsePKCS7(clone(in)) })
	if err != nil || p == nil {
		t.Failf("%s: does not parse: %v: %s", what, err, hx(in))
	}
	return p
}

func c26Fields(t *T, i int) {
	m := genFull(t)
	what := fmt.Sprintf("message of %d bytes with %d signers, %d certificates, %d lists", len(m.content), len(m.signers), len(m.certs), len(m.crls))
	p := m.parse(t, what)
	want := m.content
	if m.noContent {
		want = nil
	}
	t.mustEq(what+": Content", p.Content, want)
	t.Check(len(p.Certificates) == len(m.certs), "%s: %d Certificates", what, len(p.Certificates))
	for j, c := range p.Certificates {
		t.mustEq(fmt.Sprintf("%s: certificate %d", what, j), c.Raw, m.certs[j])
		alone, err := mx.ParseCertificate(clone(m.certs[j]))
		t.noErr(what+": the certificate alone", err)
		d := recordOf(c).diff(recordOf(alone))
		t.Check(d == "", "%s: certificate %d differs from the one parsed alone: %s", what, j, d)
	}
	t.Check(len(p.CRLs) == len(m.crls), "%s: %d CRLs", what, len(p.CRLs))
	for j := range p.CRLs {
		alone, err := mx.ParseDERCRL(clone(m.crls[j]))
		t.noErr(what+": the list alone", err)
		t.Check(dumpString(&p.CRLs[j]) == dumpString(alone), "%s: list %d differs from the one parsed alone", what, j)
		t.mustEq(what+": list's signed part", p.CRLs[j].TBSCertList.Raw, elems(m.crls[j])[0])
	}
	t.Check(len(p.Signers) == len(m.signers), "%s: %d Signers", what, len(p.Signers))
	algID := func(name string, got pkix.AlgorithmIdentifier, want []byte) {
		e := elems(want)
		t.mustEq(name, ref.OID([]int(got.Algorithm)...), e[0])
		var par []byte
		if len(e) > 1 {
			par = e[1]
		}
		t.mustEq(name+" parameters", got.Parameters.FullBytes, par)
	}
	for j, s := range p.Signers {
		w := m.signers[j]
		n := fmt.Sprintf("%s: signer %d", what, j)
		t.Check(s.Version == w.version, "%s: version %d, want %d", n, s.Version, w.version)
		t.mustEq(n+": issuer", s.IssuerAndSerialNumber.IssuerName.FullBytes, w.issuer)
		t.Check(eqInt(s.IssuerAndSerialNumber.SerialNumber, w.serial), "%s: serial %v, want %v", n, s.IssuerAndSerialNumber.SerialNumber, w.serial)
		algID(n+": DigestAlgorithm", s.DigestAlgorithm, w.digAlg)
		algID(n+": DigestEncryptionAlgorithm", s.DigestEncryptionAlgorithm, w.encAlg)
		t.mustEq(n+": EncryptedDigest", s.EncryptedDigest, w.sig)
		t.Check(len(s.AuthenticatedAttributes) == len(w.attrs) && len(s.UnauthenticatedAttributes) == len(w.unauth), "%s: %d and %d attributes", n, len(s.AuthenticatedAttributes), len(s.UnauthenticatedAttributes))
		for x, a := range s.AuthenticatedAttributes {
			t.Check(a.Type.Equal(w.attrTypes[x]), "%s: attribute %d has type %v, want %v", n, x, a.Type, w.attrTypes[x])
			t.mustEq(n+": attribute value", a.Value.Bytes, w.attrVals[x])
		}
		for x, a := range s.UnauthenticatedAttributes {
			t.Check(a.Type.Equal(w.unauthTyp[x]), "%s: unauthenticated attribute %d has type %v, want %v", n, x, a.Type, w.unauthTyp[x])
			t.mustEq(n+": unauthenticated attribute value", a.Value.Bytes, w.unauthVals[x])
		}
		if w.hasUnauth {
			t.Cover("unauthenticated attributes")
		}
	}
	t.Key("%x", m.der())
	t.Cover(fmt.Sprintf("%d signers", len(m.signers)))
	t.Cover(fmt.Sprintf("%d lists", len(m.crls)))
	if m.noContent {
		t.Cover("no content")
	}
	t.Sample("%s", what)
}

// reads decodes into one of several Go types; the result is compared with encoding/asn1 on the first value of the set.
func c26Attributes(t *T, i int) {
	m := genFull(t)
	what := fmt.Sprintf("message with %d signers", len(m.signers))
	p := m.parse(t, what)
	ids := []asn1.ObjectIdentifier{{1, 2, 840, 113549, 1, 9, 3}, {1, 2, 840, 113549, 1, 9, 4}, {1, 2, 840, 113549, 1, 9, 5}, {1, 2, 840, 113549, 1, 9}, {1, 2, 840, 113549, 1, 9, 4, 1}, genOID(t.Rng)}
	for _, s := range m.signers {
		ids = append(ids, s.attrTypes...)
		ids = append(ids, s.unauthTyp...)
	}
	types := []reflect.Type{reflect.TypeOf([]byte{}), reflect.TypeOf(time.Time{}), reflect.TypeOf(asn1.ObjectIdentifier{}), reflect.TypeOf(asn1.RawValue{}), reflect.TypeOf(""), reflect.TypeOf((*big.Int)(nil)), reflect.TypeOf(false), reflect.TypeOf(0)}
	for _, id := range ids {
		var first []byte
		found := false
		if len(m.signers) > 0 {
			for x, ty := range m.signers[0].attrTypes {
				if ty.Equal(id) && !found {
					first, found = m.signers[0].attrVals[x], true
				}
			}
		}
		for _, ty := range types {
			a, b := reflect.New(ty), reflect.New(ty)
			var err error
			t.guard("UnmarshalSignedAttribute", func() { err = p.UnmarshalSignedAttribute(id, a.Interface()) })
			n := fmt.Sprintf("%s: UnmarshalSignedAttribute(%v) into %v", what, id, ty)
			if !found {
				t.wantErr(n+", which the first signer does not have", err)
				continue
			}
			_, werr := asn1.Unmarshal(first, b.Interface())
			t.Check((err == nil) == (werr == nil), "%s: error %v, encoding/asn1 on the first value says %v", n, err, werr)
			if err == nil {
				x, y := dumpString(a.Interface()), dumpString(b.Interface())
				t.Check(x == y, "%s: %s, want %s", n, x, y)
				t.Cover("attribute read as " + ty.String())
			}
		}
		if found {
			t.Cover("attribute there")
		} else {
			t.Cover("attribute not there")
		}
	}
	if i%50 == 0 {
		var b []byte
		t.wantErr("UnmarshalSignedAttribute of an empty message", new(mx.PKCS7).UnmarshalSignedAttribute(ids[1], &b))
		t.Check(new(mx.PKCS7).GetOnlySigner() == nil, "GetOnlySigner of an empty message")
		t.wantErr("Verify of an empty message", new(mx.PKCS7).Verify())
	}
	t.Key("%x", m.der())
}

func c26Only(t *T, i int) {
	m := genFull(t)
	for len(m.signers) == 0 || (len(m.signers) > 1 && t.Chance(3, 4)) {
		m = genFull(t)
		if len(m.signers) > 1 && t.Chance(1, 2) {
			m.signers = m.signers[:1]
		}
	}
	s := m.signers[0]
	// certificates that are nearly the signer's
	for n := t.IntN(4); n > 0; n-- {
		d, _ := genD(t.Rng)
		cn := string(body(elems(elems(elems(s.issuer)[0])[0])[1]))
		serial, name := s.serial, cn
		switch t.IntN(6) {
		case 0:
			serial = add(s.serial, pick(t.Rng, one, ref.N, new(big.Int).Lsh(one, uint(t.IntN(150)))))
		case 5:
			serial = new(big.Int).Neg(s.serial)
			t.Cover("a serial number of the other sign")
		case 1:
			name = cn + "x"
		case 2:
			name = t.Name(len(cn))
		case 3: // the very same identity, another certificate
		case 4: // the subject has the name
			k := newSM2(d)
			x := sm2Cert(t.Rng, cn, t.Name(5), s.serial, pkixSM2(refPub(&k.PublicKey)), k)
			m.certs = append(m.certs, x)
			continue
		}
		x := newSDCert(t, newSM2(d), name, serial).der
		at := t.IntN(len(m.certs) + 1)
		m.certs = append(m.certs[:at:at], append([][]byte{x}, m.certs[at:]...)...)
	}
	m.hasCerts = m.hasCerts || len(m.certs) > 0
	what := fmt.Sprintf("message with %d signers and %d certificates", len(m.signers), len(m.certs))
	p := m.parse(t, what)
	var got *mx.Certificate
	t.guard("GetOnlySigner", func() { got = p.GetOnlySigner() })
	var match [][]byte
	for _, c := range m.certs {
		v, ok := viewCert(c)
		if ok && bytes.Equal(elems(v.tbs)[3], s.issuer) && bytes.Equal(elems(v.tbs)[1], ref.Int(s.serial)) {
			match = append(match, c)
		}
	}
	if len(m.signers) != 1 || len(match) == 0 {
		t.Check(got == nil, "%s: GetOnlySigner returns a certificate, %d match", what, len(match))
		t.Cover("no only signer")
	} else {
		ok := false
		for _, c := range match {
			ok = ok || got != nil && bytes.Equal(got.Raw, c)
		}
		t.Check(ok, "%s: GetOnlySigner is not one of the %d certificates with the signer's issuer and serial: %s", what, len(match), hx(m.der()))
		t.Cover(fmt.Sprintf("%d certificates match", min(len(match), 3)))
	}
	t.Key("%x", m.der())
}

func c26Refused(t *T, i int) {
	m := genFull(t)
	var in []byte
	what := ""
	unsupported := false
	switch i % 8 {
	case 0:
		other := pick(t.Rng, ref.OID(1, 2, 156, 10197, 6, 1, 4, 2, 3), ref.OID(1, 2, 156, 10197, 6, 1, 4, 2, 4), ref.OID(1, 2, 156, 10197, 6, 1, 4, 2), ref.OID(1, 2, 156, 10197, 6, 1, 4, 2, 2, 1), ref.OID(1, 2, 156, 10197, 6, 1, 4, 2, 22), ref.OID(1, 2, 840, 113549, 1, 7, 3), oidGMData, ref.OID([]int(genOID(t.Rng))...))
		in, what, unsupported = ref.TLV(0x30, other, ref.TLV(0xa0, m.sd())), fmt.Sprintf("content type %x", other), true
	case 1:
		in, what = append(m.der(), t.Bytes(1+t.IntN(5))...), "bytes after the message"
	case 2:
		in, what = m.der(), "a prefix"
		in = in[:t.IntN(len(in))]
	case 3:
		in, what = ref.TLV(0x30, oidGMSignedData), "no content at all"
	case 4:
		m.certs, m.hasCerts = append(m.certs, ref.TLV(0x30, t.Bytes(5))), true
		in, what = m.der(), "a certificate that is none"
	case 5:
		e := elems(m.sd())
		at := pick(t.Rng, 0, 1, 2)
		in, what = ref.TLV(0x30, oidGMSignedData, ref.TLV(0xa0, ref.TLV(0x30, append(append([][]byte{}, e[:at]...), e[at+1:]...)...))), fmt.Sprintf("part %d is missing", at)
	case 6:
		e := elems(m.sd())
		in, what = ref.TLV(0x30, oidGMSignedData, ref.TLV(0xa0, ref.TLV(0x30, e[:len(e)-1]...))), "no set of signers"
	case 7:
		c := genSDCert(t).der
		m.certs, m.hasCerts = append(m.certs, c[:len(c)-1-t.IntN(20)]), true
		in, what = m.der(), "a certificate cut short"
	}
	var p *mx.PKCS7
	var err error
	t.guard(what, func() { p, err = mx.ParsePKCS7(clone(in)) })
	t.Check(err != nil, "ParsePKCS7: %s: no error: %s", what, hx(in))
	t.Check(p == nil, "ParsePKCS7: %s: a message along with the error %v", what, err)
	if unsupported {
		t.Check(errors.Is(err, mx.ErrUnsupportedContentType), "ParsePKCS7: %s: the error is %v", what, err)
	}
	t.Key("%x", in)
	t.Cover("refused: " + what[:min(12, len(what))])
}
