package main

import (
	"bytes"
	"crypto"
	"crypto/dsa"
	"crypto/elliptic"
	"crypto/rsa"
	stdx "crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"errors"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"time"

	"mon/ref"

	"github.com/mmdet/mcrypto/sm2"
	mx "github.com/mmdet/mcrypto/x509"
)

// caKey picks a signing key and an algorithm it can sign with.
func caKey(r *Rng) (k tkey, alg mx.SignatureAlgorithm, info algInfo) {
	k = genSigner(r)
	if k.kind == "RSA" && r.Chance(1, 2) {
		p := rsaKey(pick(r, 3, 8, 9, 10))
		k = tkey{"RSA", p, &p.PublicKey, p}
	}
	strong, weak := sigAlgsFor(k.kind)
	alg = pick(r, strong...)
	if len(weak) > 0 && r.Chance(1, 8) {
		alg = pick(r, weak...)
	}
	if alg == mx.SHA512WithRSAPSS && k.pub.(*rsa.PublicKey).N.BitLen() < 1034 {
		alg = mx.SHA256WithRSAPSS
	}
	eff := alg
	if eff == 0 {
		eff = defaultAlg(k.kind)
	}
	info, _ = algOf(eff)
	return
}

// stdRead parses with the standard library; an SM2 key is replaced first.
func stdRead(t *T, what string, der []byte, sm2key bool) *stdx.Certificate {
	in := der
	if sm2key {
		in = transplant(der, standIn)
	}
	c, err := stdx.ParseCertificate(in)
	if err != nil {
		t.Failf("%s: the standard library cannot read it: %v: %s", what, err, hx(der))
	}
	return c
}

// checkCreated judges one created certificate.
func checkCreated(t *T, what string, der []byte, tmpl *mx.Certificate, issuer, parentSKI []byte, pub any, ca tkey, info algInfo) *mx.Certificate {
	c, err := mx.ParseCertificate(clone(der))
	if err != nil {
		t.Failf("%s: created certificate does not parse: %v: %s", what, err, hx(der))
	}
	t.Evalf()
	rawsExact(t, what, c, der)
	w, subject := wanted(tmpl, issuer, parentSKI, pub)
	d := w.diff(recordOf(c))
	t.Check(d == "", "%s: template != certificate: %s", what, d)
	t.Check(c.SignatureAlgorithm == info.alg, "%s: signature algorithm %v, want %v", what, c.SignatureAlgorithm, info.alg)
	t.Check(samePub(pub, c.PublicKey), "%s: public key is %s, want %s", what, showKey(c.PublicKey), showKey(pub))
	v, _ := viewCert(der)
	t.mustEq(what+": signature algorithm identifier", v.outerAlg, info.id())
	t.mustEq(what+": signature algorithm identifier in the signed part", v.alg, info.id())
	t.mustEq(what+": issuer", v.issuer, issuer)
	t.mustEq(what+": subject", v.subject, subject)
	t.mustEq(what+": version", v.version, []byte{0xa0, 3, 2, 1, 2})
	t.Check(genuine(info, ca.pub, v.tbs, v.sig), "%s: the %s signature is not genuine under the issuer's key", what, info.name)

	// The extra extensions are there as given, and every extension once.
	seen := map[string]int{}
	for _, e := range c.Extensions {
		seen[e.Id.String()]++
	}
	for _, x := range tmpl.ExtraExtensions {
		n := 0
		for _, e := range c.Extensions {
			if e.Id.Equal(x.Id) && e.Critical == x.Critical && bytes.Equal(e.Value, x.Value) {
				n++
			}
		}
		t.Check(n > 0, "%s: extra extension %v is missing or changed", what, x.Id)
	}
	for id, n := range seen {
		m := 0
		for _, x := range tmpl.ExtraExtensions {
			if x.Id.String() == id {
				m++
			}
		}
		t.Check(n == max(m, 1), "%s: extension %s occurs %d times", what, id, n)
	}

	_, isSM2 := pub.(*sm2.PublicKey)
	if hasMapped(tmpl) { // the standard library of today refuses to read these ranges
		t.Cover("range of IPv4-mapped addresses")
		return c
	}
	std := stdRead(t, what, der, isSM2)
	var ign []string
	if isSM2 {
		ign = swapIgnore
		t.mustEq(what+": key as written by the reference", v.spki, pkixSM2(refPub(pub.(*sm2.PublicKey))))
	}
	agree(t, what, c, std, ign...)
	d = w.diff(recordOf(std), append(ign, "UnhandledCriticalExtensions")...)
	t.Check(d == "", "%s: template != certificate as the standard library reads it: %s", what, d)
	return c
}

func hasMapped(c *mx.Certificate) bool {
	for _, l := range [][]*net.IPNet{c.PermittedIPRanges, c.ExcludedIPRanges} {
		for _, n := range l {
			if len(n.Mask) == 16 && n.IP.Mask(n.Mask).To4() != nil {
				return true
			}
		}
	}
	return false
}

// Evalf counts a decision that cannot be phrased as a Check.
func (t *T) Evalf() { t.evals++ }

// critical compares extensions with those of the standard library for the same template.
func sameExtensions(t *T, what string, c *mx.Certificate, tmpl *mx.Certificate, parent *mx.Certificate) {
	k := ecdsaKey(elliptic.P256(), bi(12345))
	st := toStd(tmpl)
	st.SubjectKeyId = c.SubjectKeyId
	st.SignatureAlgorithm = 0
	sp := toStd(parent)
	sp.PublicKey = nil
	der, err := stdx.CreateCertificate(t.sys, st, sp, &k.PublicKey, k)
	if err != nil {
		t.Cover("standard library refuses the template")
		return
	}
	s, err := stdx.ParseCertificate(der)
	if err != nil {
		return
	}
	set := func(l []pkix.Extension) map[string]string {
		m := map[string]string{}
		for _, e := range l {
			m[e.Id.String()] += fmt.Sprintf("%v %x;", e.Critical, e.Value)
		}
		return m
	}
	a, b := set(c.Extensions), set(s.Extensions)
	for id, x := range b {
		t.Check(a[id] == x, "%s: extension %s is %s; the standard library makes %s from the same template", what, id, a[id], x)
	}
	t.Check(len(a) == len(b), "%s: %d extensions, the standard library makes %d from the same template", what, len(a), len(b))
	t.Cover("extensions compared with the standard library's")
}

func init() {
	register(&Prop{
		ID: "C10",
		Rule: "creation over generated templates (every field, boundary values, multi-valued and empty names, times in and out of the UTCTime range, IP forms, extra extensions), parents (templates, parsed certificates, self) " +
			"and key types; the record read back by the library and by the standard library (SM2 keys transplanted) must equal the template's, extensions those the standard library makes, and the signature be genuine for an independent verifier; " +
			"chains; refused templates; signers that fail or lie. Non-trivial: a certificate was created and judged, or a bad request refused",
		Groups: []Group{
			{Name: "template", N: [2]int{6000, 150000}, Fn: c10Template},
			{Name: "chain", N: [2]int{700, 8000}, Fn: c10Chain},
			{Name: "override", N: [2]int{600, 6000}, Fn: c10Override},
			{Name: "refused", N: [2]int{1500, 15000}, Fn: c10Refused},
			{Name: "signer", N: [2]int{600, 6000}, Fn: c10Signer},
			{Name: "renewed", N: [2]int{1200, 40000}, Fn: c10Renewed},
		},
	})
}

func c10Template(t *T, i int) {
	ca, alg, info := caKey(t.Rng)
	tmpl := genTemplate(t.Rng, t.Chance(1, 4))
	tmpl.SignatureAlgorithm = alg
	sub := anyKey(t.Rng)
	parent := genTemplate(t.Rng, true)
	how := "parent template"
	switch t.IntN(4) {
	case 0:
		how, parent, sub = "self-signed", tmpl, ca
		if t.Chance(1, 2) {
			tmpl.PublicKey = ca.pub
		}
	case 1:
		how = "parent template with key"
		parent.PublicKey = ca.pub
	case 2:
		how = "parsed parent"
		der, err := mx.CreateCertificate(t.sys, parent, parent, ca.pub, ca.signer)
		t.noErr("create the parent: "+oneLine(parent), err)
		if parent, err = mx.ParseCertificate(der); err != nil {
			t.Failf("parent does not parse: %v", err)
		}
	}
	issuer := parent.RawSubject
	if len(issuer) == 0 {
		issuer = rdn(parent.Subject)
	}
	what := fmt.Sprintf("%s, %s key, %s signature by %s", how, sub.kind, info.name, ca.kind)
	var der []byte
	var err error
	t.guard(what, func() { der, err = mx.CreateCertificate(t.sys, tmpl, parent, sub.pub, ca.signer) })
	t.noErr(what+": "+oneLine(tmpl), err)
	c := checkCreated(t, what, der, tmpl, issuer, parent.SubjectKeyId, sub.pub, ca, info)
	sameExtensions(t, what, c, tmpl, parent)
	if len(tmpl.SubjectKeyId) == 0 && tmpl.IsCA {
		t.Check(len(c.SubjectKeyId) > 0, "%s: CA certificate without key identifier", what)
		// It is a function of the key alone, and differs between keys.
		for n, k := range []tkey{sub, genKey(t.Rng, pick(t.Rng, "SM2", "P256", "Ed25519"))} {
			o := genTemplate(t.Rng, true)
			o.SubjectKeyId, o.ExtraExtensions = nil, nil
			signer := genKey(t.Rng, pick(t.Rng, "SM2", "P256"))
			d2, err := mx.CreateCertificate(t.sys, o, genTemplate(t.Rng, true), k.pub, signer.signer)
			t.noErr("second certificate", err)
			c2, err := mx.ParseCertificate(d2)
			t.noErr("second certificate", err)
			if n == 0 {
				t.mustEq(what+": generated key identifier for the same key", c2.SubjectKeyId, c.SubjectKeyId)
			} else if !samePub(k.pub, sub.pub) {
				t.Check(!bytes.Equal(c2.SubjectKeyId, c.SubjectKeyId), "%s: different keys get the same key identifier %x", what, c.SubjectKeyId)
			}
		}
		t.Cover("generated key identifier")
	}
	for _, x := range []struct {
		on   bool
		name string
	}{{tmpl.NotAfter.UTC().Year() >= 2050, "GeneralizedTime"}, {tmpl.NotBefore.UTC().Year() < 1950, "before 1950"}, {hasConstraints(tmpl), "name constraints"}, {len(body(rdnOf(tmpl))) == 0, "empty subject"},
		{tmpl.SerialNumber.BitLen() > 159, "long serial"}, {len(tmpl.URIs) > 0, "URI names"}, {info.pss, "PSS"}, {info.hash == crypto.SHA1 || info.hash == crypto.MD5, "weak hash"}, {tmpl.MaxPathLenZero, "path length zero"}} {
		if x.on {
			t.Cover(x.name)
		}
	}
	t.Cover("key " + sub.kind + " signed by " + ca.kind)
	t.Key("%x", der)
	t.Sample("%s: %s", what, oneLine(tmpl))
}

// documentedFields is a copy of what CreateCertificate says it uses of a template.
func documentedFields(c *mx.Certificate) *mx.Certificate {
	o := *c
	o.Raw, o.RawTBSCertificate, o.RawSubjectPublicKeyInfo, o.RawIssuer, o.Signature = nil, nil, nil, nil, nil
	o.PublicKeyAlgorithm, o.PublicKey, o.Version, o.Issuer = 0, nil, 0, pkix.Name{}
	o.Extensions, o.UnhandledCriticalExtensions = nil, nil
	return &o
}

// c10Renewed makes certificates from templates that were read or changed: of a certificate for another key, by another authority.
func c10Renewed(t *T, i int) {
	ca, alg, info := caKey(t.Rng)
	old := anyKey(t.Rng)
	first := genTemplate(t.Rng, t.Chance(1, 2))
	fk := genKey(t.Rng, pick(t.Rng, "SM2", "P256", "Ed25519"))
	der, err := mx.CreateCertificate(t.sys, first, genTemplate(t.Rng, true), old.pub, fk.signer)
	t.noErr("create the first: "+oneLine(first), err)
	tmpl, err := mx.ParseCertificate(der)
	t.noErr("parse the first", err)
	tmpl.SignatureAlgorithm = alg
	what := "renewed"
	other := genTemplate(t.Rng, tmpl.IsCA)
	for n := t.IntN(4); n > 0; n-- {
		switch f := t.IntN(12); f {
		case 0, 1, 2:
			tmpl.SubjectKeyId, what = nil, what+" without key id"
		case 3:
			tmpl.RawSubject, tmpl.Subject, what = nil, other.Subject, what+" with another subject"
		case 4:
			tmpl.DNSNames, tmpl.EmailAddresses, tmpl.IPAddresses, tmpl.URIs, what = other.DNSNames, other.EmailAddresses, other.IPAddresses, other.URIs, what+" with other names"
		case 5:
			tmpl.KeyUsage, what = other.KeyUsage, what+" with other usage"
		case 6:
			tmpl.ExtKeyUsage, tmpl.UnknownExtKeyUsage, what = other.ExtKeyUsage, other.UnknownExtKeyUsage, what+" with other extended usage"
		case 7:
			tmpl.SerialNumber, tmpl.NotAfter, what = other.SerialNumber, other.NotAfter, what+" with another serial and time"
		case 8:
			tmpl.PolicyIdentifiers, tmpl.CRLDistributionPoints, what = other.PolicyIdentifiers, other.CRLDistributionPoints, what+" with other policies and points"
		case 9:
			tmpl.ExtraExtensions, what = other.ExtraExtensions, what+" with extra extensions"
		case 10:
			tmpl.OCSPServer, tmpl.IssuingCertificateURL, tmpl.AuthorityKeyId, what = other.OCSPServer, other.IssuingCertificateURL, other.AuthorityKeyId, what+" with other access"
		case 11:
			tmpl.IsCA, tmpl.BasicConstraintsValid, tmpl.MaxPathLen, tmpl.MaxPathLenZero, what = other.IsCA, other.BasicConstraintsValid, other.MaxPathLen, other.MaxPathLenZero, what+" with other constraints"
		}
	}
	sub := anyKey(t.Rng)
	parent := genTemplate(t.Rng, true)
	switch t.IntN(4) {
	case 0:
		what, parent, sub = what+", self-signed", tmpl, ca
		tmpl.PublicKey = ca.pub // creation compares it with the signer
	case 1, 2:
		pd, err := mx.CreateCertificate(t.sys, parent, parent, ca.pub, ca.signer)
		t.noErr("create the parent: "+oneLine(parent), err)
		parent, err = mx.ParseCertificate(pd)
		t.noErr("parse the parent", err)
		if t.Chance(1, 3) {
			parent.RawSubject, parent.Subject, what = nil, genPKIXName(t.Rng), what+", parent renamed"
		}
		if t.Chance(1, 3) {
			parent.SubjectKeyId, what = nil, what+", parent without key id"
		}
	}
	issuer := rdnOf(parent)
	was := dump(tmpl, true)
	t.guard(what, func() { der, err = mx.CreateCertificate(t.sys, tmpl, parent, sub.pub, ca.signer) })
	t.noErr(what+": "+oneLine(tmpl), err)
	t.Check(firstDiff(was, dump(tmpl, true)) == "", "%s: the template was changed", what)
	c := checkCreated(t, what, der, tmpl, issuer, parent.SubjectKeyId, sub.pub, ca, info)
	sameExtensions(t, what, c, tmpl, parent)
	// Only the documented fields count.
	q, qp := documentedFields(tmpl), documentedFields(parent)
	if parent == tmpl {
		qp = q
	}
	d2, err := mx.CreateCertificate(t.sys, q, qp, sub.pub, ca.signer)
	t.noErr(what+", documented fields only", err)
	c2, err := mx.ParseCertificate(d2)
	t.noErr(what+", documented fields only", err)
	t.mustEq(what+": signed part, from the template as read and from its documented fields", c.RawTBSCertificate, c2.RawTBSCertificate)
	if tmpl.IsCA && len(tmpl.SubjectKeyId) == 0 && !samePub(sub.pub, old.pub) {
		t.Cover("renewed: generated key identifier")
	}
	t.Key("%x", c.RawTBSCertificate)
}

func rdnOf(c *mx.Certificate) []byte {
	if len(c.RawSubject) > 0 {
		return c.RawSubject
	}
	return rdn(c.Subject)
}

// c10Chain issues down a chain and checks each link with both libraries.
func c10Chain(t *T, i int) {
	n := 2 + t.IntN(3)
	kinds := signKinds
	mixed := t.Chance(1, 2)
	var parent *mx.Certificate
	var parentKey tkey
	var ders [][]byte
	allStd := true
	for j := 0; j < n; j++ {
		kind := pick(t.Rng, kinds...)
		if !mixed && j > 0 {
			kind = parentKey.kind
			if kind == "RSA" {
				kind = "RSA small"
			}
		}
		k := genKey(t.Rng, kind)
		tmpl := genTemplate(t.Rng, true)
		tmpl.RawSubject, tmpl.Subject = nil, pkix.Name{CommonName: fmt.Sprintf("level %d %s", j, t.Name(5))}
		p, pk := parent, parentKey
		if j == 0 {
			p, pk = tmpl, k
		}
		der, err := mx.CreateCertificate(t.sys, tmpl, p, k.pub, pk.signer)
		t.noErr(fmt.Sprintf("level %d", j), err)
		info, _ := algOf(defaultAlg(pk.kind))
		c := checkCreated(t, fmt.Sprintf("level %d", j), der, tmpl, rdnOf(p), p.SubjectKeyId, k.pub, pk, info)
		if j == 0 {
			p = c
		}
		t.noErr(fmt.Sprintf("level %d: CheckSignatureFrom its parent", j), c.CheckSignatureFrom(p))
		if j > 0 {
			t.mustEq("issuer of the child", c.RawIssuer, p.RawSubject)
			if len(p.SubjectKeyId) > 0 {
				t.mustEq("authority key id of the child", c.AuthorityKeyId, p.SubjectKeyId)
			}
			// not issued by anyone else
			if !samePub(k.pub, pk.pub) {
				t.wantErr(fmt.Sprintf("level %d: CheckSignatureFrom itself", j), c.CheckSignatureFrom(c))
			}
		}
		allStd = allStd && k.std() && !hasMapped(tmpl)
		ders = append(ders, der)
		parent, parentKey = c, k
	}
	if allStd {
		for j := range ders {
			a, err := stdx.ParseCertificate(ders[j])
			t.noErr("standard library", err)
			b := a
			if j > 0 {
				b, _ = stdx.ParseCertificate(ders[j-1])
			}
			t.noErr("the standard library's CheckSignatureFrom", a.CheckSignatureFrom(b))
		}
		t.Cover("chain verified by the standard library")
	}
	all, err := mx.ParseCertificates(cat(ders...))
	t.noErr("ParseCertificates", err)
	t.Check(len(all) == n, "%d certificates from %d", len(all), n)
	t.Key("%x", ders)
	t.Cover(fmt.Sprintf("chain of %d", n))
}

// c10Override: an extra extension replaces the generated one of the same type.
func c10Override(t *T, i int) {
	tmpl := genTemplate(t.Rng, true)
	// make sure every field would produce its extension
	tmpl.KeyUsage |= mx.KeyUsageCertSign
	tmpl.ExtKeyUsage = []mx.ExtKeyUsage{mx.ExtKeyUsageServerAuth}
	tmpl.SubjectKeyId, tmpl.AuthorityKeyId = t.Bytes(20), t.Bytes(20)
	tmpl.OCSPServer, tmpl.DNSNames = []string{genURL(t.Rng)}, []string{genDNS(t.Rng)}
	tmpl.PermittedDNSDomains, tmpl.CRLDistributionPoints = []string{"example.com"}, []string{genURL(t.Rng)}
	tmpl.PolicyIdentifiers = []asn1.ObjectIdentifier{genOID(t.Rng)}
	oids := []asn1.ObjectIdentifier{{2, 5, 29, 15}, {2, 5, 29, 37}, {2, 5, 29, 19}, {2, 5, 29, 14}, {2, 5, 29, 35}, {1, 3, 6, 1, 5, 5, 7, 1, 1}, {2, 5, 29, 17}, {2, 5, 29, 32}, {2, 5, 29, 30}, {2, 5, 29, 31}}
	donor := genTemplate(t.Rng, true)
	donor.KeyUsage, donor.ExtKeyUsage, donor.SubjectKeyId, donor.AuthorityKeyId = mx.KeyUsageCertSign|mx.KeyUsageCRLSign, []mx.ExtKeyUsage{mx.ExtKeyUsageTimeStamping}, t.Bytes(9), t.Bytes(9)
	donor.IssuingCertificateURL, donor.EmailAddresses = []string{genURL(t.Rng)}, []string{genMail(t.Rng)}
	donor.ExcludedDNSDomains, donor.CRLDistributionPoints = []string{"x.org"}, []string{genURL(t.Rng)}
	donor.PolicyIdentifiers = []asn1.ObjectIdentifier{genOID(t.Rng)}
	donor.RawSubject, donor.ExtraExtensions, donor.MaxPathLen, donor.MaxPathLenZero = nil, nil, 7, false
	k := genKey(t.Rng, pick(t.Rng, "SM2", "P256"))
	der, err := mx.CreateCertificate(t.sys, donor, &mx.Certificate{}, k.pub, k.signer)
	t.noErr("donor", err)
	d, err := mx.ParseCertificate(der)
	t.noErr("donor", err)
	tmpl.ExtraExtensions = nil
	parent := &mx.Certificate{}
	if t.Chance(1, 2) { // issued by another, whose key identifier it takes over
		parent.Subject, parent.SubjectKeyId = pkix.Name{CommonName: "issuer " + t.Name(3)}, t.Bytes(1+t.IntN(20))
		if t.Chance(1, 2) {
			tmpl.AuthorityKeyId = nil
		}
		t.Cover("override below another certificate")
	}
	over := map[string]bool{}
	for _, o := range oids {
		if t.Chance(1, 3) {
			for _, e := range d.Extensions {
				if e.Id.Equal(o) {
					tmpl.ExtraExtensions = append(tmpl.ExtraExtensions, e)
					over[o.String()] = true
				}
			}
		}
	}
	der, err = mx.CreateCertificate(t.sys, tmpl, parent, k.pub, k.signer)
	t.noErr("create", err)
	c, err := mx.ParseCertificate(der)
	t.noErr("parse", err)
	t.Check(len(c.Extensions) == 10, "%d extensions, want 10", len(c.Extensions))
	base := *tmpl
	base.ExtraExtensions = nil
	bder, err := mx.CreateCertificate(t.sys, &base, parent, k.pub, k.signer)
	t.noErr("create", err)
	b, err := mx.ParseCertificate(bder)
	t.noErr("parse", err)
	find := func(l []pkix.Extension, o asn1.ObjectIdentifier) string {
		s := ""
		for _, e := range l {
			if e.Id.Equal(o) {
				s += fmt.Sprintf("%v %x;", e.Critical, e.Value)
			}
		}
		return s
	}
	for _, o := range oids {
		src, from := b, "template field"
		if over[o.String()] {
			src, from = d, "extra extension"
		}
		g, w := find(c.Extensions, o), find(src.Extensions, o)
		t.Check(g == w, "extension %v is %s, want %s from the %s", o, g, w, from)
	}
	if !over["2.5.29.35"] && len(parent.SubjectKeyId) > 0 {
		t.mustEq("authority key identifier", c.AuthorityKeyId, parent.SubjectKeyId)
	}
	t.Key("%x", der)
}

func c10Refused(t *T, i int) {
	ca := genSigner(t.Rng)
	tmpl, parent := genTemplate(t.Rng, false), genTemplate(t.Rng, true)
	var pub any = anyKey(t.Rng).pub
	var priv any = ca.signer
	what := ""
	switch i % 14 {
	case 0:
		what, tmpl.SerialNumber = "no serial number", nil
	case 1:
		what = "path length without CA"
		tmpl.BasicConstraintsValid, tmpl.IsCA, tmpl.MaxPathLen, tmpl.MaxPathLenZero = true, false, t.IntN(5), true
		tmpl.ExtraExtensions = nil
	case 2:
		what = "parent key mismatch"
		parent.PublicKey = genKey(t.Rng, ca.kind).pub
		if samePub(parent.PublicKey, ca.pub) {
			return
		}
	case 3:
		what = "parent key of another type"
		parent.PublicKey = genKey(t.Rng, pick(t.Rng, "SM2", "P256", "Ed25519")).pub
		if samePub(parent.PublicKey, ca.pub) {
			return
		}
	case 4:
		what, priv = "private key cannot sign", pick(t.Rng, any(nil), any("key"), any(3), any(t.Bytes(32)))
		if b, ok := priv.([]byte); ok {
			priv = struct{ b []byte }{b}
		}
	case 5:
		what, pub = "unsupported public key", pick(t.Rng, any(nil), any("key"), any(&dsa.PublicKey{}), any([]byte{1}), any(rsa.PublicKey{N: bi(77), E: 3}))
	case 6:
		what = "algorithm of another key type"
		for {
			a := pick(t.Rng, algs...)
			kk := ca.kind
			if kk[0] == 'P' {
				kk = "EC"
			}
			if a.kind != kk {
				tmpl.SignatureAlgorithm = a.alg
				what += " " + a.name + " with " + ca.kind
				break
			}
		}
	case 7:
		what, tmpl.SignatureAlgorithm = "unknown algorithm", pick(t.Rng, mx.SignatureAlgorithm(18), mx.SignatureAlgorithm(-1), mx.SignatureAlgorithm(1000), mx.DSAWithSHA1, mx.DSAWithSHA256)
	case 8:
		what, tmpl.ExtraExtensions = "unknown extended key usage", nil
		tmpl.ExtKeyUsage = append(tmpl.ExtKeyUsage, mx.ExtKeyUsage(14+t.IntN(100)))
	case 9:
		what, tmpl.ExtraExtensions = "name that is not ASCII", nil
		bad := pick(t.Rng, "ü.example.com", "国", "a\x80b")
		switch t.IntN(7) {
		case 0:
			tmpl.DNSNames = append(tmpl.DNSNames, bad)
		case 1:
			tmpl.EmailAddresses = append(tmpl.EmailAddresses, bad)
		case 2:
			tmpl.PermittedDNSDomains = append(tmpl.PermittedDNSDomains, bad)
		case 3:
			tmpl.ExcludedDNSDomains = append(tmpl.ExcludedDNSDomains, bad)
		case 4:
			tmpl.ExcludedEmailAddresses = append(tmpl.ExcludedEmailAddresses, bad)
		case 5:
			tmpl.PermittedURIDomains = append(tmpl.PermittedURIDomains, bad)
		case 6:
			tmpl.URIs = append(tmpl.URIs, &url.URL{Scheme: "http", Host: "x", Opaque: bad})
		}
	case 10:
		what = "time out of range"
		tmpl.NotAfter = time.Date(10000+t.IntN(9), 1, 1, 0, 0, 0, 0, time.UTC)
	case 11:
		what = "SM2 algorithm with a P-256 key"
		ca = genKey(t.Rng, "P256")
		priv, tmpl.SignatureAlgorithm = ca.signer, mx.SM2WithSM3
	case 12:
		what = "ECDSA algorithm with an SM2 key"
		ca = genKey(t.Rng, "SM2")
		priv, tmpl.SignatureAlgorithm = ca.signer, pick(t.Rng, mx.ECDSAWithSHA1, mx.ECDSAWithSHA256, mx.ECDSAWithSHA384, mx.ECDSAWithSHA512)
	case 13:
		what = "signer fails"
		priv = hookSigner{ca.signer, func([]byte, error) ([]byte, error) { return nil, errInjected }}
	}
	var der []byte
	var err error
	t.guard(what, func() { der, err = mx.CreateCertificate(t.sys, tmpl, parent, pub, priv) })
	t.Check(err != nil, "%s: accepted, certificate %s", what, hx(der))
	t.Check(der == nil, "%s: bytes along with an error", what)
	if i%14 == 13 {
		t.Check(errors.Is(err, errInjected), "the signer's error is not reported: %v", err)
	}
	t.Cover("refused: " + what)
	t.Key("%s %s %s", what, ca.kind, oneLine2(tmpl))
}

func oneLine2(c *mx.Certificate) string {
	if c.SerialNumber == nil {
		return "-"
	}
	return oneLine(c)
}

// c10Signer: whatever a signer returns, no certificate with a false signature comes out, and the signer sees the right bytes.
func c10Signer(t *T, i int) {
	ca, alg, info := caKey(t.Rng)
	tmpl := genTemplate(t.Rng, true)
	tmpl.SignatureAlgorithm = alg
	weak := info.hash == crypto.MD5 || info.hash == crypto.SHA1
	if weak {
		return
	}
	other := genKey(t.Rng, pick(t.Rng, "SM2", "P256", "Ed25519", "RSA small"))
	var spoiled []byte
	what := ""
	s := hookSigner{ca.signer, func(sig []byte, err error) ([]byte, error) {
		if err != nil {
			return sig, err
		}
		out := clone(sig)
		switch i % 6 {
		case 0:
			what = "flipped bit"
			out[t.IntN(len(out))] ^= 1 << t.IntN(8)
		case 1:
			what, out = "empty", nil
		case 2:
			what, out = "random", t.Bytes(len(out))
		case 3:
			what, out = "truncated", out[:t.IntN(len(out))]
		case 4:
			what, out = "extended", append(out, t.Bytes(1+t.IntN(4))...)
		case 5:
			what = "by another key"
			a, _ := algOf(defaultAlg(other.kind))
			out = primSign(t.Rng, a, other, t.Bytes(40))
		}
		spoiled = out
		return out, nil
	}}
	der, err := mx.CreateCertificate(t.sys, tmpl, tmpl, ca.pub, s)
	if err == nil {
		v, _ := viewCert(der)
		t.Check(genuine(info, ca.pub, v.tbs, v.sig), "signer returned a spoiled signature (%s) %s and a certificate came out", what, hx(spoiled))
	}
	t.Evalf()
	t.Cover("spoiled: " + what)
	t.Key("%s %s %x", what, info.name, spoiled)
}

var _ = big.NewInt
var _ = net.IP{}
var _ = ref.TLV
