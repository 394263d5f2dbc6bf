package main

import (
	"bytes"
	"crypto"
	"crypto/elliptic"
	"crypto/rsa"
	stdx "crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/pem"
	"errors"
	"fmt"
	"math/big"
	"net/url"
	"slices"
	"time"

	"mon/ref"

	mx "github.com/mmdet/mcrypto/x509"
)

func init() {
	register(&Prop{
		ID: "C15",
		Rule: "requests from generated templates (subjects, names of all four kinds, extra extensions, attributes, attributes that already request extensions, every algorithm) and lists by both functions (entries with extensions, numbers, times, issuers as templates and as parsed certificates with every string type): " +
			"read back by the library and by the standard library (SM2 keys transplanted), compared with the template and, where it can make them, with the standard library's own bytes; the signature judged by an independent verifier, under the key and under others; PEM forms; bad requests. Non-trivial: an object was created and judged, or a bad request refused",
		Groups: []Group{
			{Name: "request", N: [2]int{3500, 80000}, Fn: c15Request},
			{Name: "attributes", N: [2]int{2000, 40000}, Fn: c15Attributes},
			{Name: "list", N: [2]int{3000, 60000}, Fn: c15List},
			{Name: "old list", N: [2]int{2000, 40000}, Fn: c15OldList},
			{Name: "pem", N: [2]int{1500, 30000}, Fn: c15PEM},
			{Name: "parsed", N: [2]int{4000, 100000}, Fn: c15Parsed},
			{Name: "refused", N: [2]int{1500, 15000}, Fn: c15Refused},
			again(120, 6000, "ParseCertificateRequest", "ParseCRL", "ParseDERCRL"),
		},
	})
}

var csrFields = []string{"Raw", "RawTBSCertificateRequest", "RawSubjectPublicKeyInfo", "RawSubject", "Version", "Signature", "PublicKeyAlgorithm", "Subject", "Attributes", "Extensions", "DNSNames", "EmailAddresses", "IPAddresses", "URIs"}

func genRequest(r *Rng) *mx.CertificateRequest {
	c := &mx.CertificateRequest{Subject: genPKIXName(r), ExtraExtensions: genExtra(r)}
	c.DNSNames, c.EmailAddresses, c.IPAddresses, c.URIs = genSANs(r)
	if r.Chance(1, 8) {
		c.RawSubject = handName(r)
		var seq pkix.RDNSequence
		if rest, err := asn1.Unmarshal(c.RawSubject, &seq); err != nil || len(rest) > 0 {
			c.RawSubject = rdn(genPKIXName(r))
		}
	}
	if r.Chance(1, 12) { // ignored
		c.Version, c.Signature, c.Extensions, c.PublicKeyAlgorithm = 3, r.Bytes(9), genExtra(r), mx.DSA
		c.PublicKey = genKey(r, "P256").pub
	}
	return c
}

func stdRequest(c *mx.CertificateRequest) *stdx.CertificateRequest {
	return &stdx.CertificateRequest{RawSubject: c.RawSubject, Subject: c.Subject, Attributes: c.Attributes, ExtraExtensions: c.ExtraExtensions,
		DNSNames: c.DNSNames, EmailAddresses: c.EmailAddresses, IPAddresses: c.IPAddresses, URIs: c.URIs}
}

// parts3 splits a signed object into its signed part, algorithm identifier and signature.
func parts3(t *T, what string, der []byte) (tbs, alg, sig []byte) {
	e := elems(der)
	if len(e) != 3 || len(body(e[2])) < 1 || e[2][0] != 3 || body(e[2])[0] != 0 {
		t.Failf("%s: not a signed object: %s", what, hx(der))
	}
	return e[0], e[1], body(e[2])[1:]
}

// readRequest parses a created request and judges everything that does not depend on the template.
func readRequest(t *T, what string, der []byte, k tkey, info algInfo) *mx.CertificateRequest {
	in := clone(der)
	c, err := mx.ParseCertificateRequest(in)
	if err != nil {
		t.Failf("%s: created request does not parse: %v: %s", what, err, hx(der))
	}
	tbs, alg, sig := parts3(t, what, der)
	t.mustEq(what+": Raw", c.Raw, der)
	t.mustEq(what+": signed part", c.RawTBSCertificateRequest, tbs)
	t.mustEq(what+": Signature", c.Signature, sig)
	t.mustEq(what+": algorithm identifier", alg, info.id())
	t.Check(c.SignatureAlgorithm == info.alg, "%s: signature algorithm %v, want %v", what, c.SignatureAlgorithm, info.alg)
	t.Check(samePub(k.pub, c.PublicKey), "%s: public key is %s, want %s", what, showKey(c.PublicKey), showKey(k.pub))
	e := elems(tbs)
	t.Check(len(e) == 4 && e[3][0] == 0xa0, "%s: signed part has %d elements: %s", what, len(e), hx(tbs))
	t.mustEq(what+": version", e[0], ref.Int(bi(0)))
	t.mustEq(what+": subject", c.RawSubject, e[1])
	t.mustEq(what+": public key", e[2], k.pubDER())
	t.mustEq(what+": RawSubjectPublicKeyInfo", c.RawSubjectPublicKeyInfo, e[2])
	t.Check(genuine(info, k.pub, tbs, sig), "%s: the %s signature is not genuine", what, info.name)
	err = c.CheckSignature()
	if weak := info.hash == crypto.MD5; weak {
		t.wantErr(what+": CheckSignature with MD5", err)
	} else {
		t.noErr(what+": CheckSignature", err)
	}

	// The standard library reads the same.
	std := der
	if k.kind == "SM2" {
		std = ref.TLV(0x30, ref.TLV(0x30, e[0], e[1], standIn, e[3]), alg, ref.TLV(3, []byte{0}, sig))
	}
	s, err := stdx.ParseCertificateRequest(std)
	if err != nil {
		t.Failf("%s: the standard library cannot read it: %v: %s", what, err, hx(der))
	}
	a, b := recordOf(c, csrFields...), recordOf(s, csrFields...)
	if k.kind == "SM2" {
		for _, f := range []string{"Raw", "RawTBSCertificateRequest", "RawSubjectPublicKeyInfo", "PublicKey", "PublicKeyAlgorithm"} {
			delete(a, f)
		}
	} else {
		sameAlg(t, what, c.SignatureAlgorithm, s.SignatureAlgorithm)
		if info.hash != crypto.MD5 && info.hash != crypto.SHA1 {
			t.noErr(what+": the standard library's CheckSignature", s.CheckSignature())
		}
	}
	d := a.diff(b, oddNames(s.Subject)...)
	t.Check(d == "", "%s: the standard library reads it differently: %s", what, d)
	return c
}

// oddNames: values of types that are not strings are kept in different ways.
func oddNames(n pkix.Name) []string {
	for _, x := range n.Names {
		if _, ok := x.Value.(string); !ok {
			return []string{"Subject"}
		}
	}
	return nil
}

// onlyUnder checks that other keys and other contents are refused.
func onlyUnder(t *T, what string, c *mx.CertificateRequest, k tkey) {
	other := genKey(t.Rng, k.kind)
	if !samePub(other.pub, k.pub) {
		x := *c
		x.PublicKey = other.pub
		t.wantErr(what+": CheckSignature under another key", x.CheckSignature())
	}
	x := *c
	x.RawTBSCertificateRequest = clone(c.RawTBSCertificateRequest)
	x.RawTBSCertificateRequest[t.IntN(len(x.RawTBSCertificateRequest))] ^= 1 << t.IntN(8)
	t.wantErr(what+": CheckSignature of an altered request", x.CheckSignature())
}

func showNames(c any) string {
	return fmt.Sprint(recordOf(c, "DNSNames", "EmailAddresses", "IPAddresses", "URIs"))
}

func namesOnly(r record) record {
	delete(r, "PublicKey")
	return r
}

func c15Request(t *T, i int) {
	k, alg, info := caKey(t.Rng)
	tmpl := genRequest(t.Rng)
	tmpl.SignatureAlgorithm = alg
	what := fmt.Sprintf("request by a %s key with %s", k.kind, info.name)
	var der []byte
	var err error
	t.guard(what, func() { der, err = mx.CreateCertificateRequest(t.sys, tmpl, k.signer) })
	t.noErr(what, err)
	c := readRequest(t, what, der, k, info)
	if t.Chance(1, 4) {
		onlyUnder(t, what, c, k)
	}
	subject := tmpl.RawSubject
	if len(subject) == 0 {
		subject = rdn(tmpl.Subject)
	}
	t.mustEq(what+": subject", c.RawSubject, subject)
	d := namesOnly(recordOf(tmpl, "DNSNames", "EmailAddresses", "IPAddresses", "URIs")).diff(recordOf(c, csrFields...))
	t.Check(d == "", "%s: names: %s", what, d)
	hasSAN := len(tmpl.DNSNames)+len(tmpl.EmailAddresses)+len(tmpl.IPAddresses)+len(tmpl.URIs) > 0
	want := len(tmpl.ExtraExtensions)
	if hasSAN {
		want++
	}
	t.Check(len(c.Extensions) == want, "%s: %d extensions, want %d", what, len(c.Extensions), want)
	for _, x := range tmpl.ExtraExtensions {
		found := false
		for _, e := range c.Extensions {
			found = found || (e.Id.Equal(x.Id) && e.Critical == x.Critical && bytes.Equal(e.Value, x.Value))
		}
		t.Check(found, "%s: extra extension %v is missing or changed", what, x.Id)
	}
	sameAttributes(t, what, c, tmpl)
	t.Cover("request by " + k.kind + " with " + info.name)
	if hasSAN {
		t.Cover("names")
	}
	if tmpl.RawSubject != nil {
		t.Cover("raw subject")
	}
	t.Key("%x", der)
	t.Sample("%s: subject %q, %s", what, tmpl.Subject.String(), showNames(tmpl))
}

// sameAttributes compares what is asked for with the standard library's bytes for the same template.
func sameAttributes(t *T, what string, c *mx.CertificateRequest, tmpl *mx.CertificateRequest) {
	k := ecdsaKey(elliptic.P256(), bi(777))
	s, err := stdx.CreateCertificateRequest(t.sys, stdRequest(tmpl), k)
	t.noErr(what+": the standard library with the same template", err)
	a, b := elems(elems(s)[0]), elems(c.RawTBSCertificateRequest)
	t.mustEq(what+": subject as the standard library writes it", b[1], a[1])
	t.mustEq(what+": attributes as the standard library writes them", b[3], a[3])
}

// c15Attributes: the deprecated field, with and without requested extensions in it.
func c15Attributes(t *T, i int) {
	k, alg, info := caKey(t.Rng)
	tmpl := genRequest(t.Rng)
	tmpl.SignatureAlgorithm = alg
	extReq := asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 14}
	var own []pkix.AttributeTypeAndValue // extensions asked for through the attribute
	n := 1 + t.IntN(3)
	further := map[string][][]byte{}
	reqAt, reqAt2 := -1, -1
	for j := 0; j < n; j++ {
		at := pkix.AttributeTypeAndValueSET{Type: genOID(t.Rng)}
		for m := 1 + t.IntN(2); m > 0; m-- {
			var l []pkix.AttributeTypeAndValue
			for q := 1 + t.IntN(3); q > 0; q-- {
				l = append(l, pkix.AttributeTypeAndValue{Type: genOID(t.Rng), Value: pick(t.Rng, any(genString(t.Rng)), any(t.Bytes(t.IntN(60))), any(t.IntN(100000)))})
			}
			at.Value = append(at.Value, l)
		}
		if reqAt < 0 && t.Chance(1, 8) { // one that asks for nothing
			at.Type, at.Value = extReq, nil
			if t.Chance(1, 2) {
				at.Value = [][]pkix.AttributeTypeAndValue{}
			}
			t.Cover("an extension request without a value")
		} else if reqAt < 0 && t.Chance(1, 2) {
			reqAt = j
			at.Type = extReq
			at.Value = at.Value[:1]
			at.Value[0] = nil
			for m := t.IntN(4); m > 0; m-- {
				own = append(own, pkix.AttributeTypeAndValue{Type: genOID(t.Rng), Value: t.Bytes(t.IntN(50))})
			}
			if len(tmpl.ExtraExtensions) > 0 && t.Chance(1, 2) { // the attribute wins
				own = append(own, pkix.AttributeTypeAndValue{Type: pick(t.Rng, tmpl.ExtraExtensions...).Id, Value: t.Bytes(t.IntN(50))})
			}
			if t.Chance(1, 4) {
				own = append(own, pkix.AttributeTypeAndValue{Type: asn1.ObjectIdentifier{2, 5, 29, 17}, Value: ref.TLV(0x30, ref.TLV(0x82, []byte("own.example")))})
			}
			at.Value[0] = own
			for t.Chance(1, 5) { // further sets: what they name is not asked for again
				id := genOID(t.Rng)
				switch {
				case len(tmpl.ExtraExtensions) > 0 && t.Chance(1, 2):
					id = pick(t.Rng, tmpl.ExtraExtensions...).Id
				case t.Chance(1, 2):
					id = asn1.ObjectIdentifier{2, 5, 29, 17}
				}
				v := t.Bytes(t.IntN(50))
				if id.String() == "2.5.29.17" {
					v = ref.TLV(0x30, ref.TLV(0x82, []byte("further.example")))
				}
				further[id.String()] = append(further[id.String()], v)
				at.Value = append(at.Value, []pkix.AttributeTypeAndValue{{Type: id, Value: v}})
				t.Cover("an extension request with several sets")
			}
		} else if reqAt >= 0 && reqAt2 < 0 && t.Chance(1, 3) { // asked for in two places
			reqAt2 = j
			at.Type = extReq
			at.Value = at.Value[:1]
			at.Value[0] = nil
			for m := 1 + t.IntN(3); m > 0; m-- {
				x := pkix.AttributeTypeAndValue{Type: append(genOID(t.Rng), 77, m), Value: t.Bytes(t.IntN(50))}
				at.Value[0] = append(at.Value[0], x)
			}
			own = append(own, at.Value[0]...)
		}
		tmpl.Attributes = append(tmpl.Attributes, at)
	}
	what := fmt.Sprintf("request by a %s key with %d attributes, extensions among them: %v", k.kind, n, reqAt >= 0)
	var der []byte
	var err error
	t.guard(what, func() { der, err = mx.CreateCertificateRequest(t.sys, tmpl, k.signer) })
	t.noErr(what, err)
	c := readRequest(t, what, der, k, info)
	sameAttributes(t, what, c, tmpl)

	// Extensions: those of the attribute, then the others by type.
	type ext struct {
		id    string
		value []byte
	}
	var want []ext
	seen := map[string]bool{}
	for _, o := range own {
		want = append(want, ext{o.Type.String(), o.Value.([]byte)})
		seen[o.Type.String()] = true
	}
	ownSAN := seen["2.5.29.17"]
	hasSAN := len(tmpl.DNSNames)+len(tmpl.EmailAddresses)+len(tmpl.IPAddresses)+len(tmpl.URIs) > 0
	for _, x := range tmpl.ExtraExtensions {
		if !seen[x.Id.String()] && further[x.Id.String()] == nil {
			want = append(want, ext{x.Id.String(), x.Value})
		}
	}
	extra := 0
	if hasSAN && !ownSAN && further["2.5.29.17"] == nil {
		extra = 1
	}
	if len(further) > 0 { // which of the sets is read depends on their order in the encoding
		for id, l := range further {
			for _, v := range l {
				want = append(want, ext{id, v})
			}
		}
		var got []string
		for _, at := range c.Attributes {
			for _, l := range at.Value {
				for _, v := range l {
					if b, ok := v.Value.([]byte); ok && at.Type.Equal(extReq) {
						got = append(got, fmt.Sprintf("%v %x", v.Type, b))
					}
				}
			}
		}
		t.Check(len(got) == len(want)+extra, "%s: %d extensions in all sets, want %d", what, len(got), len(want)+extra)
		for _, x := range want {
			t.Check(slices.Contains(got, fmt.Sprintf("%s %x", x.id, x.value)), "%s: extension %s is in no set", what, x.id)
		}
		return
	}
	t.Check(len(c.Extensions) == len(want)+extra, "%s: %d extensions, want %d", what, len(c.Extensions), len(want)+extra)
	for _, x := range want {
		found := false
		for _, e := range c.Extensions {
			found = found || (e.Id.String() == x.id && bytes.Equal(e.Value, x.value))
		}
		t.Check(found, "%s: extension %s is missing or changed", what, x.id)
	}
	if ownSAN {
		t.Check(len(c.DNSNames) == 1 && c.DNSNames[0] == "own.example", "%s: names %v, want those in the attribute", what, c.DNSNames)
	} else {
		d := namesOnly(recordOf(tmpl, "DNSNames", "EmailAddresses", "IPAddresses", "URIs")).diff(recordOf(c, csrFields...))
		t.Check(d == "", "%s: names: %s", what, d)
	}
	// The other attributes are as given.
	got := 0
	for _, a := range c.Attributes {
		for j, w := range tmpl.Attributes {
			if j == reqAt || j == reqAt2 || !a.Type.Equal(w.Type) {
				continue
			}
			g, _ := asn1.Marshal(a)
			x, _ := asn1.Marshal(w)
			if bytes.Equal(g, x) {
				got++
				break
			}
		}
	}
	wantN := n
	if reqAt >= 0 {
		wantN--
	}
	if reqAt2 >= 0 {
		wantN--
		t.Cover("extensions in two attributes")
	}
	t.Check(got == wantN, "%s: %d of %d other attributes are as given", what, got, wantN)
	t.Cover(fmt.Sprintf("attributes, extensions among them: %v, more extensions: %v", reqAt >= 0, len(want)+extra > len(own)))
	t.Key("%x", der)
}

// ---- revocation lists

func genEntries(r *Rng) (out []pkix.RevokedCertificate) {
	n := pick(r, 0, 1, 2, r.IntN(20))
	if r.Chance(1, 100) {
		n = 500
	}
	for ; n > 0; n-- {
		e := pkix.RevokedCertificate{SerialNumber: genSerial(r), RevocationTime: genTime(r)}
		if r.Chance(1, 3) {
			e.Extensions = append(e.Extensions, pkix.Extension{Id: asn1.ObjectIdentifier{2, 5, 29, 21}, Value: ref.TLV(10, []byte{byte(1 + r.IntN(6))})})
		}
		if r.Chance(1, 5) {
			e.Extensions = append(e.Extensions, genExtra(r)...)
		}
		if len(out) > 0 && r.Chance(1, 4) { // nearly that of an earlier one
			o := pick(r, out...)
			e.SerialNumber = pick(r, add(o.SerialNumber, new(big.Int).Lsh(one, uint(pick(r, 0, 8, 32, 63, 64, 64, 128, r.IntN(150))))), new(big.Int).Neg(o.SerialNumber), new(big.Int).Lsh(o.SerialNumber, 8), new(big.Int).Rsh(o.SerialNumber, 8))
			if r.Chance(1, 2) {
				e.RevocationTime = o.RevocationTime
			}
		}
		out = append(out, e)
	}
	return
}

// genIssuer makes the certificate a list is issued under: a template or a parsed one with names of any string types.
func genIssuer(t *T, k tkey) (c *mx.Certificate, subject []byte, how string) {
	switch t.IntN(3) {
	case 0: // template
		c = genTemplate(t.Rng, true)
		how = "template"
	case 1: // created and parsed
		tm := genTemplate(t.Rng, true)
		der, err := mx.CreateCertificate(t.sys, tm, tm, k.pub, k.signer)
		t.noErr("issuer", err)
		if c, err = mx.ParseCertificate(der); err != nil {
			t.Failf("issuer: %v", err)
		}
		how = "created certificate"
	case 2: // made by another implementation
		name := handName(t.Rng)
		a := ref.TLV(0x30, oidSM2WithSM3)
		now := utcTime(time.Date(2024, 1, 1, 0, 0, 0, 0, time.UTC))
		tbs := ref.TLV(0x30, ref.TLV(0xa0, ref.Int(bi(2))), ref.Int(bi(9)), a, nameDER("x"), ref.TLV(0x30, now, now), name, k.pubDER(),
			ref.TLV(0xa3, ref.TLV(0x30, extDER(ref.OID(2, 5, 29, 14), false, ref.TLV(4, t.Bytes(20))))))
		var err error
		var seq pkix.RDNSequence
		if c, err = mx.ParseCertificate(signed3(tbs, a, t.Bytes(70))); err == nil {
			_, err = asn1.Unmarshal(name, &seq) // some strings are refused by encoding/asn1, which reads lists
		}
		if err != nil {
			c = genTemplate(t.Rng, true)
			how = "template"
			break
		}
		how = "foreign certificate"
	}
	subject = rdnOf(c)
	return
}

type wantList struct {
	issuer   []byte
	this     time.Time
	next     time.Time
	entries  []pkix.RevokedCertificate
	exts     []pkix.Extension // exactly these, in any order
	emptySeq bool
}

func fitsDER(tm time.Time) time.Time { return tm.UTC().Truncate(time.Second) }

// checkList judges a created list.
func checkList(t *T, what string, der []byte, w wantList, k tkey, info algInfo) *pkix.CertificateList {
	l, err := mx.ParseCRL(clone(der))
	if err != nil {
		t.Failf("%s: created list does not parse: %v: %s", what, err, hx(der))
	}
	tbs, alg, sig := parts3(t, what, der)
	t.mustEq(what+": algorithm identifier", alg, info.id())
	e := elems(tbs)
	t.Check(len(e) >= 5, "%s: signed part %s", what, hx(tbs))
	t.mustEq(what+": version", e[0], ref.Int(bi(1)))
	t.mustEq(what+": algorithm identifier in the signed part", e[1], info.id())
	t.mustEq(what+": issuer", e[2], w.issuer)
	t.mustEq(what+": TBSCertList.Raw", l.TBSCertList.Raw, tbs)
	t.mustEq(what+": signature", l.SignatureValue.RightAlign(), sig)
	t.Check(l.TBSCertList.ThisUpdate.Equal(fitsDER(w.this)) && l.TBSCertList.NextUpdate.Equal(fitsDER(w.next)), "%s: updates %v, %v; want %v, %v", what, l.TBSCertList.ThisUpdate, l.TBSCertList.NextUpdate, w.this, w.next)
	if !w.next.IsZero() {
		at := fitsDER(w.next)
		t.Check(!l.HasExpired(at.Add(-time.Second)) && l.HasExpired(at.Add(time.Second)), "%s: HasExpired around %v", what, at)
	}
	got := l.TBSCertList.RevokedCertificates
	t.Check(len(got) == len(w.entries), "%s: %d entries, want %d", what, len(got), len(w.entries))
	showEntry := func(x pkix.RevokedCertificate) string {
		s := fmt.Sprintf("%v at %v", x.SerialNumber, fitsDER(x.RevocationTime).Unix())
		for _, y := range x.Extensions {
			s += fmt.Sprintf(" %v %v %x", y.Id, y.Critical, y.Value)
		}
		return s
	}
	for j := range got {
		a, b := showEntry(got[j]), showEntry(w.entries[j])
		t.Check(a == b, "%s: entry %d is %s, want %s", what, j, a, b)
	}
	count := func(l []pkix.Extension) map[string]int {
		m := map[string]int{}
		for _, x := range l {
			m[fmt.Sprintf("%v %v %x", x.Id, x.Critical, x.Value)]++
		}
		return m
	}
	a, b := count(l.TBSCertList.Extensions), count(w.exts)
	for x, n := range b {
		t.Check(a[x] == n, "%s: extension %s occurs %d times, want %d", what, x, a[x], n)
	}
	t.Check(len(a) == len(b), "%s: extensions %v, want %v", what, a, b)
	t.Check(genuine(info, k.pub, tbs, sig), "%s: the %s signature is not genuine", what, info.name)
	h := holder(t, k)
	err = h.CheckCRLSignature(l)
	// Whether SHA-1 is still good enough for lists is C11's question.
	if info.hash == crypto.MD5 {
		t.wantErr(what+": CheckCRLSignature with MD5", err)
	} else if info.hash != crypto.SHA1 {
		t.noErr(what+": CheckCRLSignature", err)
	}
	if t.Chance(1, 4) {
		o := genKey(t.Rng, k.kind)
		if !samePub(o.pub, k.pub) {
			t.wantErr(what+": CheckCRLSignature under another key", holder(t, o).CheckCRLSignature(l))
		}
		x := *l
		x.TBSCertList.Raw = clone(tbs)
		x.TBSCertList.Raw[t.IntN(len(tbs))] ^= 1 << t.IntN(8)
		t.wantErr(what+": CheckCRLSignature of an altered list", h.CheckCRLSignature(&x))
	}

	// The standard library's two readers.
	s, err := stdx.ParseDERCRL(der)
	t.noErr(what+": the standard library's old reader", err)
	t.Check(fmt.Sprint(*s) == fmt.Sprint(*l), "%s: the standard library's old reader disagrees", what)
	return l
}

func c15List(t *T, i int) {
	k, alg, info := caKey(t.Rng)
	issuer, subject, how := genIssuer(t, k)
	iss := *issuer
	iss.KeyUsage |= mx.KeyUsageCRLSign
	if len(iss.SubjectKeyId) == 0 {
		iss.SubjectKeyId = t.Bytes(1 + t.IntN(30))
	}
	tm := &mx.RevocationList{SignatureAlgorithm: alg, RevokedCertificates: genEntries(t.Rng), Number: pick(t.Rng, bi(0), bi(1), genSerial(t.Rng), genSerial(t.Rng)), ThisUpdate: genTime(t.Rng), ExtraExtensions: genExtra(t.Rng)}
	tm.NextUpdate = tm.ThisUpdate.Add(pick(t.Rng, 0, time.Second, time.Hour*24*30, time.Duration(t.Int64N(1e17))))
	if tm.NextUpdate.Year() > 9999 || tm.NextUpdate.UTC().Year() > 9999 {
		tm.NextUpdate = tm.ThisUpdate
	}
	what := fmt.Sprintf("list with %d entries by a %s key with %s, issuer a %s", len(tm.RevokedCertificates), k.kind, info.name, how)
	var der []byte
	var err error
	t.guard(what, func() { der, err = mx.CreateRevocationList(t.sys, tm, &iss, k.signer) })
	t.noErr(what, err)
	w := wantList{issuer: subject, this: tm.ThisUpdate, next: tm.NextUpdate, entries: tm.RevokedCertificates}
	w.exts = append([]pkix.Extension{
		{Id: asn1.ObjectIdentifier{2, 5, 29, 35}, Value: ref.TLV(0x30, ref.TLV(0x80, iss.SubjectKeyId))},
		{Id: asn1.ObjectIdentifier{2, 5, 29, 20}, Value: ref.Int(tm.Number)},
	}, tm.ExtraExtensions...)
	checkList(t, what, der, w, k, info)
	if s, err := stdx.ParseRevocationList(der); err == nil {
		t.Check(s.Number.Cmp(tm.Number) == 0, "%s: the standard library reads number %v", what, s.Number)
		t.mustEq(what+": authority key id as the standard library reads it", s.AuthorityKeyId, iss.SubjectKeyId)
		t.mustEq(what+": issuer as the standard library reads it", s.RawIssuer, subject)
		t.Check(len(s.RevokedCertificateEntries) == len(tm.RevokedCertificates), "%s: the standard library reads %d entries", what, len(s.RevokedCertificateEntries))
		if k.std() && info.hash != crypto.MD5 && info.hash != crypto.SHA1 {
			c := &stdx.Certificate{PublicKey: k.pub, BasicConstraintsValid: true, IsCA: true, KeyUsage: stdx.KeyUsageCRLSign}
			switch k.pub.(type) {
			case *rsa.PublicKey:
				c.PublicKeyAlgorithm = stdx.RSA
			default:
				c.PublicKeyAlgorithm = stdx.ECDSA
				if k.kind == "Ed25519" {
					c.PublicKeyAlgorithm = stdx.Ed25519
				}
			}
			t.noErr(what+": the standard library's check", s.CheckSignatureFrom(c))
			t.Cover("verified by the standard library")
		}
		t.Cover("read by the standard library")
	} else {
		t.Cover("not read by the standard library: " + err.Error())
	}
	t.Cover("list by " + k.kind + " with " + info.name)
	t.Cover("issuer: " + how)
	t.Key("%x", der)
	t.Sample("%s, number %v", what, tm.Number)
}

func c15OldList(t *T, i int) {
	k := genSigner(t.Rng)
	info, _ := algOf(defaultAlg(k.kind))
	issuer, subject, how := genIssuer(t, k)
	entries := genEntries(t.Rng)
	this, next := genTime(t.Rng), genTime(t.Rng)
	what := fmt.Sprintf("CreateCRL with %d entries by a %s key, issuer a %s", len(entries), k.kind, how)
	var der []byte
	var err error
	var priv any = k.signer
	t.guard(what, func() { der, err = issuer.CreateCRL(t.sys, priv, entries, this, next) })
	t.noErr(what, err)
	w := wantList{issuer: subject, this: this, next: next, entries: entries}
	if len(issuer.SubjectKeyId) > 0 {
		w.exts = []pkix.Extension{{Id: asn1.ObjectIdentifier{2, 5, 29, 35}, Value: ref.TLV(0x30, ref.TLV(0x80, issuer.SubjectKeyId))}}
	}
	checkList(t, what, der, w, k, info)
	t.Cover("CreateCRL by " + k.kind)
	t.Key("%x", der)
}

// c15PEM: a list reads the same in both forms; other wrappings are not lists.
func c15PEM(t *T, i int) {
	k := genKey(t.Rng, pick(t.Rng, "SM2", "P256", "Ed25519"))
	c := &mx.Certificate{Subject: genPKIXName(t.Rng), SubjectKeyId: t.Bytes(4)}
	der, err := c.CreateCRL(t.sys, k.signer, genEntries(t.Rng), genTime(t.Rng), genTime(t.Rng))
	t.noErr("CreateCRL", err)
	w, err := mx.ParseDERCRL(clone(der))
	t.noErr("ParseDERCRL", err)
	show := func(l *pkix.CertificateList) string { return fmt.Sprint(*l) }
	b := &pem.Block{Type: "X509 CRL", Bytes: der}
	if t.Chance(1, 4) {
		b.Headers = map[string]string{"Note": t.Name(5)}
	}
	text := pem.EncodeToMemory(b)
	same := func(what string, in []byte) {
		l, err := mx.ParseCRL(in)
		t.noErr(what, err)
		t.Check(show(l) == show(w), "%s: another list", what)
		t.Cover(what)
	}
	same("ParseCRL of DER", clone(der))
	same("ParseCRL of PEM", clone(text))
	same("ParseCRL of PEM with text after it", append(clone(text), t.Name(20)...))
	same("ParseCRL of PEM with CR LF", bytes.ReplaceAll(text, []byte("\n"), []byte("\r\n")))
	bad := func(what string, in []byte) {
		l, err := mx.ParseCRL(in)
		t.Check(err != nil && l == nil, "%s: accepted", what)
		t.Cover(what)
	}
	bad("PEM of another type", pem.EncodeToMemory(&pem.Block{Type: pick(t.Rng, "CERTIFICATE", "X509 CRLX", "x509 crl"), Bytes: der}))
	bad("PEM cut short", text[:t.IntN(len(text)-30)])
	bad("PEM with a trailing byte inside", pem.EncodeToMemory(&pem.Block{Type: "X509 CRL", Bytes: append(clone(der), 0)}))
	bad("DER with a trailing byte", append(clone(der), byte(t.IntN(256))))
	bad("DER cut short", der[:t.IntN(len(der))])
	if _, err := mx.ParseDERCRL(text); err == nil {
		t.Failf("ParseDERCRL accepts PEM")
	}
	t.Key("%x", der)
}

// c15Parsed: requests and lists of the standard library, and mutants of them, read like the standard library reads them.
func c15Parsed(t *T, i int) {
	if i%2 == 0 {
		k := genKey(t.Rng, pick(t.Rng, "P256", "RSA small", "Ed25519", "P384"))
		tmpl := genRequest(t.Rng)
		der, err := stdx.CreateCertificateRequest(t.sys, stdRequest(tmpl), k.priv)
		t.noErr("standard library", err)
		how := "unchanged"
		if i%4 == 2 {
			der, how = mutate(t.Rng, der, nil)
		}
		var c *mx.CertificateRequest
		var cerr error
		t.guard("ParseCertificateRequest of "+hx(der), func() { c, cerr = mx.ParseCertificateRequest(clone(der)) })
		s, serr := stdx.ParseCertificateRequest(der)
		if how == "unchanged" {
			t.noErr("request of the standard library: parse", cerr)
			t.noErr("request of the standard library: CheckSignature", c.CheckSignature())
			t.Cover("request of the standard library")
		}
		if cerr == nil && serr == nil {
			a, b := recordOf(c, csrFields...), recordOf(s, csrFields...)
			// Attributes: the new library reads extension requests in a stricter way.
			d := a.diff(b, append(oddNames(s.Subject), "Signature")...)
			t.Check(d == "", "request (%s): %s: %s", how, d, hx(der))
			sameAlg(t, "request", c.SignatureAlgorithm, s.SignatureAlgorithm)
			e1, e2 := c.CheckSignature(), s.CheckSignature()
			if s.SignatureAlgorithm != stdx.SHA1WithRSA && s.SignatureAlgorithm != stdx.ECDSAWithSHA1 {
				t.Check((e1 == nil) == (e2 == nil), "request (%s): CheckSignature says %v, the standard library %v: %s", how, e1, e2, hx(der))
			}
			t.Cover("request, " + how + ": compared")
		} else {
			t.Cover(fmt.Sprintf("mutated request: refused %v, by the standard library %v", cerr != nil, serr != nil))
		}
		t.Key("%x", der)
		return
	}
	k := genKey(t.Rng, pick(t.Rng, "P256", "RSA small", "Ed25519"))
	iss := &stdx.Certificate{Subject: genPKIXName(t.Rng), KeyUsage: stdx.KeyUsageCRLSign, SubjectKeyId: t.Bytes(20), PublicKey: k.pub}
	tm := &stdx.RevocationList{Number: genSerial(t.Rng), ThisUpdate: genTime(t.Rng), ExtraExtensions: genExtra(t.Rng)}
	if tm.Number.BitLen() > 158 {
		tm.Number = bi(3)
	}
	tm.NextUpdate = tm.ThisUpdate.Add(time.Hour)
	for _, e := range genEntries(t.Rng) {
		tm.RevokedCertificateEntries = append(tm.RevokedCertificateEntries, stdx.RevocationListEntry{SerialNumber: e.SerialNumber, RevocationTime: e.RevocationTime, ReasonCode: t.IntN(7)})
	}
	der, err := stdx.CreateRevocationList(t.sys, tm, iss, k.signer)
	t.noErr("standard library", err)
	how := "unchanged"
	if i%4 == 3 {
		der, how = mutate(t.Rng, der, nil)
	}
	var l *pkix.CertificateList
	var lerr error
	t.guard("ParseCRL of "+hx(der), func() { l, lerr = mx.ParseCRL(clone(der)) })
	s, serr := stdx.ParseDERCRL(der)
	t.Check((lerr == nil) == (serr == nil), "list (%s): error %v, the standard library's %v: %s", how, lerr, serr, hx(der))
	if lerr == nil {
		t.Check(fmt.Sprint(*l) == fmt.Sprint(*s), "list (%s): read differently: %s", how, hx(der))
		if how == "unchanged" {
			t.noErr("list of the standard library: CheckCRLSignature", holder(t, k).CheckCRLSignature(l))
			t.Check(len(l.TBSCertList.RevokedCertificates) == len(tm.RevokedCertificateEntries), "entries")
			t.Cover("list of the standard library")
		}
		t.Cover("list, " + how + ": compared")
	}
	t.Key("%x", der)
}

func c15Refused(t *T, i int) {
	k := genSigner(t.Rng)
	req := genRequest(t.Rng)
	req.RawSubject = nil
	iss := genTemplate(t.Rng, true)
	iss.KeyUsage |= mx.KeyUsageCRLSign
	iss.SubjectKeyId = t.Bytes(8)
	list := &mx.RevocationList{RevokedCertificates: genEntries(t.Rng), Number: bi(1), ThisUpdate: time.Unix(1e9, 0), NextUpdate: time.Unix(2e9, 0)}
	var priv any = k.signer
	what := ""
	fails := hookSigner{k.signer, func([]byte, error) ([]byte, error) { return nil, errInjected }}
	wrong := func() mx.SignatureAlgorithm {
		for {
			a := pick(t.Rng, algs...)
			if a.kind != kindOf(k.pub) {
				return a.alg
			}
		}
	}
	reqCase, injected := i%2 == 0, false
	if reqCase {
		switch i / 2 % 6 {
		case 0:
			what, priv = "key that cannot sign", pick(t.Rng, any(nil), any("key"), any(7), any(&struct{ a int }{1}))
		case 1:
			what, req.SignatureAlgorithm = "algorithm of another key type", wrong()
		case 2:
			what, req.SignatureAlgorithm = "unknown algorithm", pick(t.Rng, mx.SignatureAlgorithm(18), mx.SignatureAlgorithm(-1), mx.DSAWithSHA1, mx.DSAWithSHA256)
		case 3:
			what, priv, injected = "failing signer", fails, true
		case 4:
			what = "name that is not ASCII"
			bad := pick(t.Rng, "ü.example.com", "国", "a\x80b")
			req.ExtraExtensions = nil
			switch t.IntN(3) {
			case 0:
				req.DNSNames = append(req.DNSNames, bad)
			case 1:
				req.EmailAddresses = append(req.EmailAddresses, bad)
			case 2:
				req.URIs = append(req.URIs, &url.URL{Scheme: "http", Host: "x", Opaque: bad})
			}
		case 5:
			what = "key type without a certificate form"
			priv = oddSigner{k.signer, pick(t.Rng, any(nil), any("key"), any([]byte{1}), any(struct{}{}))}
		}
		var der []byte
		var err error
		t.guard(what, func() { der, err = mx.CreateCertificateRequest(t.sys, req, priv) })
		t.Check(err != nil && der == nil, "request, %s: accepted: %s", what, hx(der))
		t.Check(!injected || errors.Is(err, errInjected), "the signer's error is not reported: %v", err)
		t.Cover("refused request: " + what)
		t.Key("%s %s %v", what, k.kind, req.Subject)
		return
	}
	signer := k.signer
	old := false
	l, is := list, iss
	switch i / 2 % 12 {
	case 0:
		what, l = "no template", nil
	case 1:
		what, is = "no issuer", nil
	case 2:
		what = "issuer may not sign lists"
		is.KeyUsage &^= mx.KeyUsageCRLSign
	case 3:
		what, is.SubjectKeyId = "issuer without key identifier", nil
	case 4:
		what, l.NextUpdate = "updates in the wrong order", l.ThisUpdate.Add(-time.Duration(1+t.IntN(1000))*time.Second)
	case 5:
		what, l.Number = "no number", nil
	case 6:
		what, l.SignatureAlgorithm = "algorithm of another key type", wrong()
	case 7:
		what, signer, injected = "failing signer", fails, true
	case 8:
		what = "time out of range"
		l.RevokedCertificates = append(l.RevokedCertificates, pkix.RevokedCertificate{SerialNumber: bi(1), RevocationTime: time.Date(10000+t.IntN(50), 1, 2, 0, 0, 0, 0, time.UTC)})
	case 9:
		what, signer = "key type without a certificate form", oddSigner{k.signer, pick(t.Rng, any(nil), any("key"), any([]byte{1}))}
	case 10:
		what, signer, injected, old = "failing signer (CreateCRL)", fails, true, true
	case 11:
		what, old, priv = "key that cannot sign (CreateCRL)", true, pick(t.Rng, any(nil), any("key"), any(7))
	}
	var der []byte
	var err error
	t.guard(what, func() {
		switch {
		case what == "failing signer (CreateCRL)":
			der, err = iss.CreateCRL(t.sys, signer, l.RevokedCertificates, l.ThisUpdate, l.NextUpdate)
		case old:
			der, err = iss.CreateCRL(t.sys, priv, l.RevokedCertificates, l.ThisUpdate, l.NextUpdate)
		default:
			der, err = mx.CreateRevocationList(t.sys, l, is, signer)
		}
	})
	t.Check(err != nil && der == nil, "list, %s: accepted: %s", what, hx(der))
	t.Check(!injected || errors.Is(err, errInjected), "the signer's error is not reported: %v", err)
	t.Cover("refused list: " + what)
	t.Key("%s %s %d", what, k.kind, i)
}

// oddSigner has a public key of a type nobody knows.
type oddSigner struct {
	crypto.Signer
	pub any
}

func (o oddSigner) Public() crypto.PublicKey { return o.pub }

var _ = big.NewInt
