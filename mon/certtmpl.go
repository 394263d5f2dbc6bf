package main

import (
	"crypto"
	stdx "crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"fmt"
	"io"
	"math/big"
	"net"
	"net/url"
	"reflect"
	"strings"
	"time"

	mx "github.com/mmdet/mcrypto/x509"
)

// ---- generated templates

func genOID(r *Rng) asn1.ObjectIdentifier {
	o := asn1.ObjectIdentifier{pick(r, 1, 2), r.IntN(40)}
	if o[0] == 2 && r.Chance(1, 3) {
		o[1] = r.IntN(1000)
	}
	n := r.IntN(6)
	if r.Chance(1, 12) { // long ones
		n += r.IntN(40)
	}
	if n > 2 {
		o = append(o, 99990+r.IntN(9)) // never one the parser knows
	} else { // few that come up twice
		o = append(o, 99990+r.IntN(1<<30))
	}
	for ; n > 0; n-- {
		o = append(o, pick(r, r.IntN(128), r.IntN(1<<14), r.IntN(1<<31-1), 127, 128, 1<<31-1))
	}
	return o
}

func genString(r *Rng) string {
	switch r.IntN(6) {
	case 0:
		return r.Name(1+r.IntN(12)) + pick(r, "*", "&", "@", "_", "'", " ", ",", "+", "\"", "#", "\\", ";", "<")
	case 1:
		return pick(r, "国密证书", "Müller & Söhne", "тест", "日本", "\U0001F512 lock", "é")
	case 2:
		return r.Name(1 + r.IntN(200))
	}
	return r.Name(1 + r.IntN(20))
}

func someStrings(r *Rng, f func(*Rng) string) (out []string) {
	if r.Chance(1, 2) {
		return nil
	}
	for n := 1 + r.IntN(3); n > 0; n-- {
		out = append(out, f(r))
	}
	return
}

func genPKIXName(r *Rng) pkix.Name {
	if r.Chance(1, 10) {
		return pkix.Name{}
	}
	n := pkix.Name{
		Country: someStrings(r, func(r *Rng) string { return pick(r, "CN", "US", "DE") }), Organization: someStrings(r, genString),
		OrganizationalUnit: someStrings(r, genString), Locality: someStrings(r, genString), Province: someStrings(r, genString),
		StreetAddress: someStrings(r, genString), PostalCode: someStrings(r, genString),
	}
	if r.Chance(1, 3) {
		n.SerialNumber = r.Name(8)
	}
	if r.Chance(3, 4) {
		n.CommonName = genString(r)
	}
	for r.Chance(1, 4) {
		n.ExtraNames = append(n.ExtraNames, pkix.AttributeTypeAndValue{Type: genOID(r), Value: genString(r)})
	}
	if r.Chance(1, 8) { // overrides the field
		n.ExtraNames = append(n.ExtraNames, pkix.AttributeTypeAndValue{Type: asn1.ObjectIdentifier{2, 5, 4, 3}, Value: genString(r)})
	}
	return n
}

func rdn(n pkix.Name) []byte {
	b, err := asn1.Marshal(n.ToRDNSequence())
	if err != nil {
		panic(err)
	}
	return b
}

func genTime(r *Rng) time.Time {
	loc := pick(r, time.UTC, time.FixedZone("", 8*3600), time.FixedZone("", -5*3600-1800))
	y := pick(r, 1950, 1970, 1999, 2000, 2024, 2049, 2050, 2051, 2100, 9998, 1+r.IntN(9998), 1950+r.IntN(200))
	return time.Date(y, time.Month(1+r.IntN(12)), 1+r.IntN(28), r.IntN(24), r.IntN(60), r.IntN(60), pick(r, 0, r.IntN(1e9)), loc)
}

func genDomain(r *Rng) string {
	s := r.Name(1 + r.IntN(10))
	for n := r.IntN(4); n > 0; n-- {
		s += "." + r.Name(1+r.IntN(10))
	}
	return anyCase(r, s)
}

// anyCase makes some letters capital now and then.
func anyCase(r *Rng, s string) string {
	if !r.Chance(1, 6) {
		return s
	}
	b := []byte(s)
	for i := range b {
		if b[i] >= 'a' && b[i] <= 'z' && r.Chance(1, 2) {
			b[i] -= 32
		}
	}
	return string(b)
}

func genDNS(r *Rng) string {
	return pick(r, "", "", "", "*.") + genDomain(r) + pick(r, "", "", "", "", "", ".")
}
func genMail(r *Rng) string {
	return pick(r, "", "a.b+", "x_y-") + anyCase(r, r.Name(1+r.IntN(8))) + "@" + genDomain(r)
}
func genConstraint(r *Rng) string {
	return pick(r, "", "", ".") + genDomain(r)
}
func genURL(r *Rng) string {
	return pick(r, "http", "https", "ldap") + "://" + genDomain(r) + pick(r, "", "/", "/p/"+r.Name(5), "/?q="+r.Name(5), "/a#b")
}

func genIP(r *Rng) net.IP {
	switch r.IntN(3) {
	case 0:
		return net.IP(r.Bytes(4))
	case 1:
		return net.IPv4(byte(r.IntN(256)), byte(r.IntN(256)), byte(r.IntN(256)), byte(r.IntN(256)))
	}
	return net.IP(r.Bytes(16))
}

func genIPNets(r *Rng) (out []*net.IPNet) {
	if r.Chance(1, 2) {
		return nil
	}
	for n := 1 + r.IntN(3); n > 0; n-- {
		if r.Chance(1, 8) {
			// Ranges of IPv6 that cover addresses written for IPv4.
			out = append(out, &net.IPNet{IP: net.IPv4(byte(r.IntN(256)), byte(r.IntN(256)), 3, 4), Mask: net.CIDRMask(r.IntN(129), 128)})
		} else if r.Chance(1, 2) {
			out = append(out, &net.IPNet{IP: pick(r, net.IP(r.Bytes(4)), net.IPv4(10, byte(r.IntN(256)), 3, 4)), Mask: net.CIDRMask(r.IntN(33), 32)})
		} else {
			out = append(out, &net.IPNet{IP: net.IP(cat([]byte{0x20}, r.Bytes(15))), Mask: net.CIDRMask(r.IntN(129), 128)})
		}
	}
	return
}

func genSerial(r *Rng) *big.Int {
	switch r.IntN(4) {
	case 0:
		return bi(int64(1 + r.IntN(300)))
	case 1:
		if r.Chance(1, 20) {
			return new(big.Int)
		}
		return new(big.Int).Lsh(one, uint(r.IntN(160)))
	}
	return r.Big(one, new(big.Int).Lsh(one, uint(1+r.IntN(170))))
}

// anySerial may be negative, which certificates may be although they should not.
func anySerial(r *Rng) *big.Int {
	n := genSerial(r)
	if r.Chance(1, 10) {
		n.Neg(n)
	}
	return n
}

func genExtra(r *Rng) (out []pkix.Extension) {
	for r.Chance(1, 3) {
		out = append(out, pkix.Extension{Id: genOID(r), Critical: r.Chance(1, 3), Value: r.Bytes(r.IntN(300))})
	}
	return
}

func genSANs(r *Rng) (dns, mails []string, ips []net.IP, uris []*url.URL) {
	dns, mails = someStrings(r, genDNS), someStrings(r, genMail)
	for _, l := range []*[]string{&dns, &mails} { // the same name again, as it was or written another way
		if len(*l) > 0 && r.Chance(1, 6) {
			s := (*l)[r.IntN(len(*l))]
			*l = append(*l, pick(r, s, strings.ToUpper(s), strings.ToLower(s), strings.TrimSuffix(s, "."), s+"."))
		}
	}
	for r.Chance(1, 2) {
		ips = append(ips, genIP(r))
	}
	for r.Chance(1, 2) {
		u, err := url.Parse(pick(r, genURL(r), "urn:uuid:"+r.Name(12), "mailto:"+genMail(r)))
		if err != nil {
			panic(err)
		}
		uris = append(uris, u)
	}
	return
}

// genTemplate makes a template that creation must accept. Ca templates can sign.
func genTemplate(r *Rng, ca bool) *mx.Certificate {
	c := &mx.Certificate{SerialNumber: genSerial(r), Subject: genPKIXName(r), NotBefore: genTime(r), NotAfter: genTime(r)}
	if r.Chance(3, 4) {
		c.KeyUsage = mx.KeyUsage(r.IntN(512))
		if r.Chance(1, 3) {
			c.KeyUsage = 1 << r.IntN(9)
		}
	}
	for r.Chance(1, 2) {
		c.ExtKeyUsage = append(c.ExtKeyUsage, mx.ExtKeyUsage(r.IntN(14)))
	}
	for r.Chance(1, 4) {
		c.UnknownExtKeyUsage = append(c.UnknownExtKeyUsage, genOID(r))
	}
	if ca || r.Chance(1, 2) {
		c.BasicConstraintsValid = true
		if ca || r.Chance(1, 2) {
			c.IsCA = true
			switch r.IntN(4) {
			case 0:
				c.MaxPathLenZero = true
			case 1:
				c.MaxPathLen = pick(r, 1, 2, 127, 128, 300, 1+r.IntN(1000))
				c.MaxPathLenZero = r.Chance(1, 4) // says nothing then
			case 2:
				c.MaxPathLen = -1
			}
		} else if r.Chance(1, 2) {
			c.MaxPathLen = -1
		}
	}
	if ca && c.KeyUsage != 0 {
		c.KeyUsage |= mx.KeyUsageCertSign
	}
	if r.Chance(1, 2) {
		c.SubjectKeyId = r.Bytes(1 + r.IntN(40))
	}
	if r.Chance(1, 2) {
		c.AuthorityKeyId = r.Bytes(1 + r.IntN(40))
	}
	c.OCSPServer, c.IssuingCertificateURL = someStrings(r, genURL), someStrings(r, genURL)
	c.DNSNames, c.EmailAddresses, c.IPAddresses, c.URIs = genSANs(r)
	if r.Chance(1, 2) {
		c.PermittedDNSDomainsCritical = r.Chance(1, 2)
		c.PermittedDNSDomains, c.ExcludedDNSDomains = someStrings(r, genConstraint), someStrings(r, genConstraint)
		c.PermittedIPRanges, c.ExcludedIPRanges = genIPNets(r), genIPNets(r)
		mailc := func(r *Rng) string { return pick(r, genMail(r), genConstraint(r)) }
		c.PermittedEmailAddresses, c.ExcludedEmailAddresses = someStrings(r, mailc), someStrings(r, mailc)
		c.PermittedURIDomains, c.ExcludedURIDomains = someStrings(r, genConstraint), someStrings(r, genConstraint)
	}
	c.CRLDistributionPoints = someStrings(r, genURL)
	for r.Chance(1, 3) {
		c.PolicyIdentifiers = append(c.PolicyIdentifiers, append(genOID(r), len(c.PolicyIdentifiers))) // each once
	}
	c.ExtraExtensions = genExtra(r)
	if r.Chance(1, 12) { // these fields are ignored
		c.Extensions = genExtra(r)
		c.Version, c.Signature, c.PublicKeyAlgorithm = 1, r.Bytes(9), mx.DSA
		c.Issuer = genPKIXName(r)
	}
	if r.Chance(1, 12) {
		c.RawSubject = rdn(genPKIXName(r))
	}
	return c
}

func hasConstraints(c *mx.Certificate) bool {
	return len(c.PermittedDNSDomains)+len(c.ExcludedDNSDomains)+len(c.PermittedIPRanges)+len(c.ExcludedIPRanges)+len(c.PermittedEmailAddresses)+
		len(c.ExcludedEmailAddresses)+len(c.PermittedURIDomains)+len(c.ExcludedURIDomains) > 0
}

func nets(in []*net.IPNet) (out []*net.IPNet) {
	for _, n := range in {
		ip := n.IP
		if len(n.Mask) == 4 {
			ip = ip.To4()
		}
		out = append(out, &net.IPNet{IP: ip.Mask(n.Mask), Mask: n.Mask})
	}
	return
}

// wanted is the record a certificate made from the template must have.
func wanted(c *mx.Certificate, issuer []byte, parentSKI []byte, pub any) (record, []byte) {
	w := *c
	w.Version = 3
	w.NotBefore, w.NotAfter = w.NotBefore.UTC().Truncate(time.Second), w.NotAfter.UTC().Truncate(time.Second)
	if !w.BasicConstraintsValid {
		w.IsCA, w.MaxPathLen, w.MaxPathLenZero = false, 0, false
	} else if w.MaxPathLen == 0 && !w.MaxPathLenZero {
		w.MaxPathLen = -1
	}
	w.MaxPathLenZero = w.MaxPathLenZero && w.MaxPathLen == 0
	subject := w.RawSubject
	if len(subject) == 0 {
		subject = rdn(w.Subject)
	}
	w.RawSubject, w.RawIssuer = subject, issuer
	if string(issuer) != string(subject) && len(parentSKI) > 0 {
		w.AuthorityKeyId = parentSKI
	}
	if !hasConstraints(c) {
		w.PermittedDNSDomainsCritical = false
	}
	w.PermittedIPRanges, w.ExcludedIPRanges = nets(w.PermittedIPRanges), nets(w.ExcludedIPRanges)
	w.UnhandledCriticalExtensions = nil
	for _, e := range w.ExtraExtensions {
		if e.Critical {
			w.UnhandledCriticalExtensions = append(w.UnhandledCriticalExtensions, e.Id)
		}
	}
	w.PublicKey = pub
	r := recordOf(&w)
	for _, f := range []string{"Raw", "RawTBSCertificate", "RawSubjectPublicKeyInfo", "Subject", "Issuer", "Signature", "SignatureAlgorithm", "PublicKeyAlgorithm", "Extensions"} {
		delete(r, f)
	}
	if len(c.SubjectKeyId) == 0 && c.IsCA {
		delete(r, "SubjectKeyId") // derived from the key
	}
	return r, subject
}

// toStd copies a template into the standard library's type.
func toStd(c *mx.Certificate) *stdx.Certificate {
	out := new(stdx.Certificate)
	src, dst := reflect.ValueOf(c).Elem(), reflect.ValueOf(out).Elem()
	for i := 0; i < src.NumField(); i++ {
		name := src.Type().Field(i).Name
		d := dst.FieldByName(name)
		if !d.IsValid() || name == "ExtKeyUsage" {
			continue
		}
		d.Set(src.Field(i).Convert(d.Type()))
	}
	for _, u := range c.ExtKeyUsage {
		out.ExtKeyUsage = append(out.ExtKeyUsage, stdx.ExtKeyUsage(u))
	}
	for _, p := range c.PolicyIdentifiers {
		var arcs []uint64
		for _, x := range p {
			arcs = append(arcs, uint64(x))
		}
		o, err := stdx.OIDFromInts(arcs)
		if err != nil {
			panic(err)
		}
		out.Policies = append(out.Policies, o)
	}
	return out
}

// sigAlgsFor lists the algorithms a key may sign with; 0 is the default. Weak ones (MD5, SHA-1) come second.
func sigAlgsFor(kind string) (strong, weak []mx.SignatureAlgorithm) {
	switch {
	case kind == "SM2":
		return []mx.SignatureAlgorithm{0, mx.SM2WithSM3}, nil
	case kind == "RSA":
		return []mx.SignatureAlgorithm{0, mx.SHA256WithRSA, mx.SHA384WithRSA, mx.SHA512WithRSA, mx.SHA256WithRSAPSS, mx.SHA384WithRSAPSS, mx.SHA512WithRSAPSS}, []mx.SignatureAlgorithm{mx.SHA1WithRSA, mx.MD5WithRSA}
	case kind == "Ed25519":
		return []mx.SignatureAlgorithm{0, mx.PureEd25519}, nil
	}
	return []mx.SignatureAlgorithm{0, mx.ECDSAWithSHA256, mx.ECDSAWithSHA384, mx.ECDSAWithSHA512}, []mx.SignatureAlgorithm{mx.ECDSAWithSHA1}
}

// defaultAlg is the documented choice for a key when the template does not ask.
func defaultAlg(kind string) mx.SignatureAlgorithm {
	switch kind {
	case "SM2":
		return mx.SM2WithSM3
	case "RSA":
		return mx.SHA256WithRSA
	case "P384":
		return mx.ECDSAWithSHA384
	case "P521":
		return mx.ECDSAWithSHA512
	case "Ed25519":
		return mx.PureEd25519
	}
	return mx.ECDSAWithSHA256
}

// fastKinds are key types that sign quickly, for cases that need many keys.
var signKinds = []string{"SM2", "P224", "P256", "P384", "P521", "RSA small", "Ed25519"}

func genSigner(r *Rng) tkey {
	return genKey(r, pick(r, append([]string{"SM2", "SM2"}, signKinds...)...))
}

// hookSigner is a signer whose result can be spoiled.
type hookSigner struct {
	crypto.Signer
	f func(sig []byte, err error) ([]byte, error)
}

func (h hookSigner) Sign(rand io.Reader, d []byte, o crypto.SignerOpts) ([]byte, error) {
	return h.f(h.Signer.Sign(rand, d, o))
}

func oneLine(c *mx.Certificate) string {
	return strings.Join(strings.Fields(fmt.Sprintf("serial %v subject %q %v..%v ku %x eku %v ca %v/%v/%v", c.SerialNumber, c.Subject.String(), c.NotBefore, c.NotAfter, int(c.KeyUsage), c.ExtKeyUsage, c.IsCA, c.MaxPathLen, c.MaxPathLenZero)), " ")
}
