package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/rsa"
	stdx "crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/hex"
	"fmt"
	"math/big"
	"net"
	"net/url"
	"reflect"
	"sort"
	"strings"
	"time"

	"mon/ref"

	"github.com/mmdet/mcrypto/sm2"
	mx "github.com/mmdet/mcrypto/x509"
)

// A record is a certificate, request or list as text, field by field, so that different types compare.
type record map[string]string

func show(v reflect.Value) string {
	switch x := v.Interface().(type) {
	case *big.Int:
		if x == nil {
			return ""
		}
		return x.String()
	case time.Time:
		return x.UTC().Format(time.RFC3339Nano)
	case []byte:
		return hex.EncodeToString(x)
	case net.IP:
		if v4 := x.To4(); v4 != nil {
			x = v4
		}
		return hex.EncodeToString(x)
	case *net.IPNet:
		return x.IP.String() + " mask " + hex.EncodeToString(x.Mask)
	case *url.URL:
		u := *x
		user := fmt.Sprintf("%#v", u.User)
		if u.User != nil {
			user = fmt.Sprintf("%#v", *u.User)
		}
		u.User = nil
		return fmt.Sprintf("%#v %s", u, user)
	case asn1.ObjectIdentifier:
		return x.String()
	case pkix.Extension:
		return fmt.Sprintf("%v %v %x", x.Id, x.Critical, x.Value)
	case pkix.Name:
		return fmt.Sprintf("%q", []any{x.Country, x.Organization, x.OrganizationalUnit, x.Locality, x.Province, x.StreetAddress, x.PostalCode, x.SerialNumber, x.CommonName, show(reflect.ValueOf(x.Names)), x.String()})
	case pkix.AttributeTypeAndValue:
		return fmt.Sprintf("%v=%T %q", x.Type, x.Value, fmt.Sprint(x.Value))
	case pkix.RevokedCertificate:
		return fmt.Sprintf("%v %v %s", x.SerialNumber, x.RevocationTime.UTC().Format(time.RFC3339Nano), show(reflect.ValueOf(x.Extensions)))
	}
	switch v.Kind() {
	case reflect.Slice:
		var s []string
		for i := 0; i < v.Len(); i++ {
			s = append(s, show(v.Index(i)))
		}
		return strings.Join(s, " | ")
	case reflect.Int, reflect.Int64:
		return fmt.Sprint(v.Int())
	}
	return fmt.Sprintf("%q", fmt.Sprint(v.Interface()))
}

func showKey(k any) string {
	switch k := k.(type) {
	case *rsa.PublicKey:
		return fmt.Sprintf("RSA %x %d", k.N, k.E)
	case *ecdsa.PublicKey:
		return fmt.Sprintf("EC %s %x %x", k.Curve.Params().Name, k.X, k.Y)
	case *sm2.PublicKey:
		return fmt.Sprintf("SM2 %x %x", k.X, k.Y)
	case ed25519.PublicKey:
		return fmt.Sprintf("Ed25519 %x", []byte(k))
	}
	return fmt.Sprintf("%T %v", k, k)
}

var certFields = func() (out []string) {
	t := reflect.TypeOf(mx.Certificate{})
	for i := 0; i < t.NumField(); i++ {
		f := t.Field(i)
		if !f.IsExported() || f.Name == "ExtraExtensions" || f.Name == "PublicKey" {
			continue
		}
		// PolicyIdentifiers: read differently by new versions of the standard library for long arcs only.
		out = append(out, f.Name)
	}
	return
}()

// recordOf reads the named fields (all that the two certificate types share if none) from a struct pointer.
func recordOf(c any, fields ...string) record {
	if len(fields) == 0 {
		fields = certFields
	}
	v := reflect.ValueOf(c).Elem()
	r := record{}
	for _, f := range fields {
		fv := v.FieldByName(f)
		if fv.IsValid() {
			r[f] = show(fv)
		}
	}
	if k := v.FieldByName("PublicKey"); k.IsValid() {
		r["PublicKey"] = showKey(k.Interface())
	}
	return r
}

// diff names the fields in which two records differ, apart from the ignored ones.
func (a record) diff(b record, ignore ...string) string {
	var out []string
	for f, x := range a {
		if y, ok := b[f]; ok && x != y && !contains(ignore, f) {
			out = append(out, fmt.Sprintf("%s: %s != %s", f, x, y))
		}
	}
	sort.Strings(out)
	return strings.Join(out, "; ")
}

func contains(l []string, s string) bool {
	for _, x := range l {
		if x == s {
			return true
		}
	}
	return false
}

// ---- walking DER

// elems splits the contents of the DER element into whole elements.
func elems(der []byte) (out [][]byte) {
	_, c, rest, ok := ref.ReadTLV(der)
	if !ok || len(rest) != 0 {
		return nil
	}
	return split(c)
}

// split splits concatenated elements.
func split(c []byte) (out [][]byte) {
	for len(c) > 0 {
		_, _, rest, ok := ref.ReadTLV(c)
		if !ok {
			return // what follows is left out
		}
		out = append(out, c[:len(c)-len(rest):len(c)-len(rest)])
		c = rest
	}
	return
}

func body(der []byte) []byte {
	_, c, _, ok := ref.ReadTLV(der)
	if !ok {
		return nil
	}
	return c
}

// A tbsView names the parts of a certificate.
type tbsView struct {
	raw, tbs                                                  []byte
	version, serial, alg, issuer, validity, subject, spki, ex []byte
	outerAlg, sig                                             []byte
}

func viewCert(der []byte) (v tbsView, ok bool) {
	top := elems(der)
	if len(top) < 3 {
		return
	}
	v.raw, v.tbs, v.outerAlg = der, top[0], top[1]
	if s := body(top[2]); len(s) > 0 {
		v.sig = s[1:]
	}
	p := elems(top[0])
	if len(p) > 0 && p[0][0] == 0xa0 {
		v.version, p = p[0], p[1:]
	}
	if len(p) < 6 {
		return
	}
	v.serial, v.alg, v.issuer, v.validity, v.subject, v.spki = p[0], p[1], p[2], p[3], p[4], p[5]
	for _, e := range p[6:] {
		if e[0] == 0xa3 {
			v.ex = e
		}
	}
	return v, true
}

// transplant puts another public key into a certificate.
func transplant(der, spki []byte) []byte {
	top := elems(der)
	p := elems(top[0])
	i := 5
	if p[0][0] == 0xa0 {
		i = 6
	}
	p[i] = spki
	top[0] = ref.TLV(0x30, p...)
	return ref.TLV(0x30, top...)
}

// standIn is a fixed key the standard library knows, to put in place of an SM2 key.
var standIn = func() []byte {
	k := rsaKey(0)
	der, err := stdx.MarshalPKIXPublicKey(&k.PublicKey)
	if err != nil {
		panic(err)
	}
	return der
}()

// stdFields are the fields that stay comparable when an SM2 key was replaced.
var swapIgnore = []string{"Raw", "RawTBSCertificate", "RawSubjectPublicKeyInfo", "PublicKey", "PublicKeyAlgorithm"}

// unhandledOK: newer versions of the standard library handle more extensions, so theirs is a subset of ours.
func unhandledOK(ours, std []asn1.ObjectIdentifier) bool {
	for _, o := range std {
		ok := false
		for _, x := range ours {
			ok = ok || x.Equal(o)
		}
		if !ok {
			return false
		}
	}
	return true
}

// agree compares what the library and the standard library read from the same certificate.
func agree(t *T, what string, got *mx.Certificate, std *stdx.Certificate, ignore ...string) {
	ignore = append(ignore, "UnhandledCriticalExtensions")
	if !contains(ignore, "SignatureAlgorithm") {
		sameAlg(t, what, got.SignatureAlgorithm, std.SignatureAlgorithm)
		ignore = append(ignore, "SignatureAlgorithm")
	}
	// The standard library changed how it reads 8-bit T61 strings.
	for f, raw := range map[string][]byte{"Issuer": std.RawIssuer, "Subject": std.RawSubject} {
		if oddT61(raw) {
			ignore = append(ignore, f)
		}
	}
	d := recordOf(got).diff(recordOf(std), ignore...)
	t.Check(d == "", "%s: the standard library reads something else (ours != theirs): %s", what, d)
	t.Check(unhandledOK(got.UnhandledCriticalExtensions, std.UnhandledCriticalExtensions), "%s: unhandled critical extensions %v, the standard library finds %v", what, got.UnhandledCriticalExtensions, std.UnhandledCriticalExtensions)
}

// rawsExact checks that the raw fields are the parts of the input.
func rawsExact(t *T, what string, c *mx.Certificate, in []byte) {
	v, ok := viewCert(in)
	t.Check(ok, "%s: accepted something that is not a certificate: %s", what, hx(in))
	for _, x := range []struct {
		name      string
		got, want []byte
	}{{"Raw", c.Raw, v.raw}, {"RawTBSCertificate", c.RawTBSCertificate, v.tbs}, {"RawSubject", c.RawSubject, v.subject}, {"RawIssuer", c.RawIssuer, v.issuer},
		{"RawSubjectPublicKeyInfo", c.RawSubjectPublicKeyInfo, v.spki}} {
		t.Check(bytes.Equal(x.got, x.want), "%s: %s is not that part of the input: %s, want %s", what, x.name, hx(x.got), hx(x.want))
	}
}

// stdAlg is the standard library's number for an algorithm: it has MD2 in addition.
func stdAlg(a mx.SignatureAlgorithm) stdx.SignatureAlgorithm {
	if a == 0 || a >= mx.SM2WithSM3 {
		return 0
	}
	return stdx.SignatureAlgorithm(a) + 1
}

func sameAlg(t *T, what string, got mx.SignatureAlgorithm, std stdx.SignatureAlgorithm) {
	if std == stdx.MD2WithRSA || std > stdx.PureEd25519 {
		std = 0
	}
	t.Check(stdAlg(got) == std, "%s: signature algorithm %v, the standard library finds %v", what, got, std)
}

// oddValues tells whether a name holds something other than a string of the usual types, which the library refuses.
func oddValues(name []byte) bool {
	for _, set := range elems(name) {
		for _, a := range elems(set) {
			if p := elems(a); len(p) < 2 || !bytes.Contains([]byte{12, 18, 19, 20, 22, 30}, p[1][:1]) {
				return true
			}
		}
	}
	return false
}

func oddT61(name []byte) bool {
	for _, set := range elems(name) {
		for _, a := range elems(set) {
			if p := elems(a); len(p) > 1 && p[1][0] == 20 {
				for _, b := range p[1] {
					if b >= 0x80 {
						return true
					}
				}
			}
		}
	}
	return false
}
