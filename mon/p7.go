package main

import (
	"bytes"
	"errors"
	"fmt"
	"math/big"
	"sort"
	"time"

	"mon/ref"

	"github.com/mmdet/mcrypto/sm2"
	mx "github.com/mmdet/mcrypto/x509"
)

// SignedData written and read without the library under test.

var (
	oidGMData       = ref.OID(1, 2, 156, 10197, 6, 1, 4, 2, 1)
	oidGMSignedData = ref.OID(1, 2, 156, 10197, 6, 1, 4, 2, 2)
	oidSM3Hash      = ref.OID(1, 2, 156, 10197, 1, 401)
	oidSM2Enc       = ref.OID(1, 2, 156, 10197, 1, 301, 1)
	oidAttrType     = ref.OID(1, 2, 840, 113549, 1, 9, 3)
	oidAttrDigest   = ref.OID(1, 2, 840, 113549, 1, 9, 4)
	oidAttrTime     = ref.OID(1, 2, 840, 113549, 1, 9, 5)
)

// sdSigner is one signer. Without attributes attrs is nil.
type sdSigner struct {
	issuer   []byte
	serial   *big.Int
	attrs    [][]byte
	sig      []byte
	unauth   []byte
	emptySet bool // an attribute set that is there but empty
}

type sdSpec struct {
	content   []byte
	noContent bool
	chunks    int // content as a constructed string
	certs     [][]byte
	crls      []byte
	signers   []sdSigner
}

func attr(oid, value []byte) []byte { return ref.TLV(0x30, oid, ref.TLV(0x31, value)) }

func digestAttr(d []byte) []byte { return attr(oidAttrDigest, ref.TLV(4, d)) }

// stdAttrs are the usual attributes for some content.
func stdAttrs(content []byte) [][]byte {
	return sortSet([][]byte{attr(oidAttrType, oidGMData), attr(oidAttrTime, utcTime(time.Date(2024, 5, 6, 7, 8, 9, 0, time.UTC))), digestAttr(ref.SM3(content))})
}

func sortSet(a [][]byte) [][]byte {
	out := append([][]byte{}, a...)
	sort.Slice(out, func(i, j int) bool { return bytes.Compare(out[i], out[j]) < 0 })
	return out
}

func (s *sdSigner) der() []byte {
	var at []byte
	if s.attrs != nil || s.emptySet {
		at = ref.TLV(0xa0, s.attrs...)
	}
	return ref.TLV(0x30, ref.Int(bi(1)), ref.TLV(0x30, s.issuer, ref.Int(s.serial)), ref.TLV(0x30, oidSM3Hash), at, ref.TLV(0x30, oidSM2Enc), ref.TLV(4, s.sig), s.unauth)
}

func (s *sdSpec) der() []byte {
	var ci []byte
	switch {
	case s.noContent:
		ci = ref.TLV(0x30, oidGMData)
	case s.chunks > 0:
		n := (len(s.content) + s.chunks - 1) / s.chunks
		var c []byte
		for i := 0; i < len(s.content); i += n {
			c = append(c, ref.TLV(4, s.content[i:min(len(s.content), i+n)])...)
		}
		ci = ref.TLV(0x30, oidGMData, ref.TLV(0xa0, ref.TLV(0x24, c)))
	default:
		ci = ref.TLV(0x30, oidGMData, ref.TLV(0xa0, ref.TLV(4, s.content)))
	}
	var certs []byte
	if s.certs != nil {
		certs = ref.TLV(0xa0, s.certs...)
	}
	var si [][]byte
	for i := range s.signers {
		si = append(si, s.signers[i].der())
	}
	sd := ref.TLV(0x30, ref.Int(bi(1)), ref.TLV(0x31, ref.TLV(0x30, oidSM3Hash)), ci, certs, s.crls, ref.TLV(0x31, si...))
	return ref.TLV(0x30, oidGMSignedData, ref.TLV(0xa0, sd))
}

// readSD reads a well-formed message strictly.
func readSD(der []byte) (*sdSpec, error) {
	bad := func(what string) (*sdSpec, error) { return nil, errors.New("not a SignedData message: " + what) }
	out := elems(der)
	if len(out) != 2 || !bytes.Equal(cat(out...), body(der)) || !bytes.Equal(out[0], oidGMSignedData) || out[1][0] != 0xa0 || der[0] != 0x30 {
		return bad("outer frame")
	}
	in := split(body(out[1]))
	if len(in) != 1 || in[0][0] != 0x30 {
		return bad("explicit tag")
	}
	p := elems(in[0])
	if len(p) < 4 || !bytes.Equal(cat(p...), body(in[0])) || !bytes.Equal(p[0], ref.Int(bi(1))) || p[1][0] != 0x31 {
		return bad("version or digest algorithms")
	}
	if !bytes.Equal(body(p[1]), ref.TLV(0x30, oidSM3Hash)) {
		return bad("digest algorithm")
	}
	s := new(sdSpec)
	ci := elems(p[2])
	if len(ci) != 2 || !bytes.Equal(ci[0], oidGMData) || ci[1][0] != 0xa0 {
		return bad("content info")
	}
	oct := split(body(ci[1]))
	if len(oct) != 1 || oct[0][0] != 4 {
		return bad("content")
	}
	s.content = body(oct[0])
	p = p[3:]
	if p[0][0] == 0xa0 {
		s.certs, p = elems(p[0]), p[1:]
	}
	if p[0][0] == 0xa1 {
		s.crls, p = p[0], p[1:]
	}
	if len(p) != 1 || p[0][0] != 0x31 {
		return bad("signers")
	}
	for _, e := range elems(p[0]) {
		f := elems(e)
		if len(f) < 5 || !bytes.Equal(f[0], ref.Int(bi(1))) {
			return bad("signer")
		}
		var g sdSigner
		id := elems(f[1])
		if len(id) != 2 {
			return bad("signer id")
		}
		g.issuer = id[0]
		n, _, ok := ref.ReadInt(id[1])
		if !ok {
			return bad("serial")
		}
		g.serial = n
		if !bytes.Equal(f[2], ref.TLV(0x30, oidSM3Hash)) {
			return bad("signer's digest algorithm")
		}
		f = f[3:]
		if f[0][0] == 0xa0 {
			g.attrs, f = elems(f[0]), f[1:]
		}
		if len(f) < 2 || f[0][0] != 0x30 || f[1][0] != 4 {
			return bad("signature")
		}
		if !bytes.Equal(f[0], ref.TLV(0x30, oidSM2Enc)) {
			return bad("signature algorithm")
		}
		g.sig = body(f[1])
		s.signers = append(s.signers, g)
	}
	return s, nil
}

// attrValue finds the value of the attribute, which must be there once.
func attrValue(attrs [][]byte, oid []byte) ([]byte, error) {
	var v []byte
	n := 0
	for _, a := range attrs {
		p := elems(a)
		if len(p) == 2 && bytes.Equal(p[0], oid) && p[1][0] == 0x31 {
			v = body(p[1])
			n++
		}
	}
	if n != 1 {
		return nil, fmt.Errorf("attribute occurs %d times", n)
	}
	return v, nil
}

// sdCert is an SM2 signer's certificate with its key.
type sdCert struct {
	key    *sm2.PrivateKey
	der    []byte
	issuer []byte
	serial *big.Int
	c      *mx.Certificate
}

func newSDCert(t *T, key *sm2.PrivateKey, issuer string, serial *big.Int) *sdCert {
	der := sm2Cert(t.Rng, t.Name(1+t.IntN(9)), issuer, serial, pkixSM2(refPub(&key.PublicKey)), key, extDER(ref.OID(1, 2, 3, 4, 5), false, t.Bytes(t.IntN(200))))
	c, err := mx.ParseCertificate(der)
	if err != nil {
		t.Failf("SM2 certificate does not parse: %v: %s", err, hx(der))
	}
	return &sdCert{key, der, nameDER(issuer), serial, c}
}

func genSDCert(t *T) *sdCert {
	d, _ := genD(t.Rng)
	return newSDCert(t, newSM2(d), t.Name(1+t.IntN(12)), anySerial(t.Rng))
}

// signer makes the signer information of a certificate for content.
func (c *sdCert) signer(r *Rng, content []byte, attrs [][]byte) sdSigner {
	s := sdSigner{issuer: c.issuer, serial: c.serial, attrs: attrs}
	msg := content
	if attrs != nil {
		msg = ref.TLV(0x31, sortSet(attrs)...)
	}
	s.sig = refSign(r, c.key.D, refPub(&c.key.PublicKey), msg)
	return s
}

// p7Genuine judges a parsed message by what the structure now says, and returns why it must not verify.
func p7Genuine(p *mx.PKCS7) string {
	if len(p.Signers) == 0 {
		return "no signers"
	}
	for i, s := range p.Signers {
		msgs := [][]byte{p.Content}
		if len(s.AuthenticatedAttributes) > 0 {
			var ders [][]byte
			dig := false
			for _, a := range s.AuthenticatedAttributes {
				id := ref.OID([]int(a.Type)...)
				ders = append(ders, ref.TLV(0x30, id, a.Value.FullBytes))
				if bytes.Equal(id, oidAttrDigest) {
					for _, v := range split(a.Value.Bytes) {
						dig = dig || (v[0] == 4 && bytes.Equal(body(v), ref.SM3(p.Content)))
					}
				}
			}
			if !dig {
				return fmt.Sprintf("signer %d: no digest attribute equals the digest of the content", i)
			}
			msgs = [][]byte{ref.TLV(0x31, sortSet(ders)...), ref.TLV(0x31, ders...)}
		}
		ok, found := false, false
		for _, c := range p.Certificates {
			if c.SerialNumber.Cmp(s.IssuerAndSerialNumber.SerialNumber) != 0 || !bytes.Equal(c.RawIssuer, s.IssuerAndSerialNumber.IssuerName.FullBytes) {
				continue
			}
			found = true
			k, isSM2 := c.PublicKey.(*sm2.PublicKey)
			for _, m := range msgs {
				ok = ok || (isSM2 && ref.VerifyDER(refPub(k), m, nil, s.EncryptedDigest))
			}
		}
		if !found {
			return fmt.Sprintf("signer %d: no certificate with that issuer and serial", i)
		}
		if !ok {
			return fmt.Sprintf("signer %d: signature is not genuine", i)
		}
	}
	return ""
}
