package main

import (
	"crypto/rand"
	"crypto/sha1"
	stdx "crypto/x509"
	"crypto/x509/pkix"
	"math/big"
	"time"

	"mon/ref"

	"github.com/mmdet/mcrypto/sm2"
)

// Certificates written without the library under test.

var (
	oidSM2WithSM3 = ref.OID(1, 2, 156, 10197, 1, 501)
	oidCN         = ref.OID(2, 5, 4, 3)
)

// refSign signs msg with the default user id and returns the DER signature.
func refSign(r *Rng, d *big.Int, p ref.Pt, msg []byte) []byte {
	e, _ := ref.MsgDigest(p.X, p.Y, msg, nil)
	return refSignDigest(r, d, e)
}

func refSignDigest(r *Rng, d *big.Int, e []byte) []byte {
	for {
		if a, b, ok := ref.SignK(d, e, r.Big(one, nm1)); ok {
			return ref.MarshalSig(a, b)
		}
	}
}

// nameDER is a Name with one common name.
func nameDER(cn string) []byte {
	return ref.TLV(0x30, ref.TLV(0x31, ref.TLV(0x30, oidCN, ref.TLV(12, []byte(cn)))))
}

func utcTime(t time.Time) []byte { return ref.TLV(23, []byte(t.UTC().Format("060102150405Z"))) }

func extDER(oid []byte, critical bool, value []byte) []byte {
	var c []byte
	if critical {
		c = []byte{1, 1, 255}
	}
	return ref.TLV(0x30, oid, c, ref.TLV(4, value))
}

// certSpec describes a version 3 certificate.
type certSpec struct {
	serial          *big.Int
	issuer, subject []byte
	spki            []byte
	exts            [][]byte
	alg             []byte // OID
	algParams       []byte
	sign            func(tbs []byte) []byte
}

func (c *certSpec) tbs() []byte {
	alg := ref.TLV(0x30, c.alg, c.algParams)
	val := ref.TLV(0x30, utcTime(time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC)), utcTime(time.Date(2040, 1, 1, 0, 0, 0, 0, time.UTC)))
	var exts []byte
	if c.exts != nil {
		exts = ref.TLV(0xa3, ref.TLV(0x30, c.exts...))
	}
	return ref.TLV(0x30, ref.TLV(0xa0, ref.Int(bi(2))), ref.Int(c.serial), alg, c.issuer, val, c.subject, c.spki, exts)
}

func (c *certSpec) der() []byte {
	tbs := c.tbs()
	return ref.TLV(0x30, tbs, ref.TLV(0x30, c.alg, c.algParams), ref.TLV(3, []byte{0}, c.sign(tbs)))
}

// sm2Cert is a certificate for subject key k signed by SM2 key ca.
func sm2Cert(r *Rng, subject, issuer string, serial *big.Int, spki []byte, ca *sm2.PrivateKey, exts ...[]byte) []byte {
	c := certSpec{serial: serial, issuer: nameDER(issuer), subject: nameDER(subject), spki: spki, exts: exts, alg: oidSM2WithSM3,
		sign: func(tbs []byte) []byte { return refSign(r, ca.D, refPub(&ca.PublicKey), tbs) }}
	return c.der()
}

// certFor makes a certificate for any key without the library under test; its size varies with pad.
func certFor(r *Rng, k tkey, pad int) []byte {
	serial := r.Big(one, new(big.Int).Lsh(one, uint(1+r.IntN(150))))
	cn := r.Name(1 + r.IntN(20))
	// Half of them look like those of an authority: with key identifiers (SHA-1 sized or not), usages and names.
	var exts []pkix.Extension
	if r.Chance(1, 2) {
		add := func(oid []int, critical bool, v []byte) {
			exts = append(exts, pkix.Extension{Id: oid, Critical: critical, Value: v})
		}
		add([]int{2, 5, 29, 14}, false, ref.TLV(4, r.Bytes(pick(r, 20, 20, 20, 8, 32))))
		add([]int{2, 5, 29, 35}, false, ref.TLV(0x30, ref.TLV(0x80, r.Bytes(pick(r, 20, 20, 8, 32)))))
		if r.Chance(1, 2) {
			add([]int{2, 5, 29, 15}, true, []byte{3, 2, 5, 0xa0})
		}
		if r.Chance(1, 2) {
			add([]int{2, 5, 29, 17}, false, ref.TLV(0x30, ref.TLV(0x82, []byte("a.example"))))
		}
		if r.Chance(1, 2) {
			add([]int{2, 5, 29, 19}, true, ref.TLV(0x30, pick(r, nil, []byte{1, 1, 0xff})))
		}
	}
	exts = append(exts, pkix.Extension{Id: []int{1, 2, 3, 4, 5}, Value: r.Bytes(pad)})
	if k.kind == "SM2" {
		p := k.priv.(*sm2.PrivateKey)
		var ders [][]byte
		for _, e := range exts {
			ders = append(ders, extDER(ref.OID([]int(e.Id)...), e.Critical, e.Value))
		}
		return sm2Cert(r, cn, cn, serial, pkixSM2(refPub(&p.PublicKey)), p, ders...)
	}
	tmpl := &stdx.Certificate{SerialNumber: serial, Subject: pkix.Name{CommonName: cn},
		NotBefore: time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC), NotAfter: time.Date(2040, 1, 1, 0, 0, 0, 0, time.UTC),
		ExtraExtensions: exts}
	ca := k
	if k.kind == "RSA" { // signing with the largest fixtures is slow
		ca = genKey(r, "P256")
	}
	der, err := stdx.CreateCertificate(rand.Reader, tmpl, tmpl, k.pub, ca.signer)
	if err != nil {
		panic(err)
	}
	return der
}

func sha1sum(b []byte) []byte { h := sha1.Sum(b); return h[:] }
