package main

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/md5"
	"crypto/rand"
	"crypto/rsa"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"

	"mon/ref"

	"github.com/mmdet/mcrypto/sm2"
	mx "github.com/mmdet/mcrypto/x509"
)

// Signatures made and checked without the library under test.

type algInfo struct {
	alg  mx.SignatureAlgorithm
	name string
	kind string // RSA, EC, Ed25519, SM2
	hash crypto.Hash
	pss  bool
	oid  []byte
	par  []byte // parameters in the algorithm identifier
}

var derNull = []byte{5, 0}

func pssPar(hash []byte, salt int64) []byte {
	h := ref.TLV(0x30, hash, derNull)
	return ref.TLV(0x30, ref.TLV(0xa0, h), ref.TLV(0xa1, ref.TLV(0x30, ref.OID(1, 2, 840, 113549, 1, 1, 8), h)), ref.TLV(0xa2, ref.Int(bi(salt))))
}

var algs = []algInfo{
	{mx.MD5WithRSA, "MD5-RSA", "RSA", crypto.MD5, false, ref.OID(1, 2, 840, 113549, 1, 1, 4), derNull},
	{mx.SHA1WithRSA, "SHA1-RSA", "RSA", crypto.SHA1, false, ref.OID(1, 2, 840, 113549, 1, 1, 5), derNull},
	{mx.SHA256WithRSA, "SHA256-RSA", "RSA", crypto.SHA256, false, ref.OID(1, 2, 840, 113549, 1, 1, 11), derNull},
	{mx.SHA384WithRSA, "SHA384-RSA", "RSA", crypto.SHA384, false, ref.OID(1, 2, 840, 113549, 1, 1, 12), derNull},
	{mx.SHA512WithRSA, "SHA512-RSA", "RSA", crypto.SHA512, false, ref.OID(1, 2, 840, 113549, 1, 1, 13), derNull},
	{mx.SHA256WithRSAPSS, "SHA256-PSS", "RSA", crypto.SHA256, true, ref.OID(1, 2, 840, 113549, 1, 1, 10), pssPar(ref.OID(2, 16, 840, 1, 101, 3, 4, 2, 1), 32)},
	{mx.SHA384WithRSAPSS, "SHA384-PSS", "RSA", crypto.SHA384, true, ref.OID(1, 2, 840, 113549, 1, 1, 10), pssPar(ref.OID(2, 16, 840, 1, 101, 3, 4, 2, 2), 48)},
	{mx.SHA512WithRSAPSS, "SHA512-PSS", "RSA", crypto.SHA512, true, ref.OID(1, 2, 840, 113549, 1, 1, 10), pssPar(ref.OID(2, 16, 840, 1, 101, 3, 4, 2, 3), 64)},
	{mx.ECDSAWithSHA1, "ECDSA-SHA1", "EC", crypto.SHA1, false, ref.OID(1, 2, 840, 10045, 4, 1), nil},
	{mx.ECDSAWithSHA256, "ECDSA-SHA256", "EC", crypto.SHA256, false, ref.OID(1, 2, 840, 10045, 4, 3, 2), nil},
	{mx.ECDSAWithSHA384, "ECDSA-SHA384", "EC", crypto.SHA384, false, ref.OID(1, 2, 840, 10045, 4, 3, 3), nil},
	{mx.ECDSAWithSHA512, "ECDSA-SHA512", "EC", crypto.SHA512, false, ref.OID(1, 2, 840, 10045, 4, 3, 4), nil},
	{mx.PureEd25519, "Ed25519", "Ed25519", 0, false, ref.OID(1, 3, 101, 112), nil},
	{mx.SM2WithSM3, "SM2WithSM3", "SM2", 0, false, oidSM2WithSM3, nil},
}

// otherAlgs have an identifier but no key or no implementation here.
var otherAlgs = []algInfo{
	{mx.UnknownSignatureAlgorithm, "MD2-RSA", "", 0, false, ref.OID(1, 2, 840, 113549, 1, 1, 2), derNull},
	{mx.DSAWithSHA1, "DSA-SHA1", "", 0, false, ref.OID(1, 2, 840, 10040, 4, 3), nil},
	{mx.DSAWithSHA256, "DSA-SHA256", "", 0, false, ref.OID(2, 16, 840, 1, 101, 3, 4, 3, 2), nil},
	{mx.UnknownSignatureAlgorithm, "unknown", "", 0, false, ref.OID(1, 2, 3, 4, 5), nil},
}

func algOf(a mx.SignatureAlgorithm) (algInfo, bool) {
	for _, x := range algs {
		if x.alg == a {
			return x, true
		}
	}
	return algInfo{}, false
}

func kindOf(pub any) string {
	switch pub.(type) {
	case *rsa.PublicKey:
		return "RSA"
	case *ecdsa.PublicKey:
		return "EC"
	case ed25519.PublicKey:
		return "Ed25519"
	case *sm2.PublicKey:
		return "SM2"
	}
	return "?"
}

func digest(h crypto.Hash, msg []byte) []byte {
	switch h {
	case crypto.MD5:
		x := md5.Sum(msg)
		return x[:]
	case crypto.SHA1:
		x := sha1.Sum(msg)
		return x[:]
	case crypto.SHA224:
		x := sha256.Sum224(msg)
		return x[:]
	case crypto.SHA256:
		x := sha256.Sum256(msg)
		return x[:]
	case crypto.SHA384:
		x := sha512.Sum384(msg)
		return x[:]
	case crypto.SHA512:
		x := sha512.Sum512(msg)
		return x[:]
	}
	return msg
}

// genuine says whether sig is a signature by pub over msg with algorithm a, whatever the algorithm is worth.
func genuine(a algInfo, pub any, msg, sig []byte) bool {
	if kindOf(pub) != a.kind {
		return false
	}
	d := digest(a.hash, msg)
	switch pub := pub.(type) {
	case *rsa.PublicKey:
		if a.pss {
			return rsa.VerifyPSS(pub, a.hash, d, sig, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash}) == nil
		}
		return rsa.VerifyPKCS1v15(pub, a.hash, d, sig) == nil
	case *ecdsa.PublicKey:
		return ecdsa.VerifyASN1(pub, d, sig)
	case ed25519.PublicKey:
		return ed25519.Verify(pub, msg, sig)
	case *sm2.PublicKey:
		return ref.VerifyDER(refPub(pub), msg, nil, sig)
	}
	return false
}

// primSign makes a genuine signature.
func primSign(r *Rng, a algInfo, k tkey, msg []byte) []byte {
	d := digest(a.hash, msg)
	var sig []byte
	var err error
	switch p := k.priv.(type) {
	case *rsa.PrivateKey:
		if a.pss {
			sig, err = rsa.SignPSS(rand.Reader, p, a.hash, d, &rsa.PSSOptions{SaltLength: rsa.PSSSaltLengthEqualsHash})
		} else {
			sig, err = rsa.SignPKCS1v15(rand.Reader, p, a.hash, d)
		}
	case *ecdsa.PrivateKey:
		sig, err = ecdsa.SignASN1(rand.Reader, p, d)
	case ed25519.PrivateKey:
		sig = ed25519.Sign(p, msg)
	case *sm2.PrivateKey:
		sig = refSign(r, p.D, refPub(&p.PublicKey), msg)
	}
	if err != nil {
		panic(err)
	}
	return sig
}

// algsFor lists the algorithms that fit a key.
func algsFor(k tkey) (out []algInfo) {
	for _, a := range algs {
		if a.kind == kindOf(k.pub) {
			out = append(out, a)
		}
	}
	return
}

func (a algInfo) id() []byte { return ref.TLV(0x30, a.oid, a.par) }
