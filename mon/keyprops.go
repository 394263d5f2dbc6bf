package main

import (
	"bytes"
	"crypto/dsa"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	stdx509 "crypto/x509"
	"fmt"
	"math/big"
	"os"
	"path/filepath"

	"mon/ref"

	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
)

// readPKCS8SM2 reads a PKCS #8 SM2 key as RFC 5208, RFC 5915 and GM/T 0006 lay it down.
func readPKCS8SM2(der []byte) (d *big.Int, why string) {
	seq := func(tag byte, b *[]byte) []byte {
		g, c, rest, ok := ref.ReadTLV(*b)
		if !ok || g != tag {
			why = fmt.Sprintf("no element with tag %#x at %s", tag, hx(*b))
			*b = nil
			return nil
		}
		*b = rest
		return c
	}
	top := seq(0x30, &der)
	if len(der) != 0 {
		return nil, "trailing data"
	}
	if v := seq(2, &top); !bytes.Equal(v, []byte{0}) {
		return nil, "PKCS #8 version"
	}
	if a := seq(0x30, &top); !bytes.Equal(a, cat(oidECPub, oidSM2)) {
		return nil, "algorithm " + hx(a)
	}
	oct := seq(4, &top)
	d, w := readSEC1SM2(oct)
	if why == "" {
		why = w
	}
	return d, why
}

func readSEC1SM2(oct []byte) (d *big.Int, why string) {
	take := func(b []byte, tag byte) (c, rest []byte) {
		g, c, rest, ok := ref.ReadTLV(b)
		if !ok || g != tag {
			if why == "" {
				why = fmt.Sprintf("no element with tag %#x at %s", tag, hx(b))
			}
			return nil, nil
		}
		return c, rest
	}
	in, rest := take(oct, 0x30)
	if len(rest) != 0 {
		return nil, "trailing data in the key"
	}
	v, in := take(in, 2)
	k, in := take(in, 4)
	if why != "" {
		return nil, why
	}
	if !bytes.Equal(v, []byte{1}) {
		return nil, "SEC 1 version"
	}
	if len(k) != 32 {
		return nil, fmt.Sprintf("scalar of %d bytes", len(k))
	}
	d = new(big.Int).SetBytes(k)
	if len(in) > 0 && in[0] == 0xa0 {
		var o []byte
		o, in = take(in, 0xa0)
		if !bytes.Equal(o, oidSM2) {
			return nil, "curve"
		}
	}
	if len(in) > 0 {
		var o []byte
		o, in = take(in, 0xa1)
		if why != "" || !bytes.Equal(o, ref.TLV(3, []byte{0}, point(ref.BaseMul(d)))) {
			return nil, "public point"
		}
	}
	if len(in) != 0 {
		return nil, "extra elements"
	}
	return d, why
}

// scenario labels for SM2 keys whose encoding needs padding.
func padding(k *sm2.PrivateKey) string {
	s := ""
	if lead0(k.D) {
		s += "D"
	}
	if lead0(k.X) {
		s += "X"
	}
	if lead0(k.Y) {
		s += "Y"
	}
	return "SM2 leading zero bytes in: " + s
}

func keyRoundTrip(t *T, k tkey) {
	der, err := x509.MarshalPKCS8PrivateKey(k.priv)
	t.noErr("MarshalPKCS8PrivateKey", err)
	back, err := x509.ParsePKCS8PrivateKey(der)
	t.noErr("ParsePKCS8PrivateKey of "+hx(der), err)
	t.Check(samePriv(k.priv, back), "PKCS #8 of %s (%s) parses to %v", k.kind, hx(der), back)
	pub, err := x509.MarshalPKIXPublicKey(k.pub)
	t.noErr("MarshalPKIXPublicKey", err)
	pback, err := x509.ParsePKIXPublicKey(pub)
	t.noErr("ParsePKIXPublicKey of "+hx(pub), err)
	t.Check(samePub(k.pub, pback), "PKIX of %s (%s) parses to %v", k.kind, hx(pub), pback)
	t.Key("%s %x", k.kind, der)
	t.Cover(k.kind)
	if p, ok := k.priv.(*sm2.PrivateKey); ok {
		t.Cover(padding(p))
		d, why := readPKCS8SM2(der)
		t.Check(why == "" && eqInt(d, p.D), "PKCS #8 encoding %s of the SM2 key %x: %s", hx(der), p.D, why)
		t.mustEq("PKIX encoding", pub, pkixSM2(refPub(&p.PublicKey)))
		t.Sample("SM2 D=%x -> %s", p.D, hx(der))
		return
	}
	sder, err := stdx509.MarshalPKCS8PrivateKey(k.priv)
	if err != nil {
		t.Failf("harness: %v", err)
	}
	t.mustEq("PKCS #8 encoding of "+k.kind, der, sder)
	spub, err := stdx509.MarshalPKIXPublicKey(k.pub)
	if err != nil {
		t.Failf("harness: %v", err)
	}
	t.mustEq("PKIX encoding of "+k.kind, pub, spub)
	sback, err := stdx509.ParsePKCS8PrivateKey(der)
	t.noErr("the standard library on "+hx(der), err)
	t.Check(samePriv(k.priv, sback), "the standard library reads another key from %s", hx(der))
	switch p := k.priv.(type) {
	case *ecdsa.PrivateKey:
		e, err := x509.MarshalECPrivateKey(p)
		t.noErr("MarshalECPrivateKey", err)
		se, _ := stdx509.MarshalECPrivateKey(p)
		t.mustEq("SEC 1 encoding of "+k.kind, e, se)
		b, err := x509.ParseECPrivateKey(e)
		t.noErr("ParseECPrivateKey", err)
		t.Check(samePriv(p, b), "SEC 1 of %s (%s) parses to %v", k.kind, hx(e), b)
	case *rsa.PrivateKey:
		e := x509.MarshalPKCS1PrivateKey(p)
		t.mustEq("PKCS #1 encoding", e, stdx509.MarshalPKCS1PrivateKey(rsaCopy(p)))
		b, err := x509.ParsePKCS1PrivateKey(e)
		t.noErr("ParsePKCS1PrivateKey", err)
		t.Check(samePriv(p, b), "PKCS #1 %s parses to %v", hx(e), b)
		t.Check(b.Validate() == nil, "the parsed RSA key does not validate")
		pe := x509.MarshalPKCS1PublicKey(&p.PublicKey)
		t.mustEq("PKCS #1 public encoding", pe, stdx509.MarshalPKCS1PublicKey(&p.PublicKey))
		pb, err := x509.ParsePKCS1PublicKey(pe)
		t.noErr("ParsePKCS1PublicKey", err)
		t.Check(samePub(&p.PublicKey, pb), "PKCS #1 %s parses to %v", hx(pe), pb)
		t.Cover(fmt.Sprintf("RSA %d bits, %d primes, e=%d", p.N.BitLen(), len(p.Primes), p.E))
	}
}

func rsaCopy(p *rsa.PrivateKey) *rsa.PrivateKey {
	k, err := stdx509.ParsePKCS1PrivateKey(stdx509.MarshalPKCS1PrivateKey(p))
	if err != nil {
		panic(err)
	}
	return k
}

// sm2Variants are the SEC 1 and PKCS #8 layouts other software writes for one key.
func sm2Variants(d *big.Int, p ref.Pt) map[string][]byte {
	alg := ref.TLV(0x30, oidECPub, oidSM2)
	v0 := ref.TLV(2, []byte{0})
	out := map[string][]byte{}
	for _, c := range []bool{false, true} {
		for _, q := range []bool{false, true} {
			s := sec1SM2(d, p, c, q)
			n := fmt.Sprintf("curve=%v point=%v", c, q)
			if c {
				out["SEC1 "+n] = s
			}
			out["PKCS8 "+n] = ref.TLV(0x30, v0, alg, ref.TLV(4, s))
		}
	}
	// Attributes after the key.
	out["PKCS8 attributes"] = ref.TLV(0x30, v0, alg, ref.TLV(4, sec1SM2(d, p, true, true)), ref.TLV(0xa0, ref.TLV(0x30, ref.OID(2, 5, 29, 15), ref.TLV(0x31, ref.TLV(3, []byte{0, 0x80})))))
	// A scalar without, and with superfluous, leading zero bytes.
	short := d.Bytes()
	out["SEC1 minimal scalar"] = ref.TLV(0x30, ref.TLV(2, []byte{1}), ref.TLV(4, short), ref.TLV(0xa0, oidSM2))
	out["SEC1 33-byte scalar"] = ref.TLV(0x30, ref.TLV(2, []byte{1}), ref.TLV(4, []byte{0}, b32(d)), ref.TLV(0xa0, oidSM2))
	return out
}

func init() {
	register(&Prop{
		ID:   "C08",
		Rule: "keys of every type (edge values, leading zero bytes, multi-prime RSA) encoded and parsed again; encodings compared with own DER and crypto/x509; distinct keys encoded",
		Groups: []Group{
			again(200, 10000, "ParsePKCS8PrivateKey", "ParsePKIXPublicKey", "ParseECPrivateKey", "ParsePKCS1PrivateKey", "ParsePKCS1PublicKey"),
			{Name: "sm2", N: [2]int{2500, 60000}, Fn: func(t *T, i int) { keyRoundTrip(t, genKey(t.Rng, "SM2")) }},
			{Name: "std", N: [2]int{2500, 60000}, Fn: func(t *T, i int) {
				keyRoundTrip(t, genKey(t.Rng, keyKinds[1:][i%(len(keyKinds)-1)]))
			}},
			{Name: "generated", N: [2]int{60, 2000}, Fn: func(t *T, i int) {
				k, err := sm2.GenerateKey(newSrc(t, t.Rng))
				t.noErr("GenerateKey", err)
				keyRoundTrip(t, wrapSM2(k))
			}},
			{Name: "foreign SM2 layouts", N: [2]int{600, 20000}, Fn: func(t *T, i int) {
				d, _ := genD(t.Rng)
				p := ref.BaseMul(d)
				for n, der := range sm2Variants(d, p) {
					var k any
					var err error
					if n[:4] == "SEC1" {
						k, err = x509.ParseECPrivateKey(der)
					} else {
						k, err = x509.ParsePKCS8PrivateKey(der)
					}
					t.noErr(n+" "+hx(der), err)
					t.Check(samePriv(sm2From(d, p), k), "%s (%s) parses to %v", n, hx(der), k)
					t.Cover(n)
				}
				k, err := x509.ParsePKIXPublicKey(pkixSM2(p))
				t.noErr("ParsePKIXPublicKey", err)
				t.Check(samePub(sm2Pub(p), k), "PKIX parses to %v", k)
				// An SM2 key typed as ECDSA keeps its curve.
				ek := &ecdsa.PrivateKey{PublicKey: ecdsa.PublicKey{Curve: sm2.SM2P256V1(), X: p.X, Y: p.Y}, D: d}
				der, err := x509.MarshalECPrivateKey(ek)
				t.noErr("MarshalECPrivateKey", err)
				got, why := readSEC1SM2(der)
				t.Check(why == "" && eqInt(got, d), "SEC 1 encoding %s: %s", hx(der), why)
				b, err := x509.ParseECPrivateKey(der)
				t.noErr("ParseECPrivateKey", err)
				t.Check(samePriv(sm2From(d, p), b), "SEC 1 (%s) parses to %v", hx(der), b)
				t.Key("%x", d)
			}},
			{Name: "tiny coordinates", N: [2]int{300, 10000}, Fn: func(t *T, i int) {
				q, what := tinyPoint(t.Rng)
				der := pkixSM2(q)
				back, err := x509.ParsePKIXPublicKey(der)
				t.noErr("ParsePKIXPublicKey of "+hx(der), err)
				t.Check(samePub(sm2Pub(q), back), "%s parses to %v", hx(der), back)
				again, err := x509.MarshalPKIXPublicKey(sm2Pub(q))
				t.noErr("MarshalPKIXPublicKey", err)
				t.mustEq("PKIX encoding", again, der)
				t.Key("%x", der)
				t.Cover("public " + what)
			}},
			{Name: "foreign PKCS #8", N: [2]int{300, 10000}, Fn: foreignPKCS8},
			{Name: "key types", N: [2]int{100, 1000}, Fn: func(t *T, i int) {
				// What is not a key is refused, and a parser says so for another parser's format.
				for _, x := range []any{nil, 1, "x", []byte{1}, &dsa.PrivateKey{}, genKey(t.Rng, "SM2").pub, sm2.PrivateKey{}, ecdsa.PrivateKey{}, rsa.PrivateKey{}} {
					_, err := x509.MarshalPKCS8PrivateKey(x)
					t.wantErr(fmt.Sprintf("MarshalPKCS8PrivateKey(%T)", x), err)
				}
				for _, x := range []any{nil, 1, "x", []byte{1}, &dsa.PublicKey{}, genKey(t.Rng, "SM2").priv, sm2.PublicKey{}} {
					_, err := x509.MarshalPKIXPublicKey(x)
					t.wantErr(fmt.Sprintf("MarshalPKIXPublicKey(%T)", x), err)
				}
				c := &elliptic.CurveParams{P: elliptic.P256().Params().P, N: elliptic.P256().Params().N, B: elliptic.P256().Params().B, Gx: elliptic.P256().Params().Gx, Gy: elliptic.P256().Params().Gy, BitSize: 256, Name: "other"}
				k := ecdsaKey(elliptic.P256(), t.Big(one, bi(1<<60)))
				k.Curve = c
				_, err := x509.MarshalPKCS8PrivateKey(k)
				t.wantErr("MarshalPKCS8PrivateKey with an unnamed curve", err)
				_, err = x509.MarshalPKIXPublicKey(&k.PublicKey)
				t.wantErr("MarshalPKIXPublicKey with an unnamed curve", err)
				_, err = x509.MarshalECPrivateKey(k)
				t.wantErr("MarshalECPrivateKey with an unnamed curve", err)
				t.Key("%d", i)
			}},
			{Name: "dsa", N: [2]int{60, 2000}, Fn: dsaKeys},
			{Name: "openssl", N: [2]int{24, 400}, Fn: opensslKeys},
		},
	})

	register(&Prop{
		ID:   "C09",
		Rule: "mutated and constructed key encodings; whatever parses must satisfy the key predicates, match crypto/x509 where both accept, and encode again; distinct inputs, split by accepted or refused",
		Groups: []Group{
			{Name: "mutated", N: [2]int{36000, 3000000}, Fn: func(t *T, i int) {
				k := anyKey(t.Rng)
				in, what := mutate(t.Rng, keyDER(t.Rng, k), keyDER(t.Rng, anyKey(t.Rng)))
				if keyParsers(t, in) {
					t.Cover("accepted: " + k.kind)
				} else {
					t.Cover("refused: " + k.kind)
				}
				t.Key("%x", in)
				t.Sample("%s of a %s key: %s", what, k.kind, hx(in))
			}},
			{Name: "off curve", N: [2]int{3000, 100000}, Fn: badPoints},
			{Name: "scalars", N: [2]int{3000, 100000}, Fn: badScalars},
			{Name: "frames", N: [2]int{1500, 50000}, Fn: badFrames},
			{Name: "rsa", N: [2]int{1500, 50000}, Fn: badRSA},
			{Name: "dsa", N: [2]int{1500, 50000}, Fn: dsaKeys},
		},
	})
}

// keyDER encodes k in one of the formats, partly by hand.
func keyDER(r *Rng, k tkey) []byte {
	var der []byte
	switch p := k.priv.(type) {
	case *sm2.PrivateKey:
		vs := sm2Variants(p.D, refPub(&p.PublicKey))
		names := []string{"PKCS8 curve=false point=true", "PKCS8 curve=true point=true", "SEC1 curve=true point=true", "PKCS8 curve=true point=false", "SEC1 minimal scalar"}
		if r.Chance(1, 3) {
			return pkixSM2(refPub(&p.PublicKey))
		}
		return vs[pick(r, names...)]
	case *ecdsa.PrivateKey:
		if r.Chance(1, 3) {
			der, _ = stdx509.MarshalECPrivateKey(p)
		}
	case *rsa.PrivateKey:
		switch r.IntN(4) {
		case 0:
			der = stdx509.MarshalPKCS1PrivateKey(p)
		case 1:
			der = stdx509.MarshalPKCS1PublicKey(&p.PublicKey)
		}
	}
	if der == nil {
		if r.Chance(1, 2) {
			der, _ = stdx509.MarshalPKIXPublicKey(k.pub)
		} else {
			der, _ = stdx509.MarshalPKCS8PrivateKey(k.priv)
		}
	}
	return der
}

// keyParsers runs every key parser on in and judges what they accept.
func keyParsers(t *T, in []byte) (accepted bool) {
	judge := func(name string, k any, err error, sk any, serr error) {
		t.Eval()
		if err != nil {
			return
		}
		accepted = true
		if s := badKey(k); s != "" {
			t.Failf("%s accepts %s: %s", name, hx(in), s)
		}
		if serr == nil && sk != nil {
			same := samePriv(k, sk) || samePub(k, sk)
			if d, ok := k.(*dsa.PublicKey); ok {
				e, ok := sk.(*dsa.PublicKey)
				same = ok && eqInt(d.P, e.P) && eqInt(d.Q, e.Q) && eqInt(d.G, e.G) && eqInt(d.Y, e.Y)
			}
			t.Check(same, "%s reads %v from %s, the standard library reads %v", name, k, hx(in), sk)
		}
		reencode(t, name, in, k)
	}
	var k any
	var err, serr error
	var sk any
	t.guard("ParsePKIXPublicKey "+hx(in), func() { k, err = x509.ParsePKIXPublicKey(in) })
	if err == nil {
		sk, serr = stdx509.ParsePKIXPublicKey(in)
	}
	judge("ParsePKIXPublicKey", k, err, sk, serr)
	t.guard("ParsePKCS8PrivateKey "+hx(in), func() { k, err = x509.ParsePKCS8PrivateKey(in) })
	if err == nil {
		sk, serr = stdx509.ParsePKCS8PrivateKey(in)
	}
	judge("ParsePKCS8PrivateKey", k, err, sk, serr)
	t.guard("ParseECPrivateKey "+hx(in), func() { k, err = x509.ParseECPrivateKey(in) })
	if err == nil {
		if e, er := stdx509.ParseECPrivateKey(in); er == nil {
			sk, serr = e, nil
		} else {
			sk = nil
		}
	}
	judge("ParseECPrivateKey", k, err, sk, serr)
	var rk *rsa.PrivateKey
	t.guard("ParsePKCS1PrivateKey "+hx(in), func() { rk, err = x509.ParsePKCS1PrivateKey(in) })
	if err == nil {
		if rk == nil {
			t.Failf("ParsePKCS1PrivateKey: nil key without an error for %s", hx(in))
		}
		e, er := stdx509.ParsePKCS1PrivateKey(in)
		judge("ParsePKCS1PrivateKey", rk, err, e, er)
	}
	var rp *rsa.PublicKey
	t.guard("ParsePKCS1PublicKey "+hx(in), func() { rp, err = x509.ParsePKCS1PublicKey(in) })
	if err == nil {
		if rp == nil {
			t.Failf("ParsePKCS1PublicKey: nil key without an error for %s", hx(in))
		}
		e, er := stdx509.ParsePKCS1PublicKey(in)
		judge("ParsePKCS1PublicKey", rp, err, e, er)
	}
	return
}

// reencode checks that an accepted key can be written and read again.
func reencode(t *T, name string, in []byte, k any) {
	switch k.(type) {
	case *dsa.PublicKey:
		return
	case *sm2.PublicKey, *ecdsa.PublicKey, *rsa.PublicKey, ed25519.PublicKey:
		der, err := x509.MarshalPKIXPublicKey(k)
		t.noErr("encoding the key that "+name+" read from "+hx(in), err)
		b, err := x509.ParsePKIXPublicKey(der)
		t.Check(err == nil && samePub(k, b), "%s read %v from %s, which does not survive encoding: %v, %v", name, k, hx(in), b, err)
	default:
		der, err := x509.MarshalPKCS8PrivateKey(k)
		t.noErr("encoding the key that "+name+" read from "+hx(in), err)
		b, err := x509.ParsePKCS8PrivateKey(der)
		t.Check(err == nil && samePriv(k, b), "%s read %v from %s, which does not survive encoding: %v, %v", name, k, hx(in), b, err)
	}
}

type namedCurve struct {
	name string
	oid  []byte
	c    elliptic.Curve
}

func namedCurves() []namedCurve {
	return []namedCurve{
		{"SM2", oidSM2, sm2.SM2P256V1()},
		{"P224", ref.OID(1, 3, 132, 0, 33), elliptic.P224()},
		{"P256", ref.OID(1, 2, 840, 10045, 3, 1, 7), elliptic.P256()},
		{"P384", ref.OID(1, 3, 132, 0, 34), elliptic.P384()},
		{"P521", ref.OID(1, 3, 132, 0, 35), elliptic.P521()},
	}
}

func spki(alg, bits []byte) []byte { return ref.TLV(0x30, alg, ref.TLV(3, []byte{0}, bits)) }

func mustRefusePub(t *T, what string, der []byte) {
	var k any
	var err error
	t.guard("ParsePKIXPublicKey "+hx(der), func() { k, err = x509.ParsePKIXPublicKey(der) })
	t.Check(err != nil && (k == nil || badKey(k) != ""), "ParsePKIXPublicKey accepts %s: %s", what, hx(der))
	t.Check(err != nil, "ParsePKIXPublicKey: %s: %s", what, hx(der))
	t.Cover(what)
	t.Key("%x", der)
}

func badPoints(t *T, i int) {
	cs := namedCurves()
	c := cs[i%len(cs)]
	if t.Chance(1, 2) {
		c = cs[0]
	}
	p := c.c.Params()
	n := (p.BitSize + 7) / 8
	alg := ref.TLV(0x30, oidECPub, c.oid)
	d := t.Big(one, sub(p.N, two))
	x, y := c.c.ScalarBaseMult(d.Bytes())
	fb := func(v *big.Int) []byte { return v.FillBytes(make([]byte, n)) }
	good := cat([]byte{4}, fb(x), fb(y))
	k, err := x509.ParsePKIXPublicKey(spki(alg, good))
	t.Check(err == nil && badKey(k) == "", "%s: a good key is refused: %v", c.name, err)
	ref1 := func(what string, pt []byte) { mustRefusePub(t, c.name+" "+what, spki(alg, pt)) }
	switch t.IntN(9) {
	case 0:
		b := clone(good)
		b[1+t.IntN(2*n)] ^= 1 << t.IntN(8)
		bx, by := new(big.Int).SetBytes(b[1:1+n]), new(big.Int).SetBytes(b[1+n:])
		if bx.Cmp(p.P) < 0 && by.Cmp(p.P) < 0 && onCurve(c.c, bx, by) {
			return
		}
		ref1("point with a flipped bit", b)
	case 1:
		ref1("infinity", []byte{0})
		ref1("zero point", cat([]byte{4}, make([]byte, 2*n)))
	case 2:
		ref1("compressed", cat([]byte{2 + byte(y.Bit(0))}, fb(x)))
		ref1("hybrid", cat([]byte{6 + byte(y.Bit(0))}, fb(x), fb(y)))
		ref1("unknown prefix", cat([]byte{pick(t.Rng, byte(1), 5, 7, 8, 0x84, 0xff)}, fb(x), fb(y)))
	case 3:
		ref1("point too short", good[:len(good)-1-t.IntN(len(good)-1)])
		ref1("point too long", cat(good, t.Bytes(1+t.IntN(3))))
		ref1("empty point", nil)
	case 4:
		// The same point with a coordinate above the field prime.
		if c.name == "P521" || p.P.BitLen()%8 != 0 {
			ref1("y is p-y+1", cat([]byte{4}, fb(x), fb(new(big.Int).Mod(add(sub(p.P, y), one), p.P))))
			return
		}
		small := t.Big(bi(0), sub(new(big.Int).Lsh(one, uint(8*n)), add(p.P, one)))
		if c.name == "SM2" {
			for {
				if q, ok := ref.LiftX(small); ok {
					ref1("x at or above p", cat([]byte{4}, fb(add(small, p.P)), fb(q.Y)))
					return
				}
				small = t.Big(bi(0), sub(new(big.Int).Lsh(one, uint(8*n)), add(p.P, one)))
			}
		}
		ref1("x at or above p", cat([]byte{4}, fb(add(small, p.P)), fb(y)))
	case 5:
		ref1("y at or above p", cat([]byte{4}, fb(x), bytes.Repeat([]byte{0xff}, n)))
		ref1("x = p", cat([]byte{4}, fb(p.P), fb(y)))
	case 6:
		ref1("point of a random place", cat([]byte{4}, fb(t.Big(bi(0), sub(p.P, one))), fb(t.Big(bi(0), sub(p.P, one)))))
	case 7:
		// A point of another curve of that size.
		var o namedCurve
		switch c.name {
		case "SM2":
			o = cs[2]
		default:
			o = cs[0]
		}
		ox, oy := o.c.ScalarBaseMult(d.Bytes())
		ob := cat([]byte{4}, ox.FillBytes(make([]byte, (o.c.Params().BitSize+7)/8)), oy.FillBytes(make([]byte, (o.c.Params().BitSize+7)/8)))
		ref1("point of the curve "+o.name, ob)
	case 8:
		ref1("swapped coordinates", cat([]byte{4}, fb(y), fb(x)))
		if !eqInt(x, new(big.Int)) {
			ref1("negated x", cat([]byte{4}, fb(sub(p.P, x)), fb(y)))
		}
	}
}

func onCurve(c elliptic.Curve, x, y *big.Int) bool {
	if c == sm2.SM2P256V1() {
		return ref.OnCurve(x, y)
	}
	return c.Params().IsOnCurve(x, y)
}

func mustRefusePriv(t *T, what string, sec1, p8 []byte) {
	if sec1 != nil {
		var k any
		var err error
		t.guard("ParseECPrivateKey "+hx(sec1), func() { k, err = x509.ParseECPrivateKey(sec1) })
		t.Check(err != nil, "ParseECPrivateKey accepts %s: %s (%v)", what, hx(sec1), k)
		t.Key("%x", sec1)
	}
	if p8 != nil {
		var k any
		var err error
		t.guard("ParsePKCS8PrivateKey "+hx(p8), func() { k, err = x509.ParsePKCS8PrivateKey(p8) })
		t.Check(err != nil, "ParsePKCS8PrivateKey accepts %s: %s (%v)", what, hx(p8), k)
		t.Key("%x", p8)
	}
	t.Cover(what)
}

func badScalars(t *T, i int) {
	cs := namedCurves()
	c := cs[i%len(cs)]
	if t.Chance(1, 2) {
		c = cs[0]
	}
	N := c.c.Params().N
	n := (N.BitLen() + 7) / 8
	alg := ref.TLV(0x30, oidECPub, c.oid)
	enc := func(version int64, k []byte) (sec1, p8 []byte) {
		parts := [][]byte{ref.Int(bi(version)), ref.TLV(4, k)}
		withOID := append(append([][]byte{}, parts...), ref.TLV(0xa0, c.oid))
		if t.Chance(1, 2) {
			parts = withOID
		}
		return ref.TLV(0x30, withOID...), ref.TLV(0x30, ref.TLV(2, []byte{0}), alg, ref.TLV(4, ref.TLV(0x30, parts...)))
	}
	top := sub(N, one)
	if c.name == "SM2" {
		top = sub(N, two)
	}
	// What is in range is accepted, with its point.
	d := pick(t.Rng, one, two, top, sub(top, one), t.Big(one, top))
	s, p8 := enc(1, d.FillBytes(make([]byte, n)))
	for _, f := range []func() (any, error){func() (any, error) { return x509.ParseECPrivateKey(s) }, func() (any, error) { return x509.ParsePKCS8PrivateKey(p8) }} {
		k, err := f()
		t.Check(err == nil, "%s scalar %x is refused: %v", c.name, d, err)
		bad := badKey(k)
		t.Check(bad == "", "%s scalar %x: %s", c.name, d, bad)
	}
	max := sub(new(big.Int).Lsh(one, uint(8*n)), one)
	type bv struct {
		what string
		v    *big.Int
	}
	vals := []bv{{"scalar 0", bi(0)}, {"scalar n", N}, {"scalar n+1", add(N, one)}, {"scalar of all ones", max}, {"scalar above n", t.Big(N, max)}}
	if c.name == "SM2" {
		vals = append(vals, bv{"scalar n-1", sub(N, one)})
	}
	for _, v := range vals {
		s, p8 := enc(1, v.v.FillBytes(make([]byte, n)))
		mustRefusePriv(t, c.name+" "+v.what, s, p8)
		pad := cat(make([]byte, 1+t.IntN(3)), v.v.FillBytes(make([]byte, n)))
		s, p8 = enc(1, pad)
		mustRefusePriv(t, c.name+" "+v.what+", padded", s, p8)
	}
	kb := d.FillBytes(make([]byte, n))
	long := cat([]byte{byte(1 + t.IntN(255))}, make([]byte, t.IntN(3)), kb)
	s, p8 = enc(1, long)
	mustRefusePriv(t, c.name+" scalar with a prefix", s, p8)
	s, p8 = enc(1, nil)
	mustRefusePriv(t, c.name+" empty scalar", s, p8)
	v := pick[int64](t.Rng, 0, 2, 3, -1, 255, 1<<40)
	s, p8 = enc(v, kb)
	mustRefusePriv(t, fmt.Sprintf("%s version %d", c.name, v), s, p8)
}

func badFrames(t *T, i int) {
	k := anyKey(t.Rng)
	pub, _ := x509.MarshalPKIXPublicKey(k.pub)
	tail := pick(t.Rng, []byte{0}, []byte{5, 0}, t.Bytes(1+t.IntN(8)), pub)
	mustRefusePub(t, "trailing data", cat(pub, tail))
	// Unknown algorithms and curves, and algorithms that do not fit the key.
	oids := [][]byte{ref.OID(1, 2, 840, 113549, 1, 1, 11), ref.OID(1, 2, 840, 10045, 2, 2), ref.OID(1, 3, 101, 110), ref.OID(1, 2, 156, 10197, 1, 501), ref.OID(1, 2, 840, 113549, 1, 1, 10), ref.OID(2, 5, 29, 1)}
	ns, _ := parseNodes(pub, 0)
	algn := ns[0].kids[0]
	real := algn.kids[0]
	set := func(o []byte) []byte {
		on, _ := parseNodes(o, 0)
		algn.kids[0] = on[0]
		b := nodesBytes(ns)
		algn.kids[0] = real
		return b
	}
	mustRefusePub(t, "unknown algorithm", set(pick(t.Rng, oids...)))
	known := map[string][]byte{"RSA": ref.OID(1, 2, 840, 113549, 1, 1, 1), "Ed25519": ref.OID(1, 3, 101, 112), "EC": oidECPub}
	for n, o := range known {
		kk := k.kind
		if kk != "RSA" && kk != "Ed25519" {
			kk = "EC"
		}
		if n != kk {
			mustRefusePub(t, kk+" key labelled "+n, set(o))
		}
	}
	setP := func(params []byte) []byte {
		old := algn.kids
		algn.kids = old[:1:1]
		if params != nil {
			pn, _ := parseNodes(params, 0)
			algn.kids = append(algn.kids, pn...)
		}
		b := nodesBytes(ns)
		algn.kids = old
		return b
	}
	switch k.kind {
	case "RSA":
		mustRefusePub(t, "RSA without NULL", setP(nil))
		mustRefusePub(t, "RSA with other parameters", setP(pick(t.Rng, oidSM2, []byte{4, 0}, []byte{0x30, 0})))
	case "Ed25519":
		mustRefusePub(t, "Ed25519 with parameters", setP(pick(t.Rng, oidSM2, []byte{5, 0}, []byte{0x30, 0})))
		pk := k.pub.(ed25519.PublicKey)
		alg := ref.TLV(0x30, ref.OID(1, 3, 101, 112))
		mustRefusePub(t, "Ed25519 of wrong size", spki(alg, pk[:t.IntN(32)]))
		mustRefusePub(t, "Ed25519 of wrong size", spki(alg, cat(pk, t.Bytes(1+t.IntN(33)))))
		seed := k.priv.(ed25519.PrivateKey).Seed()
		w := func(params, s []byte) []byte {
			return ref.TLV(0x30, ref.TLV(2, []byte{0}), ref.TLV(0x30, ref.OID(1, 3, 101, 112), params), ref.TLV(4, ref.TLV(4, s)))
		}
		good, err := x509.ParsePKCS8PrivateKey(w(nil, seed))
		t.Check(err == nil && samePriv(k.priv, good), "Ed25519 key refused: %v", err)
		mustRefusePriv(t, "Ed25519 private key of wrong size", nil, w(nil, seed[:t.IntN(32)]))
		mustRefusePriv(t, "Ed25519 private key of wrong size", nil, w(nil, cat(seed, t.Bytes(1+t.IntN(32)))))
		mustRefusePriv(t, "Ed25519 private key with parameters", nil, w(pick(t.Rng, []byte{5, 0}, oidSM2), seed))
	default:
		mustRefusePub(t, "EC without parameters", setP(nil))
		mustRefusePub(t, "EC with other parameters", setP(pick(t.Rng, []byte{5, 0}, []byte{0x30, 0}, []byte{4, 0})))
		other := pick(t.Rng, ref.OID(1, 3, 132, 0, 10), ref.OID(1, 2, 840, 10045, 3, 1, 1), ref.OID(1, 2, 156, 10197, 1, 302), ref.OID(1, 3, 36, 3, 3, 2, 8, 1, 1, 7))
		mustRefusePub(t, "EC with an unknown curve", setP(other))
		for _, c := range namedCurves() {
			if c.name != k.kind {
				mustRefusePub(t, "EC key of another curve", setP(c.oid))
			}
		}
		// Private keys under an unknown curve or algorithm.
		d := t.Big(one, bi(1<<50))
		sec := func(o []byte) []byte {
			if o == nil {
				return ref.TLV(0x30, ref.TLV(2, []byte{1}), ref.TLV(4, b32(d)))
			}
			return ref.TLV(0x30, ref.TLV(2, []byte{1}), ref.TLV(4, b32(d)), ref.TLV(0xa0, o))
		}
		mustRefusePriv(t, "private key of an unknown curve", sec(other), ref.TLV(0x30, ref.TLV(2, []byte{0}), ref.TLV(0x30, oidECPub, other), ref.TLV(4, sec(other))))
		mustRefusePriv(t, "private key without a curve", sec(nil), ref.TLV(0x30, ref.TLV(2, []byte{0}), ref.TLV(0x30, oidECPub), ref.TLV(4, sec(nil))))
		mustRefusePriv(t, "private key of an unknown algorithm", nil, ref.TLV(0x30, ref.TLV(2, []byte{0}), ref.TLV(0x30, pick(t.Rng, oids...), oidSM2), ref.TLV(4, sec(oidSM2))))
	}
	// A key in another format is refused by each parser.
	p8, _ := x509.MarshalPKCS8PrivateKey(k.priv)
	mustRefusePub(t, "a private key", p8)
	mustRefusePriv(t, "a PKIX key", pub, pub)
	_, err := x509.ParsePKCS1PrivateKey(p8)
	t.wantErr("ParsePKCS1PrivateKey of PKCS #8", err)
	_, err = x509.ParsePKCS1PublicKey(pub)
	t.wantErr("ParsePKCS1PublicKey of PKIX", err)
}

func badRSA(t *T, i int) {
	k := rsaKey(t.IntN(len(rsaDER)))
	pk := func(n, e *big.Int) []byte { return ref.TLV(0x30, ref.Int(n), ref.Int(e)) }
	alg := ref.TLV(0x30, ref.OID(1, 2, 840, 113549, 1, 1, 1), []byte{5, 0})
	refP := func(what string, der []byte) {
		_, err := x509.ParsePKCS1PublicKey(der)
		t.Check(err != nil, "ParsePKCS1PublicKey accepts %s: %s", what, hx(der))
		mustRefusePub(t, "RSA "+what, spki(alg, der))
	}
	e := bi(int64(k.E))
	refP("modulus 0", pk(bi(0), e))
	refP("negative modulus", pk(new(big.Int).Neg(k.N), e))
	refP("exponent 0", pk(k.N, bi(0)))
	refP("negative exponent", pk(k.N, bi(-int64(k.E))))
	refP("huge exponent", pk(k.N, t.Big(new(big.Int).Lsh(one, 63), new(big.Int).Lsh(one, uint(64+t.IntN(1000))))))
	large := t.Big(bi(1<<31), bi(1<<62))
	if t.Chance(1, 2) { // as small as they get, and where a word of 32 bits ends
		large = pick(t.Rng, bi(1<<31), bi(1<<31+1), bi(1<<32-1), bi(1<<32), bi(1<<32+1), bi(1<<32+3), bi(1<<32+65537), bi(1<<62), bi(1<<63-1))
	}
	_, err := x509.ParsePKCS1PublicKey(pk(k.N, large))
	t.Check(err != nil, "ParsePKCS1PublicKey accepts the exponent %v", large)
	good := pk(k.N, e)
	_, err = x509.ParsePKCS1PublicKey(good)
	t.noErr("ParsePKCS1PublicKey", err)
	_, err = x509.ParsePKCS1PublicKey(cat(good, t.Bytes(1+t.IntN(4))))
	t.wantErr("ParsePKCS1PublicKey with trailing data", err)

	der := stdx509.MarshalPKCS1PrivateKey(k)
	_, err = x509.ParsePKCS1PrivateKey(der)
	t.noErr("ParsePKCS1PrivateKey", err)
	refK := func(what string, der []byte) {
		var got *rsa.PrivateKey
		var err error
		t.guard("ParsePKCS1PrivateKey "+hx(der), func() { got, err = x509.ParsePKCS1PrivateKey(der) })
		t.Check(err != nil, "ParsePKCS1PrivateKey accepts %s: %s (%v)", what, hx(der), got)
		mustRefusePriv(t, "RSA "+what, nil, ref.TLV(0x30, ref.TLV(2, []byte{0}), alg, ref.TLV(4, der)))
	}
	_, err = x509.ParsePKCS1PrivateKey(cat(der, t.Bytes(1+t.IntN(4))))
	t.wantErr("ParsePKCS1PrivateKey with trailing data", err)
	ns, _ := parseNodes(der, 0)
	f := ns[0].kids // version, n, e, d, p, q, dp, dq, qinv, [others]
	names := []string{"version", "n", "e", "d", "p", "q"}
	multi := len(k.Primes) > 2 // the standard library does not look for a relation between the numbers of these
	with := func(j int, b []byte) []byte {
		old := f[j].prim
		f[j].prim = b
		out := nodesBytes(ns)
		f[j].prim = old
		return out
	}
	for j := 1; j <= 5; j++ {
		v := new(big.Int).SetBytes(f[j].prim)
		in := func(x *big.Int) []byte { return ref.Int(x)[len(ref.Int(x))-intLen(x):] }
		refK(names[j]+" is 0", with(j, []byte{0}))
		refK(names[j]+" is negative", with(j, in(new(big.Int).Neg(v))))
		if multi {
			continue
		}
		if j != 2 || !v.IsInt64() {
			refK(names[j]+" is off by 2", with(j, in(add(v, two))))
		}
		b := clone(f[j].prim)
		b[len(b)-1-t.IntN(min(len(b), 3))] ^= 2 << t.IntN(6)
		refK(names[j]+" with a flipped bit", with(j, b))
	}
	refK("version 2", with(0, []byte{byte(2 + t.IntN(100))}))
}

// intLen is the number of content octets of the DER INTEGER x.
func intLen(x *big.Int) int {
	_, c, _, _ := ref.ReadTLV(ref.Int(x))
	return len(c)
}

func opensslKeys(t *T, i int) {
	if !haveOpenssl() {
		t.Cover("openssl is not installed")
		return
	}
	dir := tempDir(t)
	defer os.RemoveAll(dir)
	k := genKey(t.Rng, "SM2").priv.(*sm2.PrivateKey)
	der, err := x509.MarshalPKCS8PrivateKey(k)
	t.noErr("MarshalPKCS8PrivateKey", err)
	pub, err := x509.MarshalPKIXPublicKey(&k.PublicKey)
	t.noErr("MarshalPKIXPublicKey", err)
	os.WriteFile(filepath.Join(dir, "k"), der, 0600)
	os.WriteFile(filepath.Join(dir, "p"), pub, 0600)
	out, err := run(dir, "openssl", "pkey", "-inform", "DER", "-in", "k", "-pubout", "-outform", "DER", "-out", "p2")
	t.Check(err == nil, "openssl refuses the key %s: %s", hx(der), out)
	b, _ := os.ReadFile(filepath.Join(dir, "p2"))
	t.mustEq("public key that openssl derives", b, pub)
	out, err = run(dir, "openssl", "pkey", "-pubin", "-inform", "DER", "-in", "p", "-pubout", "-outform", "DER", "-out", "p3")
	t.Check(err == nil, "openssl refuses the public key %s: %s", hx(pub), out)
	for n, args := range map[string][]string{
		"PKCS8": {"pkcs8", "-topk8", "-nocrypt", "-inform", "DER", "-in", "k", "-outform", "DER", "-out", "o"},
		"SEC1":  {"ec", "-inform", "DER", "-in", "k", "-outform", "DER", "-out", "o"},
	} {
		os.Remove(filepath.Join(dir, "o"))
		if out, err := run(dir, "openssl", args...); err != nil {
			t.Cover("openssl cannot write " + n + ": " + head(string(out), 60))
			continue
		}
		b, _ := os.ReadFile(filepath.Join(dir, "o"))
		var got any
		if got, err = x509.ParsePKCS8PrivateKey(b); err != nil {
			got, err = x509.ParseECPrivateKey(b)
		}
		t.Check(err == nil && samePriv(k, got), "the key openssl wrote (%s) parses to %v, %v", hx(b), got, err)
		t.Cover("openssl " + n)
	}
	t.Key("%x", der)
}

// dsaKeys: public keys are read when all their numbers are positive, and only then.
func dsaKeys(t *T, i int) {
	pos := func(n int) *big.Int { return t.Big(one, new(big.Int).Lsh(one, uint(n))) }
	p, q, g, y := pos(1024), pos(160), pos(1024), pos(1024)
	if i%2 == 0 {
		*pick(t.Rng, &p, &q, &g, &y) = pick(t.Rng, bi(0), bi(-1), bi(-1<<40))
	}
	good := p.Sign() > 0 && q.Sign() > 0 && g.Sign() > 0 && y.Sign() > 0
	der := ref.TLV(0x30, ref.TLV(0x30, ref.OID(1, 2, 840, 10040, 4, 1), ref.TLV(0x30, ref.Int(p), ref.Int(q), ref.Int(g))), ref.TLV(3, []byte{0}, ref.Int(y)))
	a, aerr := x509.ParsePKIXPublicKey(der)
	b, berr := stdx509.ParsePKIXPublicKey(der)
	t.Check((aerr == nil) == (berr == nil), "DSA key %s: %v, the standard library: %v", hx(der), aerr, berr)
	t.Check((aerr == nil) == good, "DSA key %s with p %v, q %v, g %v, y %v: %v", hx(der), p, q, g, y, aerr)
	t.Cover(fmt.Sprintf("DSA key, all numbers positive: %v", good))
	if aerr == nil {
		x, z := a.(*dsa.PublicKey), b.(*dsa.PublicKey)
		t.Check(eqInt(x.P, z.P) && eqInt(x.Q, z.Q) && eqInt(x.G, z.G) && eqInt(x.Y, z.Y), "DSA key %s differs from the standard library's", hx(der))
	}
	t.Key("%x", der)
}

// foreignPKCS8: keys as other software writes them, with attributes or in the RFC 5958 form with the public key.
func foreignPKCS8(t *T, i int) {
	k := anyKey(t.Rng)
	var der []byte
	if p, ok := k.priv.(*sm2.PrivateKey); ok {
		der = pkcs8SM2(p.D, refPub(&p.PublicKey))
	} else {
		der = must(stdx509.MarshalPKCS8PrivateKey(k.priv))
	}
	_, body, _, _ := ref.ReadTLV(der)
	_, _, body, _ = ref.ReadTLV(body) // the version
	attrs := ref.TLV(0xa0, ref.TLV(0x30, ref.OID(2, 5, 29, 15), ref.TLV(0x31, ref.TLV(3, []byte{0, 0x80}))))
	name := ref.TLV(0xa0, ref.TLV(0x30, ref.OID(1, 2, 840, 113549, 1, 9, 20), ref.TLV(0x31, ref.TLV(0x1e, t.Bytes(2*t.IntN(40))))))
	bits := k.pubBits()
	for what, x := range map[string][]byte{
		"version 0 with an attribute":         cat(ref.Int(bi(0)), body, attrs),
		"version 0 with a name":               cat(ref.Int(bi(0)), body, name),
		"version 0 with an empty set":         cat(ref.Int(bi(0)), body, ref.TLV(0xa0)),
		"version 1 with public key":           cat(ref.Int(bi(1)), body, ref.TLV(0x81, []byte{0}, bits)),
		"version 1 with attribute and public": cat(ref.Int(bi(1)), body, attrs, ref.TLV(0x81, []byte{0}, bits)),
		"version 1 alone":                     cat(ref.Int(bi(1)), body),
	} {
		in := ref.TLV(0x30, x)
		if k.kind != "SM2" {
			if _, err := stdx509.ParsePKCS8PrivateKey(in); err != nil {
				t.Cover("the standard library refuses: " + what)
				continue
			}
		}
		got, err := x509.ParsePKCS8PrivateKey(in)
		t.noErr(fmt.Sprintf("ParsePKCS8PrivateKey of %s, %s: %s", k.kind, what, hx(in)), err)
		t.Check(samePriv(k.priv, got), "%s, %s (%s) parses to another key", k.kind, what, hx(in))
		t.Cover(what)
	}
	t.Key("foreign %x", der)
}

// pubBits are the bits of the public key in its SubjectPublicKeyInfo.
func (k tkey) pubBits() []byte {
	_, body, _, _ := ref.ReadTLV(k.pubDER())
	_, _, rest, _ := ref.ReadTLV(body)
	_, bits, _, _ := ref.ReadTLV(rest)
	return bits[1:]
}
