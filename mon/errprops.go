package main

import (
	"bytes"
	"crypto/cipher"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/x509/pkix"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"reflect"

	"mon/ref"

	"github.com/mmdet/mcrypto/pkcs12"
	"github.com/mmdet/mcrypto/sm2"
	mx "github.com/mmdet/mcrypto/x509"
)

func init() {
	register(&Prop{
		ID: "C28",
		Rule: "one defect at a time in an otherwise genuine file, message, certificate or call, and the documented error it has to give from every function that takes it; failing random sources, signers and callbacks; " +
			"parsers over mutated input; distinct (defect, input)",
		Groups: []Group{
			{Name: "files", N: [2]int{1200, 40000}, Fn: c28File},
			{Name: "messages", N: [2]int{1500, 60000}, Fn: c28Message},
			{Name: "signatures", N: [2]int{2500, 100000}, Fn: c28Sig},
			{Name: "sources", N: [2]int{1500, 60000}, Fn: c28Source},
			{Name: "parsers", N: [2]int{8000, 300000}, Fn: c28Parsers},
			{Name: "types", N: [2]int{400, 8000}, Fn: c28Types},
			{Name: "written files", N: [2]int{300, 8000}, Fn: c28Written},
		},
	})
}

// nothing checks that no result comes with an error.
func (t *T) nothing(what string, err error, vals ...any) {
	t.evals++
	if err == nil {
		return
	}
	for i, v := range vals {
		if v == nil {
			continue
		}
		if !reflect.ValueOf(v).IsZero() {
			t.Failf("%s: result %d is %T along with the error %v", what, i, v, err)
		}
	}
}

// p12Fails decodes with every function, which have to fail with an error that is what want says, and nothing else.
func p12Fails(t *T, what string, file []byte, pw string, want func(error) bool, name string) {
	in := clone(file)
	judge := func(f string, err error, vals ...any) {
		t.Check(err != nil, "%s: %s accepted it", what, f)
		t.Check(want(err), "%s: %s: error is %q (%T), not %s", what, f, err, err, name)
		t.nothing(what+": "+f, err, vals...)
	}
	t.guard("DecodeAll", func() { k, c, err := pkcs12.DecodeAll(in, pw); judge("DecodeAll", err, k, c) })
	t.guard("Decode", func() { k, c, err := pkcs12.Decode(in, pw); judge("Decode", err, k, c) })
	t.guard("ToPEM", func() { b, err := pkcs12.ToPEM(in, pw); judge("ToPEM", err, b) })
	if t.Chance(1, 6) {
		dir := tempDir(t)
		defer os.RemoveAll(dir)
		fn := filepath.Join(dir, "f.p12")
		if err := os.WriteFile(fn, in, 0600); err != nil {
			panic(err)
		}
		t.guard("SM2P12Decrypt", func() { c, k, err := pkcs12.SM2P12Decrypt(fn, pw); judge("SM2P12Decrypt", err, c, k) })
	}
}

func isNotImplemented(err error) bool {
	var n pkcs12.NotImplementedError
	return errors.As(err, &n)
}

// setAt replaces the element at a path of child numbers.
func setAt(t *T, der []byte, v []byte, path ...int) []byte {
	if len(path) == 0 {
		return v
	}
	tag, c, _, ok := ref.ReadTLV(der)
	if !ok {
		t.Failf("setAt: %s", hx(der))
	}
	kids := split(c)
	kids[path[0]] = setAt(t, kids[path[0]], v, path[1:]...)
	return ref.TLV(tag, kids...)
}

func c28File(t *T, i int) {
	k, certs, pw := genP12(t, "SM2", "SM2", "P256", "RSA small", "Ed25519")
	certs = certs[:1]
	f, _ := refSpec(t, k, certs, bmp(pw), true)
	p := bmp(pw)
	content := func(s ref.Safe) []byte {
		var bags []byte
		for _, b := range s.Bags {
			bags = append(bags, ref.EncodeBag(b, p)...)
		}
		return ref.TLV(0x30, bags)
	}
	item := func(s ref.Safe) []byte {
		if !s.Encrypted {
			return ref.TLV(0x30, ref.OIDData, ref.TLV(0xa0, ref.TLV(4, content(s))))
		}
		return ref.EncryptedContent(content(s), s.PBE, s.Salt, s.Iter, p)
	}
	items := func() (out [][]byte) {
		for _, s := range f.Safes {
			out = append(out, item(s))
		}
		return
	}
	wrap := func(is [][]byte) []byte { return ref.WrapAuthSafe(ref.TLV(0x30, is...), f, p) }
	file := wrap(items())
	if t.Chance(1, 3) {
		file = p12Encode(t, k, certs[0], nil, pw)
	}
	at := t.IntN(2) // one of the items
	incorrect := func(err error) bool { return errors.Is(err, pkcs12.ErrIncorrectPassword) }
	what := ""
	switch i % 14 {
	case 12: // the key bag: not the password, nothing comes out
		f.Safes[0].Bags, f.Safes[1].Bags = []ref.Bag{{Data: certs[0]}}, []ref.Bag{{Key: true, Data: keyDER8(k), PBE: ref.OID3DES, Salt: t.Bytes(8), Iter: 1 + t.IntN(9)}}
		f.Safes[1].Encrypted = false
		c := content(f.Safes[1])
		want, name := func(err error) bool {
			return !incorrect(err) && !errors.Is(err, pkcs12.ErrDecryption)
		}, "one that says what is wrong"
		switch t.IntN(4) {
		case 0:
			what = "key bag with an unknown encryption"
			c = setAt(t, c, pick(t.Rng, ref.OID(1, 2, 840, 113549, 1, 5, 13), ref.OID(1, 2, 840, 113549, 1, 12, 1, 1), ref.OID(1, 2, 840, 113549, 1, 12, 1, 4), oidDER(t.Rng)), 0, 1, 0, 0, 0)
		case 1:
			what = "key bag that is not a key"
			f.Safes[1].Bags[0].Data = pick(t.Rng, t.Bytes(1+t.IntN(60)), ref.TLV(0x30), ref.TLV(0x30, ref.Int(bi(0)), ref.TLV(0x30, oidDER(t.Rng)), ref.TLV(4, t.Bytes(20))))
			c = content(f.Safes[1])
		case 2:
			what = "key bag with wrong padding"
			want = func(err error) bool { return !incorrect(err) }
			c = setAt(t, c, ref.TLV(4, t.Bytes(pick(t.Rng, 0, 7, 9, 30))), 0, 1, 0, 1)
		case 3:
			what = "key bag whose parameters are not"
			want = func(err error) bool { return !incorrect(err) }
			c = setAt(t, c, pick(t.Rng, derNull, ref.TLV(0x30), ref.TLV(0x30, ref.TLV(4, t.Bytes(8)))), 0, 1, 0, 0, 1)
		}
		it := setAt(t, item(f.Safes[1]), ref.TLV(4, c), 1, 0)
		p12Fails(t, what, wrap([][]byte{item(f.Safes[0]), it}), pw, want, name)
	case 13: // parts missing or too many: every function that refuses gives nothing
		kb, cb := ref.Bag{Key: true, Data: keyDER8(k), PBE: ref.OID3DES, Salt: t.Bytes(8), Iter: 1 + t.IntN(9)}, ref.Bag{Data: certs[0]}
		bad := ref.Bag{Data: pick(t.Rng, t.Bytes(1+t.IntN(60)), ref.TLV(0x30), cat(certs[0], []byte{0}), certs[0][:len(certs[0])-1])}
		var a, b []ref.Bag
		noKey, noCert := false, false
		switch t.IntN(6) {
		case 0:
			what, noKey, a = "no key", true, []ref.Bag{cb}
		case 1:
			what, noCert, b = "no certificate", true, []ref.Bag{kb}
		case 2:
			what, noKey, noCert = "nothing", true, true
		case 3:
			what, a, b = "two keys", []ref.Bag{cb}, []ref.Bag{kb, kb}
		case 4:
			what, a, b = "certificate that does not parse", []ref.Bag{cb, bad}, []ref.Bag{kb}
		case 5:
			what, a, b = "key before a certificate that does not parse", []ref.Bag{kb}, []ref.Bag{cb, bad}
		}
		f.Safes[0].Bags, f.Safes[1].Bags = a, b
		if t.Chance(1, 2) {
			f.Safes[0].Bags, f.Safes[1].Bags = b, a
		}
		file = wrap(items())
		judge := func(name string, fail bool, err error, vals ...any) {
			t.Check(err != nil || !fail, "%s: %s accepted it", what, name)
			t.Check(!incorrect(err), "%s: %s: error is %v", what, name, err)
			t.nothing(what+": "+name, err, vals...)
			t.Cover(fmt.Sprintf("%s: %s refused: %v", what, name, err != nil))
		}
		t.guard("DecodeAll", func() { k, c, err := pkcs12.DecodeAll(clone(file), pw); judge("DecodeAll", noKey, err, k, c) })
		t.guard("Decode", func() { k, c, err := pkcs12.Decode(clone(file), pw); judge("Decode", noKey || noCert, err, k, c) })
		t.guard("ToPEM", func() { b, err := pkcs12.ToPEM(clone(file), pw); judge("ToPEM", false, err, b) })
	case 0, 1:
		what = "wrong password"
		p12Fails(t, what, file, otherPassword(t.Rng, pw), incorrect, "ErrIncorrectPassword")
	case 2:
		what = "altered MAC"
		_, mac, _ := splitPFX(t, file)
		d := clone(macDigest(t, mac))
		d[t.IntN(len(d))] ^= 1 << t.IntN(8)
		file = setAt(t, file, ref.TLV(4, d), 2, 0, 1)
		p12Fails(t, what, file, pw, incorrect, "ErrIncorrectPassword")
	case 3:
		what = "altered contents"
		as, _, _ := splitPFX(t, file)
		as = clone(as)
		as[t.IntN(len(as))] ^= 1 << t.IntN(8)
		file = setAt(t, file, ref.TLV(4, as), 1, 1, 0)
		p12Fails(t, what, file, pw, incorrect, "ErrIncorrectPassword")
	case 4:
		what = "unknown digest in the MAC"
		o := pick(t.Rng, ref.OID(2, 16, 840, 1, 101, 3, 4, 2, 1), ref.OID(1, 2, 156, 10197, 1, 401), ref.OID(1, 2, 840, 113549, 2, 5), ref.OID(1, 3, 14, 3, 2, 18), oidDER(t.Rng))
		file = setAt(t, file, o, 2, 0, 0, 0)
		p12Fails(t, what, file, pw, isNotImplemented, "NotImplementedError")
	case 5:
		what = "version"
		file = setAt(t, file, ref.Int(bi(pick(t.Rng, int64(0), 1, 2, 4, 5, 259, -1))), 0)
		p12Fails(t, what, file, pw, isNotImplemented, "NotImplementedError")
	case 6:
		what = "contents not of type data"
		o := pick(t.Rng, ref.OID(1, 2, 840, 113549, 1, 7, 2), ref.OID(1, 2, 840, 113549, 1, 7, 6), oidGMData, oidDER(t.Rng))
		file = setAt(t, file, o, 1, 0)
		p12Fails(t, what, file, pw, isNotImplemented, "NotImplementedError")
	case 7:
		is := items()
		switch t.IntN(4) {
		case 0:
			is = nil
		case 1:
			is = is[at : at+1]
		case 2:
			is = append(is, item(f.Safes[at]))
		case 3:
			is = append(is, ref.TLV(0x30, ref.OIDData, ref.TLV(0xa0, ref.TLV(4, ref.TLV(0x30)))))
		}
		what = fmt.Sprintf("%d items", len(is))
		p12Fails(t, what, wrap(is), pw, isNotImplemented, "NotImplementedError")
	case 8:
		what = "item of an unknown type"
		is := items()
		is[at] = setAt(t, is[at], pick(t.Rng, ref.OID(1, 2, 840, 113549, 1, 7, 3), ref.OID(1, 2, 840, 113549, 1, 7, 2), oidDER(t.Rng)), 0)
		p12Fails(t, what, wrap(is), pw, isNotImplemented, "NotImplementedError")
	case 9:
		is := items()
		f.Safes[at].Encrypted = true
		e := item(f.Safes[at])
		if t.Chance(1, 2) {
			what = "version of the encrypted data"
			e = setAt(t, e, ref.Int(bi(pick(t.Rng, int64(1), 2, 3, -1, 256))), 1, 0, 0)
		} else {
			what = "unknown encryption"
			e = setAt(t, e, pick(t.Rng, ref.OID(1, 2, 840, 113549, 1, 5, 13), ref.OID(1, 2, 840, 113549, 1, 12, 1, 1), ref.OID(1, 2, 840, 113549, 1, 12, 1, 4), ref.OID(1, 2, 840, 113549, 1, 12, 1, 5), oidDER(t.Rng)), 1, 0, 1, 1, 0)
		}
		is[at] = e
		p12Fails(t, what, wrap(is), pw, isNotImplemented, "NotImplementedError")
	case 10:
		what = "padding"
		s := &f.Safes[at]
		s.Encrypted = true
		plain := content(*s)
		n := 8 - len(plain)%8
		pad := bytes.Repeat([]byte{byte(n)}, n)
		switch t.IntN(3) {
		case 0:
			pad[n-1] = pick(t.Rng, 0, 9, 10, 16, 128, 255, byte(9+t.IntN(247)))
		case 1:
			if n == 1 {
				pad[0] = 0
			} else {
				pad[t.IntN(n-1)] ^= 1 << t.IntN(8)
			}
		case 2: // longer than it is
			if n == 8 {
				pad[7] = 0
			} else {
				pad[n-1] = byte(n + 1 + t.IntN(8-n))
				if n == 1 && plain[len(plain)-1] == pad[0] { // would be padding, perhaps
					pad[0] = 0
				}
			}
		}
		blk, iv, _ := ref.PBECipher(s.PBE, p, s.Salt, s.Iter)
		ct := cat(plain, pad)
		cipher.NewCBCEncrypter(blk, iv).CryptBlocks(ct, ct)
		is := items()
		is[at] = setAt(t, item(*s), ref.TLV(0x80, ct), 1, 0, 1, 2)
		p12Fails(t, what, wrap(is), pw, func(err error) bool { return errors.Is(err, pkcs12.ErrDecryption) }, "ErrDecryption")
	case 11:
		if t.Chance(1, 2) {
			what = "certificate bag of another type"
			f.Safes[0].Bags, f.Safes[1].Bags = []ref.Bag{{Data: certs[0]}}, nil
			f.Safes[0].Encrypted = false
			it := item(f.Safes[0])
			c := content(f.Safes[0])
			c = setAt(t, c, pick(t.Rng, ref.OID(1, 2, 840, 113549, 1, 9, 22, 2), oidDER(t.Rng)), 0, 1, 0, 0)
			p12Fails(t, what, wrap([][]byte{setAt(t, it, ref.TLV(4, c), 1, 0), item(f.Safes[1])}), pw, isNotImplemented, "NotImplementedError")
		} else {
			what = "password that has no encoding"
			bad := badPassword(t.Rng)
			in := clone(file)
			b, err := pkcs12.ToPEM(in, bad)
			t.Check(incorrect(err), "%s: ToPEM: error is %q", what, err)
			t.nothing(what, err, b)
			k, c, err := pkcs12.DecodeAll(in, bad)
			t.wantErr(what, err)
			t.nothing(what, err, k, c)
			k, sc, err := pkcs12.Decode(in, bad)
			t.wantErr(what, err)
			t.nothing(what, err, k, sc)
		}
	}
	t.Key("%s %x", what, file)
	t.Cover("file: " + what)
}

func c28Message(t *T, i int) {
	what := ""
	var der []byte
	switch i % 4 {
	case 0: // other content types
		what = "another content type"
		s, _ := genSD(t, 2)
		o := pick(t.Rng, ref.OID(1, 2, 840, 113549, 1, 7, 2), ref.OID(1, 2, 840, 113549, 1, 7, 1), ref.OID(1, 2, 156, 10197, 6, 1, 4, 2, 1),
			ref.OID(1, 2, 156, 10197, 6, 1, 4, 2, 3), ref.OID(1, 2, 156, 10197, 6, 1, 4, 2, 4), ref.OID(1, 2, 156, 10197, 6, 1, 4, 2), ref.OID(1, 2, 156, 10197, 6, 1, 4, 2, 2, 1), oidDER(t.Rng))
		der = setAt(t, s.der(), o, 0)
		if t.Chance(1, 4) {
			der = ref.TLV(0x30, o, ref.TLV(0xa0, pick(t.Rng, ref.TLV(4, t.Bytes(9)), ref.TLV(0x30), ref.TLV(0x30, ref.TLV(2, []byte{1})))))
		}
		var p *mx.PKCS7
		var err error
		t.guard(what, func() { p, err = mx.ParsePKCS7(clone(der)) })
		t.Check(errors.Is(err, mx.ErrUnsupportedContentType), "%s: error is %v, not ErrUnsupportedContentType", what, err)
		t.Check(p == nil, "%s: a message along with the error %v", what, err)
	case 1, 2: // content that does not match the digest attribute
		what = "altered content"
		s, certs := genSD(t, 1)
		digest := ref.SM3(s.content)
		if s.signers[0].attrs == nil {
			s.signers[0] = certs[0].signer(t.Rng, s.content, stdAttrs(s.content))
		}
		if t.Chance(1, 2) {
			digest = pick(t.Rng, nil, t.Bytes(32), t.Bytes(t.IntN(70)), digest[:31], append(clone(digest), 0), digest[1:])
			what = "another digest, genuinely signed"
			s.signers[0] = certs[0].signer(t.Rng, s.content, sortSet([][]byte{attr(oidAttrType, oidGMData), digestAttr(digest)}))
		} else {
			switch t.IntN(4) {
			case 0:
				s.content = append(clone(s.content), t.Bytes(1+t.IntN(5))...)
			case 1:
				s.content = t.Bytes(1 + t.IntN(100))
			case 2:
				if len(s.content) == 0 {
					s.content = []byte{0}
				} else {
					s.content = s.content[:len(s.content)-1]
				}
			case 3:
				if len(s.content) == 0 {
					s.content = []byte{1}
				} else {
					s.content = clone(s.content)
					s.content[t.IntN(len(s.content))] ^= 1 << t.IntN(8)
				}
			}
		}
		if s.chunks > 1 {
			s.chunks = 1
		}
		der = s.der()
		_, perr, verr := verdict(t, what, der)
		t.noErr(what+": ParsePKCS7", perr)
		var mm *mx.MessageDigestMismatchError
		t.Check(errors.As(verr, &mm), "%s: error is %v (%T), not *MessageDigestMismatchError", what, verr, verr)
		t.mustEq(what+": ExpectedDigest", mm.ExpectedDigest, digest)
		t.mustEq(what+": ActualDigest", mm.ActualDigest, ref.SM3(s.content))
		t.Check(mm.Error() != "", "no text")
	case 3: // a digest that matches, with something else wrong: no mismatch is reported
		what = "signature of another key"
		s, certs := genSD(t, 1)
		if s.signers[0].attrs == nil {
			s.signers[0] = certs[0].signer(t.Rng, s.content, stdAttrs(s.content))
		}
		o := genSDCert(t)
		for o.key.D.Cmp(certs[0].key.D) == 0 {
			o = genSDCert(t)
		}
		s.signers[0].sig = o.signer(t.Rng, s.content, s.signers[0].attrs).sig
		der = s.der()
		_, perr, verr := verdict(t, what, der)
		t.noErr(what+": ParsePKCS7", perr)
		t.wantErr(what, verr)
		var mm *mx.MessageDigestMismatchError
		t.Check(!errors.As(verr, &mm) && !errors.Is(verr, mx.ErrUnsupportedContentType), "%s: error is %v", what, verr)
	}
	t.Key("%s %x", what, der)
	t.Cover("message: " + what)
}

func insecure(t *T, what string, err error, alg mx.SignatureAlgorithm) {
	var e mx.InsecureAlgorithmError
	t.Check(errors.As(err, &e), "%s: error is %v (%T), not InsecureAlgorithmError", what, err, err)
	t.Check(mx.SignatureAlgorithm(e) == alg, "%s: the error names %v, not %v", what, mx.SignatureAlgorithm(e), alg)
}

func c28Sig(t *T, i int) {
	k := genKey(t.Rng, pick(t.Rng, "SM2", "P224", "P256", "P384", "P521", "RSA small", "Ed25519"))
	h := holder(t, k)
	msg, sig := t.Bytes(t.IntN(60)), t.Bytes(t.IntN(130))
	what := ""
	isUnsupported := func(err error) bool { return errors.Is(err, mx.ErrUnsupportedAlgorithm) }
	var err error
	switch i % 8 {
	case 0:
		what = "MD5 from CheckSignature"
		t.guard(what, func() { err = h.CheckSignature(mx.MD5WithRSA, msg, sig) })
		insecure(t, what, err, mx.MD5WithRSA)
	case 1:
		a := pick(t.Rng, algs[0], algs[1], algs[8]) // MD5, SHA-1
		what = a.name + " between certificates"
		parent := caOf(t, k)
		der := (&certSpec{serial: genSerial(t.Rng), issuer: nameDER("a"), subject: nameDER("b"), spki: genKey(t.Rng, "SM2").pubDER(), alg: a.oid, algParams: a.par,
			sign: func(tbs []byte) []byte {
				if a.kind == kindOf(k.pub) && fitPSS(a, k) {
					return primSign(t.Rng, a, k, tbs)
				}
				return sig
			}}).der()
		c, perr := mx.ParseCertificate(der)
		t.noErr("ParseCertificate", perr)
		t.guard(what, func() { err = c.CheckSignatureFrom(parent) })
		insecure(t, what, err, a.alg)
	case 2:
		what = "MD5 request"
		a := algs[0]
		tbs := handCSR(t.Rng, k)
		r, perr := mx.ParseCertificateRequest(signed3(tbs, a.id(), sig))
		t.noErr("ParseCertificateRequest", perr)
		t.guard(what, func() { err = r.CheckSignature() })
		insecure(t, what, err, a.alg)
	case 3:
		what = "MD5 list"
		a := algs[0]
		der := signed3(handCRL(t.Rng, a.id()), a.id(), sig)
		l, perr := mx.ParseCRL(der)
		t.noErr("ParseCRL", perr)
		t.guard(what, func() { err = h.CheckCRLSignature(l) })
		insecure(t, what, err, a.alg)
	case 4:
		alg := pick(t.Rng, mx.UnknownSignatureAlgorithm, mx.SignatureAlgorithm(17+t.IntN(100)), mx.SignatureAlgorithm(-1), mx.SignatureAlgorithm(1000))
		what = "algorithm that does not exist"
		t.guard(what, func() { err = h.CheckSignature(alg, msg, sig) })
		t.Check(isUnsupported(err), "%s (%d, %s key): error is %v, not ErrUnsupportedAlgorithm", what, int(alg), k.kind, err)
	case 5:
		what = "unknown algorithm in a certificate, request or list"
		a := otherAlgs[3]
		a.oid = oidDER(t.Rng)
		switch t.IntN(3) {
		case 0:
			der := (&certSpec{serial: genSerial(t.Rng), issuer: nameDER("a"), subject: nameDER("b"), spki: genKey(t.Rng, "SM2").pubDER(), alg: a.oid, sign: func([]byte) []byte { return sig }}).der()
			c, perr := mx.ParseCertificate(der)
			t.noErr("ParseCertificate", perr)
			parent := caOf(t, k)
			t.guard(what, func() { err = c.CheckSignatureFrom(parent) })
		case 1:
			r, perr := mx.ParseCertificateRequest(signed3(handCSR(t.Rng, k), a.id(), sig))
			t.noErr("ParseCertificateRequest", perr)
			t.guard(what, func() { err = r.CheckSignature() })
		case 2:
			l, perr := mx.ParseCRL(signed3(handCRL(t.Rng, a.id()), a.id(), sig))
			t.noErr("ParseCRL", perr)
			t.guard(what, func() { err = h.CheckCRLSignature(l) })
		}
		t.Check(isUnsupported(err), "%s: error is %v, not ErrUnsupportedAlgorithm", what, err)
	case 6:
		what = "key of an unknown kind"
		odd := k
		s := spki(ref.TLV(0x30, oidDER(t.Rng), pick(t.Rng, nil, derNull)), t.Bytes(40))
		a := pick(t.Rng, algsFor(odd)...)
		if a.sha1() || a.md5() {
			a = algs[2]
		}
		// a CA whose key is not known here
		pder := (&certSpec{serial: bi(3), issuer: nameDER("a"), subject: nameDER("a"), spki: s, alg: oidSM2WithSM3, sign: func([]byte) []byte { return sig },
			exts: [][]byte{extDER(ref.OID(2, 5, 29, 19), true, ref.TLV(0x30, []byte{1, 1, 255}))}}).der()
		parent, perr := mx.ParseCertificate(pder)
		t.noErr("ParseCertificate", perr)
		t.Check(parent.PublicKeyAlgorithm == mx.UnknownPublicKeyAlgorithm && parent.PublicKey == nil, "unknown key: %v, %T", parent.PublicKeyAlgorithm, parent.PublicKey)
		c, perr := mx.ParseCertificate((&certSpec{serial: bi(4), issuer: nameDER("a"), subject: nameDER("b"), spki: k.pubDER(), alg: a.oid, algParams: a.par, sign: func([]byte) []byte { return sig }}).der())
		t.noErr("ParseCertificate", perr)
		t.guard(what, func() { err = c.CheckSignatureFrom(parent) })
		t.Check(isUnsupported(err), "%s: CheckSignatureFrom: error is %v, not ErrUnsupportedAlgorithm", what, err)
		t.guard(what, func() { err = parent.CheckSignature(a.alg, msg, sig) })
		t.Check(isUnsupported(err), "%s: CheckSignature: error is %v, not ErrUnsupportedAlgorithm", what, err)
	case 7:
		parent, ok, pwhat := handParent(t, k)
		what = "parent that may not issue"
		for ok {
			parent, ok, pwhat = handParent(t, k)
		}
		a := pick(t.Rng, algs...)
		c, perr := mx.ParseCertificate((&certSpec{serial: bi(4), issuer: nameDER("a"), subject: nameDER("b"), spki: genKey(t.Rng, "SM2").pubDER(), alg: a.oid, algParams: a.par, sign: func(tbs []byte) []byte {
			if a.kind == kindOf(k.pub) && fitPSS(a, k) {
				return primSign(t.Rng, a, k, tbs)
			}
			return sig
		}}).der())
		t.noErr("ParseCertificate", perr)
		t.guard(what, func() { err = c.CheckSignatureFrom(parent) })
		var cv mx.ConstraintViolationError
		t.Check(errors.As(err, &cv), "%s (%s, %s): error is %v, not ConstraintViolationError", what, pwhat, a.name, err)
	}
	t.Check(err.Error() != "", "no text")
	t.Key("%s %s %x", what, k.kind, sig)
	t.Cover("signature: " + what)
	t.Sample("%s: %v", what, err)
}

// caOf is a certificate of a CA with this key.
func caOf(t *T, k tkey) *mx.Certificate {
	for {
		if c, ok, _ := handParent(t, k); ok {
			return c
		}
	}
}

func c28Source(t *T, i int) {
	e := errors.New("injected " + t.Name(4))
	what := ""
	var err error
	switch i % 3 {
	case 0, 1: // random sources
		d, _ := genD(t.Rng)
		priv := newSM2(d)
		k := wrapSM2(priv)
		msg := t.Bytes(t.IntN(50))
		ca := genTemplate(t.Rng, true)
		ca.SubjectKeyId = t.Bytes(20)
		ca.KeyUsage |= mx.KeyUsageCRLSign
		ca.RawSubject = nil
		tmpl := genTemplate(t.Rng, false)
		tmpl.SignatureAlgorithm = mx.UnknownSignatureAlgorithm
		req := genRequest(t.Rng)
		req.SignatureAlgorithm = mx.UnknownSignatureAlgorithm
		sdc := genSDCert(t)
		now := genTime(t.Rng)
		calls := []struct {
			name string
			f    func(rd io.Reader) (err error, vals []any)
		}{
			{"GenerateKey", func(rd io.Reader) (error, []any) { v, err := sm2.GenerateKey(rd); return err, []any{v} }},
			{"Encryt", func(rd io.Reader) (error, []any) {
				v, err := sm2.Encryt(rd, &priv.PublicKey, msg)
				return err, []any{v}
			}},
			{"Sign", func(rd io.Reader) (error, []any) { v, err := sm2.Sign(rd, priv, msg, nil); return err, []any{v} }},
			{"SignRS", func(rd io.Reader) (error, []any) {
				r, s, err := sm2.SignRS(rd, priv, msg, nil)
				return err, []any{r, s}
			}},
			{"SignDigest", func(rd io.Reader) (error, []any) {
				v, err := sm2.SignDigest(rd, priv, ref.SM3(msg))
				return err, []any{v}
			}},
			{"SignDigestRS", func(rd io.Reader) (error, []any) {
				r, s, err := sm2.SignDigestRS(rd, priv, ref.SM3(msg))
				return err, []any{r, s}
			}},
			{"CreateCertificate", func(rd io.Reader) (error, []any) {
				v, err := mx.CreateCertificate(rd, tmpl, ca, genKey(t.Rng, "P256").pub, k.signer)
				return err, []any{v}
			}},
			{"CreateCertificateRequest", func(rd io.Reader) (error, []any) {
				v, err := mx.CreateCertificateRequest(rd, req, k.signer)
				return err, []any{v}
			}},
			{"CreateCRL", func(rd io.Reader) (error, []any) {
				v, err := ca.CreateCRL(rd, k.signer, genEntries(t.Rng), now, now)
				return err, []any{v}
			}},
			{"CreateRevocationList", func(rd io.Reader) (error, []any) {
				v, err := mx.CreateRevocationList(rd, &mx.RevocationList{Number: bi(5), ThisUpdate: now, NextUpdate: now, RevokedCertificates: genEntries(t.Rng)}, ca, k.signer)
				return err, []any{v}
			}},
			{"NewSignedData", func(rd io.Reader) (err error, vals []any) {
				t.WithSysRand(rd.Read, func() {
					v, e := mx.NewSignedData(sdc.c, sdc.key, msg)
					err, vals = e, []any{v}
				})
				return
			}},
		}
		c := calls[i/3%len(calls)]
		s := newSrc(t, t.sys)
		s.err, s.failAt = e, t.IntN(34)
		if t.Chance(1, 2) {
			s.short = 1 + t.IntN(9)
		}
		what = fmt.Sprintf("%s, random source fails after %d bytes", c.name, s.failAt)
		var vals []any
		t.guard(what, func() { err, vals = c.f(s) })
		if !s.failed { // it needed less
			t.noErr(what, err)
			t.Cover("source: not reached")
			return
		}
		t.wantErr(what, err)
		t.Check(errors.Is(err, e), "%s: the error is %v, not the source's", what, err)
		t.nothing(what, err, vals...)
		t.Cover("source: " + c.name)
	case 2: // signers
		k, alg, _ := caKey(t.Rng)
		some := pick(t.Rng, nil, t.Bytes(70))
		sg := hookSigner{k.signer, func([]byte, error) ([]byte, error) { return some, e }}
		ca := genTemplate(t.Rng, true)
		ca.SubjectKeyId = t.Bytes(20)
		ca.KeyUsage |= mx.KeyUsageCRLSign
		now := genTime(t.Rng)
		var v []byte
		switch t.IntN(5) {
		case 0:
			what = "CreateCertificate"
			tmpl := genTemplate(t.Rng, false)
			tmpl.SignatureAlgorithm = alg
			v, err = mx.CreateCertificate(t.sys, tmpl, ca, genKey(t.Rng, "P256").pub, sg)
		case 1:
			what = "CreateCertificateRequest"
			req := genRequest(t.Rng)
			req.SignatureAlgorithm = alg
			v, err = mx.CreateCertificateRequest(t.sys, req, sg)
		case 2:
			what = "CreateCRL"
			v, err = ca.CreateCRL(t.sys, sg, genEntries(t.Rng), now, now)
		case 3:
			what = "CreateRevocationList"
			v, err = mx.CreateRevocationList(t.sys, &mx.RevocationList{SignatureAlgorithm: alg, Number: bi(5), ThisUpdate: now, NextUpdate: now}, ca, sg)
		case 4:
			what = "NewSignedDataCallBack"
			v, err = mx.NewSignedDataCallBack(genSDCert(t).c, func([]byte) ([]byte, error) { return some, e }, t.Bytes(30))
		}
		what += ", signer fails"
		t.wantErr(what, err)
		t.Check(errors.Is(err, e), "%s: the error is %v, not the signer's", what, err)
		t.nothing(what, err, v)
		t.Cover("signer: " + what)
	}
	t.Key("%s %s", what, e)
}

// c28Parsers: whatever the input, no parser returns something along with an error.
func c28Parsers(t *T, i int) {
	k := anyKey(t.Rng)
	type parser struct {
		name string
		f    func(in []byte) (error, []any)
	}
	var in []byte
	var ps []parser
	key := func() {
		in = keyDER(t.Rng, k)
		if t.Chance(1, 3) {
			in = k.pubDER()
		}
		ps = []parser{
			{"ParsePKCS8PrivateKey", func(in []byte) (error, []any) { v, err := mx.ParsePKCS8PrivateKey(in); return err, []any{v} }},
			{"ParseECPrivateKey", func(in []byte) (error, []any) { v, err := mx.ParseECPrivateKey(in); return err, []any{v} }},
			{"ParsePKCS1PrivateKey", func(in []byte) (error, []any) { v, err := mx.ParsePKCS1PrivateKey(in); return err, []any{v} }},
			{"ParsePKCS1PublicKey", func(in []byte) (error, []any) { v, err := mx.ParsePKCS1PublicKey(in); return err, []any{v} }},
			{"ParsePKIXPublicKey", func(in []byte) (error, []any) { v, err := mx.ParsePKIXPublicKey(in); return err, []any{v} }},
		}
	}
	kind := ""
	switch i % 6 {
	case 0, 1:
		kind = "key"
		key()
	case 2:
		kind = "certificate"
		in = handCert(t.Rng)
		if t.Chance(1, 3) {
			in = cat(in, handCert(t.Rng))
		}
		ps = []parser{
			{"ParseCertificate", func(in []byte) (error, []any) { v, err := mx.ParseCertificate(in); return err, []any{v} }},
			{"ParseCertificates", func(in []byte) (error, []any) { v, err := mx.ParseCertificates(in); return err, []any{v} }},
		}
	case 3:
		kind = "request or list"
		alg := pick(t.Rng, algs...).id()
		in = pick(t.Rng, signed3(handCSR(t.Rng, k), alg, t.Bytes(70)), signed3(handCRL(t.Rng, alg), alg, t.Bytes(70)))
		ps = []parser{
			{"ParseCertificateRequest", func(in []byte) (error, []any) { v, err := mx.ParseCertificateRequest(in); return err, []any{v} }},
			{"ParseCRL", func(in []byte) (error, []any) { v, err := mx.ParseCRL(in); return err, []any{v} }},
			{"ParseDERCRL", func(in []byte) (error, []any) { v, err := mx.ParseDERCRL(in); return err, []any{v} }},
		}
	case 4:
		kind = "message"
		s, _ := genSD(t, 2)
		in = s.der()
		ps = []parser{{"ParsePKCS7", func(in []byte) (error, []any) { v, err := mx.ParsePKCS7(in); return err, []any{v} }}}
	case 5:
		kind = "signature or ciphertext"
		d, _ := genD(t.Rng)
		priv := newSM2(d)
		in = pick(t.Rng, refSign(t.Rng, d, refPub(&priv.PublicKey), t.Bytes(5)), encAny(t, priv, t.IntN(40)))
		ps = []parser{
			{"UnmarshalSign", func(in []byte) (error, []any) { r, s, err := sm2.UnmarshalSign(in); return err, []any{r, s} }},
			{"Decryt", func(in []byte) (error, []any) { v, err := sm2.Decryt(priv, in); return err, []any{v} }},
		}
	}
	how := "as it is"
	switch t.IntN(8) {
	case 0:
	case 1:
		in, how = in[:t.IntN(len(in))], "cut short"
	case 2:
		in, how = append(clone(in), t.Bytes(1+t.IntN(3))...), "longer"
	default:
		in, how = mutate(t.Rng, in, keyDER(t.Rng, k))
	}
	for _, p := range ps {
		what := fmt.Sprintf("%s on a %s, %s", p.name, kind, how)
		b := clone(in)
		t.guard(what, func() {
			err, vals := p.f(b)
			t.nothing(what, err, vals...)
			if err == nil {
				t.Cover(p.name + " accepted")
				for _, v := range vals {
					if rv := reflect.ValueOf(v); p.name != "Decryt" && p.name != "ParseCertificates" && (!rv.IsValid() || rv.IsZero()) {
						t.Failf("%s: no value and no error", what)
					}
				}
				return
			}
			t.Cover(p.name + " refused")
			t.Check(err.Error() != "", "%s: an error without a text", what)
		})
	}
	t.Key("%x", in)
}

// c28Types: values of types no function can write.
func c28Types(t *T, i int) {
	d, _ := genD(t.Rng)
	priv := newSM2(d)
	ec := genKey(t.Rng, "P256").priv.(*ecdsa.PrivateKey)
	odd := *ec
	odd.Curve = oddCurve{ec.Curve}
	bad := []any{nil, "key", 5, []byte{1, 2}, struct{}{}, d, &d, *priv, priv.PublicKey, *ec, ec.PublicKey, true, &odd, &odd.PublicKey, (*int)(nil), sm2.SM2P256V1(), errors.New("x"), &pkix.Name{}, &mx.Certificate{}}
	v := bad[i%len(bad)]
	what := fmt.Sprintf("%T", v)
	t.guard(what, func() {
		b, err := mx.MarshalPKCS8PrivateKey(v)
		t.wantErr("MarshalPKCS8PrivateKey of "+what, err)
		t.nothing("MarshalPKCS8PrivateKey of "+what, err, b)
		b, err = mx.MarshalPKIXPublicKey(v)
		t.wantErr("MarshalPKIXPublicKey of "+what, err)
		t.nothing("MarshalPKIXPublicKey of "+what, err, b)
		// as the key of a certificate, and as a signer
		c := genTemplate(t.Rng, true)
		b, err = mx.CreateCertificate(t.sys, c, c, v, wrapSM2(priv).signer)
		t.wantErr("CreateCertificate for "+what, err)
		t.nothing("CreateCertificate for "+what, err, b)
		b, err = mx.CreateCertificate(t.sys, c, c, &priv.PublicKey, v)
		t.wantErr("CreateCertificate by "+what, err)
		t.nothing("CreateCertificate by "+what, err, b)
		b, err = mx.CreateCertificateRequest(t.sys, genRequest(t.Rng), v)
		t.wantErr("CreateCertificateRequest by "+what, err)
		t.nothing("CreateCertificateRequest by "+what, err, b)
		c.SubjectKeyId, c.KeyUsage = []byte{1}, mx.KeyUsageCRLSign
		b, err = c.CreateCRL(t.sys, v, nil, genTime(t.Rng), genTime(t.Rng))
		t.wantErr("CreateCRL by "+what, err)
		t.nothing("CreateCRL by "+what, err, b)
		sc := genSDCert(t)
		b, err = mx.NewSignedData(sc.c, v, []byte("x"))
		t.wantErr("NewSignedData by "+what, err)
		t.nothing("NewSignedData by "+what, err, b)
		b, err = pkcs12.Encode(v, sc.c, nil, "x")
		t.wantErr("Encode of "+what, err)
		t.nothing("Encode of "+what, err, b)
	})
	b, err := mx.MarshalECPrivateKey(&odd)
	t.wantErr("MarshalECPrivateKey on an unknown curve", err)
	t.nothing("MarshalECPrivateKey on an unknown curve", err, b)
	t.Key("%s %x", what, d)
	t.Cover("type " + what)
}

// oddCurve is a curve nobody knows.
type oddCurve struct{ elliptic.Curve }

// c28Written: SM2P12Encrypt cannot encode, and the file that was there stays.
func c28Written(t *T, i int) {
	k, certs, pw := genP12(t, "SM2")
	c, err := mx.ParseCertificate(clone(certs[0]))
	t.noErr("ParseCertificate", err)
	priv := k.priv.(*sm2.PrivateKey)
	dir := tempDir(t)
	defer os.RemoveAll(dir)
	fn := filepath.Join(dir, "key.p12")
	var was []byte
	there := true
	switch i % 3 {
	case 0:
		was = t.Bytes(t.IntN(5000))
		err = os.WriteFile(fn, was, 0640)
	case 1:
		t.noErr("SM2P12Encrypt", pkcs12.SM2P12Encrypt(c, pw, priv, fn))
		was, err = os.ReadFile(fn)
	case 2:
		there = false
	}
	t.noErr("harness file", err)
	what := "a password outside the BMP"
	err = pkcs12.SM2P12Encrypt(c, badPassword(t.Rng), priv, fn)
	t.Check(err != nil, "SM2P12Encrypt with %s: no error", what)
	es, _ := os.ReadDir(dir)
	if there {
		got, err := os.ReadFile(fn)
		t.noErr("file after SM2P12Encrypt with "+what, err)
		t.mustEq("file after SM2P12Encrypt with "+what, got, was)
		t.Check(len(es) == 1, "SM2P12Encrypt with %s: %d files in the directory", what, len(es))
	} else {
		t.Check(len(es) == 0, "SM2P12Encrypt with %s: left a file", what)
	}
	t.Cover(fmt.Sprintf("written: a file was there %v", there))
	t.Key("written %x %d", certs[0], i)
}
