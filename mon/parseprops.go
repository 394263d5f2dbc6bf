package main

import (
	"bytes"
	"crypto"
	"crypto/elliptic"
	stdx "crypto/x509"
	"encoding/asn1"
	"fmt"
	"math/big"
	"net/url"
	"regexp"
	"strconv"
	"strings"
	"time"

	"mon/ref"

	"github.com/mmdet/mcrypto/sm2"
	mx "github.com/mmdet/mcrypto/x509"
)

func init() {
	register(&Prop{
		ID: "C12",
		Rule: "certificates made by the standard library from generated templates, written by hand with unusual but legal parts, and mutations of these and of SM2 certificates: wherever both parsers accept, every shared field must be equal, " +
			"raw fields the exact parts of the input, and a certificate with its key replaced by an SM2 key the same but for the key; concatenations and trailing bytes. " +
			"Non-trivial: both parsers accepted (compared), or an SM2 certificate compared with its twin",
		Groups: []Group{
			{Name: "stdlib", N: [2]int{2500, 40000}, Fn: c12Std},
			{Name: "handmade", N: [2]int{15000, 300000}, Fn: c12Hand},
			{Name: "mutated", N: [2]int{18000, 600000}, Fn: c12Mutated},
			{Name: "algorithms", N: [2]int{4000, 60000}, Fn: c12Algs},
			{Name: "every byte", N: [2]int{256 * len(bytePlaces), 256 * len(bytePlaces) * 8}, Fn: c12Bytes},
			{Name: "concatenated", N: [2]int{1500, 20000}, Fn: c12Concat},
			again(120, 6000, "ParseCertificate", "ParseCertificates"),
		},
	})
}

// compareParsers gives der, with and without an SM2 key in it, to both parsers.
func compareParsers(t *T, what string, der []byte, mustAccept bool) (accepted bool) {
	c, err := mx.ParseCertificate(clone(der))
	s, serr := stdx.ParseCertificate(clone(der))
	if err != nil && serr == nil && !mustAccept {
		mustAccept = !oddValues(s.RawIssuer) && !oddValues(s.RawSubject) && len(s.Policies) == len(s.PolicyIdentifiers)
		t.Cover("refused, the standard library accepts")
	}
	if mustAccept && err != nil {
		t.Failf("%s: refused (%v), the standard library says %v: %s", what, err, serr, hx(der))
	}
	if err == nil && serr != nil {
		t.Check(newerCheck(serr.Error(), c), "%s: accepted, the standard library says %v: %s", what, serr, hx(der))
		t.Cover("accepted, newer versions of the standard library refuse")
	}
	if err == nil {
		t.Evalf()
		rawsExact(t, what, c, der)
		again, err := mx.ParseCertificate(clone(der))
		t.noErr(what+": second parse", err)
		t.Check(c.Equal(again) && again.Equal(c), "%s: not Equal to itself parsed again", what)
		v, _ := viewCert(der)
		t.mustEq(what+": Signature", c.Signature, rightAlign(v.sig, elemUnused(der)))
	}
	if err == nil && serr == nil {
		agree(t, what, c, s)
		accepted = true
		t.Cover("compared with the standard library")
	}
	// The twin with an SM2 key.
	if v, ok := viewCert(der); ok && (err == nil || serr == nil) {
		p := ref.BaseMul(t.Big(one, nm2))
		twin := transplant(der, pkixSM2(p))
		tw, terr := mx.ParseCertificate(clone(twin))
		if terr == nil {
			rawsExact(t, what+", SM2 key", tw, twin)
			k, ok := tw.PublicKey.(*sm2.PublicKey)
			t.Check(ok && eqInt(k.X, p.X) && eqInt(k.Y, p.Y), "%s: the SM2 key put into the certificate is read as %s", what, showKey(tw.PublicKey))
		}
		// a transplant re-encodes the frame: compare only where that changed nothing else
		if string(transplant(der, v.spki)) == string(der) {
			if err == nil {
				t.Check(terr == nil, "%s: accepted, but with an SM2 key instead: %v", what, terr)
				d := recordOf(c).diff(recordOf(tw), swapIgnore...)
				t.Check(d == "", "%s: fields change when the key is replaced by an SM2 key (before != after): %s", what, d)
				t.Cover("SM2 twin compared")
				accepted = true
			} else if terr == nil { // the key was what we refuse: the rest must agree with the standard library
				agree(t, what+", SM2 key", tw, s, swapIgnore...)
				t.Cover("SM2 twin compared with the standard library")
				accepted = true
			}
		}
	}
	return
}

// newerCheck tells whether a refusal by the standard library is for something that the version the parser follows did not
// look at, or for a kind of key that only one of the two knows.
func newerCheck(msg string, c *mx.Certificate) bool {
	if strings.Contains(msg, "invalid certificate policies") {
		seen := map[string]bool{}
		for _, o := range c.PolicyIdentifiers {
			if seen[o.String()] {
				return true
			}
			seen[o.String()] = true
		}
	}
	for _, m := range []string{"incorrectly marked critical", "certificate contains duplicate extension", "IPv4-mapped IPv6 address", "invalid BMPString",
		"inhibit any policy extension", "policy constraints", "policy mappings extension", "unsupported elliptic curve", "ML-DSA", "X25519"} {
		if strings.Contains(msg, m) {
			return true
		}
	}
	if strings.Contains(msg, "invalid basic constraints") {
		for _, e := range c.Extensions {
			if e.Id.String() == "2.5.29.19" && negativePathLen(e.Value) {
				return true
			}
		}
	}
	if m := regexp.MustCompile(`failed to parse (?:dnsName|rfc822Name|URI) constraint (".*")$`).FindStringSubmatch(msg); m != nil {
		c, err := strconv.Unquote(m[1])
		if err != nil {
			return false
		}
		at := strings.LastIndexByte(c, '@')
		for _, l := range strings.Split(c[at+1:], ".") {
			if len(l) > 63 {
				return true
			}
		}
		return strings.HasPrefix(c[at+1:], ".") && (at >= 0 || len(c) == 1 || strings.HasPrefix(c, "..")) || strings.Count(c, "@") > 1 || len(c) > 250
	}
	if m := regexp.MustCompile(`cannot parse URI (".*"): invalid domain$`).FindStringSubmatch(msg); m != nil {
		raw, err := strconv.Unquote(m[1])
		if err != nil {
			return false
		}
		u, err := url.Parse(raw)
		return err == nil && strings.HasPrefix(u.Host, ".") && !strings.HasPrefix(u.Host, "..")
	}
	return false
}

// negativePathLen tells whether an encoding of basic constraints is in order except that it gives a path length below zero.
func negativePathLen(der []byte) bool {
	var seq asn1.RawValue
	if _, err := asn1.Unmarshal(der, &seq); err != nil || seq.Tag != asn1.TagSequence {
		return false
	}
	in := seq.Bytes
	if len(in) > 0 && in[0] == asn1.TagBoolean {
		var ca bool
		var err error
		if in, err = asn1.Unmarshal(in, &ca); err != nil {
			return false
		}
	}
	var n int64
	_, err := asn1.Unmarshal(in, &n)
	return err == nil && n < 0
}

func elemUnused(der []byte) int {
	top := elems(der)
	if b := body(top[2]); len(b) > 0 {
		return int(b[0])
	}
	return 0
}

func rightAlign(b []byte, unused int) []byte {
	out := clone(b)
	for i := range out {
		out[i] = b[i] >> unused
		if i > 0 {
			out[i] |= b[i-1] << (8 - unused)
		}
	}
	if unused == 0 {
		copy(out, b)
	}
	return out
}

// stdCert is a certificate the standard library makes from a generated template.
func stdCert(t *T) []byte {
	tmpl := genTemplate(t.Rng, t.Chance(1, 3))
	st := toStd(tmpl)
	st.SignatureAlgorithm = 0
	if t.Chance(1, 6) {
		st.InhibitAnyPolicy, st.RequireExplicitPolicy, st.InhibitPolicyMapping = t.IntN(3), t.IntN(3), t.IntN(3)
	}
	parent := st
	if t.Chance(1, 2) {
		parent = toStd(genTemplate(t.Rng, true))
		parent.PublicKey = nil
	}
	ca := genKey(t.Rng, pick(t.Rng, "P224", "P256", "P384", "P521", "RSA small", "Ed25519"))
	if ca.kind == "RSA" {
		st.SignatureAlgorithm = pick(t.Rng, 0, stdx.SHA256WithRSA, stdx.SHA384WithRSA, stdx.SHA512WithRSA, stdx.SHA256WithRSAPSS, stdx.SHA384WithRSAPSS)
	}
	sub := genKey(t.Rng, pick(t.Rng, "P224", "P256", "P384", "P521", "RSA", "Ed25519"))
	der, err := stdx.CreateCertificate(t.sys, st, parent, sub.pub, ca.signer)
	if err != nil {
		return nil
	}
	return der
}

func c12Std(t *T, i int) {
	der := stdCert(t)
	if der == nil {
		t.Cover("standard library refuses the template")
		return
	}
	_, serr := stdx.ParseCertificate(der)
	if compareParsers(t, "certificate made by the standard library", der, serr == nil) {
		t.Key("%x", der)
	}
}

// ---- hand-made certificates

func strDER(r *Rng) []byte {
	switch r.IntN(10) {
	case 0:
		return ref.TLV(19, []byte(r.Name(r.IntN(9))+pick(r, "", "*", "&", "?", "'()", "@", "_", "\x00", string(rune(r.IntN(128))), string(rune(r.IntN(128))))))
	case 1:
		return ref.TLV(20, r.Bytes(r.IntN(9)))
	case 2:
		return ref.TLV(22, []byte(r.Name(r.IntN(9))+pick(r, "", "@", "\x80", "\x7f", "\xff")))
	case 3:
		return ref.TLV(18, []byte(pick(r, "0123456789", "12 34", "", "12a", pick(r, "1", "")+string(rune(r.IntN(128))))))
	case 4:
		b, _ := ref.BMP(pick(r, "abc", "国密", "", "x"))
		return ref.TLV(30, cat(b, pick(r, nil, []byte{0, 0}, []byte{0}, []byte{0xd8, 0x3d, 0xdd, 0x12}, []byte{0xd8, 0})))
	case 5:
		return ref.TLV(28, r.Bytes(4*r.IntN(4)))
	case 6:
		return ref.TLV(12, pick(r, []byte("été"), []byte{0xff}, []byte("国"), nil, []byte{0xed, 0xa0, 0x80}, []byte{0xc0, 0x80}, []byte{0xf4, 0x90, 0x80, 0x80}, []byte{0xe5, 0x9b}, []byte{0xef, 0xbf, 0xbf}))
	case 7:
		return pick(r, ref.TLV(4, r.Bytes(3)), ref.TLV(2, []byte{5}), ref.TLV(0x30), ref.TLV(3, []byte{0, 1}), derNull)
	}
	return ref.TLV(pick(r, byte(12), 19, 22), []byte(r.Name(1+r.IntN(30))))
}

func handName(r *Rng) []byte {
	var sets [][]byte
	for n := r.IntN(5); n > 0; n-- {
		var as [][]byte
		for m := 1 + r.IntN(8)/6; m > 0; m-- {
			oid := ref.OID(2, 5, 4, pick(r, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 17))
			if r.Chance(1, 4) {
				oid = pick(r, ref.OID(1, 2, 840, 113549, 1, 9, 1), ref.OID(0, 9, 2342, 19200300, 100, 1, 25), ref.OID(2, 5, 4, 3, 1), ref.OID(2, 5, 5, 3))
			}
			if r.Chance(5, 6) {
				as = append(as, ref.TLV(0x30, oid, ref.TLV(pick(r, byte(12), 19, 22), []byte(r.Name(1+r.IntN(20))))))
			} else {
				as = append(as, ref.TLV(0x30, oid, strDER(r)))
			}
		}
		sets = append(sets, ref.TLV(0x31, as...))
	}
	return ref.TLV(0x30, sets...)
}

func handTime(r *Rng) []byte {
	tm := genTime(r).UTC()
	y2 := tm.Format("060102150405")
	switch r.IntN(9) {
	case 0:
		return ref.TLV(23, []byte(tm.Format("0601021504")+"Z"))
	case 1:
		return ref.TLV(23, []byte(y2+pick(r, "+0800", "-0530", "+0000", "")))
	case 2:
		return ref.TLV(24, []byte(tm.Format("20060102150405")+pick(r, "", "+0800", ".5Z", ".000Z", "z")))
	case 3:
		return ref.TLV(23, []byte(pick(r, "500101000000Z", "491231235959Z", "000101000000Z", "991231235959Z", "000229000000Z", "010229000000Z", "001301000000Z", "000100000000Z", "000101240000Z", "000101006000Z", "000101000060Z")))
	case 4:
		return ref.TLV(24, []byte(pick(r, "00000101000000Z", "00010101000000Z", "19491231235959Z", "20500101000000Z", "99991231235959Z", "20230229000000Z", "20001301000000Z", "2000010100000Z")))
	case 5, 6:
		return ref.TLV(24, []byte(tm.Format("20060102150405Z")))
	}
	return ref.TLV(23, []byte(y2+"Z"))
}

func generalName(r *Rng) []byte {
	switch r.IntN(12) {
	case 0:
		return ref.TLV(0xa0, ref.OID(1, 3, 6, 1, 4, 1, 311, 20, 2, 3), ref.TLV(0xa0, ref.TLV(12, []byte("upn"))))
	case 1:
		return ref.TLV(0xa4, handName(r))
	case 2:
		return ref.TLV(0x88, []byte{42, 3, 4})
	case 3, 4:
		return ref.TLV(0x81, []byte(pick(r, genMail(r), "x", "", "a@b\x80")))
	case 5, 6:
		return ref.TLV(0x86, []byte(pick(r, genURL(r), "urn:x", "://", "http://a b", "http://[::1]/", "http://a..b/", "http://host:99/", "%zz", "http://ü/", "")))
	case 7, 8:
		return ref.TLV(0x87, r.Bytes(pick(r, 4, 16, 4, 16, 4, 16, 5, 8, 0)))
	case 9:
		return ref.TLV(pick(r, byte(0x80), 0x89, 0xa2, 0xa6, 0x02, 0x1e, 0xc2, 0x42), []byte(genDomain(r)))
	}
	return ref.TLV(0x82, []byte(pick(r, genDNS(r), "", "a..b", "a b", "\xff", genDNS(r), genDNS(r), genDNS(r)+".")))
}

// oddMail is a mailbox of all kinds of characters, quoted or not.
func oddMail(r *Rng) string {
	c := func() string {
		switch r.IntN(4) {
		case 0:
			return string(rune(r.IntN(128)))
		case 1:
			return pick(r, "\\", "\"", ".", "@", " ", "\x7f", "\t", "(", ")", "<", ">", "[", "]", ":", ";", ",", "\x00", "\x0b", "\x0c", "\x0e", "\x1f", "\x21", "\x5b", "\x5d", "\x7e", "\r", "\n")
		}
		return pick(r, "a", "Z", "0", "!", "#", "$", "%", "&", "'", "*", "+", "-", "/", "=", "?", "^", "_", "`", "{", "|", "}", "~", ".", "9", "A", "z")
	}
	s := r.Name(r.IntN(3))
	for n := 1 + r.IntN(3); n > 0; n-- {
		s += c()
	}
	s += r.Name(r.IntN(2))
	if r.Chance(1, 2) {
		s = "\"" + s
		if r.Chance(7, 8) {
			s += "\""
		}
	}
	return s + pick(r, "@", "@", "@", "@", "@", "", "@@") + pick(r, "x.y", "x.y", "x", genDomain(r), "", ".x", "x.", "a..b", "a b", "\x7f", "é")
}

func subtree(r *Rng) []byte {
	var n []byte
	switch r.IntN(8) {
	case 0, 1:
		n = ref.TLV(0x87, pick(r, cat(r.Bytes(4), []byte{255, 255, byte(-(1 << r.IntN(9))), 0}), cat(r.Bytes(16), []byte{255, 240, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}), r.Bytes(8), r.Bytes(5), cat(r.Bytes(4), []byte{0, 255, 0, 0})))
	case 2:
		n = ref.TLV(0x81, []byte(pick(r, oddMail(r), oddMail(r), oddMail(r), oddMail(r), genMail(r), genConstraint(r), "", "@", "a@", "\"q q\"@x.y", "\"a\\\"b\"@x", "a..b@c", ".a@c", "a@b.", "\\a@b", "a@b@c", ".")))
	case 3:
		n = ref.TLV(0x86, []byte(pick(r, genConstraint(r), "1.2.3.4", "", "::1", "a..b", ".", "x.")))
	case 4:
		n = pick(r, ref.TLV(0xa4, handName(r)), ref.TLV(0x88, []byte{42, 3}))
	default:
		n = ref.TLV(0x82, []byte(pick(r, genConstraint(r), genConstraint(r), "", ".", "..a", "a.", "*.a", "a_b", "\x80")))
	}
	return ref.TLV(0x30, n, pick(r, nil, nil, nil, ref.TLV(0x80, []byte{0}), ref.TLV(0x81, []byte{3})))
}

func several(r *Rng, f func(*Rng) []byte) (out []byte) {
	for n := pick(r, 1, 1, 2, 3, r.IntN(5)); n > 0; n-- {
		out = append(out, f(r)...)
	}
	return
}

// handExt is one extension, usual or odd.
func handExt(r *Rng) []byte {
	id := func(n int) []byte { return ref.OID(2, 5, 29, n) }
	seq := func(parts ...[]byte) []byte { return ref.TLV(0x30, parts...) }
	var oid, v []byte
	switch r.IntN(13) {
	case 0:
		oid, v = id(15), ref.TLV(3, pick(r, []byte{0}, []byte{7, 0x80}, []byte{0, 0xff, 0x80}, []byte{7, 0xff, 0x80}, []byte{1, 6}, []byte{3, 0x57}, []byte{9, 1}, cat([]byte{0}, r.Bytes(1+r.IntN(4)))))
	case 1:
		oid = id(19)
		v = pick(r, seq(), seq([]byte{1, 1, 255}), seq([]byte{1, 1, 0}), seq([]byte{1, 1, 255}, ref.Int(bi(int64(r.IntN(300))))), seq(ref.Int(bi(int64(r.IntN(3))))), seq([]byte{1, 1, 255}, ref.Int(bi(-1))), seq([]byte{1, 1, 1}),
			seq([]byte{1, 1, 255}, ref.Int(new(big.Int).Lsh(one, 70))), seq([]byte{1, 1, 255}, ref.Int(bi(1)), []byte{5, 0}))
	case 2:
		oid, v = id(17), seq(several(r, generalName))
	case 3:
		oid = id(30)
		p, e := several(r, subtree), several(r, subtree)
		v = pick(r, seq(ref.TLV(0xa0, p)), seq(ref.TLV(0xa1, e)), seq(ref.TLV(0xa0, p), ref.TLV(0xa1, e)), seq(ref.TLV(0xa0, p), ref.TLV(0xa1, e)), seq(ref.TLV(0xa1, e), ref.TLV(0xa0, p)), seq(), cat(seq(ref.TLV(0xa0, p)), []byte{5, 0}))
	case 4:
		oid = id(31)
		v = seq(several(r, func(r *Rng) []byte {
			u := func(r *Rng) []byte {
				return pick(r, ref.TLV(0x86, []byte(genURL(r))), ref.TLV(0x86, []byte(genURL(r))), generalName(r))
			}
			full := ref.TLV(0xa0, ref.TLV(0xa0, several(r, u)))
			return pick(r, seq(full), seq(full), seq(full), seq(full, ref.TLV(0x81, []byte{1, 6})), seq(ref.TLV(0xa2, generalName(r))), seq(), seq(ref.TLV(0xa0, ref.TLV(0xa1, ref.TLV(0x30, oidCN, strDER(r))))), seq(ref.TLV(0xa0)))
		}))
	case 5:
		oid = id(35)
		v = pick(r, seq(ref.TLV(0x80, r.Bytes(r.IntN(25)))), seq(ref.TLV(0x80, r.Bytes(20)), ref.TLV(0xa1, ref.TLV(0xa4, handName(r))), ref.TLV(0x82, []byte{5})), seq(ref.TLV(0xa1, ref.TLV(0xa4, handName(r))), ref.TLV(0x82, []byte{5})), seq(), ref.TLV(0x80, r.Bytes(20)))
	case 6:
		oid, v = id(14), pick(r, ref.TLV(4, r.Bytes(r.IntN(25))), ref.TLV(4, r.Bytes(20)), r.Bytes(20), cat(ref.TLV(4, r.Bytes(4)), []byte{0}))
	case 7:
		oid = id(37)
		v = seq(several(r, func(r *Rng) []byte {
			return pick(r, ref.OID(2, 5, 29, 37, 0), ref.OID(1, 3, 6, 1, 5, 5, 7, 3, 1+r.IntN(10)), ref.OID(1, 3, 6, 1, 4, 1, 311, 10, 3, 3), ref.OID(2, 16, 840, 1, 113730, 4, 1), ref.OID(1, 3, 6, 1, 4, 1, 311, 2, 1, 22), ref.OID(1, 3, 6, 1, 4, 1, 311, 61, 1, 1), ref.OID(1, 2, 3), ref.TLV(6))
		}))
	case 8:
		oid = id(32)
		v = seq(several(r, func(r *Rng) []byte {
			return seq(ref.OID(2, 23, 140, 1, r.IntN(1000), r.IntN(3)), pick(r, nil, nil, seq(seq(ref.OID(1, 3, 6, 1, 5, 5, 7, 2, 1), ref.TLV(22, []byte("http://cps"))))))
		}))
	case 9:
		oid = ref.OID(1, 3, 6, 1, 5, 5, 7, 1, 1)
		v = seq(several(r, func(r *Rng) []byte {
			return seq(ref.OID(1, 3, 6, 1, 5, 5, 7, 48, pick(r, 1, 2, 1, 2, 3)), pick(r, ref.TLV(0x86, []byte(genURL(r))), generalName(r)))
		}))
	case 10:
		oid, v = pick(r, id(18), id(36), id(54), id(33), id(16), id(9), id(46), ref.OID(2, 5, 29), ref.OID(2, 5, 29, 15, 1), ref.OID(2, 5, 29, 128+15)), r.Bytes(r.IntN(20))
	default:
		oid, v = ref.OID(1, 2, r.IntN(5), 4+r.IntN(300)), r.Bytes(r.IntN(40))
	}
	if r.Chance(1, 25) {
		v = cat(v, r.Bytes(1+r.IntN(3)))
	}
	if r.Chance(1, 25) { // nearly that identifier
		oid = clone(oid)
		at := 2 + r.IntN(len(oid)-2)
		if r.Chance(1, 8) {
			oid = cat([]byte{6, oid[1] + 1}, oid[2:], []byte{byte(r.IntN(128))})
		} else if b := oid[at] ^ 1<<r.IntN(7); b != 0x80 {
			oid[at] = b
		}
		if r.Chance(1, 2) && oid[2] == 0x55 {
			oid[2] = pick(r, byte(0x2d), 0x05, 0x54, 0x56, 0x51, 0x50)
		}
	}
	crit := pick(r, nil, nil, []byte{1, 1, 255}, []byte{1, 1, 255}, nil, nil, nil)
	if r.Chance(1, 20) {
		crit = pick(r, []byte{1, 1, 0}, []byte{1, 1, 1}, []byte{1, 0}, []byte{5, 0})
	}
	return ref.TLV(0x30, oid, crit, ref.TLV(4, v))
}

func handSPKI(r *Rng) []byte {
	if r.Chance(2, 3) {
		return pick(r, standIn, spkiOf(genKey(r, pick(r, "P224", "P256", "P384", "P521", "Ed25519"))))
	}
	rsaOID := ref.OID(1, 2, 840, 113549, 1, 1, 1)
	rsaBits := ref.TLV(0x30, ref.Int(pick(r, rsaKey(0).N, bi(0), bi(-77), bi(77), rsaKey(8).N)), ref.Int(pick(r, bi(3), bi(65537), bi(0), bi(-3), bi(1<<40), new(big.Int).Lsh(one, 64))))
	dsaOID := ref.OID(1, 2, 840, 10040, 4, 1)
	n := func() []byte { return ref.Int(pick(r, bi(0), bi(-1), bi(23), r.Big(one, new(big.Int).Lsh(one, 512)))) }
	switch r.IntN(6) {
	case 0:
		return spki(ref.TLV(0x30, rsaOID, pick(r, derNull, derNull, nil, ref.TLV(0x30))), pick(r, rsaBits, cat(rsaBits, []byte{0})))
	case 1:
		return spki(ref.TLV(0x30, dsaOID, ref.TLV(0x30, n(), n(), n())), n())
	case 2:
		p := r.Big(one, nm2)
		x, y := elliptic.P256().ScalarBaseMult(p.Bytes())
		pt := elliptic.Marshal(elliptic.P256(), x, y)
		if r.Chance(1, 3) {
			pt = elliptic.MarshalCompressed(elliptic.P256(), x, y)
		}
		return spki(ref.TLV(0x30, ref.OID(1, 2, 840, 10045, 2, 1), pick(r, ref.OID(1, 2, 840, 10045, 3, 1, 7), ref.OID(1, 3, 132, 0, 10), nil, derNull, ref.OID(1, 3, 132, 0, 34))), pt)
	case 3:
		return spki(ref.TLV(0x30, pick(r, ref.OID(1, 3, 101, 112), ref.OID(1, 3, 101, 110)), pick(r, nil, nil, derNull)), r.Bytes(pick(r, 32, 32, 31, 33)))
	case 4:
		return spki(ref.TLV(0x30, ref.OID(1, 2, 3, 4), pick(r, nil, derNull)), r.Bytes(9))
	}
	return ref.TLV(0x30, ref.TLV(0x30, rsaOID, derNull), ref.TLV(3, []byte{pick(r, byte(0), 0, 1, 7, 8)}, rsaBits))
}

func spkiOf(k tkey) []byte { return k.pubDER() }

// handCert writes a whole certificate, mostly well-formed, with one or two odd parts.
func handCert(r *Rng) []byte { return handCertAlg(r, nil) }

func handCertAlg(r *Rng, forced []byte) []byte {
	alg := pick(r, algs...)
	a := alg.id()
	if forced != nil {
		a = forced
	} else if r.Chance(1, 10) {
		a = pick(r, ref.TLV(0x30, alg.oid, derNull), ref.TLV(0x30, alg.oid), ref.TLV(0x30, ref.OID(1, 2, 840, 113549, 1, 1, 10), pssPar(ref.OID(2, 16, 840, 1, 101, 3, 4, 2, 1), 20)),
			ref.TLV(0x30, ref.OID(1, 2, 840, 113549, 1, 1, 10), ref.TLV(0x30)), otherAlgs[r.IntN(len(otherAlgs))].id(), ref.TLV(0x30), ref.TLV(0x30, alg.oid, derNull, derNull))
	}
	outer := a
	if r.Chance(1, 30) {
		outer = pick(r, algs...).id()
	}
	good := func(cond bool, x, y []byte) []byte {
		if cond {
			return x
		}
		return y
	}
	odd := r.IntN(6) // which part may be odd
	ver := ref.TLV(0xa0, ref.Int(bi(2)))
	v := 3
	if odd == 0 {
		v = pick(r, 1, 2, 3, 4, 0)
		ver = ref.TLV(0xa0, ref.Int(bi(int64(v-1))))
		if v == 1 {
			ver = pick(r, nil, nil, ver)
		}
	}
	serial := ref.Int(genSerial(r))
	if r.Chance(1, 15) {
		serial = ref.Int(pick(r, bi(0), bi(-1), bi(-128), r.Big(one, new(big.Int).Lsh(one, 300))))
	}
	plainTime := utcTime(time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC))
	val := ref.TLV(0x30, good(odd != 1, plainTime, handTime(r)), good(odd != 1 || r.Chance(1, 2), plainTime, handTime(r)))
	issuer, subject := nameDER(r.Name(5)), nameDER(r.Name(5))
	if odd == 2 {
		issuer, subject = handName(r), handName(r)
	}
	key := standIn
	if odd == 3 {
		key = handSPKI(r)
	}
	var uid []byte
	if r.Chance(1, 20) {
		uid = cat(pick(r, nil, ref.TLV(0x81, []byte{0}, r.Bytes(3)), ref.TLV(0xa1, r.Bytes(3))), pick(r, nil, ref.TLV(0x82, []byte{0}, r.Bytes(3)), ref.TLV(0xa2, ref.TLV(3, []byte{0, 1}))))
	}
	var ex []byte
	if r.Chance(5, 6) {
		var es [][]byte
		for n := 1 + r.IntN(4); n > 0; n-- {
			es = append(es, handExt(r))
		}
		ex = ref.TLV(0xa3, ref.TLV(0x30, es...))
	}
	var tail []byte
	if r.Chance(1, 40) {
		tail = ref.TLV(pick(r, byte(5), 0xa4, 0x30), r.Bytes(r.IntN(3)))
	}
	tbs := ref.TLV(0x30, ver, serial, a, issuer, val, subject, key, uid, ex, tail)
	sig := ref.TLV(3, []byte{0}, r.Bytes(64))
	if r.Chance(1, 30) {
		sig = pick(r, ref.TLV(3, []byte{byte(r.IntN(9))}, []byte{0xab, 0x80 << r.IntN(8)}), ref.TLV(3, []byte{0}), ref.TLV(3))
	}
	return ref.TLV(0x30, tbs, outer, sig, pick(r, nil, nil, nil, nil, nil, nil, nil, tail))
}

func c12Hand(t *T, i int) {
	der := handCert(t.Rng)
	if compareParsers(t, "hand-made certificate", der, false) {
		t.Key("%x", der)
	}
}

// oddAlg is the identifier of a signature algorithm with some part of its parameters not as usual.
func oddAlg(r *Rng) []byte {
	params := func() []byte {
		return pick(r, derNull, derNull, derNull, nil, ref.TLV(0x30), ref.TLV(2, []byte{0}), []byte{5, 1, 0}, cat(derNull, derNull), ref.TLV(4, r.Bytes(3)), ref.TLV(0x30, ref.OID(2, 16, 840, 1, 101, 3, 4, 2, 1), derNull))
	}
	if r.Chance(1, 3) {
		return ref.TLV(0x30, pick(r, pick(r, algs...).oid, pick(r, otherAlgs...).oid), params())
	}
	n := 1 + r.IntN(3)
	sha := ref.OID(2, 16, 840, 1, 101, 3, 4, 2, n)
	mgf := ref.OID(1, 2, 840, 113549, 1, 1, 8)
	salt := int64([]int{32, 48, 64}[n-1])
	trailer := ref.TLV(0xa3, ref.Int(one))
	odd := r.IntN(10)
	or := func(k int, usual []byte, others ...[]byte) []byte {
		if odd == k || r.Chance(1, 40) {
			return pick(r, others...)
		}
		return usual
	}
	sha2 := ref.OID(2, 16, 840, 1, 101, 3, 4, 2, 1+r.IntN(4))
	hash := ref.TLV(0xa0, ref.TLV(0x30, or(0, sha, sha2, ref.OID(1, 3, 14, 3, 2, 26), ref.TLV(6)), or(1, derNull, params(), params(), params())))
	mask := ref.TLV(0xa1, ref.TLV(0x30, or(2, mgf, sha, ref.OID(1, 2, 840, 113549, 1, 1, 9)), or(3, ref.TLV(0x30, or(4, sha, sha2), or(5, derNull, params(), params(), params())), params(), sha, cat(ref.TLV(0x30, sha, derNull), derNull))))
	size := ref.TLV(0xa2, or(6, ref.Int(bi(salt)), ref.Int(bi(20)), ref.Int(bi(salt-1)), ref.Int(bi(0)), ref.Int(bi(-1)), ref.Int(new(big.Int).Lsh(one, 70)), ref.Int(new(big.Int).Add(bi(salt), new(big.Int).Lsh(one, 32))), ref.TLV(2, []byte{0, byte(salt)})))
	last := or(7, pick(r, nil, trailer), ref.TLV(0xa3, ref.Int(bi(int64(r.IntN(4))))), ref.TLV(0xa3, ref.Int(bi(257))), ref.TLV(0xa4, ref.Int(one)))
	parts := [][]byte{hash, mask, size, last}
	if odd == 8 {
		if k := r.IntN(4); r.Chance(1, 2) {
			parts[k] = nil
		} else {
			parts[k], parts[r.IntN(4)] = parts[r.IntN(4)], parts[k]
		}
	}
	par := ref.TLV(0x30, parts...)
	return ref.TLV(0x30, ref.OID(1, 2, 840, 113549, 1, 1, 10), or(9, par, cat(par, derNull), par[:len(par)-1], ref.TLV(0x30), derNull, nil))
}

func c12Algs(t *T, i int) {
	der := handCertAlg(t.Rng, oddAlg(t.Rng))
	if compareParsers(t, "certificate with an unusual algorithm identifier", der, false) {
		if c, err := mx.ParseCertificate(der); err == nil {
			t.Cover("read as " + c.SignatureAlgorithm.String())
		}
		t.Key("%x", der)
	}
}

// bytePlaces put one byte of any value somewhere into a certificate: into a name, an extension, or a time.
var bytePlaces = func() (out []func(r *Rng, b byte) (name, ext, when []byte)) {
	around := func(r *Rng, b byte) []byte {
		return cat([]byte(r.Name(r.IntN(3))), []byte{b}, []byte(r.Name(r.IntN(3))))
	}
	nameOf := func(tag byte, v []byte) []byte {
		return ref.TLV(0x30, ref.TLV(0x31, ref.TLV(0x30, ref.OID(2, 5, 4, 11), ref.TLV(tag, v))))
	}
	for _, tag := range []byte{12, 18, 19, 20, 21, 22, 25, 26, 27} {
		out = append(out, func(r *Rng, b byte) (_, _, _ []byte) {
			if tag == 18 {
				return nameOf(tag, cat([]byte("12"), []byte{b}, []byte("3"))), nil, nil
			}
			return nameOf(tag, around(r, b)), nil, nil
		})
	}
	ext := func(crit bool, n int, v ...[]byte) []byte {
		c := derNull[:0]
		if crit {
			c = []byte{1, 1, 255}
		}
		return ref.TLV(0x30, ref.OID(2, 5, 29, n), c, ref.TLV(4, v...))
	}
	place := func(f func(r *Rng, b byte) []byte) {
		out = append(out, func(r *Rng, b byte) (_, _, _ []byte) { return nil, f(r, b), nil })
	}
	out = append(out,
		func(r *Rng, b byte) (_, _, _ []byte) { return nameOf(30, []byte{0, 'a', 0, b}), nil, nil },
		func(r *Rng, b byte) (_, _, _ []byte) {
			return nameOf(30, []byte{0, 'a', b, byte(r.IntN(256))}), nil, nil
		},
		func(r *Rng, b byte) (_, _, _ []byte) { return nameOf(28, []byte{0, 0, 0, b}), nil, nil },
		func(r *Rng, b byte) (_, _, _ []byte) { return nameOf(b, []byte("ab")), nil, nil },
	)
	for _, n := range []int{13, 13, 15, 15} {
		out = append(out, func(r *Rng, b byte) (_, _, _ []byte) {
			v := []byte("200229101112Z")
			if n == 15 {
				v = []byte("20510228101112Z")
			}
			v[r.IntN(n)] = b
			return nil, nil, ref.TLV(23+byte(n-13)/2, v)
		})
	}
	for _, tag := range []byte{0x81, 0x82, 0x86} {
		place(func(r *Rng, b byte) []byte {
			v := around(r, b)
			if tag == 0x86 && r.Chance(1, 2) {
				v = cat([]byte("http://"), v, []byte("/"))
			}
			return ext(false, 17, ref.TLV(0x30, ref.TLV(tag, v)))
		})
		place(func(r *Rng, b byte) []byte {
			v := around(r, b)
			if tag == 0x81 {
				v = pick(r, cat(v, []byte("@a.b")), cat([]byte("x@"), v), cat([]byte("\""), v, []byte("\"@a.b")), cat([]byte("\"a\\"), []byte{b}, []byte("\"@a.b")), v)
			}
			return ext(true, 30, ref.TLV(0x30, ref.TLV(0xa0+byte(r.IntN(2)), ref.TLV(0x30, ref.TLV(tag, v)))))
		})
	}
	place(func(r *Rng, b byte) []byte { // an address range
		n := pick(r, 4, 16)
		m := bytes.Repeat([]byte{255}, n)
		at := r.IntN(n)
		m[at] = b
		for j := at + 1; j < n; j++ {
			m[j] = 0
		}
		if r.Chance(1, 4) {
			m[r.IntN(n)] = b
		}
		return ext(true, 30, ref.TLV(0x30, ref.TLV(0xa0+byte(r.IntN(2)), ref.TLV(0x30, ref.TLV(0x87, r.Bytes(n), m)))))
	})
	place(func(r *Rng, b byte) []byte {
		return ext(false, 31, ref.TLV(0x30, ref.TLV(0x30, ref.TLV(0xa0, ref.TLV(0xa0, ref.TLV(0x86, around(r, b)))))))
	})
	place(func(r *Rng, b byte) []byte {
		return ref.TLV(0x30, ref.OID(1, 3, 6, 1, 5, 5, 7, 1, 1), ref.TLV(4, ref.TLV(0x30, ref.TLV(0x30, ref.OID(1, 3, 6, 1, 5, 5, 7, 48, 1+r.IntN(2)), ref.TLV(0x86, around(r, b))))))
	})
	place(func(r *Rng, b byte) []byte { return ext(true, 15, ref.TLV(3, []byte{b}, []byte{byte(r.IntN(256))})) })
	place(func(r *Rng, b byte) []byte {
		return ext(true, 15, ref.TLV(3, []byte{0}, []byte{b}, r.Bytes(r.IntN(2))))
	})
	place(func(r *Rng, b byte) []byte { return ext(true, 19, ref.TLV(0x30, []byte{1, 1, b})) })
	place(func(r *Rng, b byte) []byte { return ext(true, 19, ref.TLV(0x30, []byte{1, 1, 255, 2, 1, b})) })
	place(func(r *Rng, b byte) []byte { return ext(false, int(b)&0x7f, r.Bytes(r.IntN(5))) })
	place(func(r *Rng, b byte) []byte { // a kind of name
		return ext(false, 17, ref.TLV(0x30, ref.TLV(0x82, []byte("a.b")), ref.TLV(b, []byte("c.d"))))
	})
	place(func(r *Rng, b byte) []byte { // an extended usage or policy
		return pick(r, ext(false, 37, ref.TLV(0x30, ref.TLV(6, []byte{0x2b, 6, 1, 5, 5, 7, 3, b}))), ext(false, 32, ref.TLV(0x30, ref.TLV(0x30, ref.TLV(6, []byte{0x55, 29, b})))),
			ext(false, 37, ref.TLV(0x30, ref.TLV(6, []byte{b, 1}))), ext(false, 37, ref.TLV(0x30, ref.TLV(6, []byte{0x2b, b, 1}))))
	})
	place(func(r *Rng, b byte) []byte { return ref.TLV(0x30, ref.OID(1, 2, 3), []byte{1, 1, b}, ref.TLV(4)) })
	place(func(r *Rng, b byte) []byte { return ext(false, 35, ref.TLV(0x30, ref.TLV(b, r.Bytes(5)))) })
	place(func(r *Rng, b byte) []byte { return ext(false, 14, ref.TLV(b, r.Bytes(5))) })
	return
}()

func c12Bytes(t *T, i int) {
	name, ext, when := bytePlaces[i/256%len(bytePlaces)](t.Rng, byte(i))
	plain := utcTime(time.Date(2020, 1, 1, 0, 0, 0, 0, time.UTC))
	from := plain
	if when != nil {
		plain = when
	}
	issuer, subject := nameDER("i"), nameDER("s")
	if name != nil {
		if t.Chance(1, 2) {
			issuer = name
		} else {
			subject = name
		}
	}
	if ext != nil {
		ext = ref.TLV(0xa3, ref.TLV(0x30, ext))
	}
	alg := algs[0].id()
	tbs := ref.TLV(0x30, ref.TLV(0xa0, ref.Int(bi(2))), ref.Int(bi(5)), alg, issuer, ref.TLV(0x30, from, plain), subject, standIn, ext)
	der := ref.TLV(0x30, tbs, alg, ref.TLV(3, []byte{0}, t.Bytes(64)))
	compareParsers(t, fmt.Sprintf("place %d, byte %02x", i/256%len(bytePlaces), byte(i)), der, false)
	t.Key("%d %d", i/256%len(bytePlaces), byte(i))
}

func c12Mutated(t *T, i int) {
	var der, donor []byte
	switch t.IntN(4) {
	case 0:
		der = stdCert(t)
	case 1:
		k := anyKey(t.Rng)
		der = certFor(t.Rng, k, t.IntN(30))
	case 2:
		k := genKey(t.Rng, pick(t.Rng, "SM2", "P256"))
		var err error
		if der, err = mx.CreateCertificate(t.sys, genTemplate(t.Rng, false), genTemplate(t.Rng, true), k.pub, k.signer); err != nil {
			t.Failf("create: %v", err)
		}
	default:
		der = handCert(t.Rng)
	}
	if der == nil {
		return
	}
	donor = handCert(t.Rng)
	in, what := mutate(t.Rng, der, donor)
	if compareParsers(t, "mutated certificate ("+what+")", in, false) {
		t.Key("%x", in)
	}
}

func c12Concat(t *T, i int) {
	var all []byte
	var ders [][]byte
	n := 1 + t.IntN(5)
	for len(ders) < n {
		var d []byte
		if t.Chance(1, 2) {
			d = handCert(t.Rng)
		} else {
			d = certFor(t.Rng, genKey(t.Rng, pick(t.Rng, "SM2", "P256", "Ed25519")), t.IntN(300))
		}
		if _, err := mx.ParseCertificate(d); err == nil {
			ders = append(ders, d)
			all = append(all, d...)
		}
	}
	what := fmt.Sprintf("%d certificates", n)
	cs, err := mx.ParseCertificates(clone(all))
	t.noErr(what, err)
	t.Check(len(cs) == n, "%s: ParseCertificates finds %d", what, len(cs))
	for j, c := range cs {
		one, _ := mx.ParseCertificate(ders[j])
		t.mustEq(fmt.Sprintf("%s: number %d", what, j), c.Raw, ders[j])
		d := recordOf(c).diff(recordOf(one))
		t.Check(d == "", "%s: number %d differs when parsed alone: %s", what, j, d)
		t.Check(c.Equal(one) == true, "%s: number %d not Equal", what, j)
		for l := range cs {
			t.Check(c.Equal(cs[l]) == (string(ders[j]) == string(ders[l])), "%s: Equal of %d and %d", what, j, l)
		}
	}
	if n > 1 {
		_, err = mx.ParseCertificate(all)
		t.wantErr(what+": ParseCertificate", err)
	}
	// Anything after the last certificate, or a cut anywhere else than between certificates.
	tail := pick(t.Rng, []byte{0}, []byte{5, 0}, t.Bytes(1+t.IntN(5)), ders[0][:t.IntN(len(ders[0])-1)+1], []byte{0x30, 0})
	if string(tail) != string(ders[0]) {
		_, err = mx.ParseCertificates(cat(all, tail))
		t.wantErr(what+" and trailing bytes "+hx(tail)+": ParseCertificates", err)
		_, err = mx.ParseCertificate(cat(ders[0], tail))
		t.wantErr("one certificate and trailing bytes "+hx(tail)+": ParseCertificate", err)
	}
	cut := t.IntN(len(all))
	edge, off := cut == 0, 0
	for _, d := range ders {
		off += len(d)
		edge = edge || cut == off
	}
	if !edge {
		_, err = mx.ParseCertificates(all[:cut])
		t.wantErr(fmt.Sprintf("%s cut at %d of %d: ParseCertificates", what, cut, len(all)), err)
	}
	var none *mx.Certificate
	t.Check(none.Equal(nil) && !none.Equal(cs[0]) && !cs[0].Equal(nil), "Equal with a nil certificate")
	t.Key("%x", all)
}

var _ crypto.Signer
