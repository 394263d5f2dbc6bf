package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/rsa"
	stdx "crypto/x509"
	"encoding/hex"
	"encoding/pem"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"unicode"

	"mon/ref"

	"github.com/mmdet/mcrypto/pkcs12"
	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/x509"
)

// ---- passwords

func genPassword(r *Rng) string {
	switch r.IntN(12) {
	case 0:
		return ""
	case 1:
		return r.Name(pick(r, 1, 15, 30, 31, 32, 33, 63, 64, 65, 200))
	case 2:
		return pick(r, "пароль", "密码密码", "é", "ÿĀ", "\u00ff\u0100\u01ff", "\ud7ff\ue000", "\ufffd", "\uffff\ufffe", "a\u0301", "\u0000", "a\x00b", "\u2028", "\u0001", "Ā")
	case 3: // any runes of the plane
		var b strings.Builder
		for n := 1 + r.IntN(40); n > 0; n-- {
			c := rune(r.IntN(0x10000))
			if c >= 0xd800 && c < 0xe000 {
				c = 0x4e2d
			}
			b.WriteRune(c)
		}
		return b.String()
	case 4:
		return strings.Repeat(r.Name(1+r.IntN(3)), 1+r.IntN(40))
	}
	return r.Name(1 + r.IntN(24))
}

// otherPassword returns a password with a different key derivation that is close to pw.
func otherPassword(r *Rng, pw string) string {
	for {
		var q string
		rs := []rune(pw)
		switch r.IntN(10) {
		case 0:
			q = ""
		case 1:
			q = pw + pick(r, "\x00", "a", " ", "0", "\n")
		case 2:
			q = pick(r, "\x00", "a", " ", "0") + pw
		case 3:
			if len(rs) > 0 {
				q = string(rs[:len(rs)-1])
			}
		case 4:
			if len(rs) > 0 {
				q = string(rs[1:])
			}
		case 5:
			if len(rs) > 0 {
				rs[r.IntN(len(rs))] ^= rune(1 << r.IntN(16))
			}
			q = string(rs)
		case 6:
			q = strings.ToUpper(pw)
		case 7:
			if len(rs) > 1 {
				i, j := r.IntN(len(rs)), r.IntN(len(rs))
				rs[i], rs[j] = rs[j], rs[i]
			}
			q = string(rs)
		case 8:
			q = pw + pw
		default:
			q = genPassword(r)
		}
		if _, ok := ref.BMP(q); ok && !ref.P12KeyEq(pw, q) {
			return q
		}
	}
}

func bmp(pw string) []byte {
	b, ok := ref.BMP(pw)
	if !ok {
		panic("not a BMP password")
	}
	return b
}

// badPassword holds a character outside the basic multilingual plane.
func badPassword(r *Rng) string {
	c := string(pick(r, rune(0x10000), rune(0x10ffff), rune(0x1f600), rune(0x10000+r.IntN(0x100000))))
	s := r.Name(r.IntN(6))
	i := r.IntN(len(s) + 1)
	return s[:i] + c + s[i:]
}

// ---- calling the library

func p12Encode(t *T, k tkey, cert []byte, cas [][]byte, pw string) []byte {
	out, err := p12TryEncode(t, k.priv, cert, cas, pw)
	t.noErr("Encode", err)
	t.Check(len(out) > 0, "Encode returned nothing")
	return out
}

func p12TryEncode(t *T, priv any, cert []byte, cas [][]byte, pw string) (out []byte, err error) {
	c, err := x509.ParseCertificate(clone(cert))
	if err != nil {
		t.Failf("ParseCertificate refuses a valid certificate: %v\n%s", err, hx(cert))
	}
	var cs []*stdx.Certificate
	for _, d := range cas {
		if p, err := stdx.ParseCertificate(d); err == nil {
			cs = append(cs, p)
		} else {
			cs = append(cs, &stdx.Certificate{Raw: d}) // an SM2 certificate, which the standard library cannot parse
		}
	}
	t.guard("Encode", func() { out, err = pkcs12.Encode(priv, c, cs, pw) })
	return
}

// p12All decodes with every function, in memory and through a file. want is nil if all of them have to fail.
type p12Want struct {
	k     tkey
	certs [][]byte
	// attributes for ToPEM, as its headers
	headers []map[string]string // of the bags in file order
	keyAt   int                 // position of the key bag in file order (-1: unknown, skip ToPEM order)
	// no checks of the order of PEM blocks
}

func p12CheckAll(t *T, what string, file []byte, pw string, w *p12Want) {
	var key any
	var certs []*x509.Certificate
	var err error
	in := clone(file)
	t.guard("DecodeAll", func() { key, certs, err = pkcs12.DecodeAll(in, pw) })
	t.noErr(what+": DecodeAll", err)
	t.Check(samePriv(w.k.priv, key), "%s: DecodeAll returned another key (%T) than the %s key put in", what, key, w.k.kind)
	t.Check(badKey(key) == "", "%s: DecodeAll returned a bad key: %s", what, badKey(key))
	t.Check(len(certs) == len(w.certs), "%s: DecodeAll returned %d certificates, want %d", what, len(certs), len(w.certs))
	for i := range certs {
		t.Check(bytes.Equal(certs[i].Raw, w.certs[i]), "%s: certificate %d is another one", what, i)
	}
	// one certificate, standard library type
	var sc *stdx.Certificate
	key = nil
	t.guard("Decode", func() { key, sc, err = pkcs12.Decode(in, pw) })
	std := true
	for _, c := range w.certs {
		if _, err := stdx.ParseCertificate(c); err != nil {
			std = false
		}
	}
	if len(w.certs) == 1 && std {
		t.noErr(what+": Decode", err)
		t.Check(samePriv(w.k.priv, key), "%s: Decode returned another key (%T)", what, key)
		t.Check(bytes.Equal(sc.Raw, w.certs[0]), "%s: Decode returned another certificate", what)
		t.Cover("Decode")
	} else if len(w.certs) > 1 {
		t.Check(err != nil && key == nil && sc == nil, "%s: Decode accepted %d certificates (err %v)", what, len(w.certs), err)
		t.Cover("Decode refuses chains")
	}
	// PEM
	var blocks []*pem.Block
	t.guard("ToPEM", func() { blocks, err = pkcs12.ToPEM(in, pw) })
	if w.k.kind != "SM2" && w.k.kind != "Ed25519" {
		t.noErr(what+": ToPEM", err)
		p12CheckPEM(t, what, blocks, w)
	} else if err == nil {
		// SM2 and Ed25519 have no PEM form here; if that is ever added, it has to be right.
		p12CheckPEM(t, what, blocks, w)
	}
	// the file helper
	if t.Chance(1, 4) {
		dir := tempDir(t)
		defer os.RemoveAll(dir)
		fn := filepath.Join(dir, "f.p12")
		os.WriteFile(fn, file, 0600)
		var c *x509.Certificate
		key = nil
		t.guard("SM2P12Decrypt", func() { c, key, err = pkcs12.SM2P12Decrypt(fn, pw) })
		if w.k.kind == "SM2" || w.k.kind == "RSA" {
			t.noErr(what+": SM2P12Decrypt", err)
			t.Check(samePriv(w.k.priv, key), "%s: SM2P12Decrypt returned another key (%T)", what, key)
			t.Check(c != nil && bytes.Equal(c.Raw, w.certs[0]), "%s: SM2P12Decrypt returned another certificate", what)
		}
		b, _ := os.ReadFile(fn)
		t.Check(bytes.Equal(b, file), "SM2P12Decrypt changed the file")
	}
	t.Check(bytes.Equal(in, file), "decoding changed its input")
	t.Cover("decoded " + w.k.kind)
}

func p12CheckPEM(t *T, what string, blocks []*pem.Block, w *p12Want) {
	var certs [][]byte
	keys := 0
	t.Check(len(blocks) == len(w.certs)+1, "%s: ToPEM returned %d blocks, want %d", what, len(blocks), len(w.certs)+1)
	for i, b := range blocks {
		switch b.Type {
		case "CERTIFICATE":
			certs = append(certs, b.Bytes)
		case "PRIVATE KEY":
			keys++
			switch k := w.k.priv.(type) {
			case *rsa.PrivateKey:
				g, err := stdx.ParsePKCS1PrivateKey(b.Bytes)
				t.Check(err == nil && samePriv(k, g), "%s: ToPEM returned another RSA key (%v)", what, err)
			case *ecdsa.PrivateKey:
				g, err := stdx.ParseECPrivateKey(b.Bytes)
				t.Check(err == nil && samePriv(k, g), "%s: ToPEM returned another EC key (%v)", what, err)
			default:
				g, err := x509.ParsePKCS8PrivateKey(b.Bytes)
				t.Check(err == nil && samePriv(k, g), "%s: ToPEM returned another key (%v)", what, err)
			}
		default:
			t.Failf("%s: ToPEM returned a block of type %q", what, b.Type)
		}
		if w.headers != nil {
			h := w.headers[i]
			t.Check(len(h) == len(b.Headers), "%s: ToPEM block %d has headers %q, want %q", what, i, b.Headers, h)
			for k, v := range h {
				t.Check(b.Headers[k] == v, "%s: ToPEM block %d has headers %q, want %q", what, i, b.Headers, h)
			}
		}
	}
	t.Check(keys == 1, "%s: ToPEM returned %d keys", what, keys)
	t.Check(len(certs) == len(w.certs), "%s: ToPEM returned %d certificates", what, len(certs))
	for i := range certs {
		t.Check(bytes.Equal(certs[i], w.certs[i]), "%s: ToPEM: certificate %d is another one", what, i)
	}
	t.Cover("ToPEM")
}

// p12Refuse checks that every decoding function fails and gives nothing out. pemToo says whether ToPEM has to fail as well.
func p12Refuse(t *T, what string, file []byte, pw string, pemToo bool) {
	in := clone(file)
	var err error
	t.guard("DecodeAll", func() {
		k, cs, e := pkcs12.DecodeAll(in, pw)
		err = e
		t.Check(e != nil, "%s: DecodeAll accepted it", what)
		t.Check(k == nil && cs == nil, "%s: DecodeAll returned %T and %d certificates with error %v", what, k, len(cs), e)
	})
	t.guard("Decode", func() {
		k, c, e := pkcs12.Decode(in, pw)
		t.Check(e != nil, "%s: Decode accepted it", what)
		t.Check(k == nil && c == nil, "%s: Decode returned %T with error %v", what, k, e)
	})
	if pemToo {
		t.guard("ToPEM", func() {
			bs, e := pkcs12.ToPEM(in, pw)
			t.Check(e != nil, "%s: ToPEM accepted it", what)
			t.Check(len(bs) == 0, "%s: ToPEM returned %d blocks with error %v", what, len(bs), e)
		})
	}
	if t.Chance(1, 8) {
		dir := tempDir(t)
		defer os.RemoveAll(dir)
		fn := filepath.Join(dir, "f.p12")
		os.WriteFile(fn, file, 0600)
		t.guard("SM2P12Decrypt", func() {
			c, k, e := pkcs12.SM2P12Decrypt(fn, pw)
			t.Check(e != nil, "%s: SM2P12Decrypt accepted it", what)
			t.Check(k == nil && c == nil, "%s: SM2P12Decrypt returned %T with error %v", what, k, e)
		})
	}
	t.Check(bytes.Equal(in, file), "decoding changed its input")
	_ = err
}

// genP12 makes the contents of a file.
func genP12(t *T, kinds ...string) (k tkey, certs [][]byte, pw string) {
	if len(kinds) == 0 {
		kinds = append([]string{"SM2", "SM2", "SM2"}, keyKinds...)
	}
	k = genKey(t.Rng, pick(t.Rng, kinds...))
	certs = [][]byte{certFor(t.Rng, k, t.Len(600))}
	n := 0
	if t.Chance(2, 3) {
		n = t.IntN(5)
	}
	for ; n > 0; n-- {
		certs = append(certs, certFor(t.Rng, genKey(t.Rng, pick(t.Rng, "SM2", "P256", "P384", "Ed25519", "RSA small")), t.Len(600)))
	}
	if t.Chance(1, 10) && len(certs) > 1 {
		certs[len(certs)-1] = clone(certs[t.IntN(len(certs))]) // the same one twice
	}
	return k, certs, genPassword(t.Rng)
}

// refSpec lays contents out as other implementations might.
func refSpec(t *T, k tkey, certs [][]byte, pw []byte, withKey bool) (ref.PFX, *p12Want) {
	r := t.Rng
	der := keyDER8(k)
	iter := func() int { return pick(r, 1, 2, 3, 100, 1024, 2048, 1+r.IntN(3000)) }
	salt := func() []byte { return r.Bytes(pick(r, 8, 8, 8, 1, 7, 16, 20, 63, 64, 65, 1+r.IntN(70))) }
	pbe := func() []byte { return pick(r, ref.OID3DES, ref.OIDRC240) }
	var bags []ref.Bag
	for i, c := range certs {
		b := ref.Bag{Data: c}
		if i == 0 && r.Chance(3, 4) {
			b.LocalKeyID = pick(r, sha1sum(c), []byte{1}, r.Bytes(r.IntN(30)))
		}
		if r.Chance(1, 3) {
			b.Friendly = pick(r, "name", "имя", "密", "\U0001f600", r.Name(1+r.IntN(80)))
		} else if r.Chance(1, 10) {
			b.NoName = true
		}
		b.Ended = r.Chance(1, 6)
		if r.Chance(1, 8) {
			b.CSP = r.Name(1 + r.IntN(9))
		}
		bags = append(bags, b)
	}
	if withKey {
		kb := ref.Bag{Key: true, Data: der, Salt: salt(), Iter: iter(), PBE: pbe()}
		if r.Chance(3, 4) {
			kb.LocalKeyID = sha1sum(certs[0])
		}
		if r.Chance(1, 3) {
			kb.Friendly = r.Name(1 + r.IntN(10))
		}
		if r.Chance(1, 3) {
			kb.CSP = pick(r, "Microsoft Enhanced Cryptographic Provider v1.0", "提供者", r.Name(1+r.IntN(60)))
		}
		kb.Ended = r.Chance(1, 6)
		at := r.IntN(len(bags) + 1)
		bags = append(bags[:at], append([]ref.Bag{kb}, bags[at:]...)...)
	}
	f := ref.PFX{MacSalt: salt(), MacIter: iter()}
	if r.Chance(1, 3) {
		f.MacIter, f.NoMacIter = 1, true
	}
	cutAt := r.IntN(len(bags) + 1)
	if withKey && r.Chance(1, 2) {
		// the usual layout: keys and certificates apart
		var a, b []ref.Bag
		for _, x := range bags {
			if x.Key {
				b = append(b, x)
			} else {
				a = append(a, x)
			}
		}
		if r.Chance(1, 2) {
			a, b = b, a
		}
		bags, cutAt = append(append([]ref.Bag{}, a...), b...), len(a)
	}
	for _, bs := range [][]ref.Bag{bags[:cutAt], bags[cutAt:]} {
		s := ref.Safe{Bags: bs, Encrypted: r.Chance(2, 3), PBE: pbe(), Salt: salt(), Iter: iter()}
		f.Safes = append(f.Safes, s)
	}
	w := &p12Want{k: k}
	for _, b := range bags {
		h := map[string]string{}
		if b.LocalKeyID != nil {
			h["localKeyId"] = hex.EncodeToString(b.LocalKeyID)
		}
		if b.Friendly != "" || b.NoName {
			h["friendlyName"] = b.Friendly
		}
		if b.CSP != "" {
			h["Microsoft CSP Name"] = b.CSP
		}
		w.headers = append(w.headers, h)
		if !b.Key {
			w.certs = append(w.certs, b.Data)
		}
	}
	return f, w
}

// quickSpec is refSpec with one iteration everywhere.
func quickSpec(t *T, k tkey, certs [][]byte, bp []byte) (ref.PFX, *p12Want) {
	f, w := refSpec(t, k, certs, bp, true)
	f.MacIter = 1
	for s := range f.Safes {
		f.Safes[s].Iter = 1
		f.Safes[s].Salt = fill(t.Rng, 1+t.IntN(130))
		for b := range f.Safes[s].Bags {
			if f.Safes[s].Bags[b].Key {
				f.Safes[s].Bags[b].Iter = 1
				f.Safes[s].Bags[b].Salt = fill(t.Rng, 1+t.IntN(130))
				f.Safes[s].Bags[b].PBE = ref.OID3DES
			}
		}
	}
	return f, w
}

// lookalike returns two passwords that something helpful might take for the same.
func lookalike(r *Rng, i int) (a, b string) {
	word := func() string { return r.Name(1 + r.IntN(5)) }
	pair := func(x, y string) (string, string) {
		u, v := word(), word()
		if r.Chance(1, 4) {
			u, v = "", ""
		}
		return u + x + v, u + y + v
	}
	switch i % 8 {
	case 0: // full width
		c := rune(0x21 + r.IntN(0x5e))
		return pair(string(c), string(c+0xfee0))
	case 1: // the same low or high byte, the bytes swapped
		c := rune(0x21 + r.IntN(0x5e))
		return pair(string(c), pick(r, string(c+0x100), string(c+0x1000), string(c<<8), string(c<<8|1), string(c+0x80)))
	case 2: // letter case
		s := []rune(pick(r, "é", "ж", "ω", "ı", "ß", "ǆ", "ſ", "ά", "ÿ", "Å", "ա", "Ⓐ", "K", "Ω"))
		return pair(string(s), pick(r, strings.ToUpper(string(s)), strings.ToLower(string(s)), strings.ToTitle(string(s)), string(unicode.SimpleFold(s[0]))))
	case 3: // nothing to be seen
		return pair("", pick(r, "\u200b", "\u200d", "\u200c", "\u00ad", "\ufeff", "\u2060", "\u200e", "\u202a", "\ufe0f", "\u034f", "\u180e", "\x00", "\x7f", "\x08", "\ufffd", "\ufffe", "\uffff"))
	case 4: // white space
		l := []string{" ", "\u00a0", "\u3000", "\t", "\n", "\r\n", "\r", "\u2028", "\u2003", "\u1680", "\v", "\u0085", "  ", ""}
		return pair(pick(r, l...), pick(r, l...))
	case 5: // white space at an end
		w, x := word(), pick(r, " ", "\n", "\r\n", "\t", "\x00", "\u3000", "\ufeff")
		return w, pick(r, w+x, x+w)
	case 6: // text in another encoding
		w := pick(r, "é", "密", "ж", "a\u0301", "ÿ", "€", "\u0080")
		var lat []rune
		for _, c := range []byte(w) {
			lat = append(lat, rune(c))
		}
		return pair(w, string(lat))
	}
	l := [][]string{{"é", "e\u0301", "e"}, {"Å", "\u212b", "A\u030a"}, {"ﬁ", "fi"}, {"ß", "ss", "ẞ"}, {"²", "2", "٢", "２"}, {"K", "\u212a"}, {"µ", "μ"}, {"Ω", "Ω"}, {"a", "а", "ɑ"}, {"'", "’", "‘", "\u02bc"},
		{"-", "–", "—", "‐", "−"}, {"\"", "“", "”"}, {"한", "\u1112\u1161\u11ab"}, {"が", "か\u3099", "ｶﾞ"}, {"ñ", "n\u0303", "n"}, {"ё", "е", "е\u0308"}, {"…", "..."}, {"①", "1"}, {"國", "国"}, {"ǆ", "dž"}, {"%41", "A"}, {"+", " "}, {"\\u0041", "A"}, {"\\n", "\n"}}
	v := pick(r, l...)
	return pair(pick(r, v...), pick(r, v...))
}

// keyDER8 is the PKCS #8 form of a key, not written by the library under test.
func keyDER8(k tkey) []byte {
	if p, ok := k.priv.(*sm2.PrivateKey); ok {
		return pkcs8SM2(p.D, refPub(&p.PublicKey))
	}
	der, err := stdx.MarshalPKCS8PrivateKey(k.priv)
	if err != nil {
		panic(err)
	}
	return der
}

func init() {
	register(&Prop{
		ID:   "C16",
		Rule: "keys of every type, chains of 1 to 6 certificates of varied sizes, passwords of every kind; each file decoded by every function; distinct (key type, chain, password)",
		Groups: []Group{
			again(90, 6000, "DecodeAll", "Decode", "ToPEM"),
			{Name: "roundtrip", N: [2]int{1500, 40000}, Fn: func(t *T, i int) {
				k, certs, pw := genP12(t)
				file := p12Encode(t, k, certs[0], certs[1:], pw)
				w := &p12Want{k: k, certs: certs}
				p12CheckAll(t, "round trip", file, pw, w)
				if t.Chance(1, 6) { // again, and with an equivalent password
					p12CheckAll(t, "second decoding", file, pw, w)
				}
				t.Key("%s %x %q", k.kind, certs, pw)
				t.Cover(fmt.Sprintf("chain of %d", len(certs)))
				t.Sample("%s key, %d certificates, password %q, file %s", k.kind, len(certs), pw, hx(file))
			}},
			{Name: "chains", N: [2]int{8, 60}, Fn: func(t *T, i int) {
				k := genKey(t.Rng, pick(t.Rng, keyKinds...))
				certs := [][]byte{certFor(t.Rng, k, 10)}
				for n := 10 + t.IntN(60); n > 0; n-- {
					certs = append(certs, certFor(t.Rng, genKey(t.Rng, "P256"), t.Len(3000)))
				}
				pw := genPassword(t.Rng)
				p12CheckAll(t, "long chain", p12Encode(t, k, certs[0], certs[1:], pw), pw, &p12Want{k: k, certs: certs})
				t.Key("%x", certs)
				t.Cover("long chains")
			}},
			{Name: "sizes", N: [2]int{64, 512}, Fn: func(t *T, i int) {
				// every padding length of the certificate safe
				k := genKey(t.Rng, pick(t.Rng, "SM2", "P256"))
				certs := [][]byte{certFor(t.Rng, k, i)}
				p12CheckAll(t, "size", p12Encode(t, k, certs[0], nil, "pw"), "pw", &p12Want{k: k, certs: certs})
				t.Key("%x", certs)
			}},
			{Name: "files", N: [2]int{200, 4000}, Fn: func(t *T, i int) {
				k, certs, pw := genP12(t, "SM2")
				c, err := x509.ParseCertificate(clone(certs[0]))
				t.noErr("ParseCertificate", err)
				dir := tempDir(t)
				defer os.RemoveAll(dir)
				fn := filepath.Join(dir, pick(t.Rng, "f.p12", "файл", "a b", "x.pfx"))
				priv := k.priv.(*sm2.PrivateKey)
				switch t.IntN(4) {
				case 0: // a longer file in the way
					os.WriteFile(fn, t.Bytes(20000), 0600)
				case 1: // a missing directory
					t.wantErr("SM2P12Encrypt into a missing directory", pkcs12.SM2P12Encrypt(c, pw, priv, filepath.Join(dir, "no", "f")))
				case 2:
					t.wantErr("SM2P12Encrypt with an unencodable password", pkcs12.SM2P12Encrypt(c, badPassword(t.Rng), priv, fn))
					_, err := os.Stat(fn)
					t.Check(err != nil, "SM2P12Encrypt left a file behind after an error")
				}
				t.guard("SM2P12Encrypt", func() { err = pkcs12.SM2P12Encrypt(c, pw, priv, fn) })
				t.noErr("SM2P12Encrypt", err)
				var c2 *x509.Certificate
				var k2 any
				t.guard("SM2P12Decrypt", func() { c2, k2, err = pkcs12.SM2P12Decrypt(fn, pw) })
				t.noErr("SM2P12Decrypt", err)
				t.Check(bytes.Equal(c2.Raw, certs[0]), "SM2P12Decrypt returned another certificate")
				t.Check(samePriv(priv, k2), "SM2P12Decrypt returned another key")
				b, err := os.ReadFile(fn)
				t.noErr("ReadFile", err)
				p12CheckAll(t, "file", b, pw, &p12Want{k: k, certs: certs[:1]})
				es, _ := os.ReadDir(dir)
				t.Check(len(es) == 1, "%d files in the directory", len(es))
				if t.Chance(1, 3) {
					c2, k2, err = pkcs12.SM2P12Decrypt(filepath.Join(dir, "none"), pw)
					t.Check(err != nil && c2 == nil && k2 == nil, "SM2P12Decrypt of a missing file: %v", err)
					c2, k2, err = pkcs12.SM2P12Decrypt(dir, pw)
					t.Check(err != nil && c2 == nil && k2 == nil, "SM2P12Decrypt of a directory: %v", err)
				}
				t.Key("%x %q", certs[0], pw)
				t.Cover("file helpers")
			}},
			{Name: "passwords", N: [2]int{300, 4000}, Fn: func(t *T, i int) {
				k, certs, pw := genP12(t, "SM2", "P256")
				bad := badPassword(t.Rng)
				out, err := p12TryEncode(t, k.priv, certs[0], certs[1:], bad)
				t.Check(err != nil && len(out) == 0, "Encode accepted the password %q", bad)
				file := p12Encode(t, k, certs[0], certs[1:], pw)
				p12Refuse(t, fmt.Sprintf("password %q", bad), file, bad, true)
				t.Key("%q", bad)
				t.Cover("unencodable passwords")
			}},
			{Name: "every rune", N: [2]int{64, 1024}, Fn: func(t *T, i int) {
				// passwords that cover all characters of the plane between them
				n := 65536 / t.g.N[t.tier]
				var b strings.Builder
				for c := i * n; c < (i+1)*n; c++ {
					if c < 0xd800 || c >= 0xe000 {
						b.WriteRune(rune(c))
					}
				}
				pw := b.String()
				k := genKey(t.Rng, "SM2")
				certs := [][]byte{certFor(t.Rng, k, 3)}
				file := p12Encode(t, k, certs[0], nil, pw)
				p12CheckAll(t, "password of many characters", file, pw, &p12Want{k: k, certs: certs})
				_, err := ref.DecodePFX(file, bmp(pw))
				t.noErr("independent decoding", err)
				t.Key("%q", pw)
				t.Cover("all BMP characters")
			}},
			{Name: "unsupported", N: [2]int{40, 200}, Fn: func(t *T, i int) {
				k, certs, pw := genP12(t, "P256")
				for _, bad := range []any{nil, "key", struct{}{}, 7, k.pub, []byte{1}} {
					out, err := p12TryEncode(t, bad, certs[0], nil, pw)
					t.Check(err != nil && len(out) == 0, "Encode accepted a %T as private key", bad)
				}
				t.Key("%q", pw)
				t.Cover("unsupported keys")
			}},
		},
	})

	register(&Prop{
		ID:   "C17",
		Rule: "files from the library and from an independent writer, decoded by every function under wrong passwords and after each kind of change; distinct (file, change)",
		Groups: []Group{
			{Name: "password", N: [2]int{1200, 40000}, Fn: func(t *T, i int) {
				file, pw := anyP12(t)
				if i%5 == 0 { // a file made with the empty byte string, which only the empty password opens
					k, certs, _ := genP12(t, "SM2", "P256", "Ed25519")
					f, w := refSpec(t, k, certs, nil, true)
					file, pw = ref.EncodePFX(f, nil), ""
					if i%25 == 0 {
						p12CheckAll(t, "file made with the empty byte string", file, "", w)
					}
					t.Cover("files made with the empty byte string")
				}
				for n := 0; n < 4; n++ {
					q := otherPassword(t.Rng, pw)
					p12Refuse(t, fmt.Sprintf("file with password %q opened with %q", pw, q), file, q, true)
					t.Key("%q %q", pw, q)
				}
				t.Cover("wrong passwords")
			}},
			{Name: "lookalikes", N: [2]int{300, 20000}, Fn: func(t *T, i int) {
				k := genKey(t.Rng, pick(t.Rng, "P256", "SM2"))
				certs := [][]byte{certFor(t.Rng, k, 0)}
				pw, q := lookalike(t.Rng, i)
				if ref.P12KeyEq(pw, q) {
					return
				}
				if t.Chance(1, 2) {
					pw, q = q, pw
				}
				f, w := quickSpec(t, k, certs, bmp(pw))
				file := ref.EncodePFX(f, bmp(pw))
				p12CheckAll(t, "file of the reference writer", file, pw, w)
				p12Refuse(t, fmt.Sprintf("file with password %q opened with %q", pw, q), file, q, true)
				t.Cover("passwords that look alike")
				t.Key("%q %q", pw, q)
			}},
			{Name: "content", N: [2]int{800, 20000}, Fn: func(t *T, i int) {
				file, pw := anyP12(t)
				as, mac, _ := splitPFX(t, file)
				for n := 0; n < 6; n++ {
					m := clone(as)
					what := "bit"
					switch {
					case n < 3:
						m[t.IntN(len(m))] ^= 1 << t.IntN(8)
					default:
						m, what = mutate(t.Rng, as, file)
						if bytes.Equal(m, as) {
							continue
						}
					}
					bad := ref.TLV(0x30, ref.Int(bi(3)), ref.TLV(0x30, ref.OIDData, ref.TLV(0xa0, ref.TLV(4, m))), mac)
					p12Refuse(t, "content changed ("+what+")", bad, pw, true)
					t.Key("%x", bad)
				}
				t.Cover("content changed")
			}},
			{Name: "every bit", N: [2]int{6, 60}, Fn: func(t *T, i int) {
				k := genKey(t.Rng, pick(t.Rng, "SM2", "P256"))
				cert := certFor(t.Rng, k, 0)
				f, _ := refSpec(t, k, [][]byte{cert}, bmp("x"), true)
				f.MacIter, f.NoMacIter = 1, false
				file := ref.EncodePFX(f, bmp("x"))
				as, mac, _ := splitPFX(t, file)
				for b := 0; b < len(as)*8; b++ {
					if t.Quick() && b%8 != (b/8+i)%8 {
						continue
					}
					m := clone(as)
					m[b/8] ^= 1 << (b % 8)
					bad := ref.TLV(0x30, ref.Int(bi(3)), ref.TLV(0x30, ref.OIDData, ref.TLV(0xa0, ref.TLV(4, m))), mac)
					p12Refuse(t, fmt.Sprintf("content bit %d changed", b), bad, "x", true)
				}
				for b := 0; b < 160; b++ {
					m := clone(mac)
					j := bytes.Index(m, macDigest(t, mac))
					m[j+b/8] ^= 1 << (b % 8)
					bad := ref.TLV(0x30, ref.Int(bi(3)), ref.TLV(0x30, ref.OIDData, ref.TLV(0xa0, ref.TLV(4, as))), m)
					p12Refuse(t, fmt.Sprintf("MAC bit %d changed", b), bad, "x", true)
				}
				t.Key("%x", file)
				t.Cover("all bits")
			}},
			{Name: "mac", N: [2]int{800, 20000}, Fn: func(t *T, i int) {
				file, pw := anyP12(t)
				as, mac, _ := splitPFX(t, file)
				ns, _ := parseNodes(mac, 0)
				digest := ns[0].kids[0].kids[1]
				salt := ns[0].kids[1]
				put := func(what string, macDER []byte) {
					bad := ref.TLV(0x30, ref.Int(bi(3)), ref.TLV(0x30, ref.OIDData, ref.TLV(0xa0, ref.TLV(4, as))), macDER)
					p12Refuse(t, what, bad, pw, true)
					t.Key("%x", bad)
					t.Cover(what)
				}
				old := clone(digest.prim)
				set := func(what string, v []byte) {
					digest.prim, digest.open = v, false
					if !bytes.Equal(v, old) {
						put(what, nodesBytes(ns))
					}
					digest.prim = old
				}
				b := clone(old)
				b[t.IntN(20)] ^= 1 << t.IntN(8)
				set("MAC value changed", b)
				set("MAC value truncated", old[:t.IntN(20)])
				set("MAC value extended", append(clone(old), t.Bytes(1+t.IntN(3))...))
				set("MAC value empty", nil)
				set("MAC value zero", make([]byte, 20))
				oldSalt := clone(salt.prim)
				setSalt := func(what string, v []byte) {
					if bytes.Equal(rep64(v), rep64(oldSalt)) {
						return
					}
					salt.prim, salt.open = v, false
					put(what, nodesBytes(ns))
					salt.prim = oldSalt
				}
				b = clone(oldSalt)
				b[t.IntN(len(b))] ^= 1 << t.IntN(8)
				setSalt("MAC salt changed", b)
				setSalt("MAC salt truncated", oldSalt[:t.IntN(len(oldSalt))])
				setSalt("MAC salt extended", append(clone(oldSalt), t.Bytes(1+t.IntN(3))...))
				// iterations
				cur := 1
				if len(ns[0].kids) > 2 {
					v, _, _ := ref.ReadInt(ns[0].kids[2].bytes())
					cur = int(v.Int64())
				}
				n := pick(t.Rng, 1, 2, cur+1, max(1, cur-1), cur*2, 2048, 1+t.IntN(4000))
				if n != cur {
					ns[0].kids = ns[0].kids[:2]
					if n != 1 || t.Chance(1, 2) {
						ns[0].kids = append(ns[0].kids, &node{tag: 2, prim: ref.Int(bi(int64(n)))[2:]})
					}
					put("MAC iterations changed", nodesBytes(ns))
				}
				// Counts that stand for no iterations: no reason to compare less.
				odd := pick(t.Rng, bi(0), bi(-1), bi(-2), bi(-2048), bi(-1<<31), bi(-1<<31-1), bi(-1<<62), sub(bi(-1<<62), bi(1<<62)), bi(int64(-t.IntN(1<<30))))
				ns[0].kids = append(ns[0].kids[:2:2], &node{tag: 2, prim: ref.Int(odd)[2:]})
				what := fmt.Sprintf("MAC iterations %v", odd)
				if cur > 1 {
					put(what, nodesBytes(ns))
				}
				b = clone(old)
				b[t.IntN(20)] ^= 1 << t.IntN(8)
				set(what+", MAC value changed", pick(t.Rng, b, make([]byte, 20), t.Bytes(20)))
				set(what+", MAC value empty", nil)
				b = clone(oldSalt)
				b[t.IntN(len(b))] ^= 1 << t.IntN(8)
				setSalt(what+", MAC salt changed", b)
				m2 := nodesBytes(ns)
				bad := clone(as)
				bad[t.IntN(len(bad))] ^= 1 << t.IntN(8)
				p12Refuse(t, what+", contents changed", ref.TLV(0x30, ref.Int(bi(3)), ref.TLV(0x30, ref.OIDData, ref.TLV(0xa0, ref.TLV(4, bad))), m2), pw, true)
				other := otherPassword(t.Rng, pw)
				p12Refuse(t, what+", another password", ref.TLV(0x30, ref.Int(bi(3)), ref.TLV(0x30, ref.OIDData, ref.TLV(0xa0, ref.TLV(4, as))), m2), other, true)
			}},
			{Name: "mac algorithm", N: [2]int{300, 4000}, Fn: func(t *T, i int) {
				file, pw := anyP12(t)
				as, mac, _ := splitPFX(t, file)
				ns, _ := parseNodes(mac, 0)
				alg := ns[0].kids[0].kids[0].kids[0]
				alg.prim = pick(t.Rng, ref.OID(2, 16, 840, 1, 101, 3, 4, 2, 1), ref.OID(1, 2, 840, 113549, 2, 5), ref.OID(1, 2, 3), ref.OID(1, 2, 156, 10197, 1, 401), ref.OID(1, 3, 14, 3, 2, 25))[2:]
				bad := ref.TLV(0x30, ref.Int(bi(3)), ref.TLV(0x30, ref.OIDData, ref.TLV(0xa0, ref.TLV(4, as))), nodesBytes(ns))
				p12Refuse(t, "another MAC algorithm", bad, pw, true)
				t.Key("%x", bad)
				t.Cover("MAC algorithm changed")
			}},
			{Name: "mac iterations", N: [2]int{40, 400}, CPULimit: 200, Fn: func(t *T, i int) {
				// a file authenticated with a large count, with something altered, is refused as any other
				k := genKey(t.Rng, pick(t.Rng, "P256", "SM2"))
				certs := [][]byte{certFor(t.Rng, k, 0)}
				pw := genPassword(t.Rng)
				f, _ := refSpec(t, k, certs, bmp(pw), true)
				list := []int{1, 2, 1000, 2048, 10000, 65535, 65536, 100000, 100001, 200000, 300000, 500001, 1000001, 1<<20 + 1}
				f.MacIter, f.NoMacIter = list[i%len(list)], false
				if i >= 2*len(list) {
					f.MacIter = 1 + t.IntN(300000)
				}
				file := ref.EncodePFX(f, bmp(pw))
				as, mac, _ := splitPFX(t, file)
				d := clone(macDigest(t, mac))
				d[t.IntN(len(d))] ^= 1 << t.IntN(8)
				name := fmt.Sprintf("MAC of %d iterations altered", f.MacIter)
				switch i / len(list) % 2 {
				case 0:
					file = setAt(t, file, ref.TLV(4, d), 2, 0, 1)
				case 1:
					name = fmt.Sprintf("contents altered under a MAC of %d iterations", f.MacIter)
					as = clone(as)
					as[t.IntN(len(as))] ^= 1 << t.IntN(8)
					file = setAt(t, file, ref.TLV(4, as), 1, 1, 0)
				}
				p12Refuse(t, name, file, pw, true)
				t.Key("%x", file)
				t.Cover("large MAC iteration count")
			}},
			{Name: "frames", N: [2]int{400, 8000}, Fn: func(t *T, i int) {
				file, pw := anyP12(t)
				as, mac, _ := splitPFX(t, file)
				auth := ref.TLV(0x30, ref.OIDData, ref.TLV(0xa0, ref.TLV(4, as)))
				p12Refuse(t, "no MAC", ref.TLV(0x30, ref.Int(bi(3)), auth), pw, true)
				p12Refuse(t, "empty MAC", ref.TLV(0x30, ref.Int(bi(3)), auth, []byte{0x30, 0}), pw, true)
				p12Refuse(t, "trailing data", cat(file, pick(t.Rng, []byte{0}, []byte{5, 0}, file, t.Bytes(1+t.IntN(20)))), pw, true)
				p12Refuse(t, "truncated", file[:t.IntN(len(file))], pw, true)
				v := pick(t.Rng, int64(0), 1, 2, 4, 255)
				p12Refuse(t, fmt.Sprintf("version %d", v), ref.TLV(0x30, ref.Int(bi(v)), auth, mac), pw, true)
				p12Refuse(t, "another outer content type", ref.TLV(0x30, ref.Int(bi(3)), ref.TLV(0x30, pick(t.Rng, ref.OIDEncData, ref.OID(1, 2, 840, 113549, 1, 7, 2)), ref.TLV(0xa0, ref.TLV(4, as))), mac), pw, true)
				t.Key("%x", file)
				t.Cover("frames")
			}},
			{Name: "missing", N: [2]int{600, 10000}, Fn: func(t *T, i int) {
				// correctly authenticated, but without what is asked for
				k, certs, pw := genP12(t)
				bp := bmp(pw)
				what := pick(t.Rng, "no key", "no certificate", "nothing", "trailing data in the content")
				f, _ := refSpec(t, k, certs, bp, what != "no key")
				for s := range f.Safes {
					var keep []ref.Bag
					for _, b := range f.Safes[s].Bags {
						if what != "nothing" && (b.Key || what != "no certificate") {
							keep = append(keep, b)
						}
					}
					f.Safes[s].Bags = keep
				}
				file := ref.EncodePFX(f, bp)
				if what == "trailing data in the content" {
					as, _, _ := splitPFX(t, file)
					file = ref.WrapAuthSafe(append(as, t.Bytes(1+t.IntN(5))...), f, bp)
					p12Refuse(t, what, file, pw, true)
				} else {
					p12Refuse(t, what, file, pw, false)
				}
				t.Key("%s %x", what, file)
				t.Cover(what)
			}},
			{Name: "inner tails", N: [2]int{500, 8000}, Fn: func(t *T, i int) {
				// correctly authenticated, but with something after one of the parts
				k, certs, pw := genP12(t, "SM2", "P256", "RSA")
				bp := bmp(pw)
				f, w := quickSpec(t, k, certs, bp)
				s := t.IntN(len(f.Safes))
				for len(f.Safes[s].Bags) == 0 {
					s = t.IntN(len(f.Safes))
				}
				safe := &f.Safes[s]
				b := &safe.Bags[t.IntN(len(safe.Bags))]
				if i%8 == 7 { // nothing there: as it should be
					p12CheckAll(t, "file without tails", ref.EncodePFX(f, bp), pw, w)
					return
				}
				tail := pick(t.Rng, []byte{0}, []byte{5, 0}, derNull, []byte{0x30, 0}, b.Data, t.Bytes(1+t.IntN(20)))
				what, pemToo := "", true
				switch i % 4 {
				case 0:
					what, b.DataTail = "after the certificate", tail
					if b.Key {
						what = "after the key"
					}
					if !b.Key {
						// two certificates in one bag are for the parser of certificates to say
						b.DataTail = t.Bytes(1 + t.IntN(9))
						b.DataTail[0] |= 0x81
						pemToo = false
					}
					if b.Key && k.kind == "SM2" {
						pemToo = false
					}
				case 1:
					what, b.ValueTail = "after the value of a bag", tail
				case 2:
					what, safe.BagsTail = "after the bags", tail
				case 3:
					what, safe.ContentTail = "after a content", tail
				}
				t.Cover(what)
				p12Refuse(t, "bytes "+what, ref.EncodePFX(f, bp), pw, pemToo)
				t.Key("%s %x", what, tail)
			}},
			{Name: "inner", N: [2]int{600, 20000}, Fn: func(t *T, i int) {
				// the MAC is right, the inside is damaged: an error, or exactly what is inside
				k, certs, pw := genP12(t, "SM2", "P256")
				bp := bmp(pw)
				f, w := refSpec(t, k, certs, bp, true)
				file := ref.EncodePFX(f, bp)
				as, _, _ := splitPFX(t, file)
				m, what := mutate(t.Rng, as, file)
				if hugeIter(m) {
					return
				}
				bad := ref.WrapAuthSafe(m, f, bp)
				in := clone(bad)
				t.guard("decoding "+hx(bad), func() {
					key, cs, err := pkcs12.DecodeAll(in, pw)
					t.Eval()
					if err != nil {
						t.Check(key == nil && cs == nil, "DecodeAll returned %T and %d certificates with error %v", key, len(cs), err)
						return
					}
					t.Check(badKey(key) == "", "DecodeAll returned a bad key: %s", badKey(key))
					t.Check(len(cs) > 0, "DecodeAll returned no certificate")
					// certificates here are unauthenticated only by the holder of the password
					_ = w
				})
				t.Key("%s %x", what, sha1sum(bad))
				t.Cover("inner damage")
			}},
		},
	})

	register(&Prop{
		ID:   "C18",
		Rule: "files of the library read by an independent RFC 7292 reader and by openssl, files of an independent writer with varied layouts and of openssl read by the library; distinct files",
		Groups: []Group{
			{Name: "ours to reference", N: [2]int{1200, 40000}, Fn: func(t *T, i int) {
				k, certs, pw := genP12(t)
				file := p12Encode(t, k, certs[0], certs[1:], pw)
				refReads(t, file, k, certs, pw)
				t.Key("%x", file)
				t.Sample("%s key, %d certificates, password %q, file %s", k.kind, len(certs), pw, hx(file))
			}},
			{Name: "reference to ours", N: [2]int{2500, 60000}, Fn: func(t *T, i int) {
				k, certs, pw := genP12(t)
				bp := bmp(pw)
				if pw == "" && t.Chance(1, 2) {
					bp = nil // as some implementations write files without a password
					t.Cover("empty byte string as password")
				}
				f, w := refSpec(t, k, certs, bp, true)
				file := ref.EncodePFX(f, bp)
				p12CheckAll(t, "file of the reference writer", file, pw, w)
				t.Key("%x", file)
				t.Cover(fmt.Sprintf("encrypted %v %v", f.Safes[0].Encrypted, f.Safes[1].Encrypted))
			}},
			{Name: "key derivation", N: [2]int{1500, 40000}, Fn: func(t *T, i int) {
				// many salts with one iteration: carries in the addition of the key derivation
				k := genKey(t.Rng, pick(t.Rng, "P256", "P224"))
				certs := [][]byte{certFor(t.Rng, k, 0)}
				pw := genPassword(t.Rng)
				bp := bmp(pw)
				for n := 0; n < 4; n++ {
					f, w := quickSpec(t, k, certs, bp)
					file := ref.EncodePFX(f, bp)
					p12CheckAll(t, "file with one iteration", file, pw, w)
					t.Key("%x", file)
				}
				t.Cover("key derivation")
			}},
			{Name: "every character", N: [2]int{(0x10000 - 0x800) / 64, 4 * (0x10000 - 0x800) / 64}, Fn: func(t *T, i int) {
				c := i * 64 % (0x10000 - 0x800)
				var rs []rune
				for n := 0; n < 64; n++ {
					r := rune(c + n)
					if r >= 0xd800 {
						r += 0x800
					}
					rs = append(rs, r)
				}
				t.Shuffle(len(rs), func(a, b int) { rs[a], rs[b] = rs[b], rs[a] })
				pw := string(rs)
				k := genKey(t.Rng, "P256")
				certs := [][]byte{certFor(t.Rng, k, 0)}
				f, w := quickSpec(t, k, certs, bmp(pw))
				p12CheckAll(t, fmt.Sprintf("file with the password %q", pw), ref.EncodePFX(f, bmp(pw)), pw, w)
				if i%16 == 0 {
					refReads(t, p12Encode(t, k, certs[0], nil, pw), k, certs, pw)
				}
				t.Key("%q", pw)
				t.Cover("every character of the plane")
			}},
			{Name: "iterations", N: [2]int{45, 300}, Fn: func(t *T, i int) {
				// counts around the widths of integers, and large ones, at each of the three places that hold one
				k := genKey(t.Rng, pick(t.Rng, "P256", "SM2"))
				certs := [][]byte{certFor(t.Rng, k, 0)}
				pw := genPassword(t.Rng)
				bp := bmp(pw)
				list := []int{127, 128, 255, 256, 257, 32767, 32768, 65535, 65536, 65537, 100000, 131072, 300000, 600001, 1<<20 + 1}
				n := list[i%len(list)]
				if i >= 3*len(list) {
					n = 1 + t.IntN(200000)
				}
				where := (i / len(list)) % 3
				f, w := refSpec(t, k, certs, bp, true)
				f.MacIter, f.NoMacIter = 1+t.IntN(3), false
				if where == 0 {
					f.MacIter = n
				}
				for s := range f.Safes {
					f.Safes[s].Iter = 1 + t.IntN(3)
					if where == 1 {
						f.Safes[s].Iter, f.Safes[s].Encrypted = n, true
					}
					for b := range f.Safes[s].Bags {
						f.Safes[s].Bags[b].Iter = 1 + t.IntN(3)
						if where == 2 {
							f.Safes[s].Bags[b].Iter = n
						}
					}
				}
				file := ref.EncodePFX(f, bp)
				p12CheckAll(t, fmt.Sprintf("file with %d iterations (%d)", n, where), file, pw, w)
				t.Key("%d %d", n, where)
				t.Cover([]string{"MAC iterations", "content iterations", "key iterations"}[where])
			}},
			{Name: "carry", N: [2]int{1, 1}, Fn: func(t *T, i int) {
				// salts whose intermediate I+B+1 is shorter than a block (found by search): both carries and leading zeros
				k := genKey(t.Rng, "P256")
				certs := [][]byte{certFor(t.Rng, k, 0)}
				found := 0
				for n := 0; found < 12 && n < 60000; n++ {
					salt := cat([]byte{byte(n), byte(n >> 8)}, t.Bytes(62))
					pw := "carry"
					if !kdfShort(bmp(pw), salt) {
						continue
					}
					found++
					f, w := refSpec(t, k, certs, bmp(pw), true)
					for s := range f.Safes {
						for b := range f.Safes[s].Bags {
							if f.Safes[s].Bags[b].Key {
								f.Safes[s].Bags[b].Iter = 1
								f.Safes[s].Bags[b].Salt = salt
								f.Safes[s].Bags[b].PBE = ref.OID3DES
							}
						}
					}
					file := ref.EncodePFX(f, bmp(pw))
					p12CheckAll(t, "file with a short sum in the key derivation", file, pw, w)
					t.Key("%x", salt)
				}
				t.Check(found >= 4, "search found only %d salts", found)
				t.Cover("short sums")
			}},
			{Name: "salts", N: [2]int{1, 4}, Fn: func(t *T, i int) {
				k := genKey(t.Rng, "SM2")
				cert := certFor(t.Rng, k, 0)
				seen := map[string]bool{}
				var pos [8][256]bool
				n := 0
				for j := 0; j < 250; j++ {
					file := p12Encode(t, k, cert, nil, "same")
					f := refReads(t, file, k, [][]byte{cert}, "same")
					for _, s := range p12Salts(f) {
						t.Check(!seen[string(s)], "the salt %x was used twice", s)
						seen[string(s)] = true
						n++
						for p, b := range s {
							pos[p][b] = true
						}
					}
				}
				for p := range pos {
					d := 0
					for _, x := range pos[p] {
						if x {
							d++
						}
					}
					// 750 uniform bytes leave about 14 of 256 values out
					t.Check(d >= 180, "octet %d of %d salts took only %d values", p, n, d)
				}
				t.Key("salts %d", i)
				t.Cover("salts")
			}},
			{Name: "source", N: [2]int{100, 1000}, Fn: func(t *T, i int) {
				// salts depend on the system's random source, each on bytes of its own
				k := genKey(t.Rng, pick(t.Rng, "SM2", "P256"))
				cert := certFor(t.Rng, k, 0)
				var logs [2][]byte
				var files [2][]byte
				for j := range files {
					r := newRng("p12 source", i, j)
					short := t.Chance(1, 2)
					t.WithSysRand(func(p []byte) (int, error) {
						if short && len(p) > 3 {
							p = p[:3]
						}
						n, err := r.Read(p)
						logs[j] = append(logs[j], p[:n]...)
						return n, err
					}, func() { files[j] = p12Encode(t, k, cert, nil, "pw") })
				}
				a, b := p12Salts(refReads(t, files[0], k, [][]byte{cert}, "pw")), p12Salts(refReads(t, files[1], k, [][]byte{cert}, "pw"))
				for x := range a {
					t.Check(!bytes.Equal(a[x], b[x]), "salt %d does not depend on the random source", x)
				}
				t.Check(len(logs[0]) >= 8*len(a), "only %d random bytes were read for %d salts", len(logs[0]), len(a))
				t.Key("%x", a)
				t.Cover("random source")
			}},
			{Name: "openssl", N: [2]int{24, 200}, Fn: opensslP12},
		},
	})
}

func rep64(b []byte) []byte {
	if len(b) == 0 {
		return nil
	}
	out := make([]byte, (len(b)+63)/64*64)
	for i := range out {
		out[i] = b[i%len(b)]
	}
	return out
}

// kdfShort reports whether the first round of the derivation of a 24-byte key makes a sum with a leading zero octet.
func kdfShort(pw, salt []byte) bool {
	s, p := rep64(salt), rep64(pw)
	h := sha1sum(cat(bytes.Repeat([]byte{1}, 64), s, p))
	b := rep64(h)
	// rep64 rounds up to 64 from 20: exactly 64 octets
	for _, blk := range [][]byte{s[:64], p[:64]} {
		c := 1
		var top byte
		for k := 63; k >= 0; k-- {
			c += int(blk[k]) + int(b[k])
			top = byte(c)
			c >>= 8
		}
		if top == 0 {
			return true
		}
	}
	return false
}

// hugeIter reports whether a mutation may have left a very large iteration count.
func hugeIter(b []byte) bool {
	var walk func(ns []*node) bool
	walk = func(ns []*node) bool {
		for _, n := range ns {
			if n.tag == 2 && !n.open && len(n.prim) > 2 && len(n.prim) < 9 && n.prim[0] < 0x80 {
				return true
			}
			if n.open && walk(n.kids) {
				return true
			}
		}
		return false
	}
	ns, ok := parseNodes(b, 0)
	return !ok || walk(ns)
}

// anyP12 is a file from the library or from the reference writer.
func anyP12(t *T) ([]byte, string) {
	k, certs, pw := genP12(t, "SM2", "P256", "RSA small", "Ed25519")
	if t.Chance(1, 2) {
		return p12Encode(t, k, certs[0], certs[1:], pw), pw
	}
	f, _ := refSpec(t, k, certs, bmp(pw), true)
	return ref.EncodePFX(f, bmp(pw)), pw
}

// splitPFX takes a file apart.
func splitPFX(t *T, file []byte) (as, mac, outer []byte) {
	_, c, _, ok := ref.ReadTLV(file)
	if ok {
		_, _, c, ok = ref.ReadTLV(c) // version
	}
	var ci []byte
	if ok {
		_, ci, c, ok = ref.ReadTLV(c)
	}
	mac = c
	if ok {
		_, _, ci, ok = ref.ReadTLV(ci)
	}
	if ok {
		_, ci, _, ok = ref.ReadTLV(ci)
	}
	if ok {
		_, as, _, ok = ref.ReadTLV(ci)
	}
	if !ok {
		t.Failf("the file is not a PFX: %s", hx(file))
	}
	return as, mac, nil
}

func macDigest(t *T, mac []byte) []byte {
	ns, ok := parseNodes(mac, 0)
	if !ok {
		t.Failf("MacData")
	}
	return ns[0].kids[0].kids[1].prim
}

func p12Salts(f *ref.PFX) [][]byte {
	out := [][]byte{f.MacSalt}
	for _, s := range f.Safes {
		if s.Encrypted {
			out = append(out, s.Salt)
		}
		for _, b := range s.Bags {
			if b.Key {
				out = append(out, b.Salt)
			}
		}
	}
	return out
}

// refReads judges a file of the library with the independent reader.
func refReads(t *T, file []byte, k tkey, certs [][]byte, pw string) *ref.PFX {
	f, err := ref.DecodePFX(file, bmp(pw))
	if err != nil {
		t.Failf("the independent reader refuses the file: %v\npassword %q, file %s", err, pw, hx(file))
	}
	keys, n := 0, 0
	id := sha1sum(certs[0])
	for _, s := range f.Safes {
		for _, b := range s.Bags {
			if b.Key {
				keys++
				if p, ok := k.priv.(*sm2.PrivateKey); ok {
					d, why := readPKCS8SM2(b.Data)
					t.Check(why == "" && eqInt(d, p.D), "the SM2 key in the file is another one: %s %x", why, b.Data)
				} else {
					got, err := stdx.ParsePKCS8PrivateKey(b.Data)
					t.Check(err == nil && samePriv(k.priv, got), "the key in the file is another one (%v): %x", err, b.Data)
				}
				t.mustEq("local key id of the key", b.LocalKeyID, id)
				continue
			}
			t.Check(s.Encrypted, "a certificate is in a safe that is not encrypted")
			t.Check(n < len(certs), "more than %d certificates in the file", len(certs))
			t.mustEq(fmt.Sprintf("certificate %d in the file", n), b.Data, certs[n])
			if n == 0 {
				t.mustEq("local key id of the certificate", b.LocalKeyID, id)
			} else {
				t.Check(b.LocalKeyID == nil || !bytes.Equal(b.LocalKeyID, id), "CA certificate %d carries the local key id", n)
			}
			n++
		}
	}
	t.Check(keys == 1 && n == len(certs), "%d keys and %d certificates in the file, want 1 and %d", keys, n, len(certs))
	ss := p12Salts(f)
	for i, s := range ss {
		t.Check(len(s) == 8, "salt %d has %d octets", i, len(s))
		for _, o := range ss[:i] {
			t.Check(!bytes.Equal(s, o), "the same salt is used twice in a file")
		}
	}
	noKeyBytes(t, file, k)
	for _, c := range certs {
		t.Check(!bytes.Contains(file, c), "a certificate is in the clear")
	}
	return f
}

// noKeyBytes checks that no secret part of the key appears in the file.
func noKeyBytes(t *T, file []byte, k tkey) {
	var secrets [][]byte
	switch p := k.priv.(type) {
	case *sm2.PrivateKey:
		secrets = append(secrets, b32(p.D))
	case *ecdsa.PrivateKey:
		secrets = append(secrets, p.D.Bytes())
	case *rsa.PrivateKey:
		secrets = append(secrets, p.D.Bytes(), p.Primes[0].Bytes(), p.Primes[1].Bytes())
	}
	secrets = append(secrets, keyDER8(k))
	for _, s := range secrets {
		if len(s) < 12 { // tiny test keys
			continue
		}
		for off := 0; off+12 <= len(s); off += 8 {
			w := s[off : off+12]
			if bytes.Count(w, w[:1]) == len(w) || bytes.Contains(k.pubDER(), w) {
				continue
			}
			if off+12 <= 30 && bytes.Equal(s, secrets[len(secrets)-1]) {
				continue // algorithm identifiers
			}
			t.Check(!bytes.Contains(file, w), "12 octets of the private key are in the clear at offset %d", bytes.Index(file, w))
		}
	}
	t.Eval()
}

func (k tkey) pubDER() []byte {
	if p, ok := k.pub.(*sm2.PublicKey); ok {
		return pkixSM2(refPub(p))
	}
	b, err := stdx.MarshalPKIXPublicKey(k.pub)
	if err != nil {
		panic(err)
	}
	return b
}

func opensslP12(t *T, i int) {
	if !haveOpenssl() {
		t.Eval()
		t.Key("no openssl")
		t.Cover("openssl is missing")
		return
	}
	dir := tempDir(t)
	defer os.RemoveAll(dir)
	k := genKey(t.Rng, pick(t.Rng, "SM2", "SM2", "P256", "P384", "P521", "RSA small"))
	certs := [][]byte{certFor(t.Rng, k, t.Len(300))}
	for n := t.IntN(3); n > 0; n-- {
		certs = append(certs, certFor(t.Rng, genKey(t.Rng, pick(t.Rng, "SM2", "P256")), t.Len(300)))
	}
	pw := t.Name(1 + t.IntN(40))
	if t.Chance(1, 4) {
		pw = pick(t.Rng, "пароль", "密码", "é")
	}
	at := func(n string) string { return filepath.Join(dir, n) }
	// ours to openssl
	os.WriteFile(at("f.p12"), p12Encode(t, k, certs[0], certs[1:], pw), 0600)
	os.WriteFile(at("pw"), []byte(pw), 0600)
	out, err := run(dir, "openssl", "pkcs12", "-legacy", "-in", "f.p12", "-nodes", "-passin", "file:pw")
	if err != nil && strings.Contains(string(out), "unable to load provider") {
		t.Cover("openssl has no legacy provider")
	} else {
		t.Check(err == nil, "openssl refuses the file: %v %s", err, out)
		var got [][]byte
		keys := 0
		for rest := out; ; {
			var b *pem.Block
			if b, rest = pem.Decode(rest); b == nil {
				break
			}
			if b.Type == "CERTIFICATE" {
				got = append(got, b.Bytes)
			} else {
				keys++
				kk, err := x509.ParsePKCS8PrivateKey(b.Bytes)
				t.Check(err == nil && samePriv(k.priv, kk), "openssl read another key from the file (%v)", err)
			}
		}
		t.Check(keys == 1 && len(got) == len(certs), "openssl read %d keys and %d certificates, want 1 and %d", keys, len(got), len(certs))
		for i := range got {
			t.Check(bytes.Equal(got[i], certs[i]), "openssl read another certificate %d", i)
		}
		t.Cover("openssl reads our file")
	}
	// openssl to ours
	var chain []byte
	for _, c := range certs {
		chain = append(chain, pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE", Bytes: c})...)
	}
	os.WriteFile(at("c.pem"), chain, 0600)
	os.WriteFile(at("k.pem"), pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: keyDER8(k)}), 0600)
	args := []string{"pkcs12", "-export", "-in", "c.pem", "-inkey", "k.pem", "-passout", "file:pw", "-out", "g.p12", "-macalg", "sha1",
		"-keypbe", "PBE-SHA1-3DES", "-certpbe", pick(t.Rng, "PBE-SHA1-3DES", "PBE-SHA1-RC2-40"), "-legacy"}
	if t.Chance(1, 2) {
		args = append(args, "-name", "some name")
	}
	if t.Chance(1, 3) {
		args = append(args, "-nomaciter")
	}
	if t.Chance(1, 3) {
		args = append(args, "-noiter")
	}
	out, err = run(dir, "openssl", args...)
	if err != nil { // not a statement about the library
		t.Cover("openssl could not write a file")
		t.Logf("%s", out)
		return
	}
	file, _ := os.ReadFile(at("g.p12"))
	p12CheckAll(t, "file of openssl", file, pw, &p12Want{k: k, certs: certs})
	t.Key("%x", file)
	t.Cover("we read files of openssl")
}
