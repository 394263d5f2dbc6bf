package main

import (
	"bytes"
	stdx "crypto/x509"
	"crypto/x509/pkix"
	"encoding/pem"
	"fmt"
	"math/big"
	"os"
	"path/filepath"
	"time"

	"github.com/mmdet/mcrypto/pkcs12"
	"github.com/mmdet/mcrypto/sm2"
	mx "github.com/mmdet/mcrypto/x509"
)

func init() {
	register(&Prop{
		ID: "C32",
		Rule: "histories of a small public key infrastructure: roots and intermediate authorities, requests, certificates, renewed keys, revocation, key files, signed messages and ciphertexts, each step working on what the library gave in an earlier one; " +
			"a model says which authority issued and revoked what, who signed what, and who can read what, and the whole is checked against it at the end. Distinct (step, object)",
		Groups: []Group{
			{Name: "life", N: [2]int{110, 12000}, Fn: func(t *T, i int) { newLife(t, false).run(10 + t.IntN(30)) }},
			{Name: "SM2 only", N: [2]int{110, 12000}, Fn: func(t *T, i int) { newLife(t, true).run(10 + t.IntN(30)) }},
		},
	})
}

// entity is a key holder with a certificate.
type entity struct {
	k       tkey
	cert    *mx.Certificate
	issuer  int // index of the issuing entity; its own for a root
	ca      bool
	canCRL  bool
	name    string
	revoked map[string]time.Time // serial numbers it has revoked
	issued  []int
	number  int64
}

type lifeMsg struct {
	by      int
	content []byte
	der     []byte
}

type lifeCT struct {
	to  int
	key *sm2.PrivateKey
	msg []byte
	ct  []byte
}

type lifeList struct {
	by      int
	der     []byte
	revoked map[string]time.Time
}

type life struct {
	t      *T
	sm2    bool
	all    []*entity
	msgs   []lifeMsg
	cts    []lifeCT
	lists  []lifeList
	serial int64
	used   map[string]bool
	dir    string
	now    time.Time
}

func newLife(t *T, only bool) *life {
	l := &life{t: t, sm2: only, used: map[string]bool{}, now: time.Date(2024, 3, 4, 5, 6, 7, 0, time.UTC), serial: int64(t.IntN(1 << 30))}
	l.root("Root")
	return l
}

func (l *life) key() tkey {
	if l.sm2 || l.t.Chance(1, 2) {
		if l.t.Chance(1, 3) {
			k, err := sm2.GenerateKey(l.t.sys)
			l.t.noErr("GenerateKey", err)
			return wrapSM2(k)
		}
		return genKey(l.t.Rng, "SM2")
	}
	return genKey(l.t.Rng, pick(l.t.Rng, "P256", "P384", "Ed25519", "RSA small"))
}

// passed is the key after a journey through an encoding.
func (l *life) passed(k tkey) tkey {
	t := l.t
	der, err := mx.MarshalPKCS8PrivateKey(k.priv)
	t.noErr("MarshalPKCS8PrivateKey", err)
	b, _ := pem.Decode(pem.EncodeToMemory(&pem.Block{Type: "PRIVATE KEY", Bytes: der}))
	p, err := mx.ParsePKCS8PrivateKey(b.Bytes)
	t.noErr("ParsePKCS8PrivateKey", err)
	t.Check(samePriv(p, k.priv), "the key changed in PKCS #8")
	return fromPriv(k.kind, p)
}

// nextSerial is a number not used before, now and then nearly one that was.
func (l *life) nextSerial() *big.Int {
	l.serial += int64(1 + l.t.IntN(3))
	n := bi(l.serial)
	if len(l.all) > 0 && l.t.Chance(1, 5) {
		n = add(pick(l.t.Rng, l.all...).cert.SerialNumber, new(big.Int).Lsh(one, uint(pick(l.t.Rng, 40, 64, 64, 128))))
		for l.used[n.String()] {
			n.Add(n, new(big.Int).Lsh(one, 64))
		}
	}
	l.used[n.String()] = true
	return n
}

// notBy: an authority's certificates are not made with another key, whatever the names.
func (l *life) notBy(tm *mx.Certificate, by *entity, pub any, k tkey) {
	if samePub(k.pub, by.k.pub) {
		return
	}
	der, err := mx.CreateCertificate(l.t.sys, tm, by.cert, pub, k.signer)
	l.t.Check(err != nil && der == nil, "a certificate under %q is made with a key that is not the authority's", by.name)
	l.t.Cover("the wrong key to issue with")
}

func (l *life) template(name string, ca bool) *mx.Certificate {
	t := l.t
	c := &mx.Certificate{SerialNumber: l.nextSerial(), Subject: pkix.Name{CommonName: name, Organization: []string{"Life"}}, NotBefore: l.now, NotAfter: l.now.AddDate(1+t.IntN(30), 0, 0)}
	if ca {
		c.IsCA, c.BasicConstraintsValid, c.KeyUsage = true, true, mx.KeyUsageCertSign|mx.KeyUsageCRLSign
		if t.Chance(1, 4) {
			c.KeyUsage = mx.KeyUsageCertSign
		}
		if t.Chance(2, 3) {
			c.SubjectKeyId = t.Bytes(20)
		}
	} else {
		c.KeyUsage = mx.KeyUsageDigitalSignature
		c.BasicConstraintsValid = t.Chance(1, 2)
	}
	return c
}

func (l *life) add(e *entity, der []byte) int {
	t := l.t
	c, err := mx.ParseCertificate(der)
	t.noErr("the certificate just made", err)
	e.cert = c
	e.revoked = map[string]time.Time{}
	l.all = append(l.all, e)
	n := len(l.all) - 1
	l.all[e.issuer].issued = append(l.all[e.issuer].issued, n)
	t.Key("certificate %x", der)
	return n
}

func (l *life) root(name string) {
	t := l.t
	k := l.passed(l.key())
	tm := l.template(name, true)
	der, err := mx.CreateCertificate(t.sys, tm, tm, k.pub, k.signer)
	t.noErr("root certificate", err)
	l.add(&entity{k: k, issuer: len(l.all), ca: true, name: name, canCRL: tm.KeyUsage&mx.KeyUsageCRLSign != 0 && len(tm.SubjectKeyId) > 0}, der)
	t.Cover("root")
}

// pickCA returns an authority.
func (l *life) pickCA(f func(*entity) bool) int {
	var c []int
	for i, e := range l.all {
		if f(e) {
			c = append(c, i)
		}
	}
	if len(c) == 0 {
		return -1
	}
	return pick(l.t.Rng, c...)
}

// issue runs a request through an authority.
func (l *life) issue(ca bool) {
	t := l.t
	at := l.pickCA(func(e *entity) bool { return e.ca })
	by := l.all[at]
	k := l.passed(l.key())
	name := fmt.Sprintf("%s %s", pick(t.Rng, "Alice", "Bob", "Sub"), t.Name(3))
	if t.Chance(1, 5) {
		name = pick(t.Rng, l.all...).name // a namesake
	}
	rt := &mx.CertificateRequest{Subject: pkix.Name{CommonName: name, Organization: []string{"Life"}}}
	rt.DNSNames, rt.EmailAddresses, rt.IPAddresses, rt.URIs = genSANs(t.Rng)
	rd, err := mx.CreateCertificateRequest(t.sys, rt, k.signer)
	t.noErr("request", err)
	if t.Chance(1, 3) { // through PEM
		b, _ := pem.Decode(pem.EncodeToMemory(&pem.Block{Type: "CERTIFICATE REQUEST", Bytes: rd}))
		rd = b.Bytes
	}
	r, err := mx.ParseCertificateRequest(rd)
	t.noErr("the request just made", err)
	t.noErr("the request's signature", r.CheckSignature())
	t.Check(samePub(r.PublicKey, k.pub), "the request names another key")
	tm := l.template(name, ca)
	tm.Subject = r.Subject
	if t.Chance(1, 2) {
		tm.RawSubject = r.RawSubject
	}
	tm.DNSNames, tm.EmailAddresses, tm.IPAddresses, tm.URIs = r.DNSNames, r.EmailAddresses, r.IPAddresses, r.URIs
	if t.Chance(1, 3) {
		l.notBy(tm, by, r.PublicKey, pick(t.Rng, l.all...).k)
	}
	der, err := mx.CreateCertificate(t.sys, tm, by.cert, r.PublicKey, by.k.signer)
	t.noErr("certificate", err)
	n := l.add(&entity{k: k, issuer: at, ca: ca, name: name, canCRL: ca && tm.KeyUsage&mx.KeyUsageCRLSign != 0 && len(tm.SubjectKeyId) > 0}, der)
	c := l.all[n].cert
	t.noErr("the certificate's signature", c.CheckSignatureFrom(by.cert))
	t.Check(samePub(c.PublicKey, k.pub), "the certificate names another key")
	t.Check(c.SerialNumber.Cmp(tm.SerialNumber) == 0, "the certificate's serial number is %v, want %v", c.SerialNumber, tm.SerialNumber)
	t.mustEq("issuer", c.RawIssuer, by.cert.RawSubject)
	t.mustEq("subject", c.RawSubject, r.RawSubject)
	if !bytes.Equal(r.RawSubject, by.cert.RawSubject) { // a certificate for its issuer's name has none
		t.mustEq("authority key id", c.AuthorityKeyId, by.cert.SubjectKeyId)
	}
	d := namesOnly(recordOf(rt, "DNSNames", "EmailAddresses", "IPAddresses", "URIs")).diff(recordOf(c, "DNSNames", "EmailAddresses", "IPAddresses", "URIs"))
	t.Check(d == "", "names on the way through request and certificate: %s", d)
	t.Cover(fmt.Sprintf("certificate for %s by %s", k.kind, by.k.kind))
}

// renew gives an authority of the same name another key.
func (l *life) renew() {
	t := l.t
	at := l.pickCA(func(e *entity) bool { return e.ca })
	old := l.all[at]
	k := l.passed(l.key())
	tm := l.template(old.name, true)
	tm.RawSubject = old.cert.RawSubject
	if t.Chance(1, 3) {
		tm.SubjectKeyId = old.cert.SubjectKeyId
	}
	l.notBy(tm, old, k.pub, k)
	parent, signer, issuer := tm, k.signer, len(l.all)
	if t.Chance(1, 3) { // the old key vouches for the new one
		parent, signer, issuer = old.cert, old.k.signer, at
		t.Cover("renewed authority, by the old key")
	}
	der, err := mx.CreateCertificate(t.sys, tm, parent, k.pub, signer)
	t.noErr("renewed authority", err)
	l.add(&entity{k: k, issuer: issuer, ca: true, name: old.name, canCRL: tm.KeyUsage&mx.KeyUsageCRLSign != 0 && len(tm.SubjectKeyId) > 0}, der)
	t.Cover("renewed authority")
}

func (l *life) revoke() {
	t := l.t
	at := l.pickCA(func(e *entity) bool { return e.ca && len(e.issued) > 0 })
	if at < 0 {
		return
	}
	e := l.all[at]
	s := l.all[pick(t.Rng, e.issued...)].cert.SerialNumber.String()
	if _, ok := e.revoked[s]; !ok {
		e.revoked[s] = l.now
		l.now = l.now.Add(time.Duration(pick(t.Rng, 0, t.IntN(100000))) * time.Second)
	}
	t.Cover("revocation")
}

func (l *life) publish() {
	t := l.t
	at := l.pickCA(func(e *entity) bool { return e.ca })
	e := l.all[at]
	var entries []pkix.RevokedCertificate
	for s, tm := range e.revoked {
		n, _ := new(big.Int).SetString(s, 10)
		entries = append(entries, pkix.RevokedCertificate{SerialNumber: n, RevocationTime: tm})
	}
	var der []byte
	var err error
	if e.canCRL && t.Chance(2, 3) {
		e.number++
		der, err = mx.CreateRevocationList(t.sys, &mx.RevocationList{Number: bi(e.number), ThisUpdate: l.now, NextUpdate: l.now.AddDate(0, 1, 0), RevokedCertificates: entries}, e.cert, e.k.signer)
	} else {
		der, err = e.cert.CreateCRL(t.sys, e.k.signer, entries, l.now, l.now.AddDate(0, 1, 0))
	}
	t.noErr("revocation list", err)
	if t.Chance(1, 3) {
		der = pem.EncodeToMemory(&pem.Block{Type: "X509 CRL", Bytes: der})
	}
	li := lifeList{by: at, der: der, revoked: map[string]time.Time{}}
	for s, tm := range e.revoked {
		li.revoked[s] = tm
	}
	l.lists = append(l.lists, li)
	l.checkList(li)
	t.Key("list %x", der)
	t.Cover(fmt.Sprintf("list by %s", e.k.kind))
}

func (l *life) checkList(li lifeList) *pkix.CertificateList {
	t := l.t
	p, err := mx.ParseCRL(clone(li.der))
	t.noErr("list", err)
	e := l.all[li.by]
	t.noErr("the list's signature", e.cert.CheckCRLSignature(p))
	t.Check(len(p.TBSCertList.RevokedCertificates) == len(li.revoked), "the list has %d entries, %d were revoked", len(p.TBSCertList.RevokedCertificates), len(li.revoked))
	for _, r := range p.TBSCertList.RevokedCertificates {
		tm, ok := li.revoked[r.SerialNumber.String()]
		t.Check(ok && tm.Equal(r.RevocationTime), "the list says %v was revoked at %v, the model says %v, %v", r.SerialNumber, r.RevocationTime, ok, tm)
	}
	return p
}

// chain lists the certificates from an entity's issuer to the root.
func (l *life) chain(at int) (out []int) {
	for e := l.all[at]; e.issuer != at; e = l.all[at] {
		at = e.issuer
		out = append(out, at)
	}
	return
}

// move sends an entity's key and certificates through a key file; what comes out is used from then on.
func (l *life) move() {
	t := l.t
	at := t.IntN(len(l.all))
	e := l.all[at]
	pw := genPassword(t.Rng)
	up := l.chain(at)
	var cas []*stdx.Certificate
	for _, u := range up {
		cas = append(cas, &stdx.Certificate{Raw: l.all[u].cert.Raw})
	}
	var key any
	var certs []*mx.Certificate
	if p, ok := e.k.priv.(*sm2.PrivateKey); ok && t.Chance(1, 3) {
		if l.dir == "" {
			l.dir = tempDir(t)
			t.clean = append(t.clean, func() { os.RemoveAll(l.dir) })
		}
		fn := filepath.Join(l.dir, "key.p12")
		t.noErr("SM2P12Encrypt", pkcs12.SM2P12Encrypt(e.cert, pw, p, fn))
		c, k, err := pkcs12.SM2P12Decrypt(fn, pw)
		t.noErr("SM2P12Decrypt", err)
		key, certs, up = k, []*mx.Certificate{c}, nil
	} else {
		file, err := pkcs12.Encode(e.k.priv, e.cert, cas, pw)
		t.noErr("Encode", err)
		key, certs, err = pkcs12.DecodeAll(file, pw)
		t.noErr("DecodeAll", err)
	}
	t.Check(samePriv(key, e.k.priv), "the key changed in a file")
	t.Check(len(certs) == 1+len(up), "%d certificates in the file, want %d", len(certs), 1+len(up))
	t.Check(certs[0].Equal(e.cert), "the certificate changed in a file")
	for i, u := range up {
		t.Check(certs[i+1].Equal(l.all[u].cert), "certificate %d of the chain changed in a file", i)
		t.noErr("the chain in a file", certs[i].CheckSignatureFrom(certs[i+1]))
	}
	e.k, e.cert = fromPriv(e.k.kind, key), certs[0]
	t.Cover("through a key file")
	t.Key("moved %x %q", e.cert.Raw, pw)
}

func (l *life) sign() {
	t := l.t
	at := l.pickCA(func(e *entity) bool { return e.k.kind == "SM2" })
	if at < 0 {
		return
	}
	e := l.all[at]
	m := lifeMsg{by: at, content: c13Content(t)}
	var err error
	if t.Chance(1, 2) {
		m.der, err = mx.NewSignedData(e.cert, e.k.priv, m.content)
	} else {
		m.der, err = mx.NewSignedDataCallBack(e.cert, func(b []byte) ([]byte, error) {
			return sm2.Sign(t.sys, e.k.priv.(*sm2.PrivateKey), b, nil)
		}, m.content)
	}
	t.noErr("SignedData", err)
	l.msgs = append(l.msgs, m)
	t.Key("message %x", m.der)
	t.Cover("signed message")
}

func (l *life) read(m lifeMsg) {
	t := l.t
	p, err := mx.ParsePKCS7(clone(m.der))
	t.noErr("message", err)
	t.mustEq("content", p.Content, m.content)
	t.noErr("Verify", p.Verify())
	o := p.GetOnlySigner()
	t.Check(o != nil && o.Equal(l.all[m.by].cert), "the message names another signer")
	for i, e := range l.all { // the sender's issuer can be told from the certificate in the message
		if e.ca {
			want := samePub(e.k.pub, l.all[l.all[m.by].issuer].k.pub)
			t.Check((o.CheckSignatureFrom(e.cert) == nil) == want, "the signer's certificate under authority %d: %v expected", i, want)
		}
	}
	// under another certificate it is no message of that one
	for _, e := range l.all {
		if e.k.kind == "SM2" && !samePub(e.k.pub, o.PublicKey) {
			x := *o
			x.PublicKey = e.cert.PublicKey
			p.Certificates = []*mx.Certificate{&x}
			t.wantErr("Verify under another key", p.Verify())
			break
		}
	}
}

func (l *life) encrypt() {
	t := l.t
	at := l.pickCA(func(e *entity) bool { return e.k.kind == "SM2" })
	if at < 0 {
		return
	}
	e := l.all[at]
	c := lifeCT{to: at, key: e.k.priv.(*sm2.PrivateKey), msg: t.Bytes(1 + t.Len(300))}
	var err error
	c.ct, err = sm2.Encryt(t.sys, e.cert.PublicKey.(*sm2.PublicKey), c.msg)
	t.noErr("Encryt to a certificate", err)
	l.cts = append(l.cts, c)
	t.Cover("encrypted to a certificate")
	t.Key("ciphertext %x", c.ct)
}

func (l *life) decrypt(c lifeCT) {
	t := l.t
	for i, e := range l.all {
		p, ok := e.k.priv.(*sm2.PrivateKey)
		if !ok {
			continue
		}
		m, err := sm2.Decryt(p, c.ct)
		if samePriv(p, c.key) {
			t.noErr("Decryt by the one it is for", err)
			t.mustEq("Decryt by the one it is for", m, c.msg)
		} else {
			t.Check(err != nil && m == nil, "entity %d reads what is for entity %d", i, c.to)
		}
	}
}

func (l *life) run(steps int) {
	t := l.t
	for n := 0; n < steps; n++ {
		t.guard("step", func() {
			switch t.IntN(12) {
			case 0:
				if len(l.all) < 12 {
					l.root(fmt.Sprintf("Root %d", t.IntN(3)))
				}
			case 1, 2:
				if len(l.all) < 12 {
					l.issue(true)
				}
			case 3, 4:
				if len(l.all) < 14 {
					l.issue(false)
				}
			case 5:
				if len(l.all) < 12 {
					l.renew()
				}
			case 6:
				l.revoke()
			case 7:
				l.publish()
			case 8:
				l.move()
			case 9:
				l.sign()
			case 10:
				l.encrypt()
			case 11:
				if len(l.msgs) > 0 {
					l.read(pick(t.Rng, l.msgs...))
				}
				if len(l.cts) > 0 {
					l.decrypt(pick(t.Rng, l.cts...))
				}
			}
		})
	}
	// The whole against the model.
	t.guard("at the end", func() {
		for i, e := range l.all {
			c, err := mx.ParseCertificate(clone(e.cert.Raw))
			t.noErr("certificate", err)
			for j, ca := range l.all {
				want := ca.ca && samePub(ca.k.pub, l.all[e.issuer].k.pub)
				err := c.CheckSignatureFrom(ca.cert)
				t.Check((err == nil) == want, "certificate %d (issued by %d) under %d (authority %v): %v", i, e.issuer, j, ca.ca, err)
			}
			t.Check(samePub(c.PublicKey, e.k.pub), "certificate %d names another key", i)
		}
		for _, li := range l.lists {
			p := l.checkList(li)
			for j, e := range l.all {
				want := samePub(e.k.pub, l.all[li.by].k.pub)
				err := e.cert.CheckCRLSignature(p)
				t.Check((err == nil) == want, "the list of %d under %d: %v", li.by, j, err)
			}
		}
		for _, m := range l.msgs {
			l.read(m)
		}
		for _, c := range l.cts {
			l.decrypt(c)
		}
	})
	t.Cover(fmt.Sprintf("%d entities", len(l.all)))
	t.Sample("%d steps, %d entities, %d lists, %d messages, %d ciphertexts", steps, len(l.all), len(l.lists), len(l.msgs), len(l.cts))
	t.Key("%d steps, %d entities, %d lists, %d messages, %d ciphertexts", steps, len(l.all), len(l.lists), len(l.msgs), len(l.cts))
}
