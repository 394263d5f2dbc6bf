package main

import (
	"bytes"
	"crypto"
	"crypto/cipher"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	stdx "crypto/x509"
	"crypto/x509/pkix"
	"encoding/asn1"
	"encoding/pem"
	"errors"
	"fmt"
	"io"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"time"

	"mon/ref"

	"github.com/mmdet/mcrypto/pkcs12"
	"github.com/mmdet/mcrypto/sm2"
	"github.com/mmdet/mcrypto/sm3"
	mx "github.com/mmdet/mcrypto/x509"
)

// A fixture is what a program holds as bytes: values are loaded from it, so that they are fresh each time.
type fixture struct {
	Seed  uint64
	D     [][]byte // SM2 private keys
	PK8   [][]byte // private keys: SM2, RSA, P-256, Ed25519
	Sec1  [][]byte
	Pkcs1 []byte
	Certs [][]byte // one per private key in PK8, issued by itself; then one issued by the first
	CSRs  [][]byte
	CRLs  [][]byte
	P7    [][]byte
	P12   []p12File
	Msgs  [][]byte
	IDs   [][]byte
	Sigs  [][]byte // of Msgs[i] with IDs[i] by the first SM2 key
	CTs   [][]byte // of Msgs[i] for the first SM2 key
	RC2   []byte
}

type p12File struct {
	File []byte
	PW   string
}

func newFixture(t *T) *fixture { return newFixtureLike(t, nil, 0) }

// newFixtureLike keeps the keys (1) or the messages, ids and passwords (2) of another fixture.
func newFixtureLike(t *T, like *fixture, what int) *fixture {
	f := &fixture{Seed: t.Uint64()}
	for i := 0; i < 2; i++ {
		d, _ := genD(t.Rng)
		for i == 1 && bytes.Equal(b32(d), f.D[0]) { // verdicts under the other key are to be false
			d, _ = genD(t.Rng)
		}
		f.D = append(f.D, b32(d))
	}
	rsaKind := "RSA small"
	if what == 1 {
		f.D = [][]byte{clone(like.D[0]), clone(like.D[1])}
	}
	k0 := newSM2(new(big.Int).SetBytes(f.D[0]))
	keys := []tkey{wrapSM2(k0), genKey(t.Rng, rsaKind), genKey(t.Rng, "P256"), genKey(t.Rng, "Ed25519")}
	for _, k := range keys {
		f.PK8 = append(f.PK8, keyDER8(k))
		tm := genTemplate(t.Rng, true)
		tm.KeyUsage = mx.KeyUsageCertSign | mx.KeyUsageCRLSign
		der, err := mx.CreateCertificate(t.sys, tm, tm, k.pub, k.signer)
		t.noErr("CreateCertificate", err)
		f.Certs = append(f.Certs, der)
		csr, err := mx.CreateCertificateRequest(t.sys, genRequest(t.Rng), k.signer)
		t.noErr("CreateCertificateRequest", err)
		f.CSRs = append(f.CSRs, csr)
	}
	ca, err := mx.ParseCertificate(clone(f.Certs[0]))
	t.noErr("ParseCertificate", err)
	k1 := newSM2(new(big.Int).SetBytes(f.D[1]))
	leaf, err := mx.CreateCertificate(t.sys, genTemplate(t.Rng, false), ca, &k1.PublicKey, sm2Signer{k0})
	t.noErr("CreateCertificate", err)
	f.Certs = append(f.Certs, leaf)
	f.Sec1 = [][]byte{sec1SM2(k0.D, refPub(&k0.PublicKey), true, true), must(stdx.MarshalECPrivateKey(keys[2].priv.(*ecdsa.PrivateKey)))}
	f.Pkcs1 = stdx.MarshalPKCS1PrivateKey(keys[1].priv.(*rsa.PrivateKey))
	now := time.Date(2024, 1, 2, 3, 4, 5, 0, time.UTC)
	l, err := ca.CreateCRL(t.sys, sm2Signer{k0}, genEntries(t.Rng), now, now.AddDate(0, 1, 0))
	t.noErr("CreateCRL", err)
	f.CRLs = [][]byte{l, pem.EncodeToMemory(&pem.Block{Type: "X509 CRL", Bytes: l})}
	for i := 0; i < 2; i++ {
		s, _ := genSD(t, 2)
		f.P7 = append(f.P7, s.der())
	}
	for i := 0; i < 2; i++ {
		k, certs, pw := genP12(t, pick(t.Rng, "SM2", "P256", "Ed25519"))
		if what == 2 {
			pw = like.P12[i].PW
		}
		p, _ := refSpec(t, k, certs, bmp(pw), true)
		f.P12 = append(f.P12, p12File{ref.EncodePFX(p, bmp(pw)), pw})
	}
	for i := 0; i < 3; i++ {
		m, id := t.Bytes(1+t.Len(300)), genID(t.Rng)
		if what == 2 {
			m, id = clone(like.Msgs[i]), clone(like.IDs[i])
		}
		e, _ := ref.MsgDigest(k0.X, k0.Y, m, id)
		f.Msgs, f.IDs, f.Sigs = append(f.Msgs, m), append(f.IDs, id), append(f.Sigs, refSignDigest(t.Rng, k0.D, e))
		for {
			if ct, ok := ref.EncryptK(refPub(&k0.PublicKey), m, t.Big(one, nm1)); ok {
				f.CTs = append(f.CTs, ct)
				break
			}
		}
	}
	f.RC2 = t.Bytes(5 + t.IntN(12))
	return f
}

func must[A any](a A, err error) A {
	if err != nil {
		panic(err)
	}
	return a
}

// A world holds the values calls share. They are loaded from the fixture when first asked for, or all at once by load.
type world struct {
	F      *fixture
	SM2    [2]*sm2.PrivateKey
	Key    [4]any // SM2, RSA, P-256, Ed25519
	Cert   [5]*mx.Certificate
	CSR    [4]*mx.CertificateRequest
	CRL    [1]*pkix.CertificateList
	P7     [2]*mx.PKCS7
	R, S   [3]*big.Int // of Sigs
	Tmpl   [3]*mx.Certificate
	Req    [2]*mx.CertificateRequest
	RevTm  *mx.RevocationList
	Revs   []pkix.RevokedCertificate
	Std    [2]*stdx.Certificate
	RC2    cipher.Block
	Public []any // what the packages share with everybody

	dir   string
	yield bool
	small bool      // random sources often start with a small number
	pool  io.Reader // one random source for all
}

func newWorld(f *fixture, dir string) *world { return &world{F: f, dir: dir} }

// load makes all values at once.
func (w *world) load() *world {
	for i := range w.SM2 {
		w.sm2(i)
	}
	for i := range w.Key {
		w.key(i)
	}
	for i := range w.Cert {
		w.cert(i)
	}
	for i := range w.CSR {
		w.csr(i)
	}
	for i := range w.P7 {
		w.p7(i)
	}
	for i := range w.R {
		w.rs(i)
	}
	w.crl()
	w.templates()
	w.rc2()
	w.Public = []any{sm2.SM2P256V1().Params(), elliptic.P256().Params(), elliptic.P224().Params(), elliptic.P384().Params(), elliptic.P521().Params(),
		pkcs12.ErrDecryption, pkcs12.ErrIncorrectPassword, mx.ErrUnsupportedAlgorithm, mx.ErrUnsupportedContentType, asn1.NullBytes, asn1.NullRawValue, os.Args, mx.SM3.String()}
	return w
}

func (w *world) sm2(i int) *sm2.PrivateKey {
	if w.SM2[i] == nil {
		w.SM2[i] = newSM2(new(big.Int).SetBytes(w.F.D[i]))
	}
	return w.SM2[i]
}

func (w *world) key(i int) any {
	if w.Key[i] == nil {
		w.Key[i] = must(mx.ParsePKCS8PrivateKey(clone(w.F.PK8[i])))
	}
	return w.Key[i]
}

func (w *world) signer(i int) crypto.Signer {
	if s, ok := w.key(i).(*sm2.PrivateKey); ok {
		return sm2Signer{s}
	}
	return w.key(i).(crypto.Signer)
}

func (w *world) pub(i int) any { return w.signer(i).Public() }

func (w *world) cert(i int) *mx.Certificate {
	if w.Cert[i] == nil {
		w.Cert[i] = must(mx.ParseCertificate(clone(w.F.Certs[i])))
	}
	return w.Cert[i]
}

func (w *world) csr(i int) *mx.CertificateRequest {
	if w.CSR[i] == nil {
		w.CSR[i] = must(mx.ParseCertificateRequest(clone(w.F.CSRs[i])))
	}
	return w.CSR[i]
}

func (w *world) crl() *pkix.CertificateList {
	if w.CRL[0] == nil {
		w.CRL[0] = must(mx.ParseCRL(clone(w.F.CRLs[0])))
	}
	return w.CRL[0]
}

func (w *world) p7(i int) *mx.PKCS7 {
	if w.P7[i] == nil {
		w.P7[i] = must(mx.ParsePKCS7(clone(w.F.P7[i])))
	}
	return w.P7[i]
}

func (w *world) rs(i int) (r, s *big.Int) {
	if w.R[i] == nil {
		w.R[i], w.S[i], _ = ref.ParseSig(w.F.Sigs[i])
	}
	return w.R[i], w.S[i]
}

func (w *world) rc2() cipher.Block {
	if w.RC2 == nil {
		w.RC2 = must(pkcs12.New(clone(w.F.RC2), 8*len(w.F.RC2)))
	}
	return w.RC2
}

func (w *world) templates() {
	if w.RevTm != nil {
		return
	}
	r := newRng("templates", w.F.Seed)
	for i := range w.Tmpl {
		w.Tmpl[i] = genTemplate(r, i == 0)
	}
	for i := range w.Req {
		w.Req[i] = genRequest(r)
		if i == 1 {
			w.Req[i].Attributes = []pkix.AttributeTypeAndValueSET{{Type: genOID(r), Value: [][]pkix.AttributeTypeAndValue{{{Type: genOID(r), Value: r.Name(5)}}}},
				{Type: asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 14}, Value: [][]pkix.AttributeTypeAndValue{{{Type: genOID(r), Value: r.Bytes(5)}}}}}
		}
	}
	w.Revs = genEntries(r)
	for len(w.Revs) < 2 {
		w.Revs = append(w.Revs, pkix.RevokedCertificate{SerialNumber: genSerial(r), RevocationTime: genTime(r).In(time.FixedZone("east", 3600))})
	}
	now := time.Date(2024, 1, 2, 3, 4, 5, 0, time.FixedZone("west", -7200))
	w.RevTm = &mx.RevocationList{Number: genSerial(r), ThisUpdate: now, NextUpdate: now.AddDate(0, 1, 0), RevokedCertificates: genEntries(r), ExtraExtensions: genExtra(r)}
	w.RevTm.RevokedCertificates = append(w.RevTm.RevokedCertificates, pkix.RevokedCertificate{SerialNumber: genSerial(r), RevocationTime: now})
	for i := range w.Std {
		w.Std[i] = &stdx.Certificate{Raw: clone(w.F.Certs[i+1])}
	}
}

// rand returns a source seeded by r.
func (w *world) rand(r *Rng) io.Reader {
	if w.pool != nil {
		return w.pool
	}
	seed := r.Uint64()
	g := newRng("rand", seed)
	if w.small && r.Chance(1, 3) {
		return io.MultiReader(bytes.NewReader(kBytes(smallNonce(r))), g)
	}
	if w.yield {
		return yielding{g, newRng("yield", seed)}
	}
	return g
}

type yielding struct{ r, when *Rng }

func (y yielding) Read(p []byte) (int, error) {
	for y.when.Chance(1, 2) {
		runtime.Gosched()
	}
	return y.r.Read(p)
}

// ---- what a call gave

type out struct {
	vals  []string // the same for the same call
	live  []liveBytes
	bigs  []*big.Int
	objs  []any // values the caller may overwrite
	snap  []string
	args  []liveArg
	uniq  []string // different in every call
	bad   []string
	panic string
	w     *world
}

type liveBytes struct {
	name      string
	now, then []byte
}

type liveArg struct {
	name string
	v    any
	then []string
}

// arg registers an argument that the call must leave alone, with spare capacity behind it.
func arg[A any](o *out, name string, v A) A {
	roomy(&v)
	o.args = append(o.args, liveArg{name, v, dump(v, true)})
	return v
}

func (o *out) bytes(name string, b []byte) {
	o.vals = append(o.vals, name+"="+hx(b))
	o.hold(name, b)
}

// obj registers a result of which the caller may do as it likes.
func (o *out) obj(v any) { o.objs = append(o.objs, v) }

// hold only watches that the bytes stay as they are.
func (o *out) hold(name string, b []byte) { o.live = append(o.live, liveBytes{name, b, clone(b)}) }

func (o *out) big(name string, x *big.Int) {
	if x == nil {
		o.vals = append(o.vals, name+"=nil")
		return
	}
	o.vals = append(o.vals, fmt.Sprintf("%s=%x", name, x))
	o.bigs, o.snap = append(o.bigs, x), append(o.snap, fmt.Sprintf("%s=%x", name, x))
}

func (o *out) err(name string, err error) bool {
	o.vals = append(o.vals, fmt.Sprintf("%s: %s", name, addresses.ReplaceAllString(fmt.Sprint(err), "0x")))
	return err == nil
}

// addresses: encoding/asn1 prints pointers in its error messages.
var addresses = regexp.MustCompile(`0x[0-9a-f]{6,}`)

// ok is for calls that have to succeed.
func (o *out) ok(name string, err error) bool {
	o.err(name, err)
	o.check(err == nil, "%s: %v", name, err)
	return err == nil
}

func (o *out) val(name string, v any) { o.vals = append(o.vals, name+"="+dumpString(v)) }

func (o *out) check(ok bool, f string, a ...any) bool {
	if !ok {
		o.bad = append(o.bad, fmt.Sprintf(f, a...))
	}
	return ok
}

func (o *out) unique(kind string, b []byte) { o.uniq = append(o.uniq, kind+" "+hx(b)) }

// after returns what is wrong with values that were handed out or in: they must still be as they were.
func (o *out) after() []string {
	bad := append([]string(nil), o.bad...)
	if o.panic != "" {
		bad = append(bad, o.panic)
	}
	for _, l := range o.live {
		if !bytes.Equal(l.now, l.then) {
			bad = append(bad, fmt.Sprintf("result %s changed afterwards: %s, was %s", l.name, hx(l.now), hx(l.then)))
		}
	}
	for i, b := range o.bigs {
		n := o.snap[i][:bytes.IndexByte([]byte(o.snap[i]), '=')]
		if s := fmt.Sprintf("%s=%x", n, b); s != o.snap[i] {
			bad = append(bad, fmt.Sprintf("result changed afterwards: %s, was %s", s, o.snap[i]))
		}
	}
	for _, a := range o.args {
		if d := firstDiff(a.then, dump(a.v, true)); d != "" {
			bad = append(bad, fmt.Sprintf("argument %s was changed: %s", a.name, d))
		}
	}
	return bad
}

func diffVals(a, b []string) string {
	for i := range a {
		if i >= len(b) {
			return "missing: " + head(a[i], 1500)
		}
		if a[i] != b[i] {
			return fmt.Sprintf("%s, but %s", head(a[i], 1500), head(b[i], 1500))
		}
	}
	if len(b) > len(a) {
		return "more: " + head(b[len(a)], 1500)
	}
	return ""
}

// An action is one call as a program makes it. Arguments and random bytes are chosen by r; shared values come from w.
type action struct {
	name string
	fn   func(w *world, r *Rng, o *out)
	file bool // writes a file of its own
}

// do runs an operation.
func (p *action) do(w *world, seed uint64) *out {
	o := &out{w: w}
	r := newRng("op", seed)
	sys := newRng("opsys", seed)
	id := goid()
	if _, ok := sysHook.Load(id); !ok && w.pool == nil {
		sysHook.Store(id, sys.Read)
		defer sysHook.Delete(id)
	}
	defer func() {
		if e := recover(); e != nil {
			buf := make([]byte, 3000)
			o.panic = fmt.Sprintf("panic: %v\n%s", e, buf[:runtime.Stack(buf, false)])
		}
	}()
	p.fn(w, r, o)
	return o
}

var algPriv = []mx.SignatureAlgorithm{mx.SM2WithSM3, mx.SHA256WithRSA, mx.ECDSAWithSHA256, mx.PureEd25519}

// badSigner signs with an error.
type failSigner struct{ crypto.Signer }

func (failSigner) Sign(io.Reader, []byte, crypto.SignerOpts) ([]byte, error) {
	return nil, errors.New("no")
}

// failReader fails after some bytes.
type failReader struct{ n int }

func (f *failReader) Read(p []byte) (int, error) {
	n := min(len(p), f.n)
	f.n -= n
	for i := range p[:n] {
		p[i] = byte(i)
	}
	if n < len(p) {
		return n, errInjected
	}
	return n, nil
}

func tamper(r *Rng, b []byte) []byte {
	b = clone(b)
	if len(b) > 0 {
		b[r.IntN(len(b))] ^= 1 << r.IntN(8)
	}
	return b
}

var actions = []*action{
	{name: "sm3.Sum", fn: func(w *world, r *Rng, o *out) {
		for _, m := range w.F.Msgs {
			d := sm3.Sum(m)
			o.bytes("digest", d)
			o.check(bytes.Equal(d, ref.SM3(m)), "wrong digest of %x", m)
		}
	}},
	{name: "sm3.New", fn: func(w *world, r *Rng, o *out) {
		h := sm3.New()
		m := w.F.Msgs[r.IntN(3)]
		for rest := m; len(rest) > 0; {
			n := 1 + r.IntN(len(rest))
			h.Write(rest[:n])
			rest = rest[n:]
			if r.Chance(1, 3) {
				o.bytes("sum", h.Sum(nil))
			}
		}
		s := h.Sum(nil)
		o.check(bytes.Equal(s, ref.SM3(m)), "wrong digest of %x", m)
		h.Reset()
		h.Write(w.F.Msgs[0])
		o.bytes("second", h.Sum([]byte("x")))
	}},
	{name: "sm2.Sign", fn: func(w *world, r *Rng, o *out) {
		k, m, id := w.sm2(r.IntN(2)), w.F.Msgs[r.IntN(3)], w.F.IDs[r.IntN(3)]
		var sig []byte
		var err error
		var a, b *big.Int
		switch r.IntN(4) {
		case 0:
			sig, err = sm2.Sign(w.rand(r), k, m, id)
		case 1:
			sig, err = k.Sign(w.rand(r), m, id)
		case 2:
			a, b, err = sm2.SignRS(w.rand(r), k, m, id)
		case 3:
			a, b, err = k.SignRS(w.rand(r), m, id)
		}
		if o.ok("sign", err) {
			if sig == nil {
				o.big("r", a)
				o.big("s", b)
				sig = ref.MarshalSig(a, b)
			}
			o.bytes("sig", sig)
			o.check(ref.VerifyDER(refPub(&k.PublicKey), m, id, sig), "signature is not valid: %x", sig)
			o.unique("sig", sig)
		}
	}},
	{name: "sm2.SignDigest", fn: func(w *world, r *Rng, o *out) {
		k := w.sm2(r.IntN(2))
		d := arg(o, "digest", r.Bytes(32))
		var sig []byte
		var err error
		var a, b *big.Int
		switch r.IntN(4) {
		case 0:
			sig, err = sm2.SignDigest(w.rand(r), k, d)
		case 1:
			sig, err = k.SignDigest(w.rand(r), d)
		case 2:
			a, b, err = sm2.SignDigestRS(w.rand(r), k, d)
		case 3:
			a, b, err = k.SignDigestRS(w.rand(r), d)
		}
		if o.ok("sign", err) {
			if sig != nil {
				a, b, _ = ref.ParseSig(sig)
				o.bytes("sig", sig)
			} else {
				o.big("r", a)
				o.big("s", b)
			}
			o.check(a != nil && ref.Verify(refPub(&k.PublicKey), d, a, b), "signature is not valid: %x %x", a, b)
			o.unique("digest sig", ref.MarshalSig(a, b))
		}
	}},
	{name: "sm2.Verify", fn: func(w *world, r *Rng, o *out) {
		k := &w.sm2(0).PublicKey
		i := r.IntN(3)
		m, id, sig := w.F.Msgs[i], w.F.IDs[i], w.F.Sigs[i]
		want := true
		switch r.IntN(5) {
		case 0:
			m, want = arg(o, "msg", tamper(r, m)), false
		case 1:
			sig, want = arg(o, "sig", tamper(r, sig)), false
		case 2:
			k, want = &w.sm2(1).PublicKey, false
		}
		var got bool
		if r.Chance(1, 2) {
			got = sm2.Verify(k, m, id, sig)
		} else {
			got = k.Verify(m, id, sig)
		}
		o.val("verdict", got)
		o.check(got == want, "verdict %v", got)
	}},
	{name: "sm2.VerifyRS", fn: func(w *world, r *Rng, o *out) {
		k := &w.sm2(0).PublicKey
		i := r.IntN(3)
		a, b := w.rs(i)
		m, id := w.F.Msgs[i], w.F.IDs[i]
		want := true
		switch r.IntN(4) {
		case 0:
			a, want = arg(o, "r", pick(r, bi(0), ref.N, add(a, one), add(a, ref.N), bi(-1))), false
		case 1:
			b, want = arg(o, "s", pick(r, bi(0), ref.N, add(b, one), sub(ref.N, a), bi(-5))), false
		}
		e, _ := ref.MsgDigest(k.X, k.Y, m, id)
		e = arg(o, "digest", e)
		got := []bool{sm2.VerifyRS(k, m, id, a, b), k.VerifyRS(m, id, a, b), sm2.VerifyDigestRS(k, e, a, b), k.VerifyDigestRS(e, a, b)}
		if d, err := sm2.MarshalSign(a, b); o.err("MarshalSign", err) {
			o.bytes("der", d)
			got = append(got, sm2.VerifyDigest(k, e, d), k.VerifyDigest(e, d))
		}
		for j, g := range got {
			o.check(g == want, "function %d: verdict %v", j, g)
		}
		o.val("verdicts", got)
	}},
	{name: "sm2.UnmarshalSign", fn: func(w *world, r *Rng, o *out) {
		a, b, err := sm2.UnmarshalSign(w.F.Sigs[r.IntN(3)])
		if o.ok("UnmarshalSign", err) {
			o.big("r", a)
			o.big("s", b)
		}
		_, _, err = sm2.UnmarshalSign(arg(o, "bad", r.Bytes(10)))
		o.err("bad", err)
	}},
	{name: "sm2.Encryt", fn: func(w *world, r *Rng, o *out) {
		k, m := w.sm2(r.IntN(2)), w.F.Msgs[r.IntN(3)]
		ct, err := sm2.Encryt(w.rand(r), &k.PublicKey, m)
		if o.ok("Encryt", err) {
			o.bytes("ct", ct)
			p, ok := ref.Decrypt(k.D, ct)
			o.check(ok && bytes.Equal(p, m), "ciphertext does not decrypt: %x", ct)
			o.unique("C1", ct[:min(65, len(ct))])
		}
	}},
	{name: "sm2.Decryt", fn: func(w *world, r *Rng, o *out) {
		i := r.IntN(3)
		ct := w.F.CTs[i]
		want := true
		if r.Chance(1, 3) {
			ct, want = arg(o, "ct", tamper(r, ct)), false
		}
		p, err := sm2.Decryt(w.sm2(0), ct)
		o.err("Decryt", err)
		o.bytes("pt", p)
		o.check((err == nil) == want && (!want || bytes.Equal(p, w.F.Msgs[i])), "plaintext %x, %v", p, err)
	}},
	{name: "sm2 keys", fn: func(w *world, r *Rng, o *out) {
		k := w.sm2(r.IntN(2))
		o.val("public", k.Public())
		o.val("equal", []bool{k.Equal(w.sm2(0)), k.Equal(w.key(0)), k.PublicKey.Equal(&w.sm2(1).PublicKey), k.Equal(w.key(3)), k.PublicKey.Equal(w.pub(2))})
		d, err := k.PublicKey.SM3Digest(w.F.Msgs[r.IntN(3)], w.F.IDs[r.IntN(3)])
		o.ok("SM3Digest", err)
		o.bytes("digest", d)
		_, err = k.PublicKey.SM3Digest(w.F.Msgs[0], arg(o, "id", r.Bytes(9000)))
		o.err("long id", err)
	}},
	{name: "sm2.GenerateKey", fn: func(w *world, r *Rng, o *out) {
		k, err := sm2.GenerateKey(w.rand(r))
		if o.ok("GenerateKey", err) {
			o.big("D", k.D)
			o.big("X", k.X)
			o.big("Y", k.Y)
			p := ref.BaseMul(k.D)
			o.check(eqInt(p.X, k.X) && eqInt(p.Y, k.Y), "public key of %x is wrong", k.D)
			o.unique("D", k.D.Bytes())
		}
	}},
	{name: "sm2 failing source", fn: func(w *world, r *Rng, o *out) {
		n := r.IntN(30)
		_, err := sm2.GenerateKey(&failReader{n})
		o.err("GenerateKey", err)
		_, _, err = sm2.SignRS(&failReader{n}, w.sm2(0), w.F.Msgs[0], nil)
		o.err("SignRS", err)
		_, err = sm2.Encryt(&failReader{n}, &w.sm2(0).PublicKey, w.F.Msgs[0])
		o.err("Encryt", err)
		o.check(err != nil, "no error")
	}},
	{name: "curve", fn: func(w *world, r *Rng, o *out) {
		c := sm2.SM2P256V1()
		p, q := &w.sm2(0).PublicKey, &w.sm2(1).PublicKey
		n := r.Big(one, ref.N)
		if r.Chance(1, 3) {
			n = smallNonce(r)
		}
		k := arg(o, "scalar", pick(r, b32(n), n.Bytes()))
		pt := func(name string, x, y *big.Int) { o.big(name+" x", x); o.big(name+" y", y) }
		switch r.IntN(5) {
		case 0:
			x, y := c.Add(p.X, p.Y, q.X, q.Y)
			pt("sum", x, y)
			s := ref.Add(refPub(p), refPub(q))
			o.check(eqInt(x, s.X) && eqInt(y, s.Y), "wrong sum")
		case 1:
			x, y := c.Double(p.X, p.Y)
			pt("double", x, y)
		case 2:
			x, y := c.ScalarMult(p.X, p.Y, k)
			pt("multiple", x, y)
			s := ref.Mul(refPub(p), new(big.Int).SetBytes(k))
			o.check(eqInt(x, s.X) && eqInt(y, s.Y), "wrong multiple")
		case 3:
			x, y := c.ScalarBaseMult(k)
			pt("base multiple", x, y)
		case 4:
			o.val("on", []bool{c.IsOnCurve(p.X, p.Y), c.IsOnCurve(p.X, q.Y)})
		}
		o.val("params", c.Params())
	}},
	{name: "ParseCertificate", fn: func(w *world, r *Rng, o *out) {
		i := r.IntN(5)
		c, err := mx.ParseCertificate(w.F.Certs[i])
		if o.ok("ParseCertificate", err) {
			o.val("certificate", recordOf(c))
			o.check(bytes.Equal(c.Raw, w.F.Certs[i]), "Raw differs")
			o.obj(c)
		}
		all := arg(o, "chain", cat(w.F.Certs...))
		cs, err := mx.ParseCertificates(all)
		if o.ok("ParseCertificates", err) {
			for _, c := range cs {
				o.val("certificate", recordOf(c))
			}
			o.obj(cs)
		}
		c, err = mx.ParseCertificate(arg(o, "damaged", tamper(r, w.F.Certs[i])))
		if o.err("damaged", err) {
			o.val("certificate", recordOf(c))
		}
	}},
	{name: "CheckSignatureFrom", fn: func(w *world, r *Rng, o *out) {
		i := r.IntN(4)
		err := w.cert(i).CheckSignatureFrom(w.cert(i))
		o.ok("self", err)
		err = w.cert(4).CheckSignatureFrom(w.cert(0))
		o.ok("leaf", err)
		j := r.IntN(4)
		err = w.cert(4).CheckSignatureFrom(w.cert(j))
		o.err("other", err)
		o.check((err == nil) == (j == 0), "leaf by %d: %v", j, err)
		o.val("equal", []bool{w.cert(i).Equal(w.cert(j)), w.cert(i).Equal(nil)})
	}},
	{name: "CheckSignature", fn: func(w *world, r *Rng, o *out) {
		i := r.IntN(4)
		c := w.cert(i)
		o.ok("genuine", c.CheckSignature(c.SignatureAlgorithm, c.RawTBSCertificate, c.Signature))
		err := c.CheckSignature(c.SignatureAlgorithm, arg(o, "tbs", tamper(r, c.RawTBSCertificate)), c.Signature)
		o.err("altered", err)
		o.check(err != nil, "altered: no error")
		a := mx.SignatureAlgorithm(r.IntN(20))
		err = c.CheckSignature(a, c.RawTBSCertificate, arg(o, "sig", tamper(r, c.Signature)))
		o.err("other algorithm", err)
		o.check(err != nil, "other algorithm: no error")
	}},
	{name: "CreateCertificate", fn: func(w *world, r *Rng, o *out) {
		w.templates()
		i := pick(r, 0, 0, 1, 2, 3)
		tm, parent := w.Tmpl[r.IntN(3)], w.cert(i)
		if r.Chance(1, 4) {
			parent = tm
		}
		pub := w.pub(r.IntN(4))
		der, err := mx.CreateCertificate(w.rand(r), tm, parent, pub, w.signer(i))
		o.err("CreateCertificate", err)
		if parent != w.cert(i) && err != nil {
			return
		}
		if !o.check(err == nil, "CreateCertificate: %v", err) {
			return
		}
		o.hold("der", der)
		if i == 0 || i == 3 {
			o.bytes("der", der)
			if i == 0 {
				o.unique("certificate", der)
			}
		}
		c, err := mx.ParseCertificate(clone(der))
		if o.ok("parse", err) {
			o.bytes("tbs", c.RawTBSCertificate)
			o.ok("signature", w.cert(i).CheckSignature(c.SignatureAlgorithm, c.RawTBSCertificate, c.Signature))
		}
		// And failing ways.
		_, err = mx.CreateCertificate(w.rand(r), tm, parent, pub, failSigner{w.signer(i)})
		o.err("failing signer", err)
		o.check(err != nil, "failing signer: no error")
		_, err = mx.CreateCertificate(w.rand(r), tm, parent, "not a key", w.signer(i))
		o.err("bad key", err)
		o.check(err != nil, "bad key: no error")
	}},
	{name: "CreateCertificateRequest", fn: func(w *world, r *Rng, o *out) {
		w.templates()
		i := pick(r, 0, 0, 1, 2, 3)
		j := r.IntN(2)
		der, err := mx.CreateCertificateRequest(w.rand(r), w.Req[j], w.signer(i))
		if !o.err("CreateCertificateRequest", err) {
			o.check(j == 1, "CreateCertificateRequest: %v", err)
			return
		}
		if i == 0 || i == 3 {
			o.bytes("der", der)
		}
		c, err := mx.ParseCertificateRequest(clone(der))
		if o.ok("parse", err) {
			o.bytes("tbs", c.RawTBSCertificateRequest)
			o.ok("signature", c.CheckSignature())
		}
		_, err = mx.CreateCertificateRequest(w.rand(r), w.Req[j], failSigner{w.signer(i)})
		o.err("failing signer", err)
		o.check(err != nil, "failing signer: no error")
	}},
	{name: "requests", fn: func(w *world, r *Rng, o *out) {
		i := r.IntN(4)
		c, err := mx.ParseCertificateRequest(w.F.CSRs[i])
		if o.ok("ParseCertificateRequest", err) {
			o.val("request", recordOf(c, csrFields...))
			o.ok("CheckSignature", c.CheckSignature())
			o.obj(c)
		}
		o.ok("shared", w.csr(i).CheckSignature())
		c, err = mx.ParseCertificateRequest(arg(o, "damaged", tamper(r, w.F.CSRs[i])))
		if o.err("damaged", err) {
			o.err("damaged CheckSignature", c.CheckSignature())
		}
	}},
	{name: "CreateCRL", fn: func(w *world, r *Rng, o *out) {
		w.templates()
		i := pick(r, 0, 0, 1, 2, 3)
		now := time.Date(2025, 1, 1, 0, 0, 0, 0, time.UTC)
		der, err := w.cert(i).CreateCRL(w.rand(r), w.signer(i), w.Revs, now, now.AddDate(1, 0, 0))
		if !o.ok("CreateCRL", err) {
			return
		}
		if i == 0 || i == 3 {
			o.bytes("der", der)
		}
		l, err := mx.ParseDERCRL(der)
		if o.ok("parse", err) {
			o.bytes("tbs", l.TBSCertList.Raw)
			o.ok("signature", w.cert(i).CheckCRLSignature(l))
			o.check(len(l.TBSCertList.RevokedCertificates) == len(w.Revs), "%d entries", len(l.TBSCertList.RevokedCertificates))
		}
	}},
	{name: "CreateRevocationList", fn: func(w *world, r *Rng, o *out) {
		w.templates()
		i := pick(r, 0, 0, 1, 2, 3)
		der, err := mx.CreateRevocationList(w.rand(r), w.RevTm, w.cert(i), w.signer(i))
		if !o.ok("CreateRevocationList", err) {
			return
		}
		if i == 0 || i == 3 {
			o.bytes("der", der)
		}
		l, err := mx.ParseCRL(der)
		if o.ok("parse", err) {
			o.bytes("tbs", l.TBSCertList.Raw)
			o.ok("signature", w.cert(i).CheckCRLSignature(l))
		}
		_, err = mx.CreateRevocationList(w.rand(r), w.RevTm, w.cert(i), failSigner{w.signer(i)})
		o.check(err != nil, "failing signer: no error")
		_, err = mx.CreateRevocationList(w.rand(r), w.RevTm, w.Tmpl[2], w.signer(i))
		o.err("unfit issuer", err)
	}},
	{name: "lists", fn: func(w *world, r *Rng, o *out) {
		in := w.F.CRLs[r.IntN(2)]
		l, err := mx.ParseCRL(in)
		if o.ok("ParseCRL", err) {
			o.val("list", l.TBSCertList)
			o.ok("signature", w.cert(0).CheckCRLSignature(l))
			o.obj(l)
		}
		o.ok("shared", w.cert(0).CheckCRLSignature(w.crl()))
		err = w.cert(r.IntN(3) + 1).CheckCRLSignature(w.crl())
		o.err("wrong key", err)
		o.check(err != nil, "wrong key: no error")
		_, err = mx.ParseCRL(arg(o, "damaged", tamper(r, in)))
		o.val("damaged", err == nil)
	}},
	{name: "PKCS7", fn: func(w *world, r *Rng, o *out) {
		i := r.IntN(2)
		p, err := mx.ParsePKCS7(w.F.P7[i])
		if o.ok("ParsePKCS7", err) {
			o.val("message", p.Signers)
			o.bytes("content", p.Content)
			o.ok("Verify", p.Verify())
			o.obj(p)
		}
		if p, err = mx.ParsePKCS7(arg(o, "damaged", tamper(r, w.F.P7[i]))); o.err("damaged", err) {
			o.err("damaged Verify", p.Verify())
		}
	}},
	{name: "PKCS7 shared", fn: func(w *world, r *Rng, o *out) {
		p := w.p7(r.IntN(2))
		o.ok("Verify", p.Verify())
		if c := p.GetOnlySigner(); c != nil {
			o.bytes("signer", c.Raw)
		} else {
			o.check(len(p.Signers) != 1, "no signer")
		}
		var d []byte
		o.err("attribute", p.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 4}, &d))
		o.bytes("digest", d)
		var rv asn1.RawValue
		o.err("other attribute", p.UnmarshalSignedAttribute(asn1.ObjectIdentifier{1, 2, 840, 113549, 1, 9, 3}, &rv))
		o.bytes("type", rv.FullBytes)
	}},
	{name: "NewSignedData", fn: func(w *world, r *Rng, o *out) {
		m := w.F.Msgs[r.IntN(3)]
		var sd []byte
		var err error
		if r.Chance(1, 2) {
			sd, err = mx.NewSignedData(w.cert(0), w.key(0), m)
		} else {
			rd := w.rand(r)
			sd, err = mx.NewSignedDataCallBack(w.cert(0), func(b []byte) ([]byte, error) {
				defer func() { // the callee may use its argument as it likes
					for i := range b {
						b[i] ^= 0xff
					}
				}()
				return sm2.Sign(rd, w.sm2(0), b, nil)
			}, m)
		}
		if o.ok("NewSignedData", err) {
			o.hold("message", sd)
			s, err := readSD(sd)
			if o.check(err == nil, "message is not well formed: %v", err) {
				o.check(bytes.Equal(s.content, m), "content %x", s.content)
			}
			p, err := mx.ParsePKCS7(clone(sd))
			if o.ok("parse", err) {
				o.ok("Verify", p.Verify())
				o.unique("signed data", sd)
			}
		}
		_, err = mx.NewSignedDataCallBack(w.cert(0), func(b []byte) ([]byte, error) { return nil, errInjected }, m)
		o.check(err != nil, "failing callback: no error")
		_, err = mx.NewSignedData(w.cert(1), w.key(1), m)
		o.err("RSA", err)
	}},
	{name: "private key codecs", fn: func(w *world, r *Rng, o *out) {
		i := r.IntN(4)
		der, err := mx.MarshalPKCS8PrivateKey(w.key(i))
		if o.ok("MarshalPKCS8PrivateKey", err) {
			o.bytes("pkcs8", der)
			k, err := mx.ParsePKCS8PrivateKey(der)
			o.ok("ParsePKCS8PrivateKey", err)
			o.check(samePriv(k, w.key(i)), "another key")
			o.obj(k)
		}
		_, err = mx.ParsePKCS8PrivateKey(w.F.PK8[r.IntN(4)])
		o.ok("ParsePKCS8PrivateKey", err)
		k, err := mx.ParseECPrivateKey(w.F.Sec1[r.IntN(2)])
		o.ok("ParseECPrivateKey", err)
		o.val("type", fmt.Sprintf("%T", k))
		der, err = mx.MarshalECPrivateKey(w.key(2).(*ecdsa.PrivateKey))
		o.ok("MarshalECPrivateKey", err)
		o.bytes("sec1", der)
		rk, err := mx.ParsePKCS1PrivateKey(w.F.Pkcs1)
		if o.ok("ParsePKCS1PrivateKey", err) {
			o.check(samePriv(rk, w.key(1)), "another key")
		}
		o.bytes("pkcs1", mx.MarshalPKCS1PrivateKey(w.key(1).(*rsa.PrivateKey)))
		_, err = mx.ParsePKCS8PrivateKey(arg(o, "damaged", tamper(r, w.F.PK8[i])))
		o.err("damaged", err)
		_, err = mx.MarshalPKCS8PrivateKey(struct{}{})
		o.err("no key", err)
	}},
	{name: "public key codecs", fn: func(w *world, r *Rng, o *out) {
		i := r.IntN(4)
		pub := w.pub(i)
		der, err := mx.MarshalPKIXPublicKey(pub)
		if o.ok("MarshalPKIXPublicKey", err) {
			o.bytes("pkix", der)
			k, err := mx.ParsePKIXPublicKey(arg(o, "pkix", clone(der)))
			o.ok("ParsePKIXPublicKey", err)
			o.check(samePub(k, pub), "another key")
			o.obj(k)
			_, err = mx.ParsePKIXPublicKey(arg(o, "damaged", tamper(r, der)))
			o.err("damaged", err)
		}
		b := mx.MarshalPKCS1PublicKey(w.pub(1).(*rsa.PublicKey))
		o.bytes("pkcs1", b)
		k, err := mx.ParsePKCS1PublicKey(arg(o, "pkcs1", clone(b)))
		o.ok("ParsePKCS1PublicKey", err)
		o.check(samePub(k, w.pub(1)), "another key")
		_, err = mx.MarshalPKIXPublicKey(struct{}{})
		o.err("no key", err)
	}},
	{name: "names and hashes", fn: func(w *world, r *Rng, o *out) {
		for h := mx.Hash(0); h < 24; h++ {
			o.vals = append(o.vals, fmt.Sprint(h.Available(), h.String(), h.HashFunc()))
			if h.Available() {
				x := h.New()
				x.Write(w.F.Msgs[0])
				o.bytes("hash", x.Sum(nil))
			}
		}
		for a := mx.SignatureAlgorithm(0); a < 20; a++ {
			o.vals = append(o.vals, a.String(), mx.PublicKeyAlgorithm(a).String(), mx.InsecureAlgorithmError(a).Error())
		}
		o.vals = append(o.vals, (&mx.MessageDigestMismatchError{ExpectedDigest: w.F.Msgs[0], ActualDigest: w.F.Msgs[1]}).Error(), mx.UnhandledCriticalExtension{}.Error(), pkcs12.NotImplementedError("x").Error())
	}},
	{name: "pkcs12.Encode", fn: func(w *world, r *Rng, o *out) {
		w.templates()
		i := r.IntN(4)
		pw := pick(r, "", "pass", w.F.P12[0].PW)
		file, err := pkcs12.Encode(w.key(i), w.cert(i), w.Std[:r.IntN(3)], pw)
		if o.ok("Encode", err) {
			o.bytes("file", file)
			f, err := ref.DecodePFX(file, bmp(pw))
			if o.check(err == nil, "file is not well formed: %v", err) {
				for _, s := range p12Salts(f) {
					o.unique("salt", s)
				}
			}
		}
		_, err = pkcs12.Encode(w.key(i), w.cert(i), nil, "\U0001F512")
		o.err("bad password", err)
		o.check(err != nil, "bad password: no error")
		_, err = pkcs12.Encode(struct{}{}, w.cert(i), nil, pw)
		o.err("no key", err)
	}},
	{name: "pkcs12.Decode", fn: func(w *world, r *Rng, o *out) {
		f := w.F.P12[r.IntN(2)]
		k, cs, err := pkcs12.DecodeAll(f.File, f.PW)
		if o.ok("DecodeAll", err) {
			o.val("key", k)
			for _, c := range cs {
				o.bytes("certificate", c.Raw)
			}
			o.obj(k)
			o.obj(cs)
		}
		k, c, err := pkcs12.Decode(f.File, f.PW)
		o.val("Decode", err == nil)
		if err == nil {
			o.val("key", k)
			o.bytes("certificate", c.Raw)
		}
		_, _, err = pkcs12.DecodeAll(f.File, otherPassword(r, f.PW))
		o.err("wrong password", err)
		o.check(err != nil, "wrong password: no error")
		_, _, err = pkcs12.DecodeAll(arg(o, "damaged", f.File[:len(f.File)-1-r.IntN(40)]), f.PW)
		o.check(err != nil, "damaged: no error")
	}},
	{name: "pkcs12.ToPEM", fn: func(w *world, r *Rng, o *out) {
		f := w.F.P12[r.IntN(2)]
		bl, err := pkcs12.ToPEM(f.File, f.PW)
		if o.err("ToPEM", err) {
			for _, b := range bl {
				o.val("type", b.Type)
				o.val("headers", b.Headers)
				o.bytes("bytes", b.Bytes)
			}
		}
		_, err = pkcs12.ToPEM(f.File, otherPassword(r, f.PW))
		o.check(err != nil, "wrong password: no error")
	}},
	{name: "pkcs12 files", file: true, fn: func(w *world, r *Rng, o *out) {
		fn := filepath.Join(w.dir, fmt.Sprintf("f%d-%x.p12", goid(), r.Uint64()))
		defer os.Remove(fn)
		pw := pick(r, "pass", "", "ключ")
		if !o.ok("SM2P12Encrypt", pkcs12.SM2P12Encrypt(w.cert(0), pw, w.sm2(0), fn)) {
			return
		}
		b, err := os.ReadFile(fn)
		o.check(err == nil, "no file: %v", err)
		c, k, err := pkcs12.SM2P12Decrypt(fn, pw)
		if o.ok("SM2P12Decrypt", err) {
			o.check(samePriv(k, w.sm2(0)) && bytes.Equal(c.Raw, w.cert(0).Raw), "another key or certificate")
		}
		_, _, err = pkcs12.SM2P12Decrypt(fn, pw+"x")
		o.check(err != nil, "wrong password: no error")
		b2, err := os.ReadFile(fn)
		o.check(err == nil && bytes.Equal(b, b2), "reading the file changed it")
	}},
	{name: "RC2", fn: func(w *world, r *Rng, o *out) {
		in := arg(o, "block", r.Bytes(8))
		want := ref.NewRC2(w.F.RC2, 8*len(w.F.RC2))
		dst := make([]byte, 8)
		w.rc2().Encrypt(dst, in)
		o.bytes("ct", dst)
		o.check(bytes.Equal(dst, want.Encrypt(in)), "wrong block")
		back := make([]byte, 8)
		w.rc2().Decrypt(back, in)
		o.bytes("pt", back)
		o.check(bytes.Equal(back, want.Decrypt(in)), "wrong block")
		c, err := pkcs12.New(w.F.RC2, 8*len(w.F.RC2))
		if o.ok("New", err) {
			buf := clone(in)
			c.Encrypt(buf, buf)
			o.bytes("in place", buf)
		}
	}},
	{name: "random keys and certificates", fn: func(w *world, r *Rng, o *out) {
		// Ed25519 keys come by value: the slice is shared.
		k := w.key(3).(ed25519.PrivateKey)
		der, err := mx.MarshalPKCS8PrivateKey(k)
		o.ok("MarshalPKCS8PrivateKey", err)
		o.bytes("der", der)
		sk, err := sm2.GenerateKey(w.rand(r))
		if !o.ok("GenerateKey", err) {
			return
		}
		tm := arg(o, "template", genTemplate(r, true))
		crt, err := mx.CreateCertificate(w.rand(r), tm, tm, &sk.PublicKey, sm2Signer{sk})
		if o.ok("CreateCertificate", err) {
			o.bytes("certificate", crt)
			c, err := mx.ParseCertificate(crt)
			if o.ok("parse", err) {
				c.KeyUsage, c.IsCA, c.BasicConstraintsValid = 0, true, true
				o.ok("signature", c.CheckSignatureFrom(c))
			}
		}
	}},
}
