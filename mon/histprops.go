package main

import (
	"bytes"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/hmac"
	"crypto/rsa"
	"crypto/sha1"
	stdx "crypto/x509"
	"encoding/json"
	"encoding/pem"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"
	"reflect"
	"strings"
	"time"

	"mon/ref"

	"github.com/mmdet/mcrypto/pkcs12"
	"github.com/mmdet/mcrypto/sm2"
	mx "github.com/mmdet/mcrypto/x509"
)

func init() {
	register(&Prop{
		ID: "C30",
		Rule: fmt.Sprintf("histories of the %d actions of C22 in a process of their own, on key objects, certificates, templates and buffers that take on other values between calls, with results overwritten after use; each call is repeated as the only one of a new process and must give the same result. "+
			"Histories of SM2 calls over few keys, messages, ids, nonces, signatures and ciphertexts against the reference. Histories of PKCS #12 files of the reference that share passwords, salts or counts and differ in another of them, or in the algorithms. Every parser twice on equal bytes, the first result overwritten in between. Distinct (action, arguments, values)", len(actions)),
		Groups: []Group{
			{Name: "processes", N: [2]int{40, 2500}, Fn: histProcess},
			{Name: "parsed twice", N: [2]int{500, 30000}, Fn: func(t *T, i int) { parseAgain(t, parsersAgain[i%len(parsersAgain)]) }, Serial: true},
			{Name: "verification", N: [2]int{20, 4000}, Fn: histVerify, Serial: true},
			{Name: "signing", N: [2]int{20, 3000}, Fn: histSign, Serial: true},
			{Name: "encryption", N: [2]int{20, 3000}, Fn: histEncrypt, Serial: true},
			{Name: "decryption", N: [2]int{20, 4000}, Fn: histDecrypt, Serial: true},
			{Name: "derivation", N: [2]int{40, 2500}, Fn: histDerive, Serial: true},
		},
	})
}

// ---- overwriting what a call returned

// scrub overwrites everything that can be reached through the exported fields of a result, as a caller may who is done with it.
// Curves stay: they belong to the packages.
func scrub(v any) { scrubValue(reflect.ValueOf(v), map[uintptr]bool{}) }

func scrubValue(v reflect.Value, seen map[uintptr]bool) {
	if !v.IsValid() {
		return
	}
	switch {
	case v.Type() == bigType:
		if !v.IsNil() && v.CanInterface() {
			v.Interface().(*big.Int).SetInt64(-987654321)
		}
		return
	case v.Type() == timeType:
		if v.CanSet() {
			v.Set(reflect.ValueOf(time.Unix(1, 0)))
		}
		return
	case v.Type() == curveType, v.Type() == paramsType, v.Type().Implements(curveType):
		return
	}
	switch v.Kind() {
	case reflect.Interface:
		if !v.IsNil() {
			scrubValue(v.Elem(), seen)
		}
	case reflect.Pointer:
		if v.IsNil() || seen[v.Pointer()] {
			return
		}
		seen[v.Pointer()] = true
		scrubValue(v.Elem(), seen)
	case reflect.Struct:
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				scrubValue(v.Field(i), seen)
			}
		}
	case reflect.Slice:
		if v.Type().Elem().Kind() == reflect.Uint8 {
			for i, b := 0, v.Bytes(); i < len(b); i++ {
				b[i] ^= 0x5a
			}
			return
		}
		for i := 0; i < v.Len(); i++ {
			scrubValue(v.Index(i), seen)
		}
	case reflect.Array:
		for i := 0; i < v.Len(); i++ {
			scrubValue(v.Index(i), seen)
		}
	case reflect.Map:
		for _, k := range v.MapKeys() {
			v.SetMapIndex(k, reflect.Value{})
		}
	case reflect.String:
		if v.CanSet() {
			v.SetString("scrubbed " + v.String())
		}
	case reflect.Bool:
		if v.CanSet() {
			v.SetBool(!v.Bool())
		}
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		if v.CanSet() {
			v.SetInt(v.Int() ^ 0x15)
		}
	case reflect.Uint, reflect.Uint8, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		if v.CanSet() {
			v.SetUint(v.Uint() ^ 0x15)
		}
	}
}

// ---- parsing the same bytes twice

type parserAgain struct {
	name string
	make func(t *T) (in []byte, pw string)
	call func(in []byte, pw string) (any, error)
	use  func(v any) string // what a method of the result says
}

var parsersAgain = []parserAgain{
	{"ParseCertificate", func(t *T) ([]byte, string) { return anyCert(t), "" }, func(in []byte, _ string) (any, error) { return mx.ParseCertificate(in) }, func(v any) string {
		c := v.(*mx.Certificate)
		return fmt.Sprint(c.CheckSignatureFrom(c))
	}},
	{"ParseCertificates", func(t *T) ([]byte, string) { return cat(anyCert(t), anyCert(t)), "" }, func(in []byte, _ string) (any, error) { return mx.ParseCertificates(in) }, nil},
	{"ParseCertificateRequest", func(t *T) ([]byte, string) {
		return must(mx.CreateCertificateRequest(t.sys, genRequest(t.Rng), anyKey(t.Rng).signer)), ""
	}, func(in []byte, _ string) (any, error) { return mx.ParseCertificateRequest(in) }, func(v any) string {
		return fmt.Sprint(v.(*mx.CertificateRequest).CheckSignature())
	}},
	{"ParseCRL", func(t *T) ([]byte, string) { return anyCRL(t), "" }, func(in []byte, _ string) (any, error) { return mx.ParseCRL(in) }, nil},
	{"ParseDERCRL", func(t *T) ([]byte, string) { return anyCRL(t), "" }, func(in []byte, _ string) (any, error) { return mx.ParseDERCRL(in) }, nil},
	{"ParsePKCS7", func(t *T) ([]byte, string) {
		s, _ := genSD(t, 3)
		return s.der(), ""
	}, func(in []byte, _ string) (any, error) { return mx.ParsePKCS7(in) }, func(v any) string {
		p := v.(*mx.PKCS7)
		var d []byte
		err := p.UnmarshalSignedAttribute([]int{1, 2, 840, 113549, 1, 9, 4}, &d)
		return fmt.Sprintf("%v %x %v %v", p.Verify(), d, err, p.GetOnlySigner() != nil)
	}},
	{"ParsePKCS8PrivateKey", func(t *T) ([]byte, string) { return keyDER8(anyKey(t.Rng)), "" }, func(in []byte, _ string) (any, error) { return mx.ParsePKCS8PrivateKey(in) }, nil},
	{"ParsePKIXPublicKey", func(t *T) ([]byte, string) { return anyKey(t.Rng).pubDER(), "" }, func(in []byte, _ string) (any, error) { return mx.ParsePKIXPublicKey(in) }, nil},
	{"ParseECPrivateKey", func(t *T) ([]byte, string) {
		if t.Chance(1, 2) {
			return must(stdx.MarshalECPrivateKey(genKey(t.Rng, "P256").priv.(*ecdsa.PrivateKey))), ""
		}
		d, _ := genD(t.Rng)
		return sec1SM2(d, ref.BaseMul(d), true, true), ""
	}, func(in []byte, _ string) (any, error) { return mx.ParseECPrivateKey(in) }, nil},
	{"ParsePKCS1PrivateKey", func(t *T) ([]byte, string) {
		return stdx.MarshalPKCS1PrivateKey(genKey(t.Rng, "RSA small").priv.(*rsa.PrivateKey)), ""
	}, func(in []byte, _ string) (any, error) { return mx.ParsePKCS1PrivateKey(in) }, nil},
	{"ParsePKCS1PublicKey", func(t *T) ([]byte, string) {
		return stdx.MarshalPKCS1PublicKey(genKey(t.Rng, "RSA small").pub.(*rsa.PublicKey)), ""
	}, func(in []byte, _ string) (any, error) { return mx.ParsePKCS1PublicKey(in) }, nil},
	{"UnmarshalSign", func(t *T) ([]byte, string) { return ref.MarshalSig(edgeRS(t.Rng), edgeRS(t.Rng)), "" }, func(in []byte, _ string) (any, error) {
		r, s, err := sm2.UnmarshalSign(in)
		return []*big.Int{r, s}, err
	}, nil},
	{"DecodeAll", func(t *T) ([]byte, string) { return sm2P12(t) }, func(in []byte, pw string) (any, error) {
		k, c, err := pkcs12.DecodeAll(in, pw)
		return []any{k, c}, err
	}, nil},
	{"Decode", func(t *T) ([]byte, string) { return stdP12(t) }, func(in []byte, pw string) (any, error) {
		k, c, err := pkcs12.Decode(in, pw)
		return []any{k, c}, err
	}, nil},
	{"ToPEM", func(t *T) ([]byte, string) { return stdP12(t) }, func(in []byte, pw string) (any, error) {
		b, err := pkcs12.ToPEM(in, pw)
		var out []*pem.Block
		out = append(out, b...)
		return out, err
	}, nil},
	{"Decryt", func(t *T) ([]byte, string) {
		ct, _ := ref.EncryptK(ref.G, t.Bytes(20), t.Big(one, nm1))
		return ct, ""
	}, func(in []byte, _ string) (any, error) { return sm2.Decryt(newSM2(bi(1)), in) }, nil},
}

func anyCert(t *T) []byte {
	k := anyKey(t.Rng)
	tm := genTemplate(t.Rng, true)
	return must(mx.CreateCertificate(t.sys, tm, tm, k.pub, k.signer))
}

func anyCRL(t *T) []byte {
	k := genKey(t.Rng, pick(t.Rng, "SM2", "P256"))
	tm := genTemplate(t.Rng, true)
	c := must(mx.ParseCertificate(must(mx.CreateCertificate(t.sys, tm, tm, k.pub, k.signer))))
	now := time.Date(2024, 1, 2, 3, 4, 5, 0, time.UTC)
	return must(c.CreateCRL(t.sys, k.signer, genEntries(t.Rng), now, now.AddDate(0, 1, 0)))
}

func sm2P12(t *T) ([]byte, string) { return oneP12(t, "SM2") }

// stdP12 makes a file whose key and certificate crypto/x509 reads too; Decode and ToPEM support no others.
func stdP12(t *T) ([]byte, string) { return oneP12(t, "P256", "RSA small") }

func oneP12(t *T, kinds ...string) ([]byte, string) {
	k, certs, pw := genP12(t, kinds...)
	p, _ := refSpec(t, k, certs[:1], bmp(pw), true)
	return ref.EncodePFX(p, bmp(pw)), pw
}

// again returns the group that runs parseAgain for the named parsers.
func again(quick, thorough int, names ...string) Group {
	var ps []parserAgain
	for _, n := range names {
		found := false
		for _, p := range parsersAgain {
			if p.name == n {
				ps = append(ps, p)
				found = true
			}
		}
		if !found {
			panic("no parser " + n)
		}
	}
	return Group{Name: "again", N: [2]int{quick, thorough}, Fn: func(t *T, i int) { parseAgain(t, ps[i%len(ps)]) }, Serial: true}
}

// parseAgain parses equal bytes several times while earlier results are overwritten, with other input in between, and from a
// buffer that held something else.
func parseAgain(t *T, p parserAgain) {
	in, pw := p.make(t)
	other, opw := p.make(t)
	state := func(v any, err error) string {
		s := dumpString(v) + "\n" + fmt.Sprint(err)
		if p.use != nil && err == nil {
			s += "\n" + p.use(v)
		}
		return s
	}
	var kept any
	var keptWas string
	want := map[bool]string{}
	for _, o := range []bool{false, true} {
		b, w := in, pw
		if o {
			b, w = other, opw
		}
		v, err := p.call(clone(b), w)
		want[o] = state(v, err)
		t.Cover(fmt.Sprintf("%s: %v", p.name, err == nil))
		if !o {
			kept, keptWas = v, dumpString(v)
		} else {
			scrub(v)
		}
	}
	buf := make([]byte, max(len(in), len(other)))
	for n := 0; n < 6; n++ {
		o := t.Chance(1, 3)
		b, w := in, pw
		if o {
			b, w = other, opw
		}
		from := clone(b)
		if t.Chance(1, 2) {
			from = buf[:copy(buf, b)]
		}
		v, err := p.call(from, w)
		got := state(v, err)
		t.Check(got == want[o], "%s of the same bytes gives something else after earlier results were overwritten (call %d): %s", p.name, n, firstDiff(strings.Split(want[o], "\n"), strings.Split(got, "\n")))
		t.mustEq("the input of "+p.name, from, b)
		scrub(v)
		t.Check(dumpString(kept) == keptWas, "%s: overwriting one result changed another (call %d): %s", p.name, n, firstDiff(strings.Split(keptWas, "\n"), dump(kept, false)))
	}
	t.Key("%s %x", p.name, in)
}

// ---- histories against calls that are alone in their process

// become gives the objects of w the values that f stands for, in place.
func (w *world) become(f *fixture, r *Rng) {
	n := newWorld(cloneFixture(f), w.dir).load()
	for i, k := range n.SM2 {
		switch r.IntN(3) {
		case 0:
			*w.SM2[i] = *k
		case 1:
			w.SM2[i].D.Set(k.D)
			w.SM2[i].X.Set(k.X)
			w.SM2[i].Y.Set(k.Y)
		case 2:
			w.SM2[i].D, w.SM2[i].X, w.SM2[i].Y = k.D, k.X, k.Y
		}
	}
	for i, k := range n.Key {
		switch k := k.(type) {
		case *sm2.PrivateKey:
			*w.Key[i].(*sm2.PrivateKey) = *k
		case *rsa.PrivateKey:
			*w.Key[i].(*rsa.PrivateKey) = *k
		case *ecdsa.PrivateKey:
			*w.Key[i].(*ecdsa.PrivateKey) = *k
		case ed25519.PrivateKey:
			copy(w.Key[i].(ed25519.PrivateKey), k)
		}
	}
	for i := range n.Cert {
		*w.Cert[i] = *n.Cert[i]
	}
	for i := range n.CSR {
		*w.CSR[i] = *n.CSR[i]
	}
	*w.CRL[0] = *n.CRL[0]
	for i := range n.P7 {
		*w.P7[i] = *n.P7[i]
	}
	for i := range n.R {
		w.R[i].Set(n.R[i])
		w.S[i].Set(n.S[i])
	}
	for i := range n.Tmpl {
		*w.Tmpl[i] = *n.Tmpl[i]
	}
	for i := range n.Req {
		*w.Req[i] = *n.Req[i]
	}
	*w.RevTm = *n.RevTm
	w.Revs = n.Revs
	for i := range n.Std {
		*w.Std[i] = *n.Std[i]
	}
	w.RC2 = n.RC2
	w.F.Seed = n.F.Seed
	put := func(dst *[]byte, src []byte) {
		if src == nil || r.Chance(1, 4) {
			*dst = src
		} else {
			*dst = append((*dst)[:0], src...)
		}
	}
	for _, l := range [][2][][]byte{{w.F.D, n.F.D}, {w.F.PK8, n.F.PK8}, {w.F.Sec1, n.F.Sec1}, {w.F.Certs, n.F.Certs}, {w.F.CSRs, n.F.CSRs}, {w.F.CRLs, n.F.CRLs}, {w.F.P7, n.F.P7},
		{w.F.Msgs, n.F.Msgs}, {w.F.IDs, n.F.IDs}, {w.F.Sigs, n.F.Sigs}, {w.F.CTs, n.F.CTs}} {
		for i := range l[1] {
			put(&l[0][i], clone(l[1][i]))
		}
	}
	put(&w.F.Pkcs1, clone(n.F.Pkcs1))
	put(&w.F.RC2, clone(n.F.RC2))
	for i := range n.F.P12 {
		put(&w.F.P12[i].File, clone(n.F.P12[i].File))
		w.F.P12[i].PW = n.F.P12[i].PW
	}
}

func cloneFixture(f *fixture) *fixture {
	b, err := json.Marshal(f)
	if err != nil {
		panic(err)
	}
	c := &fixture{}
	json.Unmarshal(b, c)
	c.Seed = f.Seed
	return c
}

type histStep struct {
	Action int
	Seed   uint64
	Fix    int
	Vals   []string
}

// histMain runs a history and writes what each call gave.
func histMain(a []string) {
	fix := []*fixture{readFixture(a[0]), readFixture(a[1])}
	useSysReader(7)
	r := newRng("hist", a[3])
	w := newWorld(cloneFixture(fix[0]), a[2]).load()
	w.small = true
	// Few actions with few arguments, so that calls resemble each other.
	var acts []int
	for n := 1 + r.IntN(4); n > 0; n-- {
		acts = append(acts, r.IntN(len(actions)))
	}
	fmt.Sscan(a[4], &acts[0])
	seeds := []uint64{r.Uint64(), r.Uint64(), r.Uint64()}
	cur := 0
	out := json.NewEncoder(os.Stdout)
	for n := 0; n < 24; n++ {
		if r.Chance(1, 3) {
			cur = 1 - cur
			w.become(fix[cur], r)
		}
		s := histStep{Action: pick(r, acts...), Seed: pick(r, seeds...), Fix: cur}
		o := actions[s.Action].do(w, s.Seed)
		s.Vals = append(append([]string{}, o.vals...), o.panic)
		out.Encode(s)
		if r.Chance(1, 2) { // the caller is done with the results
			for _, l := range o.live {
				for j := range l.now {
					l.now[j] ^= 0x5a
				}
			}
			for _, b := range o.bigs {
				b.SetInt64(12345)
			}
			for _, x := range o.objs {
				scrub(x)
			}
			w.become(fix[cur], r)
		}
	}
	fmt.Println(`"history done"`)
}

func readFixture(fn string) *fixture {
	b, err := os.ReadFile(fn)
	if err != nil {
		fatal("%v", err)
	}
	f := &fixture{}
	if err := json.Unmarshal(b, f); err != nil {
		fatal("%v", err)
	}
	return f
}

// aloneMain runs one action, the first and only one of its process.
func aloneMain(a []string) {
	f := readFixture(a[0])
	useSysReader(7)
	var s histStep
	fmt.Sscan(a[2], &s.Action)
	fmt.Sscan(a[3], &s.Seed)
	w := newWorld(f, a[1])
	w.small = true
	o := actions[s.Action].do(w, s.Seed)
	s.Vals = append(append([]string{}, o.vals...), o.panic)
	json.NewEncoder(os.Stdout).Encode(s)
}

func histProcess(t *T, i int) {
	dir := t.scratch()
	a := newFixture(t)
	b := newFixtureLike(t, a, t.IntN(3))
	var fix []string
	for n, f := range []*fixture{a, b} {
		fn := filepath.Join(dir, fmt.Sprint("fixture", n))
		j, _ := json.Marshal(f)
		if err := os.WriteFile(fn, j, 0600); err != nil {
			panic(err)
		}
		fix = append(fix, fn)
	}
	work := filepath.Join(dir, "work")
	os.Mkdir(work, 0700)
	self, _ := os.Executable()
	seed := fmt.Sprint(t.Uint64())
	msg, err := exec.Command(self, "hist", fix[0], fix[1], work, seed, fmt.Sprint(i%len(actions))).CombinedOutput()
	if err != nil || !bytes.Contains(msg, []byte("history done")) {
		t.Failf("history %s of %s: %v: %s", seed, actions[i%len(actions)].name, err, head(string(msg), 4000))
	}
	alone := map[string][]string{}
	var before []string
	for _, line := range bytes.Split(bytes.TrimSpace(msg), []byte("\n")) {
		var s histStep
		if json.Unmarshal(line, &s) != nil {
			continue
		}
		name := actions[s.Action].name
		k := fmt.Sprintf("%d %d %d", s.Fix, s.Action, s.Seed)
		want, ok := alone[k]
		if !ok {
			o, err := exec.Command(self, "alone", fix[s.Fix], work, fmt.Sprint(s.Action), fmt.Sprint(s.Seed)).CombinedOutput()
			var one histStep
			if err != nil || json.Unmarshal(o, &one) != nil {
				t.Failf("%s alone (arguments %x): %v: %s", name, s.Seed, err, head(string(o), 3000))
			}
			want = one.Vals
			alone[k] = want
			t.Key("%s %x", name, k)
		}
		t.Check(diffVals(s.Vals, want) == "", "%s (arguments %x, values %d) after %v gives another result than alone in its process: %s", name, s.Seed, s.Fix, before, diffVals(s.Vals, want))
		before = append(before, fmt.Sprintf("%s %x %d", name, s.Seed&0xffff, s.Fix))
		if len(before) > 6 {
			before = before[1:]
		}
		t.Cover(name)
	}
}

// histDerive opens files whose keys come from passwords, salts and counts that are largely, never wholly, the same.
func histDerive(t *T, i int) {
	r := t.Rng
	k := genKey(r, pick(r, "P256", "SM2", "Ed25519"))
	certs := [][]byte{certFor(r, k, 0)}
	pws := []string{pick(r, "", "a", r.Name(1+r.IntN(20))), r.Name(1 + r.IntN(20))}
	salts := [][]byte{fill(r, pick(r, 8, 8, 8, 1, 20, 64)), fill(r, pick(r, 8, 8, 16, 20))}
	if r.Chance(1, 4) { // the next password and salt make the same text when put one after the other
		salts[1] = append(clone(salts[0]), salts[0]...)
	}
	counts := []int{1, 2, pick(r, 3, 10, 100), 1 + r.IntN(2000)}
	pbe := func() []byte { return pick(r, ref.OID3DES, ref.OIDRC240) }
	spec := func(pw string) (ref.PFX, *p12Want) {
		f, w := refSpec(t, k, certs, bmp(pw), true)
		f.MacSalt, f.MacIter, f.NoMacIter = pick(r, salts...), pick(r, counts...), false
		for s := range f.Safes {
			f.Safes[s].Salt, f.Safes[s].Iter, f.Safes[s].PBE = pick(r, salts...), pick(r, counts...), pbe()
			for b := range f.Safes[s].Bags {
				if f.Safes[s].Bags[b].Key {
					f.Safes[s].Bags[b].Salt, f.Safes[s].Bags[b].Iter, f.Safes[s].Bags[b].PBE = pick(r, salts...), pick(r, counts...), pbe()
				}
			}
		}
		return f, w
	}
	type file struct {
		der, mac []byte
		pw       string
		w        *p12Want
		what     string
	}
	var files []file
	for len(files) < 4 {
		pw := pick(r, pws[0], pws[0], pws[1])
		f, w := spec(pw)
		x := file{der: ref.EncodePFX(f, bmp(pw)), pw: pw, w: w, what: fmt.Sprintf("password %q, integrity %x %d, parts", pw, f.MacSalt, f.MacIter)}
		for _, s := range f.Safes {
			x.what += fmt.Sprintf(" %x %d", s.Salt, s.Iter)
		}
		// the same, but for a count of the integrity check that it was not made with
		g := f
		for g.MacIter == f.MacIter {
			g.MacIter = pick(r, counts...)
		}
		as := body(elems(elems(elems(x.der)[1])[1])[0])
		digest := func(f ref.PFX) []byte {
			m := hmac.New(sha1.New, ref.P12KDF(3, bmp(pw), f.MacSalt, f.MacIter, 20))
			m.Write(as)
			return m.Sum(nil)
		}
		x.mac = bytes.Replace(ref.WrapAuthSafe(as, g, bmp(pw)), digest(g), digest(f), 1)
		files = append(files, x)
	}
	for n := 0; n < 8; n++ {
		x := files[r.IntN(len(files))]
		what := fmt.Sprintf("file %d (%s)", n, x.what)
		if r.Chance(1, 3) {
			key, cs, err := pkcs12.DecodeAll(clone(x.mac), x.pw)
			t.Check(err == pkcs12.ErrIncorrectPassword && key == nil && cs == nil, "%s, with another count of the integrity check: %v", what, err)
			t.Cover("another count refused")
			continue
		}
		p12CheckAll(t, what, x.der, x.pw, x.w)
		if wrong := pws[0] + pws[1]; !ref.P12KeyEq(wrong, x.pw) {
			_, _, err := pkcs12.DecodeAll(clone(x.der), wrong)
			t.Check(err == pkcs12.ErrIncorrectPassword, "%s: password %q: %v", what, wrong, err)
		}
		t.Key("%x", sha1sum(x.der))
		t.Cover("opened")
	}
}
