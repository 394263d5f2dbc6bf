package main

import (
	"bytes"
	"fmt"
	"math/big"
	"os"
	"os/exec"
	"path/filepath"

	"mon/ref"

	"github.com/mmdet/mcrypto/sm2"
)

// signWith makes a signature through one of the eight signing entry points. der is nil for the raw ones.
func signWith(t *T, e int, s *src, priv *sm2.PrivateKey, msg, id []byte) (r, sv *big.Int, der []byte, err error) {
	dig := func() []byte {
		d, err := ref.MsgDigest(priv.X, priv.Y, msg, id)
		if err != nil {
			t.Failf("harness: %v", err)
		}
		return d
	}
	switch e % 8 {
	case 0:
		der, err = sm2.Sign(s, priv, msg, id)
	case 1:
		der, err = priv.Sign(s, msg, id)
	case 2:
		der, err = sm2.SignDigest(s, priv, dig())
	case 3:
		der, err = priv.SignDigest(s, dig())
	case 4:
		r, sv, err = sm2.SignRS(s, priv, msg, id)
	case 5:
		r, sv, err = priv.SignRS(s, msg, id)
	case 6:
		r, sv, err = sm2.SignDigestRS(s, priv, dig())
	case 7:
		r, sv, err = priv.SignDigestRS(s, dig())
	}
	if err == nil && e%8 < 4 {
		var ok bool
		r, sv, ok = ref.ParseSig(der)
		t.Check(ok, "%s returned %s, which is not DER of two integers", signNames[e%8], hx(der))
		t.mustEq("DER signature", der, ref.MarshalSig(r, sv))
	}
	return
}

var signNames = [8]string{"Sign", "PrivateKey.Sign", "SignDigest", "PrivateKey.SignDigest", "SignRS", "PrivateKey.SignRS", "SignDigestRS", "PrivateKey.SignDigestRS"}
var verifyNames = [8]string{"Verify", "PublicKey.Verify", "VerifyRS", "PublicKey.VerifyRS", "VerifyDigest", "PublicKey.VerifyDigest", "VerifyDigestRS", "PublicKey.VerifyDigestRS"}

func cp(x *big.Int) *big.Int { return new(big.Int).Set(x) }

// verifyMsg checks that the message entry points give the verdict want.
func verifyMsg(t *T, what string, pub *sm2.PublicKey, msg, id []byte, r, s *big.Int, want bool) {
	der := ref.MarshalSig(r, s)
	for e := 0; e < 4; e++ {
		var got bool
		t.guard(verifyNames[e]+" "+what, func() {
			switch e {
			case 0:
				got = sm2.Verify(pub, msg, id, der)
			case 1:
				got = pub.Verify(msg, id, der)
			case 2:
				got = sm2.VerifyRS(pub, msg, id, cp(r), cp(s))
			case 3:
				got = pub.VerifyRS(msg, id, cp(r), cp(s))
			}
		})
		if got != want {
			t.Logf("key %x,%x msg %s id %s r %x s %x", pub.X, pub.Y, hx(msg), hx(id), r, s)
		}
		t.Check(got == want, "%s: %s = %v, want %v", what, verifyNames[e], got, want)
	}
}

// verifyDig does the same for the digest entry points.
func verifyDig(t *T, what string, pub *sm2.PublicKey, dig []byte, r, s *big.Int, want bool) {
	der := ref.MarshalSig(r, s)
	for e := 4; e < 8; e++ {
		var got bool
		t.guard(verifyNames[e]+" "+what, func() {
			switch e {
			case 4:
				got = sm2.VerifyDigest(pub, dig, der)
			case 5:
				got = pub.VerifyDigest(dig, der)
			case 6:
				got = sm2.VerifyDigestRS(pub, dig, cp(r), cp(s))
			case 7:
				got = pub.VerifyDigestRS(dig, cp(r), cp(s))
			}
		})
		if got != want {
			t.Logf("key %x,%x digest %s r %x s %x", pub.X, pub.Y, hx(dig), r, s)
		}
		t.Check(got == want, "%s: %s = %v, want %v", what, verifyNames[e], got, want)
	}
}

// verifyDER checks the four entry points that take bytes.
func verifyDER(t *T, what string, pub *sm2.PublicKey, msg, id, dig, der []byte, want bool) {
	for e, got := range []bool{sm2.Verify(pub, msg, id, der), pub.Verify(msg, id, der), sm2.VerifyDigest(pub, dig, der), pub.VerifyDigest(dig, der)} {
		if got != want {
			t.Logf("key %x,%x msg %s id %s sig %s", pub.X, pub.Y, hx(msg), hx(id), hx(der))
		}
		t.Check(got == want, "%s: %s of %s = %v, want %v", what, []string{"Verify", "PublicKey.Verify", "VerifyDigest", "PublicKey.VerifyDigest"}[e], hx(der), got, want)
	}
}

func genID(r *Rng) []byte {
	switch r.IntN(6) {
	case 0:
		return nil
	case 1:
		return []byte{}
	case 2:
		return []byte("1234567812345678")
	case 3:
		return r.Bytes(pick(r, 1, 15, 16, 17, 31, 32, 33, 63, 64, 65, 127, 128, 8190, 8191))
	}
	return fill(r, r.IntN(200))
}

// signChecked signs and has everything verify the result.
func signChecked(t *T, e int, s *src, priv *sm2.PrivateKey, msg, id []byte) (r, sv *big.Int) {
	dig, err := ref.MsgDigest(priv.X, priv.Y, msg, id)
	t.noErr("harness digest", err)
	got, err := priv.PublicKey.SM3Digest(msg, id)
	t.noErr("SM3Digest", err)
	t.mustEq("SM3Digest", got, dig)
	var der []byte
	r, sv, der, err = signWith(t, e, s, priv, msg, id)
	t.noErr(signNames[e%8], err)
	p := refPub(&priv.PublicKey)
	if !ref.Verify(p, dig, r, sv) {
		t.Logf("d %x msg %s id %s", priv.D, hx(msg), hx(id))
	}
	t.Check(ref.Verify(p, dig, r, sv), "%s: the reference refuses r=%x s=%x", signNames[e%8], r, sv)
	m, err := sm2.MarshalSign(r, sv)
	t.noErr("MarshalSign", err)
	t.mustEq("MarshalSign", m, ref.MarshalSig(r, sv))
	if der != nil {
		r1, s1, err := sm2.UnmarshalSign(der)
		t.Check(err == nil && eqInt(r1, r) && eqInt(s1, sv), "UnmarshalSign(%s) = %x, %x, %v", hx(der), r1, s1, err)
	}
	verifyMsg(t, "genuine signature by "+signNames[e%8], &priv.PublicKey, msg, id, r, sv, true)
	verifyDig(t, "genuine signature by "+signNames[e%8], &priv.PublicKey, dig, r, sv, true)
	if len(id) == 0 {
		verifyMsg(t, "default id spelled out", &priv.PublicKey, msg, ref.DefaultID, r, sv, true)
	} else if bytes.Equal(id, ref.DefaultID) {
		verifyMsg(t, "default id left out", &priv.PublicKey, msg, nil, r, sv, true)
		verifyMsg(t, "default id empty", &priv.PublicKey, msg, []byte{}, r, sv, true)
	}
	return
}

// digestFor returns a digest for which (r, s) is a valid signature under the key.
func digestFor(p ref.Pt, r, s *big.Int) ([]byte, bool) {
	tt := modN(add(r, s))
	if tt.Sign() == 0 {
		return nil, false
	}
	q := ref.Add(ref.BaseMul(s), ref.Mul(p, tt))
	if q.Inf {
		return nil, false
	}
	return b32(modN(sub(r, q.X))), true
}

func edgeRS(r *Rng) *big.Int {
	switch r.IntN(6) {
	case 0:
		return pick(r, bi(1), bi(2), bi(127), bi(128), bi(255), bi(256), nm1, nm2, new(big.Int).Rsh(ref.N, 1))
	case 1:
		return r.Big(one, new(big.Int).Lsh(one, uint(1+r.IntN(255))))
	}
	return r.Big(one, nm1)
}

func init() {
	register(&Prop{
		ID: "C05",
		Rule: "all eight signing entry points x all eight verifying ones, over keys, messages, ids of 0..8191 bytes and beyond, digests of any length, nonces steered into each retry condition, reference signatures with chosen r and s, openssl both ways. " +
			"Oracle: reference verifier, Z, DER writer. Distinct = distinct (r, s).",
		Groups: []Group{
			{Name: "pairings", N: [2]int{800, 40000}, Fn: func(t *T, i int) {
				d, kind := genD(t.Rng)
				s := newSrc(t, t.Rng)
				if t.Chance(1, 4) {
					s.short = 1 + t.IntN(39)
				}
				msg, id := fill(t.Rng, t.Len(2000)), genID(t.Rng)
				r, sv := signChecked(t, i, s, newSM2(d), msg, id)
				t.Cover("key " + kind)
				t.Cover("signed by " + signNames[i%8])
				t.Key("%x %x", r, sv)
				if i%800 == 0 {
					t.Sample("%s, key %s, id %s, %d-byte message: r=%x s=%x", signNames[i%8], kind, hx(id), len(msg), r, sv)
				}
			}},
			{Name: "generated key", N: [2]int{100, 4000}, Fn: func(t *T, i int) {
				priv, err := sm2.GenerateKey(newSrc(t, t.Rng))
				t.noErr("GenerateKey", err)
				r, sv := signChecked(t, i, newSrc(t, t.Rng), priv, t.Bytes(t.Len(300)), genID(t.Rng))
				t.Key("%x %x", r, sv)
			}},
			{Name: "id length", N: [2]int{140, 8260}, Fn: func(t *T, i int) {
				n := i
				if t.Quick() && i >= 80 {
					n = []int{8191, 8192, 8193, 8190, 8191 + 16, 8192 + 16, 9000, 16384, 16385, 65535, 65536, 70000, 255, 256, 257, 4095, 4096, 8100}[i%18]
				}
				d, _ := genD(t.Rng)
				priv := newSM2(d)
				msg, id := t.Bytes(t.IntN(80)), t.Bytes(n)
				if n <= 8191 {
					r, sv := signChecked(t, i, newSrc(t, t.Rng), priv, msg, id)
					t.Key("%x %x", r, sv)
					t.Cover("id fits")
					return
				}
				t.Cover("id too long")
				for _, e := range []int{0, 1, 4, 5} {
					r, sv, _, err := signWith(t, e, newSrc(t, t.Rng), priv, msg, id)
					t.Check(err != nil, "%s accepted an id of %d bytes", signNames[e], n)
					t.Check(r == nil && sv == nil, "%s returned a signature with its error", signNames[e])
				}
				_, err := priv.SM3Digest(msg, id)
				t.wantErr("SM3Digest with an id too long", err)
				// The signature that truncating the length would make.
				l := uint16(n * 8)
				z := ref.SM3(cat([]byte{byte(l >> 8), byte(l)}, id, b32(ref.A), b32(ref.B), b32(ref.GX), b32(ref.GY), b32(priv.X), b32(priv.Y)))
				if r, sv, ok := ref.SignK(d, ref.SM3(cat(z, msg)), t.Big(one, nm1)); ok {
					verifyMsg(t, "signature over a truncated id length", &priv.PublicKey, msg, id, r, sv, false)
				}
			}},
			{Name: "digest length", N: [2]int{300, 8000}, Fn: func(t *T, i int) {
				d, _ := genD(t.Rng)
				priv := newSM2(d)
				dig := fill(t.Rng, i%100)
				if i%10 == 0 { // values from n to 2^256
					dig = b32(t.Big(ref.N, sub(b256, one)))
				}
				s := newSrc(t, t.Rng)
				der, err := priv.SignDigest(s, dig)
				t.noErr("SignDigest", err)
				r, sv, ok := ref.ParseSig(der)
				t.Check(ok && ref.Verify(refPub(&priv.PublicKey), dig, r, sv), "the reference refuses the signature of digest %s", hx(dig))
				verifyDig(t, "digest of another length", &priv.PublicKey, dig, r, sv, true)
				r, sv, err = sm2.SignDigestRS(s, priv, dig)
				t.noErr("SignDigestRS", err)
				verifyDig(t, "digest of another length", &priv.PublicKey, dig, r, sv, true)
				t.Key("%x %x", r, sv)
			}},
			{Name: "retry", N: [2]int{180, 3000}, Fn: func(t *T, i int) {
				// The nonce the source offers first makes r = 0, r + k = n or s = 0.
				d, _ := genD(t.Rng)
				priv := newSM2(d)
				k := t.Big(one, nm1)
				if i%6 >= 3 {
					k = pick(t.Rng, bi(1), bi(2), nm1, nm2)
				}
				x := ref.BaseMul(k).X
				var e *big.Int
				switch i % 3 {
				case 0:
					e = modN(sub(new(big.Int), x))
				case 1:
					e = modN(sub(sub(ref.N, k), x))
				case 2:
					e = modN(sub(mul(k, invN(d)), x))
				}
				_, _, ok := ref.SignK(d, b32(e), k)
				t.Check(!ok, "harness: no retry case")
				s := newSrc(t, t.Rng)
				s.script = kBytes(k)
				for j := 0; j < 2; j++ {
					var r, sv *big.Int
					var err error
					if j == 0 {
						r, sv, err = sm2.SignDigestRS(s, priv, b32(e))
					} else {
						s.n = 0
						r, sv, err = priv.SignDigestRS(s, b32(e))
					}
					t.noErr("SignDigestRS", err)
					t.Check(ref.Verify(refPub(&priv.PublicKey), b32(e), r, sv), "retry condition %d: the reference refuses r=%x s=%x", i%3, r, sv)
					verifyDig(t, "after a retry", &priv.PublicKey, b32(e), r, sv, true)
					t.Key("%x %x", r, sv)
				}
				if s.n > 40 {
					t.Cover(fmt.Sprintf("retried: %s", []string{"r=0", "r+k=n", "s=0"}[i%3]))
				}
			}},
			{Name: "extreme nonce", N: [2]int{60, 1000}, Fn: func(t *T, i int) {
				d, _ := genD(t.Rng)
				s := newSrc(t, t.Rng)
				s.script = kBytes(pick(t.Rng, bi(1), bi(2), nm1, nm2, d, sub(ref.N, d), specialK(t.Rng, "x3")))
				r, sv := signChecked(t, i, s, newSM2(d), t.Bytes(t.IntN(80)), nil)
				t.Key("%x %x", r, sv)
			}},
			{Name: "foreign", N: [2]int{400, 20000}, Fn: func(t *T, i int) {
				d, _ := genD(t.Rng)
				priv := newSM2(d)
				msg, id := fill(t.Rng, t.Len(500)), genID(t.Rng)
				dig, _ := ref.MsgDigest(priv.X, priv.Y, msg, id)
				k := t.Big(one, nm1)
				if i%3 == 0 {
					k = edgeRS(t.Rng)
				}
				r, sv, ok := ref.SignK(d, dig, k)
				if !ok {
					return
				}
				verifyMsg(t, "reference signature", &priv.PublicKey, msg, id, r, sv, true)
				verifyDig(t, "reference signature", &priv.PublicKey, dig, r, sv, true)
				t.Key("%x %x", r, sv)
			}},
			{Name: "chosen r and s", N: [2]int{400, 20000}, Fn: func(t *T, i int) {
				// A digest for which any wanted (r, s) is genuine.
				d, _ := genD(t.Rng)
				p := ref.BaseMul(d)
				r, sv := edgeRS(t.Rng), edgeRS(t.Rng)
				dig, ok := digestFor(p, r, sv)
				if !ok {
					return
				}
				verifyDig(t, "chosen r and s", sm2Pub(p), dig, r, sv, true)
				m, err := sm2.MarshalSign(cp(r), cp(sv))
				t.noErr("MarshalSign", err)
				t.mustEq("MarshalSign", m, ref.MarshalSig(r, sv))
				r1, s1, err := sm2.UnmarshalSign(m)
				t.Check(err == nil && eqInt(r1, r) && eqInt(s1, sv), "UnmarshalSign(%s) = %x, %x, %v", hx(m), r1, s1, err)
				t.Key("%x %x", r, sv)
			}},
			{Name: "coinciding points", N: [2]int{120, 6000}, Fn: func(t *T, i int) {
				// A nonce and a digest whose signature has the verifier meet an uncommon sum: the two points are
				// equal, one of them is twice the other or its inverse, one is the base point or the key, or the
				// sum is.
				d, _ := genD(t.Rng)
				p := ref.BaseMul(d)
				tt := pick(t.Rng, bi(1), bi(2), nm1, t.Big(one, nm1))
				td := modN(mul(tt, d))
				names := []string{"sG = tP", "sG = 2tP", "2sG = tP", "sG = -2tP", "s = 1", "s = n - 1", "t = 1 or so", "sG = P", "sum = G", "sum = P", "sum = -P", "sG = -P"}
				var s *big.Int
				switch i % 12 {
				case 0:
					s = td
				case 1:
					s = modN(mul(td, two))
				case 2:
					s = modN(mul(td, invN(two)))
				case 3:
					s = modN(sub(new(big.Int), mul(td, two)))
				case 4:
					s = bi(1)
				case 5:
					s = nm1
				case 6:
					tt = pick(t.Rng, bi(1), bi(2), bi(3), nm1, nm2)
					td = modN(mul(tt, d))
					s = t.Big(one, nm1)
				case 7:
					s = d
				case 8:
					s = modN(sub(one, td))
				case 9:
					s = modN(sub(d, td))
				case 10:
					s = modN(sub(new(big.Int), add(d, td)))
				case 11:
					s = sub(ref.N, d)
				}
				r := modN(sub(tt, s))
				k := modN(add(s, td))
				if s.Sign() == 0 || r.Sign() == 0 || k.Sign() == 0 {
					return
				}
				dig := b32(modN(sub(r, ref.BaseMul(k).X)))
				t.Check(ref.Verify(p, dig, r, s), "harness: %s is not genuine", names[i%12])
				verifyDig(t, names[i%12], sm2Pub(p), dig, r, s, true)
				src := newSrc(t, t.Rng)
				src.script = kBytes(k)
				r1, s1, err := sm2.SignDigestRS(src, newSM2(d), dig)
				t.noErr("SignDigestRS", err)
				t.Check(ref.Verify(p, dig, r1, s1), "%s: the reference refuses r=%x s=%x", names[i%12], r1, s1)
				verifyDig(t, names[i%12]+", signed here", sm2Pub(p), dig, r1, s1, true)
				if eqInt(r, r1) && eqInt(s, s1) {
					t.Cover("signed here with " + names[i%12])
				}
				t.Key("%x %x", r, s)
			}},
			{Name: "tiny coordinates", N: [2]int{300, 12000}, Fn: func(t *T, i int) {
				// A key, or the sum of a verification, with a coordinate of few bytes.
				q, what := tinyPoint(t.Rng)
				s, tt := t.Big(one, nm1), t.Big(one, nm1)
				r := modN(sub(tt, s))
				p := q
				if i%2 == 1 {
					p = ref.Mul(ref.Add(q, ref.Neg(ref.BaseMul(s))), invN(tt))
					what = "sum " + what
				}
				dig, ok := digestFor(p, r, s)
				if !ok || r.Sign() == 0 || p.Inf {
					return
				}
				t.Check(ref.Verify(p, dig, r, s), "harness: not genuine")
				verifyDig(t, what, sm2Pub(p), dig, r, s, true)
				msg, id := t.Bytes(t.IntN(100)), genID(t.Rng)
				want, err := ref.MsgDigest(p.X, p.Y, msg, id)
				if err == nil {
					got, err := sm2Pub(p).SM3Digest(msg, id)
					t.noErr("SM3Digest", err)
					t.mustEq("SM3Digest", got, want)
				}
				t.Cover(what)
				t.Key("%x %x %x", p.X, r, s)
			}},
			{Name: "openssl", N: [2]int{6, 40}, CPULimit: 120, Fn: func(t *T, i int) { opensslSign(t, i) }},
			{Name: "history", N: [2]int{60, 4000}, Fn: histSign, Serial: true},
		},
	})

	register(&Prop{
		ID: "C06",
		Rule: "genuine signatures and everything near them: boundary and congruent r and s, altered message, id, key and digest, constructed infinity, doubling and x=0 cases, mutated and non-canonical DER. " +
			"Oracle: reference verifier and strict DER reader; verdicts of all eight verifying entry points must agree. Distinct = distinct (variant, key, r, s or bytes).",
		Groups: []Group{
			{Name: "history", N: [2]int{80, 6000}, Fn: histVerify, Serial: true},
			{Name: "near", N: [2]int{720, 60000}, Fn: nearRecomputed},
			{Name: "range", N: [2]int{120, 6000}, Fn: func(t *T, i int) {
				d, _ := genD(t.Rng)
				priv := newSM2(d)
				pub := &priv.PublicKey
				p := refPub(pub)
				msg, id := t.Bytes(t.IntN(100)), genID(t.Rng)
				dig, _ := ref.MsgDigest(priv.X, priv.Y, msg, id)
				r, s, ok := ref.SignK(d, dig, t.Big(one, nm1))
				if !ok {
					return
				}
				n := ref.N
				neg := func(x *big.Int) *big.Int { return new(big.Int).Neg(x) }
				vals := func(x *big.Int) []*big.Int {
					return []*big.Int{new(big.Int), bi(1), bi(-1), nm1, n, add(n, one), add(x, n), sub(x, n), neg(x), sub(n, x), add(x, one), sub(x, one), sub(b256, one), add(b256, x), add(x, mul(n, bi(int64(2+t.IntN(100))))), ref.P, mul(x, two), t.Big(one, nm1)}
				}
				try := func(what string, a, b *big.Int) {
					verifyMsg(t, what, pub, msg, id, a, b, ref.Verify(p, dig, a, b))
					verifyDig(t, what, pub, dig, a, b, ref.Verify(p, dig, a, b))
					t.Key("%s %x %x", what, a, b)
				}
				try("genuine", r, s)
				try("swapped", s, r)
				rs, ss := vals(r), vals(s)
				for j := range rs {
					if j%6 == i%6 {
						try(fmt.Sprintf("r variant %d", j), rs[j], s)
						try(fmt.Sprintf("s variant %d", j), r, ss[j])
						try(fmt.Sprintf("both variant %d", j), rs[j], ss[t.IntN(len(ss))])
					}
				}
				// r + s = 0 mod n with each in range
				try("r + s = n", r, sub(n, r))
				try("r + s = n", sub(n, s), s)
				try("zero", new(big.Int), new(big.Int))
				if i%100 == 0 {
					t.Sample("d=%x r=%x s=%x and its variants", d, r, s)
				}
			}},
			{Name: "altered", N: [2]int{480, 20000}, Fn: func(t *T, i int) {
				d, _ := genD(t.Rng)
				priv := newSM2(d)
				pub := &priv.PublicKey
				msg, id := t.Bytes(1+t.IntN(150)), genID(t.Rng)
				dig, _ := ref.MsgDigest(priv.X, priv.Y, msg, id)
				r, s, ok := ref.SignK(d, dig, t.Big(one, nm1))
				if !ok {
					return
				}
				try := func(what string, p *sm2.PublicKey, m, u []byte) {
					dg, err := ref.MsgDigest(p.X, p.Y, m, u)
					want := err == nil && ref.Verify(refPub(p), dg, r, s)
					verifyMsg(t, what, p, m, u, r, s, want)
					if err == nil {
						verifyDig(t, what, p, dg, r, s, want)
					}
					t.Key("%s %x %x", what, r, s)
					t.Cover(fmt.Sprintf("%s: %v", what, want))
				}
				try("genuine", pub, msg, id)
				switch i % 8 {
				case 0:
					m := clone(msg)
					m[t.IntN(len(m))] ^= 1 << t.IntN(8)
					try("message bit", pub, m, id)
				case 1:
					try("message truncated", pub, msg[:len(msg)-1], id)
					try("message extended", pub, cat(msg, []byte{0}), id)
					try("message empty", pub, nil, id)
				case 2:
					u := clone(id)
					if len(u) == 0 {
						u = clone(ref.DefaultID)
					}
					u[t.IntN(len(u))] ^= 1 << t.IntN(8)
					try("id bit", pub, msg, u)
				case 3:
					try("id nil", pub, msg, nil)
					try("id empty", pub, msg, []byte{})
					try("id default", pub, msg, ref.DefaultID)
					try("id extended", pub, msg, cat(id, []byte{0}))
					try("id zero byte", pub, msg, []byte{0})
				case 4:
					e, _ := genD(t.Rng)
					try("other key", &newSM2(e).PublicKey, msg, id)
					try("negated key", sm2Pub(ref.Neg(refPub(pub))), msg, id)
				case 5:
					// message and id traded
					try("message and id swapped", pub, id, msg)
					if len(id) > 0 {
						try("boundary moved", pub, cat(id[len(id)-1:], msg), id[:len(id)-1])
					}
				case 6:
					g := clone(dig)
					g[t.IntN(32)] ^= 1 << t.IntN(8)
					verifyDig(t, "digest bit", pub, g, r, s, ref.Verify(refPub(pub), g, r, s))
					verifyDig(t, "digest truncated", pub, dig[:31], r, s, ref.Verify(refPub(pub), dig[:31], r, s))
					verifyDig(t, "digest extended", pub, cat(dig, []byte{0}), r, s, ref.Verify(refPub(pub), cat(dig, []byte{0}), r, s))
					verifyDig(t, "digest with a zero before", pub, cat([]byte{0}, dig), r, s, true)
					e := add(new(big.Int).SetBytes(dig), ref.N)
					verifyDig(t, "digest plus n", pub, e.Bytes(), r, s, ref.Verify(refPub(pub), e.Bytes(), r, s))
				case 7:
					try("message digest as message", pub, dig, id)
					verifyDig(t, "message as digest", pub, msg, r, s, ref.Verify(refPub(pub), msg, r, s))
					z, _ := ref.Z(pub.X, pub.Y, id)
					verifyDig(t, "SM3 without Z", pub, ref.SM3(msg), r, s, ref.Verify(refPub(pub), ref.SM3(msg), r, s))
					verifyDig(t, "Z alone", pub, z, r, s, ref.Verify(refPub(pub), z, r, s))
				}
			}},
			{Name: "constructed", N: [2]int{600, 20000}, Fn: func(t *T, i int) {
				d, _ := genD(t.Rng)
				p := ref.BaseMul(d)
				var r, s *big.Int
				var dig []byte
				var what string
				switch i % 10 {
				case 0: // sG + tP is the point at infinity; a naive verifier then sees x = 0
					tt := t.Big(one, nm1)
					s = modN(mul(sub(ref.N, tt), d))
					r = modN(sub(tt, s))
					dig, what = b32(r), "infinity"
				case 1: // sG = tP
					tt := t.Big(one, nm1)
					s = modN(mul(tt, d))
					r = modN(sub(tt, s))
					dig, _ = digestFor(p, r, s)
					what = "doubling"
				case 2: // the sum has x = 0: genuine
					q, ok := ref.LiftX(new(big.Int))
					if !ok {
						return
					}
					if t.Chance(1, 2) {
						q = ref.Neg(q)
					}
					r, s = t.Big(one, nm1), t.Big(one, nm1)
					tt := modN(add(r, s))
					if tt.Sign() == 0 {
						return
					}
					p = ref.Mul(ref.Add(q, ref.Neg(ref.BaseMul(s))), invN(tt))
					dig, what = b32(r), "x = 0"
				case 3: // x reduced mod n
					lim := sub(ref.P, ref.N)
					x := add(ref.N, t.Big(new(big.Int), sub(lim, one)))
					q, ok := ref.LiftX(x)
					if !ok {
						return
					}
					r, s = t.Big(one, nm1), t.Big(one, nm1)
					tt := modN(add(r, s))
					if tt.Sign() == 0 {
						return
					}
					p = ref.Mul(ref.Add(q, ref.Neg(ref.BaseMul(s))), invN(tt))
					dig, what = b32(modN(sub(r, x))), "x above n"
				case 4: // r = e, so that x = 0 mod n would be needed
					r, s = t.Big(one, nm1), t.Big(one, nm1)
					dig, what = b32(r), "r = e"
				case 5: // e + x = r + n
					r, s = edgeRS(t.Rng), edgeRS(t.Rng)
					var ok bool
					if dig, ok = digestFor(p, r, s); !ok {
						return
					}
					e := add(new(big.Int).SetBytes(dig), ref.N)
					if e.BitLen() <= 256 {
						dig = b32(e)
					}
					what = "digest above n"
				case 6:
					// genuine for t, presented with r shifted so that r + s stays the same
					r, s = t.Big(two, nm2), t.Big(two, nm2)
					var ok bool
					if dig, ok = digestFor(p, r, s); !ok {
						return
					}
					r, s = add(r, one), sub(s, one)
					what = "same r + s"
				case 7: // r + s = n, where sG alone gives r: a forgery without the key
					s = edgeRS(t.Rng)
					r = sub(ref.N, s)
					dig, what = b32(modN(sub(r, ref.BaseMul(s).X))), "t = 0"
				case 8, 9: // a genuine signature with small parts, presented with n added: still 256 bits wide
					lim := sub(sub(b256, ref.N), one)
					r, s = t.Big(one, lim), t.Big(one, lim)
					if t.Chance(1, 2) {
						r, s = bi(int64(1+t.IntN(1000))), bi(int64(1+t.IntN(1000)))
					}
					var ok bool
					if dig, ok = digestFor(p, r, s); !ok {
						return
					}
					verifyDig(t, "small parts", sm2Pub(p), dig, r, s, true)
					for _, v := range [][2]*big.Int{{r, add(s, ref.N)}, {add(r, ref.N), s}, {add(r, ref.N), add(s, ref.N)}} {
						verifyDig(t, "small parts plus n", sm2Pub(p), dig, v[0], v[1], ref.Verify(p, dig, v[0], v[1]))
						t.Key("plus n %x %x", v[0], v[1])
					}
					what = "small parts"
				}
				if s.Sign() == 0 || r.Sign() == 0 {
					return
				}
				if p.Inf {
					return
				}
				want := ref.Verify(p, dig, r, s)
				verifyDig(t, what, sm2Pub(p), dig, r, s, want)
				t.Cover(fmt.Sprintf("%s: %v", what, want))
				t.Key("%s %x %x", what, r, s)
			}},
			{Name: "congruent", N: [2]int{300, 12000}, Fn: func(t *T, i int) {
				// The equation holds modulo n for the residues, one of which may be 0; only values in [1, n-1] may pass.
				d, _ := genD(t.Rng)
				p := ref.BaseMul(d)
				r, s := edgeRS(t.Rng), edgeRS(t.Rng)
				switch i % 3 {
				case 0:
					s = new(big.Int)
				case 1:
					r = new(big.Int)
				}
				dig, ok := digestFor(p, r, s)
				if !ok {
					return
				}
				js := []int64{-2, -1, 0, 1, 2, 3, int64(t.IntN(1 << 30))}
				for _, a := range js {
					for _, b := range js {
						if a*b != 0 && !t.Chance(1, 4) {
							continue
						}
						x, y := add(r, mul(ref.N, bi(a))), add(s, mul(ref.N, bi(b)))
						want := ref.Verify(p, dig, x, y)
						t.Check(want == (a == 0 && b == 0 && r.Sign() > 0 && s.Sign() > 0), "the reference accepts r=%x s=%x", x, y)
						verifyDig(t, "congruent values", sm2Pub(p), dig, x, y, want)
						t.Cover(fmt.Sprintf("congruent: %v", want))
						t.Key("congruent %x %x", x, y)
					}
				}
			}},
			{Name: "der", N: [2]int{720, 30000}, Fn: func(t *T, i int) {
				d, _ := genD(t.Rng)
				p := ref.BaseMul(d)
				priv := newSM2(d)
				// Small r or s now and then, where other encodings fit. They need a digest made for them.
				r, s := edgeRS(t.Rng), edgeRS(t.Rng)
				dig, ok := digestFor(p, r, s)
				if !ok {
					return
				}
				der := ref.MarshalSig(r, s)
				ri, si := ref.Int(r), ref.Int(s)
				rc, sc := ri[2:], si[2:]
				var m []byte
				what := ""
				switch i % 24 {
				case 0:
					m, what = cat(der, fill(t.Rng, 1+t.IntN(3))), "trailing"
				case 1:
					m, what = ref.TLV(0x30, ri, si, fill(t.Rng, 1+t.IntN(3))), "trailing inside"
				case 2:
					m, what = ref.TLV(0x30, ref.TLV(2, []byte{0}, rc), si), "r padded"
				case 3:
					m, what = ref.TLV(0x30, ri, ref.TLV(2, []byte{0}, sc)), "s padded"
				case 4:
					m, what = cat([]byte{0x30, 0x81, byte(len(der) - 2)}, der[2:]), "long length"
				case 5:
					m, what = cat([]byte{0x30, 0x82, 0, byte(len(der) - 2)}, der[2:]), "longer length"
				case 6:
					m, what = cat([]byte{0x30, 0x80}, der[2:], []byte{0, 0}), "indefinite length"
				case 7:
					m, what = der[:t.IntN(len(der))], "truncated"
				case 8:
					m, what = ref.TLV(0x30, ri), "one integer"
				case 9:
					m, what = ref.TLV(0x30, ri, si, ri), "three integers"
				case 10:
					m, what = ref.TLV(0x31, ri, si), "SET"
				case 11:
					m, what = ref.TLV(0x30, si, ri), "swapped"
				case 12:
					m, what = ref.TLV(0x30, ref.TLV(2, r.Bytes()), ref.TLV(2, s.Bytes())), "no sign octet"
				case 13:
					m, what = ref.TLV(0x30, ref.TLV(10, rc), si), "ENUMERATED"
				case 14:
					m, what = cat(b32(r), b32(s)), "raw"
				case 15:
					m, what = ref.TLV(0x30, ref.TLV(4, rc), ref.TLV(4, sc)), "OCTET STRING"
				case 16:
					m, what = ref.TLV(0x30, cat([]byte{2, 0x81, byte(len(rc))}, rc), si), "long length of r"
				case 17:
					m, what = ref.TLV(0x30, ref.TLV(2, add(r, ref.N).Bytes()), si), "r + n"
				case 18:
					m, what = ref.TLV(0x30, ref.TLV(2), si), "empty integer"
				case 19:
					m, what = ref.TLV(0x30, der), "nested"
				case 20:
					m, what = ref.TLV(0x30, ref.Int(add(r, ref.N)), si), "r + n, DER"
				case 21:
					m, what = ref.TLV(0x30, ri, ref.Int(add(s, mul(ref.N, bi(int64(1+t.IntN(1<<20)))))), nil), "s + jn, DER"
				case 22:
					m, what = fill(t.Rng, t.IntN(80)), "random"
				default:
					m, what = clone(der), "byte changed"
					for n := 1 + t.IntN(2); n > 0; n-- {
						m[t.IntN(len(m))] ^= byte(1 << t.IntN(8))
					}
				}
				try := func(what string, m []byte) {
					r1, s1, ok := ref.ParseSig(m)
					want := ok && ref.Verify(p, dig, r1, s1)
					for e, got := range []bool{sm2.VerifyDigest(&priv.PublicKey, dig, m), priv.VerifyDigest(dig, m)} {
						t.Check(got == want, "%s: digest verification %d of %s = %v, want %v", what, e, hx(m), got, want)
					}
					r2, s2, err := sm2.UnmarshalSign(m)
					if err == nil {
						t.Check(ok && eqInt(r1, r2) && eqInt(s1, s2), "%s: UnmarshalSign(%s) = %x, %x", what, hx(m), r2, s2)
					} else {
						t.Check(!ok || r1.Sign() <= 0 || s1.Sign() <= 0, "%s: UnmarshalSign(%s): %v", what, hx(m), err)
						t.Check(r2 == nil && s2 == nil, "%s: UnmarshalSign returned values with an error", what)
					}
					t.Cover(fmt.Sprintf("%s: %v", what, want))
					t.Key("%s %x", what, m)
				}
				try("canonical", der)
				try(what, m)
				// The same alterations for the message entry points.
				if i%24 < 4 {
					msg := t.Bytes(20)
					dg, _ := ref.MsgDigest(priv.X, priv.Y, msg, nil)
					r, s, ok := ref.SignK(d, dg, t.Big(one, nm1))
					if ok {
						good := ref.MarshalSig(r, s)
						verifyDER(t, "canonical", &priv.PublicKey, msg, nil, dg, good, true)
						verifyDER(t, "trailing", &priv.PublicKey, msg, nil, dg, cat(good, []byte{0}), false)
						verifyDER(t, "trailing inside", &priv.PublicKey, msg, nil, dg, ref.TLV(0x30, ref.Int(r), ref.Int(s), []byte{5, 0}), false)
						verifyDER(t, "padded", &priv.PublicKey, msg, nil, dg, ref.TLV(0x30, ref.TLV(2, cat([]byte{0}, ref.Int(r)[2:])), ref.Int(s)), false)
						verifyDER(t, "nil", &priv.PublicKey, msg, nil, dg, nil, false)
						verifyDER(t, "empty", &priv.PublicKey, msg, nil, dg, []byte{}, false)
					}
				}
			}},
			{Name: "der bits", N: [2]int{288, 10000}, Fn: func(t *T, i int) {
				// Every bit of one byte of a genuine signature; the signature count covers all positions many times.
				d, _ := genD(t.Rng)
				priv := newSM2(d)
				dig := t.Bytes(32)
				r, s, ok := ref.SignK(d, dig, t.Big(one, nm1))
				if !ok {
					return
				}
				der := ref.MarshalSig(r, s)
				pos := i % len(der)
				for b := 0; b < 8; b++ {
					m := clone(der)
					m[pos] ^= 1 << b
					r1, s1, ok := ref.ParseSig(m)
					want := ok && ref.Verify(refPub(&priv.PublicKey), dig, r1, s1)
					got := sm2.VerifyDigest(&priv.PublicKey, dig, m)
					t.Check(got == want, "bit %d of byte %d: VerifyDigest(%s) = %v, want %v", b, pos, hx(m), got, want)
					t.Key("bit %x", m)
				}
			}},
		},
	})
}

// ---- openssl

func tempDir(t *T) string {
	d, err := os.MkdirTemp(os.Getenv("MON_DIR"), "case")
	if err != nil {
		t.Failf("harness: %v", err)
	}
	return d
}

func haveOpenssl() bool {
	_, err := exec.LookPath("openssl")
	return err == nil
}

func run(dir, name string, args ...string) ([]byte, error) {
	c := exec.Command(name, args...)
	c.Dir = dir
	return c.CombinedOutput()
}

// sec1SM2 is the SEC 1 encoding of an SM2 key, written by hand.
func sec1SM2(d *big.Int, p ref.Pt, withCurve, withPub bool) []byte {
	parts := [][]byte{ref.TLV(2, []byte{1}), ref.TLV(4, b32(d))}
	if withCurve {
		parts = append(parts, ref.TLV(0xa0, oidSM2))
	}
	if withPub {
		parts = append(parts, ref.TLV(0xa1, ref.TLV(3, []byte{0}, point(p))))
	}
	return ref.TLV(0x30, parts...)
}

func point(p ref.Pt) []byte { return cat([]byte{4}, b32(p.X), b32(p.Y)) }

var (
	oidSM2   = ref.OID(1, 2, 156, 10197, 1, 301)
	oidECPub = ref.OID(1, 2, 840, 10045, 2, 1)
)

func pkixSM2(p ref.Pt) []byte {
	return ref.TLV(0x30, ref.TLV(0x30, oidECPub, oidSM2), ref.TLV(3, []byte{0}, point(p)))
}

func pkcs8SM2(d *big.Int, p ref.Pt) []byte {
	return ref.TLV(0x30, ref.TLV(2, []byte{0}), ref.TLV(0x30, oidECPub, oidSM2), ref.TLV(4, sec1SM2(d, p, false, true)))
}

func opensslSign(t *T, i int) {
	if !haveOpenssl() {
		t.Cover("openssl is not installed")
		return
	}
	dir := tempDir(t)
	defer os.RemoveAll(dir)
	d, _ := genD(t.Rng)
	priv := newSM2(d)
	p := refPub(&priv.PublicKey)
	msg := t.Bytes(1 + t.IntN(300))
	id := []byte(t.Name(1 + t.IntN(30)))
	w := func(n string, b []byte) string {
		f := filepath.Join(dir, n)
		if err := os.WriteFile(f, b, 0600); err != nil {
			t.Failf("harness: %v", err)
		}
		return f
	}
	w("key", pkcs8SM2(d, p))
	w("pub", pkixSM2(p))
	w("msg", msg)
	out, err := run(dir, "openssl", "pkeyutl", "-sign", "-rawin", "-digest", "sm3", "-inkey", "key", "-keyform", "DER", "-in", "msg", "-out", "sig", "-pkeyopt", "distid:"+string(id))
	if err != nil {
		t.Cover("openssl cannot do SM2: " + head(string(out), 60))
		return
	}
	sig, _ := os.ReadFile(filepath.Join(dir, "sig"))
	t.Check(sm2.Verify(&priv.PublicKey, msg, id, sig), "Verify refuses the openssl signature %s (d=%x, msg %s, id %s)", hx(sig), d, hx(msg), id)
	der, err := sm2.Sign(newSrc(t, t.Rng), priv, msg, id)
	t.noErr("Sign", err)
	w("sig", der)
	out, err = run(dir, "openssl", "pkeyutl", "-verify", "-rawin", "-digest", "sm3", "-pubin", "-inkey", "pub", "-keyform", "DER", "-in", "msg", "-sigfile", "sig", "-pkeyopt", "distid:"+string(id))
	t.Check(err == nil, "openssl refuses the signature %s (d=%x, msg %s, id %s): %s", hx(der), d, hx(msg), id, out)
	t.Cover("openssl, both ways")
	t.Key("%x", der)
}
