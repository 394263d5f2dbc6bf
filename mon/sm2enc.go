package main

import (
	"bytes"
	"fmt"
	"math/big"

	"mon/ref"

	"github.com/mmdet/mcrypto/sm2"
)

// encCheck encrypts msg and judges the ciphertext; it returns it.
func encCheck(t *T, priv *sm2.PrivateKey, s *src, msg []byte) []byte {
	ct, err := sm2.Encryt(s, &priv.PublicKey, msg)
	t.noErr("Encryt", err)
	t.Check(len(ct) == 97+len(msg), "ciphertext of %d bytes for a message of %d", len(ct), len(msg))
	t.Check(ct[0] == 4, "ciphertext starts with %02x", ct[0])
	pt, ok := ref.Decrypt(priv.D, ct)
	if !ok {
		t.Logf("D=%x msg=%s ct=%s", priv.D, hx(msg), hx(ct))
	}
	t.Check(ok, "the reference refuses the ciphertext of a %d-byte message", len(msg))
	t.mustEq("plaintext by the reference", pt, msg)
	decOK(t, priv, ct, msg)
	c1 := ref.Pt{X: new(big.Int).SetBytes(ct[1:33]), Y: new(big.Int).SetBytes(ct[33:65])}
	q := ref.Mul(c1, priv.D)
	cover := func(n string, b bool) {
		if b {
			t.Cover(n)
		}
	}
	cover("C1.x leading zero", lead0(c1.X))
	cover("C1.y leading zero", lead0(c1.Y))
	cover("x2 leading zero", lead0(q.X))
	cover("y2 leading zero", lead0(q.Y))
	cover("encryption used more than one nonce", s.n > 40)
	if len(msg) > 0 {
		cover("key stream starts with zero", ref.KDF(q.X, q.Y, 1)[0] == 0)
	}
	t.Key("%x", ct[:65])
	return ct
}

func decOK(t *T, priv *sm2.PrivateKey, ct, msg []byte) {
	pt, err := sm2.Decryt(priv, ct)
	if err != nil {
		t.Logf("D=%x msg=%s ct=%s", priv.D, hx(msg), hx(ct))
	}
	t.noErr("Decryt", err)
	t.mustEq("Decryt", pt, msg)
}

// decAgree is the oracle of C04: verdict and plaintext as the reference's.
func decAgree(t *T, what string, priv *sm2.PrivateKey, ct []byte) bool {
	want, ok := ref.Decrypt(priv.D, ct)
	var pt []byte
	var err error
	in := clone(ct)
	t.Logf("%s D=%x ct=%s", what, priv.D, hx(ct))
	t.guard("Decryt", func() { pt, err = sm2.Decryt(priv, in) })
	if ok {
		t.Check(err == nil, "%s: refused an authentic ciphertext: %v", what, err)
		t.mustEq(what+": plaintext", pt, want)
		t.Cover("accepted: " + what)
	} else {
		t.Check(err != nil, "%s: accepted, but the ciphertext is not authentic; plaintext %s", what, hx(pt))
		t.Check(len(pt) == 0, "%s: refused, but released plaintext %s", what, hx(pt))
		t.Cover("refused: " + what)
	}
	t.Key("%s %x", what, ct)
	t.log = t.log[:len(t.log)-1]
	return ok
}

// sharedZero finds a nonce whose key stream for pub begins with zero bytes at the n positions from off.
func sharedZero(r *Rng, pub ref.Pt, off, n int) *big.Int {
	return searchMul(r, pub, func(q ref.Pt) bool {
		return bytes.Count(ref.KDF(q.X, q.Y, off+n)[off:], []byte{0}) == n
	})
}

func init() {
	register(&Prop{
		ID: "C03",
		Rule: "keys random, short, edge, with leading-zero coordinates; messages of every length from 0; nonces random or steered so that C1, the shared point or the key stream has zero bytes or the nonce is extreme. " +
			"Each ciphertext goes to the reference decryptor and the library's; reference ciphertexts go to the library. Distinct = distinct C1.",
		Groups: []Group{
			{Name: "history", N: [2]int{60, 4000}, Fn: histEncrypt, Serial: true},
			{Name: "length", N: [2]int{420, 5000}, Fn: func(t *T, i int) {
				d, kind := genD(t.Rng)
				ct := encCheck(t, newSM2(d), newSrc(t, t.Rng), t.Bytes(i))
				t.Cover("key " + kind)
				if i%200 == 0 {
					t.Sample("%d-byte message, key kind %s: ciphertext %s", i, kind, hx(ct))
				}
			}},
			{Name: "roundtrip", N: [2]int{1500, 40000}, Fn: func(t *T, i int) {
				d, kind := genD(t.Rng)
				s := newSrc(t, t.Rng)
				if t.Chance(1, 4) {
					s.short = 1 + t.IntN(39)
				}
				encCheck(t, newSM2(d), s, fill(t.Rng, t.Len(20000)))
				t.Cover("key " + kind)
			}},
			{Name: "short", N: [2]int{1500, 30000}, Fn: func(t *T, i int) {
				d, _ := genD(t.Rng)
				encCheck(t, newSM2(d), newSrc(t, t.Rng), fill(t.Rng, 1+i%3))
			}},
			{Name: "generated key", N: [2]int{100, 4000}, Fn: func(t *T, i int) {
				priv, err := sm2.GenerateKey(newSrc(t, t.Rng))
				t.noErr("GenerateKey", err)
				encCheck(t, priv, newSrc(t, t.Rng), t.Bytes(t.Len(500)))
			}},
			{Name: "leading zeros", N: [2]int{80, 2000}, Fn: func(t *T, i int) {
				d, _ := genD(t.Rng)
				priv := newSM2(d)
				p := refPub(&priv.PublicKey)
				zeros := lead0
				var k *big.Int
				switch i % 4 {
				case 0:
					k = searchMul(t.Rng, ref.G, func(q ref.Pt) bool { return zeros(q.X) })
				case 1:
					k = searchMul(t.Rng, ref.G, func(q ref.Pt) bool { return zeros(q.Y) })
				case 2:
					k = searchMul(t.Rng, p, func(q ref.Pt) bool { return zeros(q.X) })
				case 3:
					k = searchMul(t.Rng, p, func(q ref.Pt) bool { return zeros(q.Y) })
				}
				if i/4%2 == 1 {
					// Two or three zero bytes.
					k = specialK(t.Rng, pick(t.Rng, "x2", "x3", "y2", "y3"))
					if i%4 >= 2 {
						k = modN(mul(k, invN(d)))
					}
				}
				msg := t.Bytes(t.Len(200))
				s := newSrc(t, t.Rng)
				s.script = kBytes(k)
				encCheck(t, priv, s, msg)
				if ct, ok := ref.EncryptK(p, msg, k); ok {
					decOK(t, priv, ct, msg)
				}
			}},
			{Name: "tiny coordinates", N: [2]int{300, 10000}, Fn: func(t *T, i int) {
				q, what := tinyPoint(t.Rng)
				msg := fill(t.Rng, 1+t.Len(200))
				switch i % 3 {
				case 0, 1: // the shared point, or C1, has a coordinate of few bytes
					d, _ := genD(t.Rng)
					c1 := q
					if i%3 == 0 {
						c1 = ref.Mul(q, invN(d))
						what = "shared " + what
					} else {
						q = ref.Mul(c1, d)
						what = "C1 " + what
					}
					if ct, ok := ref.Assemble(c1, q, msg); ok {
						decOK(t, newSM2(d), ct, msg)
						t.Key("%x", ct[:65])
					}
				case 2: // the shared point of an encryption, to a key nobody knows
					k := t.Big(one, nm1)
					pub := ref.Mul(q, invN(k))
					s := newSrc(t, t.Rng)
					s.script = kBytes(k)
					ct, err := sm2.Encryt(s, sm2Pub(pub), msg)
					t.noErr("Encryt", err)
					want, ok := ref.EncryptK(pub, msg, k)
					t.Check(len(ct) == 97+len(msg) && ct[0] == 4, "ciphertext of %d bytes for a message of %d", len(ct), len(msg))
					if ok && bytes.Equal(ct[:65], want[:65]) {
						t.mustEq("ciphertext with this C1", ct, want)
						t.Cover("encrypted with the chosen nonce")
						what = "sent " + what
					}
					t.Key("%x", ct[:65])
				}
				t.Cover(what)
			}},
			{Name: "zero key stream", N: [2]int{40, 600}, Fn: func(t *T, i int) {
				d, _ := genD(t.Rng)
				priv := newSM2(d)
				p := refPub(&priv.PublicKey)
				n := 1 + i%3
				var k *big.Int
				if n == 1 {
					k = sharedZero(t.Rng, p, 0, n)
				} else {
					k = modN(mul(specialK(t.Rng, fmt.Sprintf("z%d", n)), invN(d)))
				}
				for l := n; l <= n+1; l++ {
					s := newSrc(t, t.Rng)
					s.script = kBytes(k)
					encCheck(t, priv, s, t.Bytes(l))
				}
				// A key stream that has zero bytes but is not all zero must not be refused.
				l := n + 1 + t.IntN(80)
				m := t.Bytes(l)
				if ct, ok := ref.EncryptK(p, m, k); ok {
					decOK(t, priv, ct, m)
					t.Cover("foreign ciphertext, key stream starts with zero")
				}
				off := 1 + t.IntN(70)
				k = sharedZero(t.Rng, p, off, 1)
				m = t.Bytes(off + 1)
				s := newSrc(t, t.Rng)
				s.script = kBytes(k)
				encCheck(t, priv, s, m)
				if ct, ok := ref.EncryptK(p, m, k); ok {
					decOK(t, priv, ct, m)
				}
			}},
			{Name: "foreign", N: [2]int{1200, 30000}, Fn: func(t *T, i int) {
				d, _ := genD(t.Rng)
				priv := newSM2(d)
				p := refPub(&priv.PublicKey)
				k := t.Big(one, nm1)
				if i%4 == 0 {
					k = pick(t.Rng, bi(1), bi(2), bi(3), nm1, nm2, new(big.Int).Rsh(ref.N, 1), t.Big(one, bi(1<<30)))
				}
				m := fill(t.Rng, t.Len(3000))
				ct, ok := ref.EncryptK(p, m, k)
				if !ok {
					return
				}
				decOK(t, priv, ct, m)
				t.Key("%x", ct[:65])
			}},
			{Name: "extreme nonce", N: [2]int{60, 600}, Fn: func(t *T, i int) {
				d, _ := genD(t.Rng)
				s := newSrc(t, t.Rng)
				k := pick(t.Rng, bi(1), bi(2), nm1, nm2, d, sub(ref.N, d))
				s.script = kBytes(k)
				encCheck(t, newSM2(d), s, t.Bytes(1+t.IntN(100)))
			}},
			{Name: "long", N: [2]int{8, 40}, CPULimit: 400, Fn: func(t *T, i int) {
				// The counter of the key derivation passes 2^8 and 2^16.
				n := []int{8159, 8161, 8192, 8193, 65535, 2097151, 2097153, 3000001}[i%8]
				d, _ := genD(t.Rng)
				encCheck(t, newSM2(d), newSrc(t, t.Rng), t.Bytes(n))
				t.Cover("long message")
			}},
		},
	})

	register(&Prop{
		ID: "C04",
		Rule: "authentic ciphertexts and their mutations: every bit, every truncation, extensions, prefixes, layouts, wrong and negated keys, non-canonical, off-curve and zero C1 with consistent C2 and C3, all-zero key streams. " +
			"Oracle: verdict and plaintext of the reference decryptor. Distinct = distinct (mutation, ciphertext).",
		Groups: []Group{
			{Name: "history", N: [2]int{80, 6000}, Fn: histDecrypt, Serial: true},
			{Name: "bit", N: [2]int{700, 15000}, Fn: func(t *T, i int) {
				// One byte position per case, all of its bits, over ciphertexts of 97..170 bytes.
				d, _ := genD(t.Rng)
				priv := newSM2(d)
				ct := encAny(t, priv, i%75)
				pos := i * 7 % len(ct)
				decAgree(t, "unchanged", priv, ct)
				for b := 0; b < 8; b++ {
					m := clone(ct)
					m[pos] ^= 1 << b
					decAgree(t, region(pos)+" bit flip", priv, m)
				}
				if i%300 == 0 {
					t.Sample("byte %d (%s) of %s flipped bit by bit", pos, region(pos), hx(ct))
				}
			}},
			{Name: "length", N: [2]int{120, 2500}, Fn: func(t *T, i int) {
				d, _ := genD(t.Rng)
				priv := newSM2(d)
				ct := encAny(t, priv, pick(t.Rng, 0, 1, 2, 31, 32, 33, 64, 65, t.IntN(200)))
				for n := i % 12; n < len(ct); n += 12 {
					decAgree(t, "truncated", priv, ct[:n:n])
				}
				for n := 1 + i%5; n < 70; n += 17 {
					decAgree(t, "extended", priv, cat(ct, fill(t.Rng, n)))
					decAgree(t, "shifted", priv, cat(fill(t.Rng, n), ct))
				}
				decAgree(t, "without first byte", priv, ct[1:])
				decAgree(t, "nil", priv, nil)
			}},
			{Name: "prefix", N: [2]int{256, 2560}, Fn: func(t *T, i int) {
				d, _ := genD(t.Rng)
				priv := newSM2(d)
				ct := encAny(t, priv, t.IntN(50))
				ct[0] = byte(i)
				decAgree(t, "prefix byte", priv, ct)
			}},
			{Name: "mix", N: [2]int{1500, 50000}, Fn: func(t *T, i int) {
				d, _ := genD(t.Rng)
				priv := newSM2(d)
				ct := encAny(t, priv, t.Len(200))
				c1, c3, c2 := ct[1:65], ct[65:97], ct[97:]
				p := refPub(&priv.PublicKey)
				switch i % 15 {
				case 0:
					decAgree(t, "C1C2C3 order", priv, cat(ct[:1], c1, c2, c3))
				case 1:
					decAgree(t, "C3 first", priv, cat(ct[:1], c3, c1, c2))
				case 2:
					decAgree(t, "x and y swapped", priv, cat(ct[:1], c1[32:], c1[:32], c3, c2))
				case 3:
					y := sub(ref.P, new(big.Int).SetBytes(c1[32:]))
					decAgree(t, "C1 negated", priv, cat(ct[:1], c1[:32], b32(y), c3, c2))
				case 4:
					e, _ := genD(t.Rng)
					decAgree(t, "wrong key", newSM2(e), ct)
				case 5:
					n := sub(ref.N, d)
					if n.Cmp(nm2) <= 0 && n.Sign() > 0 {
						decAgree(t, "negated key", newSM2(n), ct)
					}
				case 6:
					// parts of two ciphertexts for one key
					c := encAny(t, priv, len(c2))
					decAgree(t, "C1 of another", priv, cat(c[:65], c3, c2))
					decAgree(t, "C3 of another", priv, cat(ct[:65], c[65:97], c2))
					decAgree(t, "C2 of another", priv, cat(ct[:97], c[97:]))
				case 7:
					decAgree(t, "C2 changed", priv, cat(ct[:97], fill(t.Rng, t.Len(150))))
				case 8:
					decAgree(t, "random C3", priv, cat(ct[:65], t.Bytes(32), c2))
					decAgree(t, "zero C3", priv, cat(ct[:65], make([]byte, 32), c2))
				case 9:
					// C3 over other fields, as a sloppy implementation would compute it.
					c := ref.Pt{X: new(big.Int).SetBytes(c1[:32]), Y: new(big.Int).SetBytes(c1[32:])}
					q := ref.Mul(c, d)
					m, _ := ref.Decrypt(d, ct)
					for j, h := range [][]byte{cat(b32(q.X), b32(q.Y), m), cat(m, b32(q.X), b32(q.Y)), m, cat(b32(q.X), c2, b32(q.Y)), cat(b32(q.Y), m, b32(q.X)), cat(b32(q.X), m), cat(q.X.Bytes(), m, q.Y.Bytes())} {
						decAgree(t, fmt.Sprintf("C3 of layout %d", j), priv, cat(ct[:65], ref.SM3(h), c2))
					}
				case 10:
					// consistent ciphertext for the wrong shared point
					k := t.Big(one, nm1)
					c, ok := ref.Assemble(ref.BaseMul(k), ref.Mul(p, add(k, one)), t.Bytes(20))
					if ok {
						decAgree(t, "wrong shared point", priv, c)
					}
				case 11:
					c := clone(ct)
					for n := 1 + t.IntN(6); n > 0; n-- {
						c[t.IntN(len(c))] = byte(t.IntN(256))
					}
					decAgree(t, "random bytes replaced", priv, c)
				case 12:
					decAgree(t, "random bytes", priv, cat([]byte{4}, fill(t.Rng, t.Len(400))))
				case 13:
					decAgree(t, "C1 at infinity (0,0)", priv, cat(ct[:1], make([]byte, 64), c3, c2))
					z := ref.Infinity()
					if c, ok := ref.Assemble(z, z, t.Bytes(20)); ok {
						decAgree(t, "consistent C1 at infinity", priv, c)
					}
					if c, ok := ref.Assemble(ref.G, z, t.Bytes(20)); ok {
						decAgree(t, "shared point at infinity", priv, c)
					}
				case 14:
					if len(c2) > 64 {
						c := clone(ct)
						copy(c[97:129], ct[129:161])
						copy(c[129:161], ct[97:129])
						decAgree(t, "key stream blocks swapped", priv, c)
					}
				}
			}},
			{Name: "tiny coordinates", N: [2]int{240, 8000}, Fn: func(t *T, i int) {
				// A shared point with a coordinate of few bytes; any change of the ciphertext.
				d, _ := genD(t.Rng)
				priv := newSM2(d)
				q, _ := tinyPoint(t.Rng)
				c1 := ref.Mul(q, invN(d))
				if i%2 == 1 {
					c1, q = q, ref.Mul(q, d)
				}
				ct, ok := ref.Assemble(c1, q, fill(t.Rng, 1+t.Len(60)))
				if !ok {
					return
				}
				decAgree(t, "tiny coordinate", priv, ct)
				at := t.IntN(len(ct))
				bad := clone(ct)
				bad[at] ^= 1 << t.IntN(8)
				decAgree(t, "tiny coordinate, bit in "+region(at), priv, bad)
				// C1 written without its leading zeros, or shifted.
				short := cat([]byte{4}, bytes.TrimLeft(ct[1:33], "\x00"), ct[33:])
				decAgree(t, "tiny coordinate, zeros dropped", priv, short)
				// C3 and C2 as they come out when coordinates are written without their leading zeros.
				m, _ := ref.Decrypt(d, ct)
				h := ref.SM3(cat(q.X.Bytes(), m, q.Y.Bytes()))
				decAgree(t, "tiny coordinate, C3 over short coordinates", priv, cat(ct[:65], h, ct[97:]))
			}},
			{Name: "off curve", N: [2]int{500, 15000}, Fn: func(t *T, i int) {
				// C1 not on the curve but everything else computed consistently with the same formulas, which do not use b.
				d, _ := genD(t.Rng)
				priv := newSM2(d)
				c1 := ref.Pt{X: t.Big(one, sub(ref.P, one)), Y: t.Big(one, sub(ref.P, one))}
				switch i % 4 {
				case 1:
					p := ref.BaseMul(t.Big(one, nm1))
					c1 = ref.Pt{X: p.X, Y: add(p.Y, one)}
				case 2: // a point of order 2 on a related curve
					c1.Y = new(big.Int)
				case 3:
					c1.X = new(big.Int)
				}
				q := ref.Mul(c1, d)
				ct, ok := ref.Assemble(c1, q, t.Bytes(1+t.IntN(60)))
				if !ok {
					return
				}
				decAgree(t, fmt.Sprintf("off-curve C1 %d, consistent", i%4), priv, ct)
			}},
			{Name: "non-canonical C1", N: [2]int{200, 5000}, Fn: func(t *T, i int) {
				d, _ := genD(t.Rng)
				priv := newSM2(d)
				lim := sub(b256, ref.P)
				m := t.Bytes(1 + t.IntN(60))
				var c1 ref.Pt
				for ok := false; !ok; {
					x := t.Big(new(big.Int), sub(lim, one))
					if i%3 == 0 {
						x = bi(int64(t.IntN(1000)))
					}
					if i%2 == 0 {
						c1, ok = ref.LiftX(x)
					} else {
						c1, ok = ref.LiftY(x)
					}
				}
				q := ref.Mul(c1, d)
				ct, ok := ref.Assemble(c1, q, m)
				if !ok {
					return
				}
				decAgree(t, "small coordinate", priv, ct)
				bad := clone(ct)
				if i%2 == 0 {
					copy(bad[1:33], b32(add(c1.X, ref.P)))
					decAgree(t, "C1.x + p", priv, bad)
				} else {
					copy(bad[33:65], b32(add(c1.Y, ref.P)))
					decAgree(t, "C1.y + p", priv, bad)
				}
			}},
			{Name: "zero key stream", N: [2]int{60, 1000}, Fn: func(t *T, i int) {
				d, _ := genD(t.Rng)
				priv := newSM2(d)
				p := refPub(&priv.PublicKey)
				n := 1 + i%3
				var k *big.Int
				if n == 1 {
					k = sharedZero(t.Rng, p, 0, n)
				} else {
					k = modN(mul(specialK(t.Rng, fmt.Sprintf("z%d", n)), invN(d)))
				}
				q := ref.Mul(p, k)
				c1 := ref.BaseMul(k)
				m := t.Bytes(n)
				ct := cat([]byte{4}, b32(c1.X), b32(c1.Y), ref.SM3(cat(b32(q.X), m, b32(q.Y))), m)
				t.Check(!decAgree(t, "all-zero key stream", priv, ct), "reference accepts a zero key stream")
				// One more byte and the key stream is not all zero.
				if c, ok := ref.Assemble(c1, q, t.Bytes(n+1)); ok {
					decAgree(t, "key stream zero but for its end", priv, c)
				}
			}},
		},
	})
}

func region(pos int) string {
	switch {
	case pos == 0:
		return "prefix"
	case pos < 33:
		return "C1.x"
	case pos < 65:
		return "C1.y"
	case pos < 97:
		return "C3"
	}
	return "C2"
}

// encAny makes an authentic ciphertext with the library or the reference.
func encAny(t *T, priv *sm2.PrivateKey, n int) []byte {
	m := fill(t.Rng, n)
	if t.Chance(1, 2) {
		for {
			if ct, ok := ref.EncryptK(refPub(&priv.PublicKey), m, t.Big(one, nm1)); ok {
				return ct
			}
		}
	}
	ct, err := sm2.Encryt(t.Rng, &priv.PublicKey, m)
	t.noErr("Encryt", err)
	return ct
}
