package main

import (
	"bytes"
	"crypto/elliptic"
	"fmt"
	"io"
	"math/big"

	"mon/ref"

	"github.com/mmdet/mcrypto/sm2"
)

// op is one randomised operation: it returns its output as bytes (nil if none) or an error, after judging the output.
type op struct {
	name string
	min  int // it must consume at least this much
	run  func(t *T, rd io.Reader) ([]byte, error)
}

// randOps builds the operations for one key and message.
func randOps(t *T) (ops []op, d *big.Int) {
	d, _ = genD(t.Rng)
	priv := newSM2(d)
	p := refPub(&priv.PublicKey)
	msg := t.Bytes(20 + t.IntN(60))
	dig, _ := ref.MsgDigest(p.X, p.Y, msg, nil)
	ops = append(ops, op{"GenerateKey", 32, func(t *T, rd io.Reader) ([]byte, error) {
		k, err := sm2.GenerateKey(rd)
		if err != nil {
			t.Check(k == nil, "GenerateKey returned a key and the error %v", err)
			return nil, err
		}
		checkKey(t, k)
		return b32(k.D), nil
	}})
	ops = append(ops, op{"Encryt", 32, func(t *T, rd io.Reader) ([]byte, error) {
		ct, err := sm2.Encryt(rd, &priv.PublicKey, msg)
		if err != nil {
			t.Check(ct == nil, "Encryt returned %s and the error %v", hx(ct), err)
			return nil, err
		}
		pt, ok := ref.Decrypt(d, ct)
		t.Check(ok && bytes.Equal(pt, msg), "Encryt: wrong ciphertext")
		return ct[1:65], nil
	}})
	sig := func(name string, f func(rd io.Reader) (der []byte, r, s *big.Int, err error)) {
		ops = append(ops, op{name, 32, func(t *T, rd io.Reader) ([]byte, error) {
			der, r, s, err := f(rd)
			if err != nil {
				t.Check(der == nil && r == nil && s == nil, "%s returned a result and the error %v", name, err)
				return nil, err
			}
			if der != nil {
				var ok bool
				r, s, ok = ref.ParseSig(der)
				t.Check(ok, "%s: signature %s", name, hx(der))
			}
			t.Check(ref.Verify(p, dig, r, s), "%s: signature does not verify", name)
			k := ref.RecoverK(d, r, s)
			checkNonce(t, name, k)
			return b32(k), nil
		}})
	}
	sig("Sign", func(rd io.Reader) ([]byte, *big.Int, *big.Int, error) {
		b, err := sm2.Sign(rd, priv, msg, nil)
		return b, nil, nil, err
	})
	sig("SignRS", func(rd io.Reader) ([]byte, *big.Int, *big.Int, error) {
		r, s, err := sm2.SignRS(rd, priv, msg, nil)
		return nil, r, s, err
	})
	sig("SignDigest", func(rd io.Reader) ([]byte, *big.Int, *big.Int, error) {
		b, err := sm2.SignDigest(rd, priv, dig)
		return b, nil, nil, err
	})
	sig("SignDigestRS", func(rd io.Reader) ([]byte, *big.Int, *big.Int, error) {
		r, s, err := sm2.SignDigestRS(rd, priv, dig)
		return nil, r, s, err
	})
	sig("PrivateKey.Sign", func(rd io.Reader) ([]byte, *big.Int, *big.Int, error) {
		b, err := priv.Sign(rd, msg, nil)
		return b, nil, nil, err
	})
	sig("PrivateKey.SignRS", func(rd io.Reader) ([]byte, *big.Int, *big.Int, error) {
		r, s, err := priv.SignRS(rd, msg, nil)
		return nil, r, s, err
	})
	sig("PrivateKey.SignDigest", func(rd io.Reader) ([]byte, *big.Int, *big.Int, error) {
		b, err := priv.SignDigest(rd, dig)
		return b, nil, nil, err
	})
	sig("PrivateKey.SignDigestRS", func(rd io.Reader) ([]byte, *big.Int, *big.Int, error) {
		r, s, err := priv.SignDigestRS(rd, dig)
		return nil, r, s, err
	})
	return
}

func checkKey(t *T, k *sm2.PrivateKey) {
	t.Check(k.D.Sign() > 0 && k.D.Cmp(nm2) <= 0, "private key %x is outside [1, n-2]", k.D)
	p := ref.BaseMul(k.D)
	t.Check(p.X.Cmp(k.X) == 0 && p.Y.Cmp(k.Y) == 0, "public key %x,%x does not belong to the private key %x", k.X, k.Y, k.D)
	t.Check(k.Curve == sm2.SM2P256V1(), "curve %v", k.Curve)
}

func checkNonce(t *T, name string, k *big.Int) {
	t.Check(k.Sign() > 0 && k.Cmp(ref.N) < 0, "%s: nonce %x", name, k)
}

// fullWidth holds for all but 2^-60 of the values in [1, n-1].
func fullWidth(k *big.Int) bool {
	return k.BitLen() > 192 && sub(ref.N, k).BitLen() > 192 && k.TrailingZeroBits() < 64
}

var injected = []error{errInjected, io.EOF, io.ErrUnexpectedEOF}

func init() {
	const nops = 10
	register(&Prop{
		ID: "C07",
		Rule: "key generation, encryption and the eight signing entry points on random sources that record, deliver in short reads, fail at every byte (also after a retry), offer extreme values, or differ in one byte. " +
			"Signing nonces are recovered as s(1+d)+rd. Distinct = distinct nonces, keys and C1 seen.",
		Groups: []Group{
			{Name: "balance", N: [2]int{16, 200}, CPULimit: 120, Fn: func(t *T, i int) {
				// 256 nonces or keys from one stream: range, width, distinctness, bit balance (8 sigma).
				const m = 256
				ops, _ := randOps(t)
				o := ops[[]int{0, 2, 3, 4, 5, 6, 7, 8, 9, 0}[i%nops]]
				s := newSrc(t, t.Rng)
				s.limit = 1 << 20
				seen := map[string]bool{}
				var ones [256]int
				var prev *big.Int
				for j := 0; j < m; j++ {
					out, err := o.run(t, s)
					t.noErr(o.name, err)
					k := new(big.Int).SetBytes(out)
					t.Check(fullWidth(k), "%s: %x is not full width", o.name, k)
					t.Check(!seen[string(out)], "%s: %x came up twice", o.name, k)
					seen[string(out)] = true
					if prev != nil {
						t.Check(fullWidth(modN(sub(k, prev))), "%s: %x and %x are close", o.name, k, prev)
					}
					prev = k
					for b := range ones {
						ones[b] += int(k.Bit(b))
					}
					t.Key("%s %x", o.name, out)
				}
				t.Check(s.n >= o.min*m, "%s consumed %d random bytes for %d results", o.name, s.n, m)
				for b := 0; b < 256; b++ {
					t.Check(ones[b] >= m/2-64 && ones[b] <= m/2+64, "%s: bit %d was set in %d of %d values", o.name, b, ones[b], m)
				}
				t.Cover("balance " + o.name)
			}},
			{Name: "encryption nonces", N: [2]int{60, 1000}, Fn: func(t *T, i int) {
				// C1 is k*G: no small k, no repetition, no small difference.
				ops, _ := randOps(t)
				s := newSrc(t, t.Rng)
				var pts []ref.Pt
				for j := 0; j < 8; j++ {
					out, err := ops[1].run(t, s)
					t.noErr("Encryt", err)
					pts = append(pts, ref.Pt{X: new(big.Int).SetBytes(out[:32]), Y: new(big.Int).SetBytes(out[32:])})
					t.Key("C1 %x", out)
				}
				small := map[string]bool{"0": true}
				p := ref.G
				for j := 0; j < 3000; j++ {
					small[p.X.String()] = true
					p = ref.Add(p, ref.G)
				}
				for a, p := range pts {
					t.Check(!small[p.X.String()], "C1 is a small multiple of the base point")
					for _, q := range pts[:a] {
						t.Check(q.X.Cmp(p.X) != 0, "C1 repeats")
						t.Check(!small[ref.Add(p, ref.Neg(q)).X.String()], "nonces are close")
					}
				}
			}},
			{Name: "dependence", N: [2]int{20, 300}, CPULimit: 120, Fn: func(t *T, i int) {
				// The same stream gives the same value; changing a byte of what is consumed gives another.
				ops, _ := randOps(t)
				o := ops[i%nops]
				seed := t.Bytes(400)
				run := func(b []byte) ([]byte, *src) {
					s := newSrc(t, newRng("tail"))
					s.script = b
					out, err := o.run(t, s)
					t.noErr(o.name, err)
					return out, s
				}
				base, s := run(seed)
				t.Check(s.n >= o.min, "%s consumed %d random bytes", o.name, s.n)
				again, _ := run(seed)
				t.Check(bytes.Equal(base, again), "%s: the same random bytes gave different values: something else is used too", o.name)
				moved := 0
				seen := map[string]bool{string(base): true}
				for p := 0; p < min(s.n, 120); p++ {
					b := clone(seed)
					b[p] ^= 1
					out, _ := run(b)
					if !bytes.Equal(out, base) {
						moved++
						t.Check(!seen[string(out)], "%s: two streams gave one value", o.name)
						seen[string(out)] = true
					}
				}
				t.Check(moved >= 30, "%s consumed %d random bytes but only %d of them matter", o.name, s.n, moved)
				other, _ := run(t.Bytes(400))
				t.Check(!bytes.Equal(other, base), "%s does not depend on its random source", o.name)
				t.Cover("dependence " + o.name)
				t.Key("dep %s %x", o.name, base)
				if i < 10 {
					t.Sample("%s consumed %d bytes, %d of them matter", o.name, s.n, moved)
				}
			}},
			{Name: "no system randomness", N: [2]int{20, 200}, Fn: func(t *T, i int) {
				ops, _ := randOps(t)
				o := ops[i%nops]
				used := 0
				s := newSrc(t, t.Rng)
				t.WithSysRand(func(p []byte) (int, error) { used += len(p); return t.sys.Read(p) }, func() {
					_, err := o.run(t, s)
					t.noErr(o.name, err)
				})
				t.Check(used == 0 && s.n >= o.min, "%s took %d bytes from the system source and %d from the given one", o.name, used, s.n)
				t.Key("sys %s", o.name)
			}},
			{Name: "failure", N: [2]int{60, 1000}, CPULimit: 120, Fn: func(t *T, i int) {
				// The source fails after j bytes, for every j until the operation succeeds without noticing.
				ops, _ := randOps(t)
				o := ops[i%nops]
				probe := newSrc(t, newRng("x", i))
				_, err := o.run(t, probe)
				t.noErr(o.name, err)
				for j := 0; j <= probe.n+1; j++ {
					s := newSrc(t, newRng("x", i))
					s.failAt = j
					s.err = pick(t.Rng, injected...)
					if t.Chance(1, 3) {
						s.short = 1 + t.IntN(9)
					}
					_, err := o.run(t, s)
					if s.failed {
						t.Check(err != nil, "%s: no error, though the source failed after %d bytes (%v)", o.name, j, s.err)
						t.Cover("failed " + o.name)
					} else {
						t.noErr(o.name+" with enough bytes", err)
					}
					t.Key("fail %s %d %v", o.name, j, s.err)
				}
			}},
			{Name: "failure after retry", N: [2]int{60, 1000}, CPULimit: 120, Fn: func(t *T, i int) {
				// First a value that must be rejected, then the source fails in the next read.
				d, _ := genD(t.Rng)
				priv := newSM2(d)
				k := t.Big(one, nm1)
				x := ref.BaseMul(k).X
				var script []byte
				var f func(rd io.Reader) (bool, error)
				name := ""
				switch i % 5 {
				case 0, 1, 2:
					e := modN([]*big.Int{sub(new(big.Int), x), sub(sub(ref.N, k), x), sub(mul(k, invN(d)), x)}[i%5])
					script, name = kBytes(k), "SignDigestRS"
					f = func(rd io.Reader) (bool, error) {
						r, s, err := sm2.SignDigestRS(rd, priv, b32(e))
						return r != nil || s != nil, err
					}
				case 3:
					script, name = kBytes(sharedZero(t.Rng, refPub(&priv.PublicKey), 0, 1)), "Encryt"
					f = func(rd io.Reader) (bool, error) {
						c, err := sm2.Encryt(rd, &priv.PublicKey, []byte{7})
						return c != nil, err
					}
				case 4:
					script, name = b32(pick(t.Rng, nm1, ref.N, sub(b256, one), add(ref.N, bi(5)))), "GenerateKey"
					script[1] ^= 0x42 // as crypto/elliptic does
					f = func(rd io.Reader) (bool, error) {
						k, err := sm2.GenerateKey(rd)
						return k != nil, err
					}
				}
				probe := newSrc(t, newRng("y", i))
				probe.script = script
				_, err := f(probe)
				t.noErr(name, err)
				if probe.n >= 2*len(script) {
					t.Cover("second read reached: " + name)
				}
				for j := 0; j <= probe.n; j += 1 + t.IntN(3) {
					s := newSrc(t, newRng("y", i))
					s.script = script
					s.failAt = j
					s.err = pick(t.Rng, injected...)
					got, err := f(s)
					t.Check(s.failed == (err != nil), "%s: source failed after %d of %d bytes (%v), error %v", name, j, probe.n, s.failed, err)
					t.Check(err == nil || !got, "%s: result together with the error %v", name, err)
					t.Key("retry fail %s %d", name, j)
				}
			}},
			{Name: "second draw", N: [2]int{120, 2000}, Fn: func(t *T, i int) {
				// A nonce that is used for one input and has to be replaced for another: the replacement is drawn afresh, so
				// that it depends on the bytes that follow, and is not near the first.
				d, _ := genD(t.Rng)
				priv := newSM2(d)
				k := t.Big(one, nm1)
				x := ref.BaseMul(k).X
				name := "SignDigestRS"
				e := modN([]*big.Int{sub(new(big.Int), x), sub(sub(ref.N, k), x), sub(mul(k, invN(d)), x)}[i%3])
				f := func(rd io.Reader, special bool) ref.Pt {
					h := b32(e)
					if !special {
						h = b32(bi(77))
					}
					r, s, err := sm2.SignDigestRS(rd, priv, h)
					t.noErr("SignDigestRS", err)
					return ref.BaseMul(ref.RecoverK(d, r, s))
				}
				if i%4 == 3 {
					name = "Encryt"
					k = sharedZero(t.Rng, refPub(&priv.PublicKey), 0, 1)
					f = func(rd io.Reader, special bool) ref.Pt {
						m := []byte{7}
						if !special {
							m = t.Bytes(20)
						}
						c, err := sm2.Encryt(rd, &priv.PublicKey, m)
						t.noErr("Encryt", err)
						return ref.Pt{X: new(big.Int).SetBytes(c[1:33]), Y: new(big.Int).SetBytes(c[33:65])}
					}
				}
				script := kBytes(k)
				if i%8 >= 4 { // for an implementation that takes 32 bytes as they are
					script = b32(k)
				}
				run := func(special bool, tail string) ref.Pt {
					s := newSrc(t, newRng(tail, i))
					s.script = script
					return f(s, special)
				}
				first := run(false, "a")
				if first.X.Cmp(ref.BaseMul(k).X) != 0 {
					t.Evalf()
					t.Cover("second draw: the bytes mean another nonce")
					return
				}
				a, b := run(true, "a"), run(true, "b")
				t.Check(a.X.Cmp(first.X) != 0 && b.X.Cmp(first.X) != 0, "%s: the nonce %x cannot be used here", name, k)
				t.Check(a.X.Cmp(b.X) != 0, "%s: the nonce that replaces %x is the same whatever the source gives", name, k)
				p, q := a, a
				for j := 0; j < 40; j++ {
					p, q = ref.Add(p, ref.G), ref.Add(q, ref.Neg(ref.G))
					t.Check(p.X.Cmp(first.X) != 0 && q.X.Cmp(first.X) != 0, "%s: the nonce that replaces %x is near it", name, k)
				}
				t.Cover("second draw: " + name)
				t.Key("second %s %x", name, k)
			}},
			{Name: "short reads", N: [2]int{120, 2000}, Fn: func(t *T, i int) {
				ops, _ := randOps(t)
				o := ops[i%nops]
				a, err := o.run(t, newSrc(t, newRng("z", i)))
				t.noErr(o.name, err)
				for j := 0; j < 4; j++ {
					s := newSrc(t, newRng("z", i))
					s.script = make([]byte, 300)
					newRng("z", i).Read(s.script)
					s.short = 1 + (i/nops*4+j)%48
					b, err := o.run(t, s)
					t.noErr(o.name+" with short reads", err)
					t.Check(bytes.Equal(a, b), "%s: reads of at most %d bytes changed the value", o.name, s.short)
					t.Key("short %s %d", o.name, s.short)
				}
			}},
			{Name: "reader manners", N: [2]int{160, 3000}, Fn: func(t *T, i int) {
				// Everything that io.Reader allows: empty reads in between, and the last bytes together with the end of the stream.
				ops, _ := randOps(t)
				o := ops[i%nops]
				first := newSrc(t, newRng("z", i))
				a, err := o.run(t, first)
				t.noErr(o.name, err)
				for j := 0; j < 4; j++ {
					m := &mannered{data: make([]byte, first.n), when: newRng("when", i, j), t: t}
					newRng("z", i).Read(m.data)
					m.eof, m.empty, m.short = j%2 == 0, j >= 1, j >= 2
					if j == 3 {
						m.eof, m.empty, m.short = true, false, false
						m.errWith = errInjected
					}
					b, err := o.run(t, m)
					t.noErr(fmt.Sprintf("%s, the last bytes come with the end: %v, empty reads: %v, short reads: %v", o.name, m.eof, m.empty, m.short), err)
					t.Check(bytes.Equal(a, b), "%s: the manner of reading changed the value", o.name)
					t.Key("manner %s %d %d", o.name, i, j)
					if m.ended {
						t.Cover("data with the end of the stream: " + o.name)
					}
				}
			}},
			{Name: "extreme streams", N: [2]int{240, 3000}, Fn: func(t *T, i int) {
				ops, _ := randOps(t)
				o := ops[i%nops]
				s := newSrc(t, t.Rng)
				switch i / nops % 8 {
				case 0:
					s.script = make([]byte, 40)
				case 1:
					s.script = bytes.Repeat([]byte{0xff}, 40)
				case 2, 3, 4:
					// What crypto/elliptic would take as a key at the ends of the range.
					b := b32(pick(t.Rng, new(big.Int), bi(1), nm2, nm1, ref.N, add(ref.N, one), sub(b256, one)))
					b[1] ^= 0x42
					s.script = b
				case 5:
					s.script = kBytes(pick(t.Rng, bi(1), nm1, nm2, ref.N, add(ref.N, bi(3))))
				case 6:
					s.script = cat(b32(nm1), b32(ref.N), b32(nm2))
				case 7:
					s.script = bytes.Repeat([]byte{byte(t.IntN(256))}, 80)
				}
				out, err := o.run(t, s)
				t.noErr(o.name, err)
				t.Key("extreme %s %x", o.name, out)
				t.Cover(fmt.Sprintf("extreme stream %d, %s", i/nops%8, o.name))
				if o.name == "GenerateKey" && bytes.Equal(out, b32(nm2)) {
					t.Cover("key n-2 generated")
				}
			}},
		},
	})

	register(&Prop{
		ID: "C23",
		Rule: "pairs of points (random, equal, inverse, infinity, order boundaries) and scalars (0, 1, n-1, n, n+1, above 2^256, leading zero bytes, random) through Add, Double, ScalarMult, ScalarBaseMult, IsOnCurve, Marshal/Unmarshal. " +
			"Oracle: reference affine group law. Distinct = distinct operands.",
		Groups: []Group{
			{Name: "parameters", N: [2]int{1, 1}, Fn: func(t *T, i int) {
				c := sm2.SM2P256V1()
				for _, p := range []*elliptic.CurveParams{c.Params(), c.CurveParams, elliptic.Curve(c).Params()} {
					t.Check(p.P.Cmp(ref.P) == 0 && p.N.Cmp(ref.N) == 0 && p.B.Cmp(ref.B) == 0 && p.Gx.Cmp(ref.GX) == 0 && p.Gy.Cmp(ref.GY) == 0 && p.BitSize == 256, "curve parameters %+v", p)
				}
				t.Check(c.A.Cmp(ref.A) == 0, "A = %x", c.A)
				t.Check(c.IsOnCurve(ref.GX, ref.GY), "base point not on the curve")
				t.Check(ref.Mul(ref.G, nm1).X.Cmp(ref.GX) == 0, "harness: order")
				t.Key("parameters")
			}},
			{Name: "add", N: [2]int{3000, 60000}, Fn: func(t *T, i int) {
				c := sm2.SM2P256V1()
				a, b := genPoint(t.Rng), genPoint(t.Rng)
				switch i % 8 {
				case 0:
					b = a
				case 1:
					b = ref.Neg(a)
				case 2:
					b = ref.Infinity()
				case 3:
					a = ref.Infinity()
				case 4:
					b = ref.Add(a, a)
				}
				x, y := c.Add(cp(a.X), cp(a.Y), cp(b.X), cp(b.Y))
				ptEq(t, "Add", x, y, ref.Add(a, b))
				x, y = c.Double(cp(a.X), cp(a.Y))
				ptEq(t, "Double", x, y, ref.Add(a, a))
				t.Key("add %x %x", a.X, b.X)
				t.Key("dbl %x", a.X)
			}},
			{Name: "base", N: [2]int{1200, 30000}, Fn: func(t *T, i int) {
				k, kind := genScalar(t.Rng)
				x, y := sm2.SM2P256V1().ScalarBaseMult(clone(k))
				ptEq(t, "ScalarBaseMult "+hx(k), x, y, ref.BaseMul(new(big.Int).SetBytes(k)))
				t.Key("base %x", k)
				t.Cover("base scalar " + kind)
			}},
			{Name: "mult", N: [2]int{1200, 30000}, Fn: func(t *T, i int) {
				k, kind := genScalar(t.Rng)
				p := genPoint(t.Rng)
				x, y := sm2.SM2P256V1().ScalarMult(cp(p.X), cp(p.Y), clone(k))
				ptEq(t, "ScalarMult "+hx(k), x, y, ref.Mul(p, new(big.Int).SetBytes(k)))
				t.Key("mult %x %x", p.X, k)
				t.Cover("scalar " + kind)
				if p.Inf {
					t.Cover("multiple of infinity")
				}
			}},
			{Name: "membership", N: [2]int{3000, 60000}, Fn: func(t *T, i int) {
				c := sm2.SM2P256V1()
				p := genPoint(t.Rng)
				if p.Inf {
					return
				}
				chk := func(what string, x, y *big.Int) {
					want := x.Sign() >= 0 && y.Sign() >= 0 && x.Cmp(ref.P) < 0 && y.Cmp(ref.P) < 0 && ref.OnCurve(x, y)
					t.Check(c.IsOnCurve(cp(x), cp(y)) == want, "%s: IsOnCurve(%x, %x) = %v", what, x, y, !want)
					t.Key("on %x %x", x, y)
				}
				chk("point", p.X, p.Y)
				chk("negative", p.X, sub(ref.P, p.Y))
				switch i % 8 {
				case 0:
					chk("x+p", add(p.X, ref.P), p.Y)
					chk("y+p", p.X, add(p.Y, ref.P))
				case 1:
					chk("-y", p.X, new(big.Int).Neg(p.Y))
					chk("x-p", sub(p.X, ref.P), p.Y)
				case 2:
					chk("y+1", p.X, add(p.Y, one))
					chk("x+1", add(p.X, one), p.Y)
				case 3:
					chk("swapped", p.Y, p.X)
				case 4:
					chk("origin", new(big.Int), new(big.Int))
				case 5:
					chk("random", t.Big(new(big.Int), ref.P), t.Big(new(big.Int), ref.P))
				case 6:
					if q, ok := ref.LiftX(t.Big(new(big.Int), bi(1000))); ok {
						chk("small x", q.X, q.Y)
						chk("small x + p", add(q.X, ref.P), q.Y)
					}
				case 7:
					// On the curve with a = 0 or another b.
					y2 := mul(mul(p.X, p.X), p.X)
					y2.Add(y2, ref.B).Mod(y2, ref.P)
					if y := new(big.Int).ModSqrt(y2, ref.P); y != nil {
						chk("a = 0", p.X, y)
					}
				}
			}},
			{Name: "marshal", N: [2]int{600, 10000}, Fn: func(t *T, i int) {
				c := sm2.SM2P256V1()
				p := genPoint(t.Rng)
				if p.Inf {
					return
				}
				b := elliptic.Marshal(c, p.X, p.Y)
				t.mustEq("Marshal", b, point(p))
				x, y := elliptic.Unmarshal(c, b)
				t.Check(eqInt(x, p.X) && eqInt(y, p.Y), "Unmarshal(Marshal(p)) = %x, %x", x, y)
				b[1+t.IntN(64)] ^= 1 << t.IntN(8)
				x, y = elliptic.Unmarshal(c, b)
				want := ref.OnCurve(new(big.Int).SetBytes(b[1:33]), new(big.Int).SetBytes(b[33:])) && bytes.Compare(b[1:33], b32(ref.P)) < 0 && bytes.Compare(b[33:], b32(ref.P)) < 0
				t.Check((x != nil) == want, "Unmarshal(%s) = %x, %x", hx(b), x, y)
				t.Key("marshal %x", p.X)
			}},
		},
	})
}

func ptEq(t *T, what string, x, y *big.Int, want ref.Pt) {
	t.Check(eqInt(x, want.X) && eqInt(y, want.Y), "%s = (%x, %x), want (%x, %x)", what, x, y, want.X, want.Y)
}

func genPoint(r *Rng) ref.Pt {
	switch r.IntN(12) {
	case 0:
		return ref.Infinity()
	case 1:
		return pick(r, ref.G, ref.Neg(ref.G), ref.BaseMul(bi(2)), ref.BaseMul(nm2))
	case 2:
		p := ref.BaseMul(specialK(r, pick(r, "x2", "x3", "y2", "y3")))
		return p
	case 3:
		p, _ := tinyPoint(r)
		return p
	}
	return ref.BaseMul(r.Big(one, nm1))
}

// tinyPoint returns a point one of whose coordinates has any number of leading zero bytes, nobody knows its logarithm.
func tinyPoint(r *Rng) (ref.Pt, string) {
	for {
		v := r.Big(new(big.Int), new(big.Int).Lsh(one, uint(r.IntN(256))))
		if r.Chance(1, 4) {
			v = bi(int64(r.IntN(40)))
		}
		q, ok := ref.LiftX(v)
		what := "x"
		if r.Chance(1, 2) {
			q, ok = ref.LiftY(v)
			what = "y"
		}
		if !ok {
			continue
		}
		if what == "x" && r.Chance(1, 2) {
			q = ref.Neg(q)
		}
		return q, fmt.Sprintf("%s of %d bytes", what, (v.BitLen()+7)/8)
	}
}

func genScalar(r *Rng) ([]byte, string) {
	n := ref.N
	switch r.IntN(8) {
	case 0:
		x := pick(r, new(big.Int), bi(1), bi(2), bi(3), nm1, nm2, n, add(n, one), add(n, two), mul(n, two), add(mul(n, two), one), sub(b256, one), b256)
		return x.Bytes(), "edge"
	case 1:
		return cat(make([]byte, 1+r.IntN(9)), r.Big(one, nm1).Bytes()), "leading zero bytes"
	case 2:
		return r.Bytes(33 + r.IntN(40)), "above 2^256"
	case 3:
		return r.Bytes(r.IntN(6)), "short"
	case 4:
		return make([]byte, r.IntN(40)), "zero"
	case 5:
		// sparse and dense
		b := bytes.Repeat([]byte{pick(r, byte(0), byte(0xff))}, 32)
		b[r.IntN(32)] ^= 1 << r.IntN(8)
		return b, "sparse"
	}
	return r.Bytes(32), "random"
}

// mannered hands out data in unusual but legal ways.
type mannered struct {
	data              []byte
	n, calls          int
	eof, empty, short bool
	errWith           error
	ended             bool
	when              *Rng
	t                 *T
}

func (m *mannered) Read(p []byte) (int, error) {
	if m.calls++; m.calls > 1<<16 {
		m.t.Failf("does not terminate: %d reads", m.calls)
	}
	if m.empty && m.when.Chance(1, 3) {
		return 0, nil
	}
	if m.n == len(m.data) {
		return 0, io.EOF
	}
	if m.short && len(p) > 1 {
		p = p[:1+m.when.IntN(len(p)-1)]
	}
	n := copy(p, m.data[m.n:])
	m.n += n
	if m.eof && m.n == len(m.data) {
		m.ended = true
		if m.errWith != nil {
			return n, m.errWith
		}
		return n, io.EOF
	}
	return n, nil
}
