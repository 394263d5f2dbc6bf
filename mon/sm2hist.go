package main

import (
	"fmt"
	"math/big"

	"mon/ref"

	"github.com/mmdet/mcrypto/sm2"
)

// Histories: long runs of calls over few keys, messages, ids, signatures and ciphertexts, so that calls often share all but
// one of their arguments, and over key objects and buffers whose values change between calls. Each result is compared with the
// reference's for the values of that moment. The groups run alone, so that nothing between two calls hides a connection.

type histKeys struct {
	d    []*big.Int
	p    []ref.Pt
	slot *sm2.PrivateKey // one object that becomes each of the keys in turn
}

func newHistKeys(t *T, n int) *histKeys {
	h := &histKeys{slot: newSM2(bi(1))}
	for i := 0; i < n; i++ {
		d, _ := genD(t.Rng)
		if i == 1 && t.Chance(1, 2) { // the same x
			d = sub(ref.N, h.d[0])
			if d.Cmp(nm2) > 0 {
				d = bi(2)
			}
		}
		h.d, h.p = append(h.d, d), append(h.p, ref.BaseMul(d))
	}
	return h
}

// priv gives key i as an object of its own or as the common one, which is changed in one of several ways.
func (h *histKeys) priv(t *T, i int) (*sm2.PrivateKey, string) {
	switch t.IntN(5) {
	case 0:
		return newSM2(h.d[i]), "new object"
	case 1:
		h.slot.D.Set(h.d[i])
		h.slot.X.Set(h.p[i].X)
		h.slot.Y.Set(h.p[i].Y)
		return h.slot, "numbers set in place"
	case 2:
		h.slot.D, h.slot.X, h.slot.Y = cp(h.d[i]), cp(h.p[i].X), cp(h.p[i].Y)
		return h.slot, "numbers replaced"
	case 3:
		*h.slot = *newSM2(h.d[i])
		return h.slot, "object replaced"
	}
	c := *h.slot
	c.D, c.X, c.Y = cp(h.d[i]), cp(h.p[i].X), cp(h.p[i].Y)
	return &c, "copy"
}

// reuse puts v into the common buffer or gives a buffer of its own.
func reuse(t *T, buf []byte, v []byte) []byte {
	if v == nil || t.Chance(1, 4) {
		return clone(v)
	}
	return buf[:copy(buf, v)]
}

// smallNonce is a number for which an implementation may have a table.
func smallNonce(r *Rng) *big.Int {
	k := bi(int64(1 + r.IntN(pick(r, 4, 16, 300))))
	if r.Chance(1, 4) {
		k.Lsh(k, uint(4*r.IntN(60)))
	}
	return k
}

// sm2Verifying: C06.
func histVerify(t *T, i int) {
	h := newHistKeys(t, 3)
	msgs := [][]byte{t.Bytes(20), nil, t.Bytes(1 + t.IntN(90))}
	msgs[1] = clone(msgs[0])
	msgs[1][t.IntN(20)] ^= 1
	ids := [][]byte{nil, []byte("1234567812345679"), t.Bytes(16)}
	type sig struct {
		k, m, u int
		r, s    *big.Int
		dig     []byte
	}
	var sigs []sig
	for k := range h.d {
		for m := range msgs {
			for u := range ids {
				if t.Chance(1, 2) {
					continue
				}
				dig, _ := ref.MsgDigest(h.p[k].X, h.p[k].Y, msgs[m], ids[u])
				if r, s, ok := ref.SignK(h.d[k], dig, t.Big(one, nm1)); ok {
					sigs = append(sigs, sig{k, m, u, r, s, dig})
				}
			}
		}
	}
	if len(sigs) < 2 {
		return
	}
	mb, ub, sb, db := make([]byte, 128), make([]byte, 64), make([]byte, 128), make([]byte, 64)
	rr, ss := new(big.Int), new(big.Int)
	last := sigs[0]
	for n := 0; n < 60; n++ {
		// Mostly the last signature again, with something else exchanged.
		g := last
		if t.Chance(1, 3) {
			g = pick(t.Rng, sigs...)
		}
		o := pick(t.Rng, sigs...)
		k, m, u, r, s, dig := g.k, g.m, g.u, g.r, g.s, g.dig
		what := "everything fits"
		switch t.IntN(9) {
		case 0:
			k, what = o.k, "key of another"
		case 1:
			m, what = o.m, "message of another"
		case 2:
			u, what = o.u, "id of another"
		case 3:
			r, what = o.r, "r of another"
		case 4:
			s, what = o.s, "s of another"
		case 5:
			dig, what = o.dig, "digest of another"
			k = pick(t.Rng, k, o.k)
		}
		last = g
		priv, how := h.priv(t, k)
		pub := &priv.PublicKey
		e := t.IntN(8)
		if what == "digest of another" {
			e = 4 + e%4
		} else if e >= 4 {
			dig, _ = ref.MsgDigest(h.p[k].X, h.p[k].Y, msgs[m], ids[u])
			if t.Chance(1, 3) {
				dig = g.dig
			}
		} else {
			dig, _ = ref.MsgDigest(h.p[k].X, h.p[k].Y, msgs[m], ids[u])
		}
		want := ref.Verify(h.p[k], dig, r, s)
		msg, id, sg, dg := reuse(t, mb, msgs[m]), reuse(t, ub, ids[u]), reuse(t, sb, ref.MarshalSig(r, s)), reuse(t, db, dig)
		if t.Chance(1, 2) {
			rr.Set(r)
			ss.Set(s)
		} else {
			rr, ss = cp(r), cp(s)
		}
		var got bool
		switch e {
		case 0:
			got = sm2.Verify(pub, msg, id, sg)
		case 1:
			got = pub.Verify(msg, id, sg)
		case 2:
			got = sm2.VerifyRS(pub, msg, id, rr, ss)
		case 3:
			got = pub.VerifyRS(msg, id, rr, ss)
		case 4:
			got = sm2.VerifyDigest(pub, dg, sg)
		case 5:
			got = pub.VerifyDigest(dg, sg)
		case 6:
			got = sm2.VerifyDigestRS(pub, dg, rr, ss)
		case 7:
			got = pub.VerifyDigestRS(dg, rr, ss)
		}
		t.Check(got == want, "step %d, %s, %s: %s = %v, want %v", n, what, how, verifyNames[e], got, want)
		t.Key("history %x %x %d %d %d %x", r, s, k, m, u, dig)
		t.Cover(fmt.Sprintf("history, %s: %v", what, want))
		t.Cover("history: " + how)
	}
}

// histSign: C05. Signatures and digests of changing keys, messages and ids.
func histSign(t *T, i int) {
	h := newHistKeys(t, 2)
	msgs := [][]byte{t.Bytes(20), t.Bytes(20), nil}
	ids := [][]byte{nil, t.Bytes(16), t.Bytes(16)}
	mb, ub := make([]byte, 64), make([]byte, 64)
	nonce := t.Big(one, nm1)
	for n := 0; n < 24; n++ {
		k, m, u := t.IntN(2), t.IntN(3), t.IntN(3)
		priv, how := h.priv(t, k)
		msg, id := reuse(t, mb, msgs[m]), reuse(t, ub, ids[u])
		dig, _ := ref.MsgDigest(h.p[k].X, h.p[k].Y, msg, id)
		got, err := priv.SM3Digest(msg, id)
		t.noErr("SM3Digest", err)
		t.mustEq(fmt.Sprintf("step %d, %s: SM3Digest", n, how), got, dig)
		e := t.IntN(8)
		src := newSrc(t, t.Rng)
		if t.Chance(1, 2) { // few nonces, each in many signatures
			src.script = kBytes(pick(t.Rng, smallNonce(t.Rng), nonce, nm1, h.d[k]))
		}
		r, s, _, err := signWith(t, e, src, priv, msg, id)
		t.noErr(signNames[e], err)
		t.Check(ref.Verify(h.p[k], dig, r, s), "step %d, %s: the reference refuses the signature by %s", n, how, signNames[e])
		pub := &priv.PublicKey
		t.Check(pub.VerifyRS(msg, id, r, s) && sm2.VerifyDigestRS(pub, dig, r, s), "step %d, %s: signature by %s refused", n, how, signNames[e])
		t.Key("history %x %x", r, s)
		t.Cover("history: " + how)
		if t.Chance(1, 3) { // the owner is done with them
			r.SetInt64(77)
			s.SetInt64(-1)
		}
	}
}

// histEncrypt: C03.
func histEncrypt(t *T, i int) {
	h := newHistKeys(t, 2)
	mb := make([]byte, 128)
	script := t.Bytes(400)
	for n := 0; n < 16; n++ {
		k := t.IntN(2)
		priv, how := h.priv(t, k)
		msg := reuse(t, mb, t.Bytes(pick(t.Rng, 1, 16, 33, 100)))
		s := newSrc(t, t.Rng)
		if t.Chance(1, 2) { // the same nonce for another key or message
			s.script = script
			if t.Chance(1, 2) {
				s.script = kBytes(smallNonce(t.Rng))
			}
		}
		ct, err := sm2.Encryt(s, &priv.PublicKey, msg)
		t.noErr("Encryt", err)
		pt, ok := ref.Decrypt(h.d[k], ct)
		t.Check(ok, "step %d, %s: the reference refuses the ciphertext", n, how)
		t.mustEq("plaintext", pt, msg)
		got, err := sm2.Decryt(priv, ct)
		t.noErr("Decryt", err)
		t.mustEq("own plaintext", got, msg)
		t.Key("history %x", ct)
		t.Cover("history: " + how)
	}
}

// histDecrypt: C04. Few keys and nonces, so that C1, C2 and C3 parts recur in other company.
func histDecrypt(t *T, i int) {
	h := newHistKeys(t, 2)
	nonces := []*big.Int{t.Big(one, nm1), t.Big(one, nm1)}
	msgs := [][]byte{t.Bytes(32), t.Bytes(32), t.Bytes(5)}
	var cts [][]byte
	for _, p := range h.p {
		for _, k := range nonces {
			for _, m := range msgs {
				if ct, ok := ref.EncryptK(p, m, k); ok {
					cts = append(cts, ct)
				}
			}
		}
	}
	buf := make([]byte, 256)
	ct := clone(cts[0])
	for n := 0; n < 40; n++ {
		what := "another ciphertext"
		switch t.IntN(7) {
		case 0:
			ct = clone(pick(t.Rng, cts...))
		case 1:
			what = "the same again"
		case 2:
			what = "C1 of another"
			copy(ct[:65], pick(t.Rng, cts...))
		case 3:
			what = "C3 of another"
			copy(ct[65:97], pick(t.Rng, cts...)[65:])
		case 4:
			what = "C2 of another"
			ct = cat(ct[:97], pick(t.Rng, cts...)[97:])
		case 5:
			what = "one bit"
			ct = clone(ct)
			ct[1+t.IntN(len(ct)-1)] ^= 1 << t.IntN(8)
		case 6:
			ct = clone(pick(t.Rng, cts...))
		}
		k := t.IntN(2)
		priv, how := h.priv(t, k)
		in := reuse(t, buf, ct)
		want, ok := ref.Decrypt(h.d[k], ct)
		var pt []byte
		var err error
		t.guard("Decryt", func() { pt, err = sm2.Decryt(priv, in) })
		if ok {
			t.Check(err == nil, "step %d, %s, %s: refused an authentic ciphertext: %v", n, what, how, err)
			t.mustEq("plaintext", pt, want)
		} else {
			t.Check(err != nil && len(pt) == 0, "step %d, %s, %s: not authentic, but %s, %v", n, what, how, hx(pt), err)
		}
		t.Key("history %d %x", k, ct)
		t.Cover(fmt.Sprintf("history, %s: %v", what, ok))
	}
}

// nearRecomputed: C06. The recomputed value is a chosen v that resembles r without being r.
func nearRecomputed(t *T, i int) {
	d, _ := genD(t.Rng)
	p := ref.BaseMul(d)
	r, s := edgeRS(t.Rng), edgeRS(t.Rng)
	var v *big.Int
	rb := b32(r)
	what := ""
	switch i % 12 {
	case 0:
		what = "low bytes of r"
		n := 1 + t.IntN(31)
		v = new(big.Int).SetBytes(b32(r)[32-n:])
	case 1:
		what = "r is the low bytes"
		n := 1 + t.IntN(31)
		v = cp(r)
		r = new(big.Int).SetBytes(b32(r)[32-n:])
	case 2:
		what = "high bytes of r"
		v = new(big.Int).SetBytes(r.Bytes()[:t.IntN(len(r.Bytes()))])
	case 3:
		what = "r is the high bytes"
		v = cp(r)
		r = new(big.Int).SetBytes(r.Bytes()[:t.IntN(len(r.Bytes()))])
	case 4:
		what = "next to r"
		v = modN(add(r, pick(t.Rng, bi(1), bi(-1), bi(2), bi(256))))
	case 5:
		what = "minus r"
		v = sub(ref.N, r)
	case 6:
		what = "bytes reversed"
		for a, b := 0, 31; a < b; a, b = a+1, b-1 {
			rb[a], rb[b] = rb[b], rb[a]
		}
		v = modN(new(big.Int).SetBytes(rb))
	case 7:
		what = "one bit of r"
		v = modN(new(big.Int).SetBit(r, i/12%256, 1-r.Bit(i/12%256)))
	case 8:
		what = "zero"
		v = new(big.Int)
	case 9:
		what = "shifted r"
		v = modN(new(big.Int).Lsh(r, uint(8*(1+t.IntN(3)))))
		if t.Chance(1, 2) {
			v = new(big.Int).Rsh(r, uint(8*(1+t.IntN(31))))
		}
	case 10:
		what = "one byte of r"
		rb[t.IntN(32)] ^= byte(1 + t.IntN(255))
		v = modN(new(big.Int).SetBytes(rb))
	case 11:
		what = "s"
		v = cp(s)
		if t.Chance(1, 2) {
			v, what = modN(add(r, s)), "r + s"
		}
	}
	if r.Sign() == 0 {
		return
	}
	tt := modN(add(r, s))
	if tt.Sign() == 0 {
		return
	}
	q := ref.Add(ref.BaseMul(s), ref.Mul(p, tt))
	if q.Inf {
		return
	}
	dig := b32(modN(sub(v, q.X)))
	want := ref.Verify(p, dig, r, s)
	t.Check(want == eqInt(v, r), "harness: recomputed %x, r %x, %v", v, r, want)
	verifyDig(t, "the recomputed value is: "+what, sm2Pub(p), dig, r, s, want)
	t.Cover(fmt.Sprintf("recomputed, %s: %v", what, want))
	t.Key("recomputed %x %x %x", r, s, v)
}
