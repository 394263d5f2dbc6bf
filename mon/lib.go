package main

import (
	"bytes"
	"errors"
	"fmt"
	"io"
	"math/big"

	"mon/ref"

	"github.com/mmdet/mcrypto/sm2"
)

var (
	one  = big.NewInt(1)
	two  = big.NewInt(2)
	nm1  = new(big.Int).Sub(ref.N, one)
	nm2  = new(big.Int).Sub(ref.N, two)
	b256 = new(big.Int).Lsh(one, 256)
)

func bi(x int64) *big.Int               { return big.NewInt(x) }
func add(a, b *big.Int) *big.Int        { return new(big.Int).Add(a, b) }
func sub(a, b *big.Int) *big.Int        { return new(big.Int).Sub(a, b) }
func mul(a, b *big.Int) *big.Int        { return new(big.Int).Mul(a, b) }
func modN(a *big.Int) *big.Int          { return new(big.Int).Mod(a, ref.N) }
func invN(a *big.Int) *big.Int          { return new(big.Int).ModInverse(a, ref.N) }
func b32(x *big.Int) []byte             { return ref.B32(x) }
func clone(b []byte) []byte             { return append([]byte(nil), b...) }
func cat(bs ...[]byte) (out []byte)     { return bytes.Join(bs, nil) }
func lead0(x *big.Int) bool             { return x.BitLen() <= 248 }
func eqInt(a, b *big.Int) bool          { return a != nil && b != nil && a.Cmp(b) == 0 }
func newSM2(d *big.Int) *sm2.PrivateKey { return sm2From(d, ref.BaseMul(d)) }

func sm2From(d *big.Int, p ref.Pt) *sm2.PrivateKey {
	k := new(sm2.PrivateKey)
	k.Curve = sm2.SM2P256V1()
	k.X, k.Y = new(big.Int).Set(p.X), new(big.Int).Set(p.Y)
	k.D = new(big.Int).Set(d)
	return k
}

func sm2Pub(p ref.Pt) *sm2.PublicKey {
	return &sm2.PublicKey{Curve: sm2.SM2P256V1(), X: new(big.Int).Set(p.X), Y: new(big.Int).Set(p.Y)}
}

func refPub(k *sm2.PublicKey) ref.Pt { return ref.Pt{X: k.X, Y: k.Y} }

// genD returns a private key value of one of several kinds, with a label.
func genD(r *Rng) (*big.Int, string) {
	switch r.IntN(10) {
	case 0:
		return pick(r, bi(1), bi(2), bi(3), nm2, sub(nm2, one), new(big.Int).Rsh(ref.N, 1)), "edge"
	case 1:
		return r.Big(one, new(big.Int).Lsh(one, uint(8*r.IntN(31)+8))), "D-short"
	case 2:
		if r.Chance(1, 4) {
			return specialK(r, pick(r, "x2", "x3", "y2", "y3")), "XY-lead00"
		}
		return searchKey(r, func(p ref.Pt) bool { return lead0(p.X) }), "X-lead0"
	case 3:
		return searchKey(r, func(p ref.Pt) bool { return lead0(p.Y) }), "Y-lead0"
	}
	return r.Big(one, nm2), "random"
}

// special lists multiples K of the base point such that K*G has 2 or 3 leading zero bytes in x or y,
// or a key derivation output that starts with that many zero bytes (found by search).
var special = map[string][]string{
	"x2": {"6dd9fa5f8fb7c54e4b140a999a3f72e71da49afb6d80181b9249b4c813f930b", "2fcf1d63edae47d3b1f92ef0236ed1674bb7dfe0fb425eebf3cd6c39d4c3224e", "2fcf1d63edae47d3b1f92ef0236ed1674bb7dfe0fb425eebf3cd6c39d4c32f53"},
	"y2": {"1a30b519c8c8a89f55aef019370ea54913827af504179bb2be09353ae79cf26f", "19e622a5d8ba38d1a5ff5fca0a0ea1eada796df4162b048248f921057029c56c", "db05f629e69692ef3fb389218baa567dfa3a8ce3f9cb98ffa1d782b599ff4a6"},
	"x3": {"6dd9fa5f8fb7c54e4b140a999a3f72e71da49afb6d80181b9249b4c8150044c", "19e622a5d8ba38d1a5ff5fca0a0ea1eada796df4162b048248f9210570652468"},
	"y3": {"db05f629e69692ef3fb389218baa567dfa3a8ce3f9cb98ffa1d782b59cdd0e1", "1a30b519c8c8a89f55aef019370ea54913827af504179bb2be09353ae7d9abcf"},
	"z2": {"79c141078fd812528130d8ce821401d79934a65f67655faa84d4b8568d69459", "290d78b03626db1c5c6eff2fd2f74dbb2778c03cebae334a0ca5ffa50394f21", "2fcf1d63edae47d3b1f92ef0236ed1674bb7dfe0fb425eebf3cd6c39d4c37e2d"},
	"z3": {"db05f629e69692ef3fb389218baa567dfa3a8ce3f9cb98ffa1d782b59d9759d", "79c141078fd812528130d8ce821401d79934a65f67655faa84d4b8569160381"},
}

// specialK picks one of them.
func specialK(r *Rng, kind string) *big.Int {
	k, _ := new(big.Int).SetString(pick(r, special[kind]...), 16)
	return k
}

// searchKey finds d with the wanted public point, by stepping through neighbours.
func searchKey(r *Rng, want func(ref.Pt) bool) *big.Int {
	d := r.Big(one, sub(nm2, bi(1<<20)))
	p := ref.BaseMul(d)
	for !want(p) {
		d = add(d, one)
		p = ref.Add(p, ref.G)
	}
	return d
}

// searchMul finds a nonce k near a random one such that k*p is as wanted.
func searchMul(r *Rng, p ref.Pt, want func(ref.Pt) bool) *big.Int {
	k := r.Big(one, sub(nm2, bi(1<<20)))
	q := ref.Mul(p, k)
	for !want(q) {
		k = add(k, one)
		q = ref.Add(q, p)
	}
	return k
}

// ---- random sources for the code under test

var errInjected = errors.New("injected entropy failure")

// src is a scripted random source that records what it delivered.
type src struct {
	script []byte // delivered first
	rng    *Rng   // then this
	short  int    // max bytes per Read (0: no limit)
	failAt int    // fail when this many bytes were delivered (-1: never)
	err    error  // with this error
	limit  int    // more than this many bytes is a runaway loop
	n      int
	calls  int
	failed bool
	t      *T
}

func newSrc(t *T, rng *Rng) *src {
	return &src{rng: rng, failAt: -1, err: errInjected, limit: 1 << 16, t: t}
}

func (s *src) Read(p []byte) (int, error) {
	s.calls++
	if s.calls > 1<<17 || s.n > s.limit {
		s.t.Failf("does not terminate: read %d random bytes in %d calls without finishing", s.n, s.calls)
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := len(p)
	if s.short > 0 && n > s.short {
		n = s.short
	}
	var err error
	if s.failAt >= 0 && s.n+n > s.failAt {
		n = max(0, s.failAt-s.n)
		err = s.err
		s.failed = true
	}
	q := p[:n]
	c := copy(q, s.script[min(s.n, len(s.script)):])
	if c < n {
		s.rng.Read(q[c:])
	}
	s.n += n
	return n, err
}

// kBytes is the 40-byte string from which the present nonce derivation makes k. Oracles never rely on it.
func kBytes(k *big.Int) []byte { return sub(k, one).FillBytes(make([]byte, 40)) }

var _ io.Reader = (*src)(nil)

// guard runs f and turns a panic into a failure that names the call.
func (t *T) guard(what string, f func()) {
	defer func() {
		if e := recover(); e != nil {
			if a, ok := e.(abort); ok {
				panic(a)
			}
			t.Logf("in %s", what)
			panic(fmt.Sprintf("%s: %v", what, e))
		}
	}()
	f()
}

func (t *T) mustEq(what string, got, want []byte) {
	t.evals++
	if !bytes.Equal(got, want) {
		t.Failf("%s = %s, want %s", what, hx(got), hx(want))
	}
}

func (t *T) noErr(what string, err error) {
	t.evals++
	if err != nil {
		t.Failf("%s: unexpected error: %v", what, err)
	}
}

func (t *T) wantErr(what string, err error) {
	t.evals++
	if err == nil {
		t.Failf("%s: no error", what)
	}
}
