package main

import (
	"crypto"
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	"crypto/rsa"
	"crypto/x509"
	_ "embed"
	"encoding/pem"
	"io"
	"math/big"

	"mon/ref"

	"github.com/mmdet/mcrypto/sm2"
)

//go:embed data/rsa.pem
var rsaPEM []byte

// rsaKeys are fixtures of several sizes, exponents and numbers of primes. Use rsaKey to get a copy.
var rsaDER = func() (out [][]byte) {
	for rest := rsaPEM; ; {
		var b *pem.Block
		if b, rest = pem.Decode(rest); b == nil {
			return
		}
		out = append(out, b.Bytes)
	}
}()

func rsaKey(i int) *rsa.PrivateKey {
	k, err := x509.ParsePKCS1PrivateKey(rsaDER[i])
	if err != nil {
		panic(err)
	}
	return k
}

// tkey is a key of any supported type.
type tkey struct {
	kind   string
	priv   any // *sm2.PrivateKey, *ecdsa.PrivateKey, *rsa.PrivateKey, ed25519.PrivateKey
	pub    any
	signer crypto.Signer
}

func (k tkey) std() bool { return k.kind != "SM2" }

// sm2Signer makes an SM2 key a crypto.Signer as the package documentation asks: it gets the message itself.
type sm2Signer struct{ k *sm2.PrivateKey }

func (s sm2Signer) Public() crypto.PublicKey { return &s.k.PublicKey }
func (s sm2Signer) Sign(rand io.Reader, msg []byte, _ crypto.SignerOpts) ([]byte, error) {
	return sm2.Sign(rand, s.k, msg, nil)
}

func wrapSM2(k *sm2.PrivateKey) tkey { return tkey{"SM2", k, &k.PublicKey, sm2Signer{k}} }

// fromPriv is the key a parser gave.
func fromPriv(kind string, priv any) tkey {
	if k, ok := priv.(*sm2.PrivateKey); ok {
		return wrapSM2(k)
	}
	s := priv.(crypto.Signer)
	return tkey{kind, priv, s.Public(), s}
}

var keyKinds = []string{"SM2", "P224", "P256", "P384", "P521", "RSA", "Ed25519"}

func genKey(r *Rng, kind string) tkey {
	switch kind {
	case "SM2":
		d, _ := genD(r)
		return wrapSM2(newSM2(d))
	case "RSA":
		k := rsaKey(r.IntN(len(rsaDER)))
		return tkey{kind, k, &k.PublicKey, k}
	case "RSA small": // fast enough for many signatures
		k := rsaKey(r.IntN(3))
		return tkey{"RSA", k, &k.PublicKey, k}
	case "Ed25519":
		k := ed25519.NewKeyFromSeed(r.Bytes(32))
		return tkey{kind, k, k.Public(), k}
	}
	c := map[string]elliptic.Curve{"P224": elliptic.P224(), "P256": elliptic.P256(), "P384": elliptic.P384(), "P521": elliptic.P521()}[kind]
	n := c.Params().N
	d := r.Big(one, sub(n, one))
	switch r.IntN(8) {
	case 0:
		d = pick(r, bi(1), bi(2), sub(n, one), sub(n, two))
	case 1:
		d = r.Big(one, new(big.Int).Lsh(one, uint(8*r.IntN(n.BitLen()/8-1)+8)))
	}
	k := ecdsaKey(c, d)
	if r.Chance(1, 8) {
		for tries := 0; tries < 2000 && k.X.BitLen() > c.Params().BitSize-8 && k.Y.BitLen() > c.Params().BitSize-8; tries++ {
			k = ecdsaKey(c, r.Big(one, sub(n, one)))
		}
	}
	return tkey{kind, k, &k.PublicKey, k}
}

func ecdsaKey(c elliptic.Curve, d *big.Int) *ecdsa.PrivateKey {
	k := new(ecdsa.PrivateKey)
	k.Curve = c
	k.D = d
	k.X, k.Y = c.ScalarBaseMult(d.Bytes())
	return k
}

func anyKey(r *Rng) tkey {
	return genKey(r, pick(r, append([]string{"SM2", "SM2", "SM2"}, keyKinds...)...))
}

// samePriv compares two private keys, type and all.
func samePriv(a, b any) bool {
	switch a := a.(type) {
	case *sm2.PrivateKey:
		b, ok := b.(*sm2.PrivateKey)
		return ok && eqInt(a.D, b.D) && samePub(&a.PublicKey, &b.PublicKey) && a.Equal(b)
	case *ecdsa.PrivateKey:
		b, ok := b.(*ecdsa.PrivateKey)
		return ok && eqInt(a.D, b.D) && samePub(&a.PublicKey, &b.PublicKey)
	case *rsa.PrivateKey:
		b, ok := b.(*rsa.PrivateKey)
		if !ok || len(a.Primes) != len(b.Primes) || !eqInt(a.D, b.D) || !samePub(&a.PublicKey, &b.PublicKey) {
			return false
		}
		for i := range a.Primes {
			if !eqInt(a.Primes[i], b.Primes[i]) {
				return false
			}
		}
		return true
	case ed25519.PrivateKey:
		b, ok := b.(ed25519.PrivateKey)
		return ok && a.Equal(b)
	}
	return false
}

func samePub(a, b any) bool {
	switch a := a.(type) {
	case *sm2.PublicKey:
		b, ok := b.(*sm2.PublicKey)
		return ok && a.Curve == b.Curve && eqInt(a.X, b.X) && eqInt(a.Y, b.Y)
	case *ecdsa.PublicKey:
		b, ok := b.(*ecdsa.PublicKey)
		return ok && a.Curve == b.Curve && eqInt(a.X, b.X) && eqInt(a.Y, b.Y)
	case *rsa.PublicKey:
		b, ok := b.(*rsa.PublicKey)
		return ok && eqInt(a.N, b.N) && a.E == b.E
	case ed25519.PublicKey:
		b, ok := b.(ed25519.PublicKey)
		return ok && a.Equal(b)
	case nil:
		return b == nil
	}
	return false
}

// badKey says why a parsed key is not usable, or "".
func badKey(k any) string {
	switch k := k.(type) {
	case *sm2.PublicKey:
		if k == nil || k.Curve != sm2.SM2P256V1() || k.X == nil || k.Y == nil || k.X.Sign() < 0 || k.Y.Sign() < 0 || k.X.Cmp(ref.P) >= 0 || k.Y.Cmp(ref.P) >= 0 || !ref.OnCurve(k.X, k.Y) {
			return "SM2 public key not a point of the curve"
		}
	case *sm2.PrivateKey:
		if k == nil || k.D == nil || k.D.Sign() <= 0 || k.D.Cmp(nm2) > 0 {
			return "SM2 private key outside [1, n-2]"
		}
		p := ref.BaseMul(k.D)
		if k.Curve != sm2.SM2P256V1() || !eqInt(k.X, p.X) || !eqInt(k.Y, p.Y) {
			return "SM2 public point does not belong to the private key"
		}
	case *ecdsa.PublicKey:
		p := k.Curve.Params()
		if p.Name == sm2.SM2P256V1().Name {
			return "SM2 key typed as ECDSA"
		}
		if k.X == nil || k.Y == nil || k.X.Sign() < 0 || k.Y.Sign() < 0 || k.X.Cmp(p.P) >= 0 || k.Y.Cmp(p.P) >= 0 || (k.X.Sign() == 0 && k.Y.Sign() == 0) || !p.IsOnCurve(k.X, k.Y) {
			return "ECDSA public key not a point of the curve"
		}
	case *ecdsa.PrivateKey:
		p := k.Curve.Params()
		if k.D == nil || k.D.Sign() <= 0 || k.D.Cmp(p.N) >= 0 {
			return "ECDSA private key outside [1, n-1]"
		}
		if s := badKey(&k.PublicKey); s != "" {
			return s
		}
		x, y := k.Curve.ScalarBaseMult(k.D.Bytes())
		if !eqInt(k.X, x) || !eqInt(k.Y, y) {
			return "ECDSA public point does not belong to the private key"
		}
	case *rsa.PublicKey:
		if k.N == nil || k.N.Sign() <= 0 || k.E <= 0 {
			return "RSA public key not positive"
		}
	case *rsa.PrivateKey:
		if s := badKey(&k.PublicKey); s != "" {
			return s
		}
		if k.D.Sign() <= 0 || len(k.Primes) < 2 {
			return "RSA private key not positive"
		}
		if err := k.Validate(); err != nil {
			return "RSA private key: " + err.Error()
		}
		if len(k.Primes) > 2 {
			return "" // the standard library's validation does not look at the primes of these
		}
		n := bi(1)
		de := mul(k.D, bi(int64(k.E)))
		de.Sub(de, one)
		for _, p := range k.Primes {
			if p.Cmp(one) <= 0 {
				return "RSA prime not above 1"
			}
			n.Mul(n, p)
			if new(big.Int).Mod(de, sub(p, one)).Sign() != 0 {
				return "RSA exponents do not match"
			}
		}
		if n.Cmp(k.N) != 0 {
			return "RSA primes do not make the modulus"
		}
	case ed25519.PublicKey:
		if len(k) != 32 {
			return "Ed25519 public key size"
		}
	case ed25519.PrivateKey:
		if len(k) != 64 {
			return "Ed25519 private key size"
		}
		if !ed25519.NewKeyFromSeed(k[:32]).Equal(k) {
			return "Ed25519 public half does not match"
		}
	case nil:
		return "nil key without an error"
	}
	return ""
}
