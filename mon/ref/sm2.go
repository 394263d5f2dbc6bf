package ref

import (
	"bytes"
	"errors"
	"math/big"
)

// SM2 per GM/T 0003-2012 in affine coordinates over math/big.

func hexInt(s string) *big.Int {
	n, ok := new(big.Int).SetString(s, 16)
	if !ok {
		panic(s)
	}
	return n
}

var (
	P  = hexInt("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFF")
	A  = hexInt("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFFF00000000FFFFFFFFFFFFFFFC")
	B  = hexInt("28E9FA9E9D9F5E344D5A9E4BCF6509A7F39789F515AB8F92DDBCBD414D940E93")
	N  = hexInt("FFFFFFFEFFFFFFFFFFFFFFFFFFFFFFFF7203DF6B21C6052B53BBF40939D54123")
	GX = hexInt("32C4AE2C1F1981195F9904466A39C9948FE30BBFF2660BE1715A4589334C74C7")
	GY = hexInt("BC3736A2F4F6779C59BDCEE36B692153D0A9877CC62A474002DF32E52139F0A0")

	one = big.NewInt(1)
)

// Pt is an affine point; Inf marks the point at infinity.
type Pt struct {
	X, Y *big.Int
	Inf  bool
}

var G = Pt{X: GX, Y: GY}

func Infinity() Pt { return Pt{X: new(big.Int), Y: new(big.Int), Inf: true} }

func mod(x *big.Int) *big.Int { return x.Mod(x, P) }

func OnCurve(x, y *big.Int) bool {
	if x.Sign() < 0 || y.Sign() < 0 || x.Cmp(P) >= 0 || y.Cmp(P) >= 0 {
		return false
	}
	l := new(big.Int).Mul(y, y)
	mod(l)
	r := new(big.Int).Mul(x, x)
	r.Add(r, A)
	r.Mul(r, x)
	r.Add(r, B)
	mod(r)
	return l.Cmp(r) == 0
}

func Neg(p Pt) Pt {
	if p.Inf {
		return p
	}
	y := new(big.Int).Sub(P, p.Y)
	return Pt{X: new(big.Int).Set(p.X), Y: mod(y)}
}

func Add(p, q Pt) Pt {
	if p.Inf {
		return q
	}
	if q.Inf {
		return p
	}
	l := new(big.Int)
	if p.X.Cmp(q.X) == 0 {
		s := new(big.Int).Add(p.Y, q.Y)
		if mod(s).Sign() == 0 {
			return Infinity()
		}
		// (3x^2 + a) / 2y
		l.Mul(p.X, p.X)
		l.Mul(l, big.NewInt(3))
		l.Add(l, A)
		d := new(big.Int).Lsh(p.Y, 1)
		l.Mul(l, d.ModInverse(mod(d), P))
	} else {
		l.Sub(q.Y, p.Y)
		d := new(big.Int).Sub(q.X, p.X)
		l.Mul(l, d.ModInverse(mod(d), P))
	}
	mod(l)
	x := new(big.Int).Mul(l, l)
	x.Sub(x, p.X)
	x.Sub(x, q.X)
	mod(x)
	y := new(big.Int).Sub(p.X, x)
	y.Mul(y, l)
	y.Sub(y, p.Y)
	mod(y)
	return Pt{X: x, Y: y}
}

var gTable = func() (t [256]Pt) {
	p := G
	for i := range t {
		t[i] = p
		p = Add(p, p)
	}
	return
}()

// BaseMul returns k*G for k >= 0.
func BaseMul(k *big.Int) Pt {
	k = new(big.Int).Mod(k, N)
	r := Infinity()
	for i := 0; i < k.BitLen(); i++ {
		if k.Bit(i) == 1 {
			r = Add(r, gTable[i])
		}
	}
	return r
}

// Mul returns k*p for k >= 0 and p of order N (or infinity).
func Mul(p Pt, k *big.Int) Pt {
	k = new(big.Int).Mod(k, N)
	r := Infinity()
	for i := k.BitLen() - 1; i >= 0; i-- {
		r = Add(r, r)
		if k.Bit(i) == 1 {
			r = Add(r, p)
		}
	}
	return r
}

// LiftX returns a point with the given x coordinate, if there is one.
func LiftX(x *big.Int) (Pt, bool) {
	r := new(big.Int).Mul(x, x)
	r.Add(r, A)
	r.Mul(r, x)
	r.Add(r, B)
	mod(r)
	y := new(big.Int).ModSqrt(r, P)
	if y == nil {
		return Pt{}, false
	}
	return Pt{X: new(big.Int).Set(x), Y: y}, true
}

// B32 is the 32-byte big-endian form of x.
func B32(x *big.Int) []byte { return x.FillBytes(make([]byte, 32)) }

var DefaultID = []byte("1234567812345678")

// Z is the identity hash of GM/T 0003.2 5.5. An empty id means the default id.
func Z(x, y *big.Int, id []byte) ([]byte, error) {
	if len(id) == 0 {
		id = DefaultID
	}
	if len(id)*8 > 0xffff {
		return nil, errors.New("id too long")
	}
	var b []byte
	b = append(b, byte(len(id)*8>>8), byte(len(id)*8))
	b = append(b, id...)
	for _, v := range []*big.Int{A, B, GX, GY, x, y} {
		b = append(b, B32(v)...)
	}
	return SM3(b), nil
}

// MsgDigest is SM3(Z || msg).
func MsgDigest(x, y *big.Int, msg, id []byte) ([]byte, error) {
	z, err := Z(x, y, id)
	if err != nil {
		return nil, err
	}
	return SM3(append(z, msg...)), nil
}

// Verify is GM/T 0003.2 7.1 from step B5 on, with the digest as an integer.
func Verify(pub Pt, digest []byte, r, s *big.Int) bool {
	if r.Sign() <= 0 || s.Sign() <= 0 || r.Cmp(N) >= 0 || s.Cmp(N) >= 0 {
		return false
	}
	t := new(big.Int).Add(r, s)
	t.Mod(t, N)
	if t.Sign() == 0 {
		return false
	}
	q := Add(BaseMul(s), Mul(pub, t))
	if q.Inf {
		return false
	}
	e := new(big.Int).SetBytes(digest)
	e.Add(e, q.X)
	e.Mod(e, N)
	return e.Cmp(r) == 0
}

// SignK signs the digest with nonce k; ok is false where the standard asks for another k.
func SignK(d *big.Int, digest []byte, k *big.Int) (r, s *big.Int, ok bool) {
	r = new(big.Int).SetBytes(digest)
	r.Add(r, BaseMul(k).X)
	r.Mod(r, N)
	if r.Sign() == 0 || new(big.Int).Add(r, k).Cmp(N) == 0 {
		return nil, nil, false
	}
	s = new(big.Int).Mul(r, d)
	s.Sub(k, s)
	s.Mul(s, new(big.Int).ModInverse(new(big.Int).Add(d, one), N))
	s.Mod(s, N)
	return r, s, s.Sign() != 0
}

// RecoverK returns the nonce behind a signature made with d.
func RecoverK(d, r, s *big.Int) *big.Int {
	k := new(big.Int).Add(d, one)
	k.Mul(k, s)
	rd := new(big.Int).Mul(r, d)
	k.Add(k, rd)
	return k.Mod(k, N)
}

// KDF is GM/T 0003.4 5.4.3.
func KDF(x, y *big.Int, n int) []byte {
	var out []byte
	for ct := uint32(1); len(out) < n; ct++ {
		in := append(B32(x), B32(y)...)
		in = append(in, byte(ct>>24), byte(ct>>16), byte(ct>>8), byte(ct))
		out = append(out, SM3(in)...)
	}
	return out[:n]
}

// KeyStreamZero reports whether the key stream for n > 0 bytes is all zero (the standard retries then).
func KeyStreamZero(x, y *big.Int, n int) bool {
	return n > 0 && len(bytes.Trim(KDF(x, y, n), "\x00")) == 0
}

// EncryptK encrypts with nonce k, as 04 || C1 || C3 || C2; ok is false if the key stream is all zero.
func EncryptK(pub Pt, msg []byte, k *big.Int) (ct []byte, ok bool) {
	c1 := BaseMul(k)
	q := Mul(pub, k)
	return Assemble(c1, q, msg)
}

// Assemble builds the ciphertext from C1 and the shared point.
func Assemble(c1, q Pt, msg []byte) (ct []byte, ok bool) {
	if KeyStreamZero(q.X, q.Y, len(msg)) {
		return nil, false
	}
	t := KDF(q.X, q.Y, len(msg))
	for i := range t {
		t[i] ^= msg[i]
	}
	h := append(B32(q.X), msg...)
	h = append(h, B32(q.Y)...)
	ct = append(ct, 4)
	ct = append(ct, B32(c1.X)...)
	ct = append(ct, B32(c1.Y)...)
	ct = append(ct, SM3(h)...)
	return append(ct, t...), true
}

// Decrypt is GM/T 0003.4 7.1 for the C1C3C2 form.
func Decrypt(d *big.Int, ct []byte) ([]byte, bool) {
	if len(ct) < 97 || ct[0] != 4 {
		return nil, false
	}
	x := new(big.Int).SetBytes(ct[1:33])
	y := new(big.Int).SetBytes(ct[33:65])
	if !OnCurve(x, y) {
		return nil, false
	}
	q := Mul(Pt{X: x, Y: y}, d)
	if q.Inf {
		return nil, false
	}
	c2 := ct[97:]
	if KeyStreamZero(q.X, q.Y, len(c2)) {
		return nil, false
	}
	m := KDF(q.X, q.Y, len(c2))
	for i := range m {
		m[i] ^= c2[i]
	}
	h := append(B32(q.X), m...)
	h = append(h, B32(q.Y)...)
	if !bytes.Equal(SM3(h), ct[65:97]) {
		return nil, false
	}
	return m, true
}

// ---- strict DER of SEQUENCE { INTEGER, INTEGER }

func derLen(n int) []byte {
	switch {
	case n < 0x80:
		return []byte{byte(n)}
	case n < 0x100:
		return []byte{0x81, byte(n)}
	case n < 0x10000:
		return []byte{0x82, byte(n >> 8), byte(n)}
	case n < 0x1000000:
		return []byte{0x83, byte(n >> 16), byte(n >> 8), byte(n)}
	}
	return []byte{0x84, byte(n >> 24), byte(n >> 16), byte(n >> 8), byte(n)}
}

// TLV builds a DER element.
func TLV(tag byte, parts ...[]byte) []byte {
	var c []byte
	for _, p := range parts {
		c = append(c, p...)
	}
	out := append([]byte{tag}, derLen(len(c))...)
	return append(out, c...)
}

// Int is the DER INTEGER of x (two's complement, minimal).
func Int(x *big.Int) []byte {
	if x.Sign() >= 0 {
		b := x.Bytes()
		if len(b) == 0 || b[0]&0x80 != 0 {
			b = append([]byte{0}, b...)
		}
		return TLV(2, b)
	}
	n := 1
	for new(big.Int).Lsh(big.NewInt(-1), uint(8*n-1)).Cmp(x) > 0 {
		n++
	}
	v := new(big.Int).Add(x, new(big.Int).Lsh(one, uint(8*n)))
	return TLV(2, v.FillBytes(make([]byte, n)))
}

func MarshalSig(r, s *big.Int) []byte { return TLV(0x30, Int(r), Int(s)) }

// ReadTLV reads one strict DER element with a low tag.
func ReadTLV(b []byte) (tag byte, content, rest []byte, ok bool) {
	if len(b) < 2 || b[0]&0x1f == 0x1f {
		return
	}
	n, h := int(b[1]), 2
	if b[1] >= 0x80 {
		c := int(b[1] & 0x7f)
		if c == 0 || c > 4 || len(b) < 2+c || b[2] == 0 {
			return
		}
		n = 0
		for _, x := range b[2 : 2+c] {
			n = n<<8 | int(x)
		}
		if n < 0x80 {
			return
		}
		h = 2 + c
	}
	if n < 0 || len(b)-h < n {
		return
	}
	return b[0], b[h : h+n], b[h+n:], true
}

// ReadInt reads a minimal DER INTEGER.
func ReadInt(b []byte) (*big.Int, []byte, bool) {
	tag, c, rest, ok := ReadTLV(b)
	if !ok || tag != 2 || len(c) == 0 {
		return nil, nil, false
	}
	if len(c) > 1 && (c[0] == 0 && c[1]&0x80 == 0 || c[0] == 0xff && c[1]&0x80 != 0) {
		return nil, nil, false
	}
	x := new(big.Int).SetBytes(c)
	if c[0]&0x80 != 0 {
		x.Sub(x, new(big.Int).Lsh(one, uint(8*len(c))))
	}
	return x, rest, true
}

// ParseSig reads the strict DER form of a signature.
func ParseSig(b []byte) (r, s *big.Int, ok bool) {
	tag, c, rest, ok := ReadTLV(b)
	if !ok || tag != 0x30 || len(rest) != 0 {
		return nil, nil, false
	}
	r, c, ok = ReadInt(c)
	if !ok {
		return nil, nil, false
	}
	s, c, ok = ReadInt(c)
	if !ok || len(c) != 0 {
		return nil, nil, false
	}
	return r, s, true
}

// VerifyDER verifies a DER signature over msg.
func VerifyDER(pub Pt, msg, id, sig []byte) bool {
	r, s, ok := ParseSig(sig)
	if !ok {
		return false
	}
	e, err := MsgDigest(pub.X, pub.Y, msg, id)
	return err == nil && Verify(pub, e, r, s)
}
