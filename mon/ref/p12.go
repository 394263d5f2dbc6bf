package ref

import (
	"bytes"
	"crypto/cipher"
	"crypto/des"
	"crypto/hmac"
	"crypto/sha1"
	"errors"
	"fmt"
	"math/big"
	"unicode/utf16"
)

// PKCS #12 per RFC 7292: key derivation (appendix B), a writer and a reader for password-protected files with an
// SHA-1 MAC, 3DES and 40-bit RC2.

// BMP is the null-terminated BMPString of a password; ok is false outside the basic multilingual plane.
func BMP(s string) (b []byte, ok bool) {
	for _, r := range s {
		if r > 0xffff {
			return nil, false
		}
		b = append(b, byte(r>>8), byte(r))
	}
	return append(b, 0, 0), true
}

func repeatTo(p []byte, v int) []byte {
	if len(p) == 0 {
		return nil
	}
	n := (len(p) + v - 1) / v * v
	out := make([]byte, n)
	for i := range out {
		out[i] = p[i%len(p)]
	}
	return out
}

// P12KDF derives n bytes with SHA-1.
func P12KDF(id byte, pw, salt []byte, iter, n int) []byte {
	const v = 64
	d := bytes.Repeat([]byte{id}, v)
	i := append(repeatTo(salt, v), repeatTo(pw, v)...)
	var out []byte
	for len(out) < n {
		h := sha1.Sum(append(append([]byte{}, d...), i...))
		for r := 1; r < iter; r++ {
			h = sha1.Sum(h[:])
		}
		out = append(out, h[:]...)
		b := repeatTo(h[:], v)[:v]
		for j := 0; j < len(i); j += v {
			c := 1
			for k := v - 1; k >= 0; k-- {
				c += int(i[j+k]) + int(b[k])
				i[j+k] = byte(c)
				c >>= 8
			}
		}
	}
	return out[:n]
}

// P12KeyEq reports whether two passwords (as strings) derive the same MAC keys: the key derivation repeats the
// password to a multiple of 64 bytes, so some different passwords are the same.
func P12KeyEq(a, b string) bool {
	x, ok1 := BMP(a)
	y, ok2 := BMP(b)
	return ok1 && ok2 && bytes.Equal(repeatTo(x, 64), repeatTo(y, 64))
}

// OIDs as DER.
func OID(arcs ...int) []byte {
	var c []byte
	for _, a := range append([]int{arcs[0]*40 + arcs[1]}, arcs[2:]...) {
		var t []byte
		t = append(t, byte(a&0x7f))
		for a >>= 7; a > 0; a >>= 7 {
			t = append([]byte{byte(a&0x7f) | 0x80}, t...)
		}
		c = append(c, t...)
	}
	return TLV(6, c)
}

var (
	OIDData       = OID(1, 2, 840, 113549, 1, 7, 1)
	OIDEncData    = OID(1, 2, 840, 113549, 1, 7, 6)
	OIDSHA1       = OID(1, 3, 14, 3, 2, 26)
	OIDKeyBag     = OID(1, 2, 840, 113549, 1, 12, 10, 1, 2)
	OIDCertBag    = OID(1, 2, 840, 113549, 1, 12, 10, 1, 3)
	OIDX509Cert   = OID(1, 2, 840, 113549, 1, 9, 22, 1)
	OIDLocalKeyID = OID(1, 2, 840, 113549, 1, 9, 21)
	OIDFriendly   = OID(1, 2, 840, 113549, 1, 9, 20)
	OIDCSPName    = OID(1, 3, 6, 1, 4, 1, 311, 17, 1)
	OID3DES       = OID(1, 2, 840, 113549, 1, 12, 1, 3)
	OIDRC240      = OID(1, 2, 840, 113549, 1, 12, 1, 6)
)

// PBECipher returns the cipher and IV of a PKCS #12 PBE algorithm.
func PBECipher(oid, pw, salt []byte, iter int) (cipher.Block, []byte, error) {
	iv := P12KDF(2, pw, salt, iter, 8)
	switch {
	case bytes.Equal(oid, OID3DES):
		b, err := des.NewTripleDESCipher(P12KDF(1, pw, salt, iter, 24))
		return b, iv, err
	case bytes.Equal(oid, OIDRC240):
		return rc2Block{NewRC2(P12KDF(1, pw, salt, iter, 5), 40)}, iv, nil
	}
	return nil, nil, fmt.Errorf("unknown PBE %x", oid)
}

type rc2Block struct{ c *RC2 }

func (b rc2Block) BlockSize() int          { return 8 }
func (b rc2Block) Encrypt(dst, src []byte) { copy(dst, b.c.Encrypt(src)) }
func (b rc2Block) Decrypt(dst, src []byte) { copy(dst, b.c.Decrypt(src)) }

// PBEEncrypt encrypts with PKCS #7 padding.
func PBEEncrypt(oid, pw, salt []byte, iter int, plain []byte) []byte {
	n := 8 - len(plain)%8
	return PBEEncryptRaw(oid, pw, salt, iter, append(append([]byte{}, plain...), bytes.Repeat([]byte{byte(n)}, n)...))
}

// PBEEncryptRaw encrypts whole blocks.
func PBEEncryptRaw(oid, pw, salt []byte, iter int, plain []byte) []byte {
	blk, iv, err := PBECipher(oid, pw, salt, iter)
	if err != nil {
		panic(err)
	}
	p := append([]byte{}, plain...)
	cipher.NewCBCEncrypter(blk, iv).CryptBlocks(p, p)
	return p
}

func pbeDecrypt(oid, pw, salt []byte, iter int, ct []byte) ([]byte, error) {
	blk, iv, err := PBECipher(oid, pw, salt, iter)
	if err != nil {
		return nil, err
	}
	if len(ct) == 0 || len(ct)%8 != 0 {
		return nil, errors.New("ciphertext length")
	}
	p := append([]byte{}, ct...)
	cipher.NewCBCDecrypter(blk, iv).CryptBlocks(p, p)
	n := int(p[len(p)-1])
	if n == 0 || n > 8 || !bytes.Equal(p[len(p)-n:], bytes.Repeat([]byte{byte(n)}, n)) {
		return nil, errors.New("padding")
	}
	return p[:len(p)-n], nil
}

// Bag is one safe bag of a file.
type Bag struct {
	Key        bool   // shrouded key bag, else certificate bag
	Data       []byte // PKCS #8 or certificate
	LocalKeyID []byte
	Friendly   string
	NoName     bool   // with: a friendly name that is the empty string
	CSP        string // Microsoft's name of the provider of a key
	Ended      bool   // a zero character after the names, as some write

	// What follows the key or certificate, or the structure it is in, where nothing should.
	DataTail, ValueTail []byte

	// Instead of the padding; with it, the data must be whole blocks.
	Pad []byte

	// Filled in by the reader for key bags.
	Salt []byte
	Iter int
	PBE  []byte
}

// Safe is one of the contents of the authenticated safe.
type Safe struct {
	Encrypted bool
	PBE       []byte // OID
	Salt      []byte
	Iter      int
	Bags      []Bag

	// What follows the bags, or the content the bags are in, where nothing should.
	BagsTail, ContentTail []byte

	Raw []byte // filled in by the reader: the decrypted contents
}

// PFX describes a file.
type PFX struct {
	Safes   []Safe
	MacSalt []byte
	MacIter int
	// NoMacIter leaves the default iteration count out.
	NoMacIter bool   // the reader too says whether it was left out
	Mac       []byte // filled in by the reader
	AuthSafe  []byte // filled in by the reader
}

func algID(oid []byte, params []byte) []byte { return TLV(0x30, oid, params) }

func pbeParams(salt []byte, iter int) []byte {
	return TLV(0x30, TLV(4, salt), Int(big.NewInt(int64(iter))))
}

func attrs(b Bag) []byte {
	var as []byte
	name := func(oid []byte, text string) {
		var s []byte
		for _, u := range utf16.Encode([]rune(text)) {
			s = append(s, byte(u>>8), byte(u))
		}
		if b.Ended {
			s = append(s, 0, 0)
		}
		as = append(as, TLV(0x30, oid, TLV(0x31, TLV(0x1e, s)))...)
	}
	if b.Friendly != "" || b.NoName {
		name(OIDFriendly, b.Friendly)
	}
	if b.CSP != "" {
		name(OIDCSPName, b.CSP)
	}
	if b.LocalKeyID != nil {
		as = append(as, TLV(0x30, OIDLocalKeyID, TLV(0x31, TLV(4, b.LocalKeyID)))...)
	}
	if as == nil {
		return nil
	}
	return TLV(0x31, as)
}

// EncodeBag returns the SafeBag.
func EncodeBag(b Bag, pw []byte) []byte {
	if !b.Key {
		return TLV(0x30, OIDCertBag, TLV(0xa0, TLV(0x30, OIDX509Cert, TLV(0xa0, TLV(4, b.Data, b.DataTail))), b.ValueTail), attrs(b))
	}
	ct := PBEEncrypt(b.PBE, pw, b.Salt, b.Iter, append(b.Data[:len(b.Data):len(b.Data)], b.DataTail...))
	if b.Pad != nil {
		ct = PBEEncryptRaw(b.PBE, pw, b.Salt, b.Iter, append(b.Data[:len(b.Data):len(b.Data)], b.Pad...))
	}
	return TLV(0x30, OIDKeyBag, TLV(0xa0, TLV(0x30, algID(b.PBE, pbeParams(b.Salt, b.Iter)), TLV(4, ct)), b.ValueTail), attrs(b))
}

// EncodePFX writes the file. pw is the BMP form of the password (or empty).
func EncodePFX(f PFX, pw []byte) []byte {
	var cis []byte
	for _, s := range f.Safes {
		var bags []byte
		for _, b := range s.Bags {
			bags = append(bags, EncodeBag(b, pw)...)
		}
		content := append(TLV(0x30, bags), s.BagsTail...)
		if !s.Encrypted {
			cis = append(cis, TLV(0x30, OIDData, TLV(0xa0, TLV(4, content), s.ContentTail))...)
			continue
		}
		cis = append(cis, EncryptedContent(content, s.PBE, s.Salt, s.Iter, pw, s.ContentTail...)...)
	}
	return WrapAuthSafe(TLV(0x30, cis), f, pw)
}

// EncryptedContent is the content info with the encrypted form of content.
func EncryptedContent(content, pbe, salt []byte, iter int, pw []byte, tail ...byte) []byte {
	eci := TLV(0x30, OIDData, algID(pbe, pbeParams(salt, iter)), TLV(0x80, PBEEncrypt(pbe, pw, salt, iter, content)))
	return TLV(0x30, OIDEncData, TLV(0xa0, TLV(0x30, Int(big.NewInt(0)), eci), tail))
}

// WrapAuthSafe adds the outer structure and a correct MAC to an authenticated safe.
func WrapAuthSafe(as []byte, f PFX, pw []byte) []byte {
	m := hmac.New(sha1.New, P12KDF(3, pw, f.MacSalt, f.MacIter, 20))
	m.Write(as)
	iter := Int(big.NewInt(int64(f.MacIter)))
	if f.NoMacIter {
		iter = nil
	}
	mac := TLV(0x30, TLV(0x30, algID(OIDSHA1, []byte{5, 0}), TLV(4, m.Sum(nil))), TLV(4, f.MacSalt), iter)
	return TLV(0x30, Int(big.NewInt(3)), TLV(0x30, OIDData, TLV(0xa0, TLV(4, as))), mac)
}

type reader struct {
	b   []byte
	err error
}

func (r *reader) next(tag byte) []byte {
	if r.err != nil {
		return nil
	}
	t, c, rest, ok := ReadTLV(r.b)
	if !ok || t != tag {
		r.err = fmt.Errorf("want tag %x at %.20x", tag, r.b)
		return nil
	}
	r.b = rest
	return c
}

// oid returns the whole element.
func (r *reader) oid() []byte {
	c := r.next(6)
	return TLV(6, c)
}

func (r *reader) int() int {
	c := r.next(2)
	return int(new(big.Int).SetBytes(c).Int64())
}

func (r *reader) sub(tag byte) *reader {
	c := r.next(tag)
	return &reader{b: c, err: r.err}
}

func (r *reader) end() error {
	if r.err == nil && len(r.b) != 0 {
		r.err = fmt.Errorf("trailing %.20x", r.b)
	}
	return r.err
}

// DecodePFX reads a file and checks its MAC.
func DecodePFX(der, pw []byte) (*PFX, error) {
	top := &reader{b: der}
	pfx := top.sub(0x30)
	if err := top.end(); err != nil {
		return nil, err
	}
	if v := pfx.int(); v != 3 {
		return nil, fmt.Errorf("version %d", v)
	}
	ci := pfx.sub(0x30)
	if o := ci.oid(); !bytes.Equal(o, OIDData) {
		return nil, errors.New("authSafe type")
	}
	w := ci.sub(0xa0)
	as := w.next(4)
	if w.end() != nil || ci.end() != nil {
		return nil, errors.New("authSafe")
	}
	f := &PFX{AuthSafe: as}
	md := pfx.sub(0x30)
	if err := pfx.end(); err != nil {
		return nil, err
	}
	di := md.sub(0x30)
	alg := di.sub(0x30)
	if o := alg.oid(); !bytes.Equal(o, OIDSHA1) {
		return nil, errors.New("mac algorithm")
	}
	f.Mac = di.next(4)
	if err := di.end(); err != nil {
		return nil, err
	}
	f.MacSalt = md.next(4)
	f.MacIter = 1
	if f.NoMacIter = len(md.b) == 0; !f.NoMacIter {
		f.MacIter = md.int()
	}
	if err := md.end(); err != nil {
		return nil, err
	}
	m := hmac.New(sha1.New, P12KDF(3, pw, f.MacSalt, f.MacIter, 20))
	m.Write(as)
	if !hmac.Equal(m.Sum(nil), f.Mac) {
		return nil, errors.New("mac")
	}
	t := &reader{b: as}
	seq := t.sub(0x30)
	if err := t.end(); err != nil {
		return nil, err
	}
	for len(seq.b) > 0 && seq.err == nil {
		s, err := readSafe(seq.sub(0x30), pw)
		if err != nil {
			return nil, err
		}
		f.Safes = append(f.Safes, *s)
	}
	return f, seq.err
}

func readPBE(r *reader) (oid, salt []byte, iter int) {
	a := r.sub(0x30)
	oid = a.oid()
	p := a.sub(0x30)
	salt = p.next(4)
	iter = p.int()
	if p.end() != nil || a.end() != nil {
		r.err = errors.New("pbe parameters")
	}
	return
}

func readSafe(ci *reader, pw []byte) (*Safe, error) {
	o := ci.oid()
	w := ci.sub(0xa0)
	if err := ci.end(); err != nil {
		return nil, err
	}
	s := &Safe{}
	var content []byte
	switch {
	case bytes.Equal(o, OIDData):
		content = w.next(4)
	case bytes.Equal(o, OIDEncData):
		s.Encrypted = true
		ed := w.sub(0x30)
		if v := ed.int(); v != 0 {
			return nil, errors.New("encryptedData version")
		}
		eci := ed.sub(0x30)
		if err := ed.end(); err != nil {
			return nil, err
		}
		if !bytes.Equal(eci.oid(), OIDData) {
			return nil, errors.New("encrypted content type")
		}
		s.PBE, s.Salt, s.Iter = readPBE(eci)
		ct := eci.next(0x80)
		if err := eci.end(); err != nil {
			return nil, err
		}
		var err error
		if content, err = pbeDecrypt(s.PBE, pw, s.Salt, s.Iter, ct); err != nil {
			return nil, err
		}
	default:
		return nil, fmt.Errorf("content type %x", o)
	}
	if err := w.end(); err != nil {
		return nil, err
	}
	s.Raw = content
	t := &reader{b: content}
	seq := t.sub(0x30)
	if err := t.end(); err != nil {
		return nil, err
	}
	for len(seq.b) > 0 && seq.err == nil {
		b, err := readBag(seq.sub(0x30), pw)
		if err != nil {
			return nil, err
		}
		s.Bags = append(s.Bags, *b)
	}
	return s, seq.err
}

func readBag(r *reader, pw []byte) (*Bag, error) {
	o := r.oid()
	v := r.sub(0xa0)
	b := &Bag{}
	switch {
	case bytes.Equal(o, OIDKeyBag):
		b.Key = true
		e := v.sub(0x30)
		b.PBE, b.Salt, b.Iter = readPBE(e)
		ct := e.next(4)
		if err := e.end(); err != nil {
			return nil, err
		}
		var err error
		if b.Data, err = pbeDecrypt(b.PBE, pw, b.Salt, b.Iter, ct); err != nil {
			return nil, err
		}
	case bytes.Equal(o, OIDCertBag):
		c := v.sub(0x30)
		if !bytes.Equal(c.oid(), OIDX509Cert) {
			return nil, errors.New("certificate type")
		}
		x := c.sub(0xa0)
		b.Data = x.next(4)
		if x.end() != nil || c.end() != nil {
			return nil, errors.New("certificate bag")
		}
	default:
		return nil, fmt.Errorf("bag type %x", o)
	}
	if err := v.end(); err != nil {
		return nil, err
	}
	if len(r.b) > 0 {
		as := r.sub(0x31)
		for len(as.b) > 0 && as.err == nil {
			a := as.sub(0x30)
			id := a.oid()
			set := a.sub(0x31)
			switch {
			case bytes.Equal(id, OIDLocalKeyID):
				b.LocalKeyID = set.next(4)
			case bytes.Equal(id, OIDFriendly):
				c := set.next(0x1e)
				var u []uint16
				for i := 0; i+1 < len(c); i += 2 {
					u = append(u, uint16(c[i])<<8|uint16(c[i+1]))
				}
				b.Friendly = string(utf16.Decode(u))
			}
			if set.err != nil {
				return nil, set.err
			}
		}
		if as.err != nil {
			return nil, as.err
		}
	}
	return b, r.end()
}
