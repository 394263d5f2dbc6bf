package main

import (
	"bytes"
	"crypto/cipher"
	"fmt"

	"mon/ref"

	"github.com/mmdet/mcrypto/pkcs12"
)

func newRC2(t *T, key []byte, bits int) cipher.Block {
	k := clone(key)
	var c cipher.Block
	var err error
	t.guard(fmt.Sprintf("New(%d-byte key, %d)", len(key), bits), func() { c, err = pkcs12.New(k, bits) })
	t.noErr("pkcs12.New", err)
	t.Check(bytes.Equal(k, key), "New changed its key")
	t.Check(c.BlockSize() == 8, "BlockSize %d", c.BlockSize())
	for i := range k { // the cipher must not keep the slice
		k[i] = ^k[i]
	}
	return c
}

// rc2Block runs one block through c with canaries around the buffers.
func rc2Block(t *T, c cipher.Block, enc bool, in []byte, mode int) []byte {
	canary := byte(0xa5)
	src := append(clone(in), canary, canary, canary)
	var dst []byte
	extra := t.IntN(12)
	switch mode {
	case 0: // apart
		dst = bytes.Repeat([]byte{canary}, 8+extra)
	case 1: // in place
		dst = src
	case 2: // a source longer than a block
		dst = bytes.Repeat([]byte{canary}, 8)
	case 3: // exact, dst filled with something else
		dst = t.Bytes(8)
	}
	s := src
	if mode == 3 {
		s = src[:8:8]
	}
	t.guard("RC2 block", func() {
		if enc {
			c.Encrypt(dst, s)
		} else {
			c.Decrypt(dst, s)
		}
	})
	if mode != 1 {
		t.Check(bytes.Equal(src[:8], in), "the source block was changed")
	}
	for _, b := range dst[8:] {
		t.Check(b == canary, "wrote beyond the 8 bytes of the block")
	}
	for _, b := range src[8:] {
		t.Check(b == canary, "wrote beyond the source block")
	}
	return clone(dst[:8])
}

func init() {
	register(&Prop{
		ID:   "C19",
		Rule: "every key length 1..128 and every effective length 1..1024, random and patterned keys and blocks, against an RFC 2268 implementation; distinct (key length, effective length, block)",
		Groups: []Group{
			{Name: "grid", N: [2]int{1024, 1024}, Fn: func(t *T, i int) {
				bits := i + 1
				for n := 1; n <= 128; n++ {
					key := fill(t.Rng, n)
					c, r := newRC2(t, key, bits), ref.NewRC2(key, bits)
					for b := 0; b < [2]int{2, 40}[t.tier]; b++ {
						p := fill(t.Rng, 8)
						ct := rc2Block(t, c, true, p, t.IntN(4))
						t.mustEq(fmt.Sprintf("RC2 encryption under %x (%d bits) of %x", key, bits, p), ct, r.Encrypt(p))
						t.mustEq("decryption of the encryption", rc2Block(t, c, false, ct, t.IntN(4)), p)
						q := fill(t.Rng, 8)
						t.mustEq(fmt.Sprintf("RC2 decryption under %x (%d bits) of %x", key, bits, q), rc2Block(t, c, false, q, t.IntN(4)), r.Decrypt(q))
						t.Key("%d %d %x", n, bits, p)
					}
				}
				t.Cover("effective lengths")
			}},
			{Name: "history", N: [2]int{600, 20000}, Fn: func(t *T, i int) {
				// several cipher objects used in any order
				type obj struct {
					c cipher.Block
					r *ref.RC2
				}
				var os []obj
				for n := 1 + t.IntN(4); n > 0; n-- {
					key := fill(t.Rng, 1+t.IntN(128))
					bits := pick(t.Rng, 40, 64, 128, 1024, 1+t.IntN(1024), min(1024, len(key)*8))
					os = append(os, obj{newRC2(t, key, bits), ref.NewRC2(key, bits)})
				}
				p := fill(t.Rng, 8)
				for n := 20 + t.IntN(60); n > 0; n-- {
					o := os[t.IntN(len(os))]
					enc := t.Chance(1, 2)
					if t.Chance(1, 3) {
						p = fill(t.Rng, 8)
					}
					got := rc2Block(t, o.c, enc, p, t.IntN(4))
					want := o.r.Decrypt(p)
					if enc {
						want = o.r.Encrypt(p)
					}
					t.mustEq(fmt.Sprintf("block operation %d (encrypt %v)", n, enc), got, want)
					p = got
				}
				t.Key("%x", p)
				t.Cover("histories")
			}},
			{Name: "CBC", N: [2]int{200, 5000}, Fn: func(t *T, i int) {
				// as the PKCS #12 code uses it
				key := fill(t.Rng, 1+t.IntN(16))
				bits := len(key) * 8
				c, r := newRC2(t, key, bits), ref.NewRC2(key, bits)
				iv := t.Bytes(8)
				plain := t.Bytes(8 * (1 + t.IntN(40)))
				ct := clone(plain)
				cipher.NewCBCEncrypter(c, iv).CryptBlocks(ct, ct)
				prev := iv
				for k := 0; k < len(plain); k += 8 {
					x := make([]byte, 8)
					for j := range x {
						x[j] = plain[k+j] ^ prev[j]
					}
					prev = r.Encrypt(x)
					t.mustEq("CBC block", ct[k:k+8], prev)
				}
				cipher.NewCBCDecrypter(c, iv).CryptBlocks(ct, ct)
				t.mustEq("CBC decryption", ct, plain)
				t.Key("%x", key)
			}},
		},
	})
}
