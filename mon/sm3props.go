package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"hash"

	"mon/ref"

	"github.com/mmdet/mcrypto/sm3"
	mx "github.com/mmdet/mcrypto/x509"
)

// bigBlock is the 1 MiB block that the long messages repeat; the goldens were computed with openssl.
func bigBlock() []byte {
	b := make([]byte, 1<<20)
	x := uint32(12345)
	for i := range b {
		x = x*1664525 + 1013904223
		b[i] = byte(x >> 24)
	}
	return b
}

type bigCase struct {
	mib    int // number of blocks
	extra  int // then this many bytes of the block
	sum    string
	oneOff bool // also through the one-shot function
}

var bigCases = []bigCase{
	{mib: 1, extra: 0, oneOff: true, sum: "60ae979f89a379f5a23c78087d152f796efd580b65128f4742265a6975e81501"},
	{mib: 17, extra: 55, oneOff: true, sum: "c7e31c73c562e65ded79cdef347836531c91832dd92e067cb87ce8eb192df2f5"},
	{mib: 32, extra: 1, oneOff: true, sum: "bee5f88d572a1bde0997f40b50e6794fd82c98f530b4aa831b9524d021bcc8a6"},
	{mib: 511, extra: 1048575, sum: "9c7a53a12f9df36975eaec18b0d6c9180a6dca7ea4bcc026a51e4a6bc473101e"},
	{mib: 512, extra: 0, oneOff: true, sum: "c53a3dcbccb3dddc04a1a1b3a57757c3a8de90b445ea856519c8a231d77db8c7"},
	{mib: 512, extra: 57, sum: "079417979f0ed4899e2617fbf524cfc2f5ce8a78496ed30a624179b34526a273"},
	{mib: 4096, extra: 3, sum: "49a1797aaf460780e096d88cd3b8d7dba288995f145bce8f3b395dccf836da22"},
	{mib: 2048, extra: 60, sum: "a9f1bfb64829a47ec5704b512ec1e6b2365340fc2c2da2fcc63dbb52ff13c9e0"}, // from here on thorough only
	{mib: 8193, extra: 119, sum: "048af7cd2fd9501d028a887da83449b07bc6d5cda09618fbe6d3a07d3ba5ba5e"},
}

func fill(r *Rng, n int) []byte {
	b := make([]byte, n)
	switch r.IntN(5) {
	case 0:
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2:
		for i := range b {
			b[i] = byte(i)
		}
	default:
		r.Read(b)
	}
	return b
}

// writeSplit writes msg to h in random pieces and checks what Write reports.
func writeSplit(t *T, h hash.Hash, msg []byte) {
	mode := t.IntN(5)
	for rest := msg; ; {
		var n int
		switch mode {
		case 0:
			n = len(rest)
		case 1:
			n = 1
		case 2:
			n = t.IntN(130)
		case 3:
			n = pick(t.Rng, 0, 1, 63, 64, 65, 127, 128, 129)
		default:
			n = t.IntN(len(rest) + 1)
		}
		n = min(n, len(rest))
		k, err := h.Write(rest[:n])
		t.Check(k == n && err == nil, "Write of %d bytes = %d, %v", n, k, err)
		rest = rest[n:]
		if len(rest) == 0 {
			return
		}
	}
}

func sm3All(t *T, msg []byte) {
	want := ref.SM3(msg)
	t.mustEq("Sum", sm3.Sum(msg), want)
	h := sm3.New()
	t.Check(h.Size() == 32 && h.BlockSize() == 64, "Size %d BlockSize %d", h.Size(), h.BlockSize())
	writeSplit(t, h, msg)
	t.mustEq("streamed Sum", h.Sum(nil), want)
	h2 := mx.SM3.New()
	t.Check(h2.Size() == 32 && h2.BlockSize() == 64, "registry: Size %d BlockSize %d", h2.Size(), h2.BlockSize())
	writeSplit(t, h2, msg)
	t.mustEq("registry Sum", h2.Sum(nil), want)
	t.Key("%x", want)
}

func init() {
	register(&Prop{
		ID: "C01",
		Rule: "messages of every length from 0, boundary lengths and random lengths with random, constant and counting contents, each hashed one-shot, streamed in random pieces and through the registry; plus messages of 512 MiB to 4 GiB against openssl goldens. " +
			"Distinct = distinct expected digests (from the reference implementation).",
		Groups: []Group{
			{Name: "length", N: [2]int{3000, 20000}, Fn: func(t *T, i int) {
				sm3All(t, t.Bytes(i))
				if i%1000 == 0 {
					t.Sample("random message of %d bytes", i)
				}
			}},
			{Name: "content", N: [2]int{12000, 200000}, Fn: func(t *T, i int) {
				sm3All(t, fill(t.Rng, t.Len(6000)))
			}},
			{Name: "mid", N: [2]int{60, 600}, Fn: func(t *T, i int) {
				sm3All(t, fill(t.Rng, 60000+t.IntN(200000)))
			}},
			{Name: "near", N: [2]int{480, 6000}, Fn: func(t *T, i int) {
				// lengths just below and above multiples of powers of two, in one piece and in few
				n := (1+t.IntN(3))<<(8+i%12) + t.IntN(280) - 140
				if i >= 400 && i < 480 {
					n = 1<<20 + (i-400)*2 - 80
				}
				msg := t.Bytes(max(n, 0))
				want := ref.SM3(msg)
				t.mustEq(fmt.Sprintf("Sum of %d bytes", n), sm3.Sum(msg), want)
				h := sm3.New()
				cut := t.IntN(min(len(msg), 140) + 1)
				h.Write(msg[:cut])
				h.Write(msg[cut:])
				t.mustEq(fmt.Sprintf("%d bytes after %d", n-cut, cut), h.Sum(nil), want)
				t.Key("%x", want)
				t.Cover("near a power of two")
			}},
			{Name: "big", N: [2]int{7, len(bigCases)}, CPULimit: 400, Fn: func(t *T, i int) {
				c := bigCases[i]
				blk := bigBlock()
				h := sm3.New()
				for j := 0; j < c.mib; j++ {
					if j%7 == 3 { // pieces that do not align with blocks
						h.Write(blk[:12345])
						h.Write(blk[12345:])
					} else {
						h.Write(blk)
					}
				}
				h.Write(blk[:c.extra])
				want, _ := hex.DecodeString(c.sum)
				t.mustEq("long message", h.Sum(nil), want)
				if c.oneOff {
					t.mustEq("long message, one-shot", sm3.Sum(cat(bytes.Repeat(blk, c.mib), blk[:c.extra])), want)
				}
				t.Key("big %d %d", c.mib, c.extra)
				t.Cover("long message")
				t.Sample("%d MiB + %d bytes, digest %s", c.mib, c.extra, c.sum)
			}},
		},
	})

	register(&Prop{
		ID: "C02",
		Rule: "random histories of Write, Sum, Reset over 1 to 5 live instances against a byte-buffer model; buffers are overwritten after use and surrounded by canaries. " +
			"Distinct = distinct (operation, bytes buffered mod 64, previous operation, spare capacity class) observed.",
		Groups: []Group{
			{Name: "history", N: [2]int{40000, 2000000}, Fn: sm3History},
		},
	})
}

func sm3History(t *T, i int) {
	type inst struct {
		h    hash.Hash
		data []byte
		last string
	}
	mk := func() *inst {
		if t.Chance(1, 3) {
			return &inst{h: mx.SM3.New()}
		}
		return &inst{h: sm3.New()}
	}
	is := []*inst{mk()}
	for len(is) < 1+i%5 {
		is = append(is, mk())
	}
	nops := 5 + t.IntN(60)
	for op := 0; op < nops; op++ {
		x := is[t.IntN(len(is))]
		switch c := t.IntN(10); {
		case c < 5:
			n := t.Len(300)
			buf := t.Bytes(n + 16)
			orig := clone(buf)
			k, err := x.h.Write(buf[8 : 8+n : 8+n+t.IntN(9)])
			t.Check(k == n && err == nil, "Write(%d bytes) = %d, %v", n, k, err)
			t.Check(bytes.Equal(buf, orig), "Write changed its argument or its surroundings")
			x.data = append(x.data, orig[8:8+n]...)
			for j := range buf {
				buf[j] ^= 0xa5 // the hash must not keep the slice
			}
			t.Key("w %d %d %s", len(x.data)%64, min(n, 70), x.last)
			x.last = "w"
		case c < 8:
			pre := t.IntN(40)
			spare := pick(t.Rng, 0, 0, 1, 31, 32, 33, 64, 200)
			buf := t.Bytes(pre + spare)
			orig := clone(buf)
			got := x.h.Sum(buf[:pre:len(buf)])
			want := ref.SM3(x.data)
			t.mustEq("Sum prefix", got[:min(pre, len(got))], orig[:pre])
			t.mustEq("Sum digest", got[min(pre, len(got)):], want)
			t.Check(bytes.Equal(buf[:pre], orig[:pre]), "Sum changed the caller's prefix")
			if spare > 32 {
				t.Check(bytes.Equal(buf[pre+32:], orig[pre+32:]), "Sum wrote past the digest")
			}
			for j := range got {
				got[j] ^= 0x5a // the hash must not keep the result
			}
			t.Key("s %d %d %d %s", len(x.data)%64, min(pre, 3), spare, x.last)
			x.last = "s"
			if t.Chance(1, 2) {
				t.mustEq("repeated Sum", x.h.Sum(nil), want)
			}
		case c < 9:
			x.h.Reset()
			t.Key("r %d %s", len(x.data)%64, x.last)
			x.data = nil
			x.last = "r"
			if t.Chance(1, 2) {
				t.mustEq("Sum after Reset", x.h.Sum(nil), ref.SM3(nil))
			}
		default:
			t.Check(x.h.Size() == 32 && x.h.BlockSize() == 64, "Size %d BlockSize %d", x.h.Size(), x.h.BlockSize())
			// A one-shot digest in between must not disturb anything.
			m := t.Bytes(t.Len(200))
			t.mustEq("one-shot in between", sm3.Sum(m), ref.SM3(m))
		}
	}
	for j, x := range is {
		t.mustEq("final Sum", x.h.Sum(nil), ref.SM3(x.data))
		if i < 2 {
			t.Sample("instance %d of %d after %d operations: %d bytes since the last Reset", j, len(is), nops, len(x.data))
		}
	}
}
