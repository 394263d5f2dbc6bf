// Package ref holds reference implementations written from the standards, independent of the code under test. They
// favour obviousness over speed.
package ref

import "math/bits"

// SM3 per GM/T 0004-2012, step by step, over the whole padded message.
func SM3(msg []byte) []byte {
	l := uint64(len(msg)) * 8
	m := append([]byte{}, msg...)
	m = append(m, 0x80)
	for len(m)%64 != 56 {
		m = append(m, 0)
	}
	for i := 7; i >= 0; i-- {
		m = append(m, byte(l>>(8*uint(i))))
	}
	v := [8]uint32{0x7380166f, 0x4914b2b9, 0x172442d7, 0xda8a0600, 0xa96f30bc, 0x163138aa, 0xe38dee4d, 0xb0fb0e4e}
	for off := 0; off < len(m); off += 64 {
		v = sm3cf(v, m[off:off+64])
	}
	out := make([]byte, 0, 32)
	for _, w := range v {
		out = append(out, byte(w>>24), byte(w>>16), byte(w>>8), byte(w))
	}
	return out
}

func p0(x uint32) uint32 { return x ^ bits.RotateLeft32(x, 9) ^ bits.RotateLeft32(x, 17) }
func p1(x uint32) uint32 { return x ^ bits.RotateLeft32(x, 15) ^ bits.RotateLeft32(x, 23) }

func sm3cf(v [8]uint32, b []byte) [8]uint32 {
	var w [68]uint32
	var w1 [64]uint32
	for j := 0; j < 16; j++ {
		w[j] = uint32(b[4*j])<<24 | uint32(b[4*j+1])<<16 | uint32(b[4*j+2])<<8 | uint32(b[4*j+3])
	}
	for j := 16; j < 68; j++ {
		w[j] = p1(w[j-16]^w[j-9]^bits.RotateLeft32(w[j-3], 15)) ^ bits.RotateLeft32(w[j-13], 7) ^ w[j-6]
	}
	for j := 0; j < 64; j++ {
		w1[j] = w[j] ^ w[j+4]
	}
	A, B, C, D, E, F, G, H := v[0], v[1], v[2], v[3], v[4], v[5], v[6], v[7]
	for j := 0; j < 64; j++ {
		t := uint32(0x79cc4519)
		if j >= 16 {
			t = 0x7a879d8a
		}
		ss1 := bits.RotateLeft32(bits.RotateLeft32(A, 12)+E+bits.RotateLeft32(t, j%32), 7)
		ss2 := ss1 ^ bits.RotateLeft32(A, 12)
		var ff, gg uint32
		if j < 16 {
			ff, gg = A^B^C, E^F^G
		} else {
			ff, gg = A&B|A&C|B&C, E&F|^E&G
		}
		tt1 := ff + D + ss2 + w1[j]
		tt2 := gg + H + ss1 + w[j]
		D, C, B, A = C, bits.RotateLeft32(B, 9), A, tt1
		H, G, F, E = G, bits.RotateLeft32(F, 19), E, p0(tt2)
	}
	return [8]uint32{A ^ v[0], B ^ v[1], C ^ v[2], D ^ v[3], E ^ v[4], F ^ v[5], G ^ v[6], H ^ v[7]}
}
