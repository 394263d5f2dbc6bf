package ref

import (
	"bytes"
	"encoding/hex"
	"math/big"
	"testing"
)

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	if err != nil {
		panic(err)
	}
	return b
}

func TestSM3(t *testing.T) {
	for _, c := range [][2]string{
		{"616263", "66c7f0f462eeedd9d1f2d46bdc10e4e24167c4875cf2f7a2297da02b8f4ba8e0"},
		{"61626364616263646162636461626364616263646162636461626364616263646162636461626364616263646162636461626364616263646162636461626364", "debe9ff92275b8a138604889c18e5a4d6fdb70e5387e5765293dcba39c0c5732"},
		{"", "1ab21d8355cfa17f8e61194831e81a8f22bec8c728fefb747ed035eb5082aa2b"},
	} {
		if got := hex.EncodeToString(SM3(unhex(c[0]))); got != c[1] {
			t.Errorf("%s: %s", c[0], got)
		}
	}
}

func TestSM2(t *testing.T) {
	d := hexInt("3945208F7B2144B13F36E38AC6D39F95889393692860B51A42FB81EF4DF7C5B8")
	pub := BaseMul(d)
	if pub.X.Cmp(hexInt("09F9DF311E5421A150DD7D161E4BC5C672179FAD1833FC076BB08FF356F35020")) != 0 {
		t.Fatal("pub")
	}
	k := hexInt("59276E27D506861A16680F3AD9C02DCCEF3CC1FA3CDBE4CE6D54B80DEAC1BC21")
	e, _ := MsgDigest(pub.X, pub.Y, []byte("message digest"), nil)
	r, s, ok := SignK(d, e, k)
	if !ok || r.Cmp(hexInt("F5A03B0648D2C4630EEAC513E1BB81A15944DA3827D5B74143AC7EACEEE720B3")) != 0 ||
		s.Cmp(hexInt("B1B6AA29DF212FD8763182BC0D421CA1BB9038FD1F7F42D4840B69C485BBC1AA")) != 0 {
		t.Fatalf("%x %x", r, s)
	}
	if !Verify(pub, e, r, s) || RecoverK(d, r, s).Cmp(k) != 0 {
		t.Fatal("verify")
	}
	ct, ok := EncryptK(pub, []byte("encryption standard"), k)
	want := unhex("0404EBFC718E8D1798620432268E77FEB6415E2EDE0E073C0F4F640ECD2E149A73E858F9D81E5430A57B36DAAB8F950A3C64E6EE6A63094D99283AFF767E124DF0" +
		"59983C18F809E262923C53AEC295D30383B54E39D609D160AFCB1908D0BD8766" + "21886CA989CA9C7D58087307CA93092D651EFA")
	if !ok || !bytes.Equal(ct, want) {
		t.Fatalf("%x", ct)
	}
	if m, ok := Decrypt(d, ct); !ok || string(m) != "encryption standard" {
		t.Fatal("decrypt")
	}
	if !Mul(pub, N).Inf || !Add(pub, Neg(pub)).Inf {
		t.Fatal("infinity")
	}
	if p := Mul(G, d); p.X.Cmp(pub.X) != 0 || p.Y.Cmp(pub.Y) != 0 {
		t.Fatal("mul")
	}
	q := Mul(pub, new(big.Int).Sub(N, one))
	if q.X.Cmp(pub.X) != 0 || q.Y.Cmp(Neg(pub).Y) != 0 {
		t.Fatal("mul n-1")
	}
}

func TestRC2(t *testing.T) {
	seen := map[byte]bool{}
	for _, x := range rc2pi {
		seen[x] = true
	}
	if len(seen) != 256 {
		t.Fatal("table")
	}
	for _, c := range []struct {
		k    string
		b    int
		p, c string
	}{
		{"0000000000000000", 63, "0000000000000000", "ebb773f993278eff"},
		{"ffffffffffffffff", 64, "ffffffffffffffff", "278b27e42e2f0d49"},
		{"3000000000000000", 64, "1000000000000001", "30649edf9be7d2c2"},
		{"88", 64, "0000000000000000", "61a8a244adacccf0"},
		{"88bca90e90875a", 64, "0000000000000000", "6ccf4308974c267f"},
		{"88bca90e90875a7f0f79c384627bafb2", 64, "0000000000000000", "1a807d272bbe5db1"},
		{"88bca90e90875a7f0f79c384627bafb2", 128, "0000000000000000", "2269552ab0f85ca6"},
		{"88bca90e90875a7f0f79c384627bafb216f80a6f85920584c42fceb0be255daf1e", 129, "0000000000000000", "5b78d3a43dfff1f1"},
	} {
		r := NewRC2(unhex(c.k), c.b)
		if got := r.Encrypt(unhex(c.p)); !bytes.Equal(got, unhex(c.c)) {
			t.Errorf("%s/%d: %x", c.k, c.b, got)
		}
		if got := r.Decrypt(unhex(c.c)); !bytes.Equal(got, unhex(c.p)) {
			t.Errorf("%s/%d: %x", c.k, c.b, got)
		}
	}
}

func TestDER(t *testing.T) {
	for _, v := range []int64{0, 1, -1, 127, 128, 255, 256, -128, -129, -256, -32768, -32769, 1 << 40} {
		x := big.NewInt(v)
		got, rest, ok := ReadInt(Int(x))
		if !ok || len(rest) != 0 || got.Cmp(x) != 0 {
			t.Errorf("%d: %x", v, Int(x))
		}
	}
}

// Vectors of golang.org/x/crypto/pkcs12's pbkdf test.
func TestP12KDF(t *testing.T) {
	pw, _ := BMP("sesame")
	if got := P12KDF(1, pw, []byte("\xff\xff\xff\xff\xff\xff\xff\xff"), 2048, 24); !bytes.Equal(got, []byte("\x7c\xd9\xfd\x3e\x2b\x3b\xe7\x69\x1a\x44\xe3\xbe\xf0\xf9\xea\x0f\xb9\xb8\x97\xd4\xe3\x25\xd9\xd1")) {
		t.Errorf("%x", got)
	}
}

func TestLiftY(t *testing.T) {
	p, ok := LiftY(GY)
	if !ok || !OnCurve(p.X, p.Y) {
		t.Fatal("LiftY(GY)")
	}
	n := 0
	for y := int64(1); y < 40; y++ {
		if p, ok := LiftY(big.NewInt(y)); ok {
			n++
			if !Mul(p, N).Inf {
				t.Fatal("order")
			}
		}
	}
	if n < 10 {
		t.Fatal(n)
	}
}
