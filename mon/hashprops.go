package main

import (
	"bytes"
	"crypto"
	"crypto/elliptic"
	"crypto/md5"
	"crypto/sha1"
	"crypto/sha256"
	"crypto/sha512"
	stdx "crypto/x509"
	"fmt"
	"hash"

	"mon/ref"

	"github.com/mmdet/mcrypto/x509"
	"golang.org/x/crypto/md4"
	"golang.org/x/crypto/ripemd160"
	"golang.org/x/crypto/sha3"
)

// refHash is what an identifier stands for.
type refHash struct {
	id   x509.Hash
	std  crypto.Hash // 0 for SM3
	name string
	sum  func([]byte) []byte // nil: no reference here
	size int
	blk  int
	must bool // has to be available
}

func hf(f func() hash.Hash) func([]byte) []byte {
	return func(b []byte) []byte { h := f(); h.Write(b); return h.Sum(nil) }
}

func refHashes() []refHash {
	return []refHash{
		{x509.MD4, crypto.MD4, "MD4", hf(md4.New), 16, 64, false},
		{x509.MD5, crypto.MD5, "MD5", hf(md5.New), 16, 64, true},
		{x509.SHA1, crypto.SHA1, "SHA-1", hf(sha1.New), 20, 64, true},
		{x509.SHA224, crypto.SHA224, "SHA-224", hf(sha256.New224), 28, 64, true},
		{x509.SHA256, crypto.SHA256, "SHA-256", hf(sha256.New), 32, 64, true},
		{x509.SHA384, crypto.SHA384, "SHA-384", hf(sha512.New384), 48, 128, true},
		{x509.SHA512, crypto.SHA512, "SHA-512", hf(sha512.New), 64, 128, true},
		{x509.MD5SHA1, crypto.MD5SHA1, "MD5+SHA1", func(b []byte) []byte { m, s := md5.Sum(b), sha1.Sum(b); return cat(m[:], s[:]) }, 36, 64, false},
		{x509.RIPEMD160, crypto.RIPEMD160, "RIPEMD-160", hf(ripemd160.New), 20, 64, true},
		{x509.SHA3_224, crypto.SHA3_224, "SHA3-224", hf(sha3.New224), 28, 144, true},
		{x509.SHA3_256, crypto.SHA3_256, "SHA3-256", hf(sha3.New256), 32, 136, true},
		{x509.SHA3_384, crypto.SHA3_384, "SHA3-384", hf(sha3.New384), 48, 104, true},
		{x509.SHA3_512, crypto.SHA3_512, "SHA3-512", hf(sha3.New512), 64, 72, true},
		{x509.SHA512_224, crypto.SHA512_224, "SHA-512/224", hf(sha512.New512_224), 28, 128, true},
		{x509.SHA512_256, crypto.SHA512_256, "SHA-512/256", hf(sha512.New512_256), 32, 128, true},
		{x509.BLAKE2s_256, crypto.BLAKE2s_256, "BLAKE2s-256", nil, 32, 64, false},
		{x509.BLAKE2b_256, crypto.BLAKE2b_256, "BLAKE2b-256", nil, 32, 128, false},
		{x509.BLAKE2b_384, crypto.BLAKE2b_384, "BLAKE2b-384", nil, 48, 128, false},
		{x509.BLAKE2b_512, crypto.BLAKE2b_512, "BLAKE2b-512", nil, 64, 128, false},
		{x509.SM3, 0, "SM3", ref.SM3, 32, 64, true},
	}
}

func panics(f func()) (p bool) {
	defer func() { p = recover() != nil }()
	f()
	return
}

func init() {
	register(&Prop{
		ID:   "C24",
		Rule: "each identifier, with messages of boundary and random lengths written in random pieces to interleaved instances, against the named function; distinct (identifier, message)",
		Groups: []Group{
			{Name: "constants", N: [2]int{1, 1}, Fn: func(t *T, i int) {
				for n, h := range refHashes() {
					t.Check(int(h.id) == n+1, "%s has the value %d, want %d", h.name, h.id, n+1)
					t.Check(h.id.String() == h.name, "%s is named %q", h.name, h.id.String())
					t.Check(h.id.Size() == h.size, "%s: Size %d", h.name, h.id.Size())
					t.Check(h.id.HashFunc() == crypto.Hash(h.id), "%s: HashFunc %v", h.name, h.id.HashFunc())
					if h.std != 0 {
						t.Check(h.id.HashFunc() == h.std && h.id.Size() == h.std.Size() && h.id.String() == h.std.String(), "%s differs from crypto.%v", h.name, h.std)
					}
					av := h.id.Available()
					t.Check(av || !h.must, "%s is not available", h.name)
					t.Check(panics(func() { h.id.New() }) == !av, "%s: available %v, but New panics %v", h.name, av, !av)
					t.Key("%s", h.name)
					t.Cover(fmt.Sprintf("%s available=%v", h.name, av))
				}
				for _, x := range []x509.Hash{0, x509.SM3 + 1, x509.SM3 + 2, 255, 1 << 31, 1<<63 + 5} {
					t.Check(!x.Available(), "the identifier %d is available", uint(x))
					t.Check(panics(func() { x.New() }), "New of the identifier %d does not panic", uint(x))
					t.Check(panics(func() { x.Size() }), "Size of the identifier %d does not panic", uint(x))
					t.Check(x.String() == fmt.Sprintf("unknown hash value %d", int(x)), "the identifier %d is named %q", uint(x), x.String())
				}
			}},
			{Name: "identifiers", N: [2]int{1, 1}, Fn: func(t *T, i int) {
				// signature algorithms: the names of the standard library's, in no particular numbering
				seen := map[string]bool{}
				for a, std := range map[x509.SignatureAlgorithm]stdx.SignatureAlgorithm{
					x509.MD5WithRSA: stdx.MD5WithRSA, x509.SHA1WithRSA: stdx.SHA1WithRSA, x509.SHA256WithRSA: stdx.SHA256WithRSA, x509.SHA384WithRSA: stdx.SHA384WithRSA, x509.SHA512WithRSA: stdx.SHA512WithRSA,
					x509.DSAWithSHA1: stdx.DSAWithSHA1, x509.DSAWithSHA256: stdx.DSAWithSHA256, x509.ECDSAWithSHA1: stdx.ECDSAWithSHA1, x509.ECDSAWithSHA256: stdx.ECDSAWithSHA256,
					x509.ECDSAWithSHA384: stdx.ECDSAWithSHA384, x509.ECDSAWithSHA512: stdx.ECDSAWithSHA512, x509.SHA256WithRSAPSS: stdx.SHA256WithRSAPSS, x509.SHA384WithRSAPSS: stdx.SHA384WithRSAPSS,
					x509.SHA512WithRSAPSS: stdx.SHA512WithRSAPSS, x509.PureEd25519: stdx.PureEd25519, x509.SM2WithSM3: -1,
				} {
					want := "SM2WithSM3"
					if std >= 0 {
						want = std.String()
					}
					t.Check(a.String() == want && !seen[want], "signature algorithm %d is named %q, want %q", int(a), a.String(), want)
					t.Check(a != x509.UnknownSignatureAlgorithm, "%s is the unknown algorithm", want)
					seen[want] = true
					t.Key("%s", want)
				}
				for _, a := range []x509.SignatureAlgorithm{0, -1, x509.SM2WithSM3 + 1, 1000, -1 << 31, 1 << 40} {
					t.Check(a.String() == fmt.Sprint(int(a)), "signature algorithm %d is named %q", int(a), a.String())
				}
				for a, std := range map[x509.PublicKeyAlgorithm]stdx.PublicKeyAlgorithm{x509.UnknownPublicKeyAlgorithm: stdx.UnknownPublicKeyAlgorithm, x509.RSA: stdx.RSA, x509.DSA: stdx.DSA, x509.ECDSA: stdx.ECDSA, x509.Ed25519: stdx.Ed25519} {
					t.Check(int(a) == int(std) && a.String() == std.String(), "key algorithm %d is named %q; the standard library has %d, %q", int(a), a.String(), int(std), std.String())
				}
				t.Check(x509.SM2.String() == "SM2" && x509.SM2 > x509.Ed25519, "key algorithm %d is named %q", int(x509.SM2), x509.SM2.String())
				for _, a := range []x509.PublicKeyAlgorithm{-1, x509.SM2 + 1, 1000, -1 << 31, 1 << 40} {
					t.Check(a.String() == fmt.Sprint(int(a)), "key algorithm %d is named %q", int(a), a.String())
				}
				for n, k := range []x509.KeyUsage{x509.KeyUsageDigitalSignature, x509.KeyUsageContentCommitment, x509.KeyUsageKeyEncipherment, x509.KeyUsageDataEncipherment, x509.KeyUsageKeyAgreement,
					x509.KeyUsageCertSign, x509.KeyUsageCRLSign, x509.KeyUsageEncipherOnly, x509.KeyUsageDecipherOnly} {
					t.Check(k == 1<<n, "key usage %d has the value %d", n, int(k)) // bit n of RFC 5280, as in the standard library
				}
				for k, std := range map[x509.ExtKeyUsage]stdx.ExtKeyUsage{x509.ExtKeyUsageAny: stdx.ExtKeyUsageAny, x509.ExtKeyUsageServerAuth: stdx.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth: stdx.ExtKeyUsageClientAuth,
					x509.ExtKeyUsageCodeSigning: stdx.ExtKeyUsageCodeSigning, x509.ExtKeyUsageEmailProtection: stdx.ExtKeyUsageEmailProtection, x509.ExtKeyUsageIPSECEndSystem: stdx.ExtKeyUsageIPSECEndSystem,
					x509.ExtKeyUsageIPSECTunnel: stdx.ExtKeyUsageIPSECTunnel, x509.ExtKeyUsageIPSECUser: stdx.ExtKeyUsageIPSECUser, x509.ExtKeyUsageTimeStamping: stdx.ExtKeyUsageTimeStamping,
					x509.ExtKeyUsageOCSPSigning: stdx.ExtKeyUsageOCSPSigning, x509.ExtKeyUsageMicrosoftServerGatedCrypto: stdx.ExtKeyUsageMicrosoftServerGatedCrypto,
					x509.ExtKeyUsageNetscapeServerGatedCrypto: stdx.ExtKeyUsageNetscapeServerGatedCrypto, x509.ExtKeyUsageMicrosoftCommercialCodeSigning: stdx.ExtKeyUsageMicrosoftCommercialCodeSigning,
					x509.ExtKeyUsageMicrosoftKernelCodeSigning: stdx.ExtKeyUsageMicrosoftKernelCodeSigning} {
					t.Check(int(k) == int(std), "extended key usage %d, standard library %d", int(k), int(std))
					// and means the same in a certificate
					ca := ecdsaKey(elliptic.P256(), bi(99))
					der, err := x509.CreateCertificate(t.sys, &x509.Certificate{SerialNumber: bi(1), ExtKeyUsage: []x509.ExtKeyUsage{k}, KeyUsage: 1 << (int(k) % 9)}, &x509.Certificate{}, &ca.PublicKey, ca)
					t.noErr("CreateCertificate", err)
					sc, err := stdx.ParseCertificate(der)
					t.noErr("the standard library", err)
					t.Check(len(sc.ExtKeyUsage) == 1 && sc.ExtKeyUsage[0] == std, "extended key usage %d is written as what the standard library reads as %v", int(k), sc.ExtKeyUsage)
					t.Check(int(sc.KeyUsage) == 1<<(int(k)%9), "key usage %d is written as what the standard library reads as %d", 1<<(int(k)%9), int(sc.KeyUsage))
				}
				t.Cover("identifiers")
			}},
			{Name: "registration", N: [2]int{1, 1}, Serial: true, Fn: func(t *T, i int) {
				for _, x := range []x509.Hash{x509.SM3 + 1, 255, 1 << 31} {
					t.Check(panics(func() { x509.RegisterHash(x, md5.New) }), "RegisterHash of the identifier %d does not panic", uint(x))
				}
				// an identifier that is registered is available, gives what was registered, and no other changes
				for _, h := range refHashes() {
					if h.id.Available() {
						continue
					}
					before := map[x509.Hash]bool{}
					for _, o := range refHashes() {
						before[o.id] = o.id.Available()
					}
					n := 0
					x509.RegisterHash(h.id, func() hash.Hash { n++; return ripemd160.New() })
					t.Check(h.id.Available(), "%s was registered and is not available", h.name)
					d := h.id.New()
					d.Write([]byte("abc"))
					t.Check(n == 1 && bytes.Equal(d.Sum(nil), hf(ripemd160.New)([]byte("abc"))), "%s gives another hash than the registered one", h.name)
					for _, o := range refHashes() {
						t.Check(o.id == h.id || o.id.Available() == before[o.id], "registering %s changed %s", h.name, o.name)
					}
					x509.RegisterHash(h.id, nil)
					t.Check(!h.id.Available(), "%s stays available", h.name)
					t.Cover("registered " + h.name)
				}
			}},
			{Name: "digests", N: [2]int{30000, 1000000}, Fn: func(t *T, i int) {
				hs := refHashes()
				h := hs[i%len(hs)]
				if h.sum == nil || !h.id.Available() {
					t.Eval()
					return
				}
				msg, msg2 := t.Bytes(t.Len(6000)), t.Bytes(t.Len(2000))
				a, b := h.id.New(), h.id.New()
				t.Check(a.Size() == h.size && a.BlockSize() == h.blk, "%s: the hash has Size %d and BlockSize %d", h.name, a.Size(), a.BlockSize())
				wa, wb := msg, msg2
				for len(wa) > 0 || len(wb) > 0 {
					n := min(len(wa), t.IntN(len(msg)+1))
					a.Write(wa[:n])
					wa = wa[n:]
					n = min(len(wb), t.IntN(len(msg2)+1))
					b.Write(wb[:n])
					wb = wb[n:]
				}
				t.mustEq(h.name+" of "+hx(msg), a.Sum(nil), h.sum(msg))
				t.mustEq(h.name+" of "+hx(msg2), b.Sum(nil), h.sum(msg2))
				a.Reset()
				a.Write(msg2)
				pre := t.Bytes(5)
				got := a.Sum(clone(pre))
				t.Check(bytes.Equal(got, cat(pre, h.sum(msg2))), "%s after Reset of %s: %s", h.name, hx(msg2), hx(got))
				t.Key("%s %x", h.name, msg)
				t.Sample("%s of %s", h.name, hx(msg))
			}},
			{Name: "registering", N: [2]int{3, 20}, Serial: true, Fn: func(t *T, i int) {
				for _, id := range []x509.Hash{x509.MD4, x509.MD5SHA1, x509.BLAKE2b_384} {
					if id.Available() {
						continue
					}
					func() {
						defer x509.RegisterHash(id, nil)
						x509.RegisterHash(id, md4.New)
						t.Check(id.Available(), "%v is not available after registering", id)
						msg := t.Bytes(40)
						t.mustEq("digest of the registered function", hf(id.New)(msg), hf(md4.New)(msg))
						for _, h := range refHashes() {
							if h.must {
								t.mustEq(h.name+" meanwhile", hf(h.id.New)(msg), h.sum(msg))
							}
						}
					}()
					t.Check(!id.Available(), "%v stays available", id)
				}
				t.Check(panics(func() { x509.RegisterHash(x509.SM3+1, md4.New) }), "registering an unknown identifier does not panic")
				t.Key("%d", i)
			}},
		},
	})
}
