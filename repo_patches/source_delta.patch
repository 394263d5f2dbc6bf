From d3de016da41d748473f55e53e5d3a72511040dc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 01/26] fix: encode C1 of an SM2 ciphertext with fixed-width
 coordinates

A coordinate of C1 with a leading zero byte was appended without padding, so
Encryt panicked or produced a ciphertext Decryt cannot read.
---
 sm2/sm2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 584f8dc..f0b1043 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -394,8 +394,8 @@ func Encryt(rand io.Reader, pub *PublicKey, msg []byte) ([]byte, error) {
 		kBytes := k.Bytes()
 		//计算c1 = k·G(x,y)
 		c1x, c1y := curve.ScalarBaseMult(kBytes)
-		c = append(c, c1x.Bytes()...)
-		c = append(c, c1y.Bytes()...)
+		c = append(c, appendBigIntTo32Bytes(c1x)...)
+		c = append(c, appendBigIntTo32Bytes(c1y)...)
 		//计算c3
 		kpx, kpy := curve.ScalarMult(pub.X, pub.Y, kBytes)
 		c3 := []byte{}
-- 
2.43.0


From a563fc6991b9d8b7080ce99660653efb8924de4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:31 +0000
Subject: [PATCH 02/26] fix: hash fixed-width x2, y2 into C3 of an SM2
 ciphertext

GM/T 0003.4 converts field elements to 32-byte strings. Without the padding a
point with a leading zero byte gives a C3 no other implementation accepts.
---
 sm2/sm2.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index f0b1043..dd0cea4 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -399,9 +399,9 @@ func Encryt(rand io.Reader, pub *PublicKey, msg []byte) ([]byte, error) {
 		//计算c3
 		kpx, kpy := curve.ScalarMult(pub.X, pub.Y, kBytes)
 		c3 := []byte{}
-		c3 = append(c3, kpx.Bytes()...)
+		c3 = append(c3, appendBigIntTo32Bytes(kpx)...)
 		c3 = append(c3, msg...)
-		c3 = append(c3, kpy.Bytes()...)
+		c3 = append(c3, appendBigIntTo32Bytes(kpy)...)
 		c = append(c, sm3.Sum(c3)...)
 		//计算c2
 		t, ok := kdf(length, kpx, kpy)
@@ -482,9 +482,9 @@ func Decryt(priv *PrivateKey, data []byte) ([]byte, error) {
 	}
 	//比对摘要
 	tm := []byte{}
-	tm = append(tm, x2.Bytes()...)
+	tm = append(tm, appendBigIntTo32Bytes(x2)...)
 	tm = append(tm, c...)
-	tm = append(tm, y2.Bytes()...)
+	tm = append(tm, appendBigIntTo32Bytes(y2)...)
 	hash := sm3.Sum(tm)
 	if bytes.Compare(hash, data[64:96]) != 0 {
 		return c, errors.New("failed to decrypt:hash compared error")
-- 
2.43.0


From a0de1b8d6fdf6fcd60493e9734c79e4f0b8738cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 03/26] fix: derive the SM2 encryption key stream as GM/T
 0003.4 specifies

kdf never reset the hash between blocks and truncated every block, not only the
last, so Encryt and Decryt panicked for messages over 32 bytes whose length is
not a multiple of 32, and were incompatible with the standard for all others.
---
 sm2/sm2.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index dd0cea4..a3be8cb 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -425,11 +425,12 @@ func kdf(klen int, x, y *big.Int) ([]byte, bool) {
 	yBytes := appendBigIntTo32Bytes(y)
 	n := (klen + 31) / 32 //需要计算的次数
 	for i := 0; i < n; i++ {
+		h.Reset()
 		h.Write(xBytes)
 		h.Write(yBytes)
 		h.Write(intToBytes(ct))
 		hash := h.Sum(nil)
-		if klen%32 != 0 {
+		if i == n-1 && klen%32 != 0 {
 			out = append(out, hash[:klen%32]...)
 		} else {
 			out = append(out, hash...)
-- 
2.43.0


From 4a9ca897798cf88f517c3a3bd4a01dfd29f0cd16 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:32 +0000
Subject: [PATCH 04/26] fix: encrypt an empty SM2 message instead of looping
 forever

kdf reported the empty key stream as all zero, so Encryt retried without end.
---
 sm2/sm2.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index a3be8cb..1cc9473 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -418,6 +418,9 @@ func Encryt(rand io.Reader, pub *PublicKey, msg []byte) ([]byte, error) {
 
 func kdf(klen int, x, y *big.Int) ([]byte, bool) {
 	var out []byte
+	if klen == 0 {
+		return out, true
+	}
 	//计数器（32位）
 	ct := 1
 	h := sm3.New()
-- 
2.43.0


From 772ac9df741a046ae7d51690ddc3955fa8fb1d11 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 05/26] fix: reject short or unprefixed SM2 ciphertexts instead
 of panicking

Decryt indexed its input without a length check and skipped the first byte
without looking at it.
---
 sm2/sm2.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 1cc9473..b8b396e 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -455,6 +455,9 @@ func intToBytes(x int) []byte {
 }
 
 func Decryt(priv *PrivateKey, data []byte) ([]byte, error) {
+	if len(data) < 97 || data[0] != 0x04 {
+		return nil, errors.New("failed to decrypt:malformed ciphertext")
+	}
 	//去除开头的0x04
 	data = data[1:]
 	//取出c1,是否满足椭圆曲线方程
-- 
2.43.0


From fba9f56affc500151262d949cbc4e31a128c04fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:33 +0000
Subject: [PATCH 06/26] fix: do not return unauthenticated plaintext from
 Decryt

---
 sm2/sm2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index b8b396e..6974b3d 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -494,7 +494,7 @@ func Decryt(priv *PrivateKey, data []byte) ([]byte, error) {
 	tm = append(tm, appendBigIntTo32Bytes(y2)...)
 	hash := sm3.Sum(tm)
 	if bytes.Compare(hash, data[64:96]) != 0 {
-		return c, errors.New("failed to decrypt:hash compared error")
+		return nil, errors.New("failed to decrypt:hash compared error")
 	}
 	return c, nil
 }
-- 
2.43.0


From 7de809bb1bbb44065b076dd5b6e8888d945c0756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:34 +0000
Subject: [PATCH 07/26] fix: pass message and user id in order in
 PublicKey.VerifyRS

The arguments were swapped, so every valid signature over a message other than
its own user id was rejected.
---
 sm2/sm2.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 6974b3d..127a624 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -148,7 +148,7 @@ func (pub *PublicKey) Verify(in, uid, signature []byte) bool {
 }
 
 func (pub *PublicKey) VerifyRS(in, uid []byte, r, s *big.Int) bool {
-	return VerifyRS(pub, uid, in, r, s)
+	return VerifyRS(pub, in, uid, r, s)
 }
 
 func (pub *PublicKey) VerifyDigest(in, signature []byte) bool {
-- 
2.43.0


From cb9a294b73372deb18d0c7dbd39e659ebc48b895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 08/26] fix: keep SM2 private keys within [1, n-2]

1+d has no inverse for d = n-1, so signing with such a key dereferenced nil.
GenerateKey could return it and the signing functions did not refuse it.
---
 sm2/sm2.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 127a624..846f5ea 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -93,6 +93,10 @@ func (pub *PublicKey) Equal(x crypto.PublicKey) bool {
 //生成SM2密钥对
 func GenerateKey(random io.Reader) (*PrivateKey, error) {
 	d, x, y, err := elliptic.GenerateKey(SM2P256V1(), random)
+	//私钥d的取值范围是[1,n-2]
+	for err == nil && !validD(new(big.Int).SetBytes(d), SM2P256V1().N) {
+		d, x, y, err = elliptic.GenerateKey(SM2P256V1(), random)
+	}
 	if err != nil {
 		return nil, err
 	}
@@ -106,6 +110,11 @@ func GenerateKey(random io.Reader) (*PrivateKey, error) {
 	}, err
 }
 
+//私钥d的取值范围是[1,n-2]，否则1+d没有乘法逆元
+func validD(d, n *big.Int) bool {
+	return d.Sign() > 0 && new(big.Int).Add(d, one).Cmp(n) < 0
+}
+
 //原文裸签，返回R||S
 func (priv *PrivateKey) SignRS(rand io.Reader, in []byte, uid []byte) (r, s *big.Int, err error) {
 	return SignRS(rand, priv, in, uid)
@@ -273,6 +282,9 @@ func SignDigestRS(rand io.Reader, priv *PrivateKey, digest []byte) (r, s *big.In
 	if N.Sign() == 0 {
 		return nil, nil, errZeroParam
 	}
+	if !validD(priv.D, N) {
+		return nil, nil, errors.New("invalid private key")
+	}
 	for {
 		var k *big.Int
 		var err error
-- 
2.43.0


From 04d51d029127d77575099291344eb2e82892da86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:03 +0000
Subject: [PATCH 09/26] fix: reject EC private keys outside the valid range
 when parsing

A zero scalar has no public point: the key parsed, and marshaling or signing with
it panicked. For SM2, n-1 is excluded too, because 1+d must be invertible.
---
 x509/sec1.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/x509/sec1.go b/x509/sec1.go
index c5d3306..4d1a90a 100644
--- a/x509/sec1.go
+++ b/x509/sec1.go
@@ -103,9 +103,13 @@ func parseECPrivateKey(namedCurveOID *asn1.ObjectIdentifier, der []byte) (key an
 
 	k := new(big.Int).SetBytes(privKey.PrivateKey)
 	curveOrder := curve.Params().N
-	if k.Cmp(curveOrder) >= 0 {
+	if k.Sign() == 0 || k.Cmp(curveOrder) >= 0 {
 		return nil, errors.New("x509: invalid elliptic curve private key value")
 	}
+	// SM2 private keys are in [1, n-2].
+	if curve == sm2.SM2P256V1() && new(big.Int).Add(k, big.NewInt(1)).Cmp(curveOrder) == 0 {
+		return nil, errors.New("x509: invalid SM2 private key value")
+	}
 
 	privateKey := make([]byte, (curveOrder.BitLen()+7)/8)
 	// Some private keys have leading zero padding. This is invalid
-- 
2.43.0


From 87ae89b90f903900d378610acb50927e193d73d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 10/26] fix: refuse SM2 user ids whose bit length does not fit
 ENTL

The two-byte length silently wrapped for ids of 8192 bytes and more.
---
 sm2/sm2.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 846f5ea..f01de6c 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -140,6 +140,10 @@ func (pub *PublicKey) SM3Digest(msg []byte, uid []byte) ([]byte, error) {
 	if len(uid) == 0 {
 		uid = sm2SignDefaultUserId
 	}
+	//ENTLA是uid的比特长度，只有两个字节
+	if len(uid) > 0xFFFF/8 {
+		return nil, errors.New("user id too long")
+	}
 	digest := sm3.New()
 	z := z(digest, pub.X, pub.Y, uid)
 	digest.Reset()
@@ -261,6 +265,9 @@ func Sign(rand io.Reader, priv *PrivateKey, in, uid []byte) ([]byte, error) {
 //原文裸签，返回R||S
 func SignRS(rand io.Reader, priv *PrivateKey, in, userId []byte) (r, s *big.Int, err error) {
 	hash, err := priv.PublicKey.SM3Digest(in, userId)
+	if err != nil {
+		return nil, nil, err
+	}
 	return SignDigestRS(rand, priv, hash)
 }
 
-- 
2.43.0


From 076431aa080a2682f62bc638e6e18a3898bfe281 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:04 +0000
Subject: [PATCH 11/26] fix: only treat (0, 0) as the point at infinity in SM2
 verification

A point whose x coordinate is zero is an ordinary point of the curve: a valid
signature with x1 = 0 was rejected.
---
 sm2/sm2.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index f01de6c..7ba9f40 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -359,7 +359,7 @@ func VerifyRS(pub *PublicKey, in []byte, uid []byte, r, s *big.Int) bool {
 	x1, y1 := pub.Curve.ScalarBaseMult(s.Bytes())
 	x2, y2 := pub.Curve.ScalarMult(pub.X, pub.Y, t.Bytes())
 	x, y := pub.Curve.Add(x1, y1, x2, y2)
-	if x.Sign() == 0 || y.Sign() == 0 {
+	if x.Sign() == 0 && y.Sign() == 0 {
 		return false
 	}
 	x.Add(x, e)
@@ -393,7 +393,7 @@ func VerifyDigestRS(pub *PublicKey, digest []byte, r, s *big.Int) bool {
 	x1, y1 := pub.Curve.ScalarBaseMult(s.Bytes())
 	x2, y2 := pub.Curve.ScalarMult(pub.X, pub.Y, t.Bytes())
 	x, y := pub.Curve.Add(x1, y1, x2, y2)
-	if x.Sign() == 0 || y.Sign() == 0 {
+	if x.Sign() == 0 && y.Sign() == 0 {
 		return false
 	}
 	x.Add(x, e)
-- 
2.43.0


From ca491e8f1a7ebfed13ce4ad66c4824e8b966f300 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:57 +0000
Subject: [PATCH 12/26] fix: hand SM2 signers the message, not its SM3 digest,
 in every Create function

SM2 hashes Z with the message itself. CreateCRL already passed the unhashed
contents; CreateCertificate always failed for SM2 keys, and CreateRevocationList
and CreateCertificateRequest produced signatures that do not verify.
---
 x509/x509.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/x509/x509.go b/x509/x509.go
index 0c02d65..acf632f 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -1761,7 +1761,7 @@ func CreateCertificate(rand io.Reader, template, parent *Certificate, pub, priv
 	c.Raw = tbsCertContents
 
 	signed := tbsCertContents
-	if hashFunc != 0 {
+	if hashFunc != 0 && hashFunc != SM3 {
 		h := hashFunc.New()
 		h.Write(signed)
 		signed = h.Sum(nil)
@@ -2190,7 +2190,7 @@ func CreateCertificateRequest(rand io.Reader, template *CertificateRequest, priv
 	tbsCSR.Raw = tbsCSRContents
 
 	signed := tbsCSRContents
-	if hashFunc != 0 {
+	if hashFunc != 0 && hashFunc != SM3 {
 		h := hashFunc.New()
 		h.Write(signed)
 		signed = h.Sum(nil)
@@ -2393,7 +2393,7 @@ func CreateRevocationList(rand io.Reader, template *RevocationList, issuer *Cert
 	}
 
 	input := tbsCertListContents
-	if hashFunc != 0 {
+	if hashFunc != 0 && hashFunc != SM3 {
 		h := hashFunc.New()
 		h.Write(tbsCertListContents)
 		input = h.Sum(nil)
-- 
2.43.0


From 6abb6f2dbb160fc48113799736e26b6f4133a5dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 13/26] fix: sign certificate requests with RSA-PSS when
 RSA-PSS is requested

The request was labelled RSA-PSS but signed with PKCS #1 v1.5, so its signature
never verified.
---
 x509/x509.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/x509/x509.go b/x509/x509.go
index acf632f..e768bba 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -2196,8 +2196,16 @@ func CreateCertificateRequest(rand io.Reader, template *CertificateRequest, priv
 		signed = h.Sum(nil)
 	}
 
+	var signerOpts crypto.SignerOpts = hashFunc
+	if template.SignatureAlgorithm.isRSAPSS() {
+		signerOpts = &rsa.PSSOptions{
+			SaltLength: rsa.PSSSaltLengthEqualsHash,
+			Hash:       crypto.Hash(hashFunc),
+		}
+	}
+
 	var signature []byte
-	signature, err = key.Sign(rand, signed, hashFunc)
+	signature, err = key.Sign(rand, signed, signerOpts)
 	if err != nil {
 		return
 	}
-- 
2.43.0


From cecfeae6c4369d5cbfebbc28bce22f4861244fb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:58 +0000
Subject: [PATCH 14/26] fix: verify Ed25519 signatures

Ed25519 has no pre-hash, so checkSignature rejected every such signature as
unsupported and CreateCertificate failed for Ed25519 keys.
---
 x509/x509.go | 22 ++++++++++++----------
 1 file changed, 12 insertions(+), 10 deletions(-)

diff --git a/x509/x509.go b/x509/x509.go
index e768bba..c14f1dc 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -1015,18 +1015,20 @@ func checkSignature(algo SignatureAlgorithm, plain, signature []byte, publicKey
 		}
 	}
 
-	if !hashType.Available() {
-		return ErrUnsupportedAlgorithm
-	}
-
-	if hashType == 0 && pubKeyAlgo != Ed25519 {
-		return ErrUnsupportedAlgorithm
+	signed := plain
+	if hashType == 0 {
+		if pubKeyAlgo != Ed25519 {
+			return ErrUnsupportedAlgorithm
+		}
+	} else {
+		if !hashType.Available() {
+			return ErrUnsupportedAlgorithm
+		}
+		h := hashType.New()
+		h.Write(plain)
+		signed = h.Sum(nil)
 	}
 
-	h := hashType.New()
-	h.Write(plain)
-	signed := h.Sum(nil)
-
 	switch pub := publicKey.(type) {
 	case *rsa.PublicKey:
 		if pubKeyAlgo != RSA {
-- 
2.43.0


From 86713a9bea6e79f999b30649e4fc1147c4f24382 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:34:59 +0000
Subject: [PATCH 15/26] fix: tie SM2WithSM3 to SM2 keys

SM2WithSM3 is listed as an ECDSA algorithm, so an SM2 key accepted signatures
labelled with any ECDSA algorithm, an ECDSA key accepted SM2WithSM3, and the
Create functions honoured such requests and produced unverifiable objects.
---
 x509/x509.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/x509/x509.go b/x509/x509.go
index c14f1dc..b8a41f8 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -1040,7 +1040,7 @@ func checkSignature(algo SignatureAlgorithm, plain, signature []byte, publicKey
 			return rsa.VerifyPKCS1v15(pub, crypto.Hash(hashType), signed, signature)
 		}
 	case *ecdsa.PublicKey:
-		if pubKeyAlgo != ECDSA {
+		if pubKeyAlgo != ECDSA || algo == SM2WithSM3 {
 			return signaturePublicKeyAlgoMismatchError(pubKeyAlgo, pub)
 		}
 		if !ecdsa.VerifyASN1(pub, signed, signature) {
@@ -1048,7 +1048,7 @@ func checkSignature(algo SignatureAlgorithm, plain, signature []byte, publicKey
 		}
 		return
 	case *sm2.PublicKey:
-		if pubKeyAlgo != ECDSA {
+		if algo != SM2WithSM3 {
 			return signaturePublicKeyAlgoMismatchError(pubKeyAlgo, pub)
 		}
 		if pub.Curve != sm2.SM2P256V1() {
@@ -1600,7 +1600,8 @@ func signingParamsForPublicKey(pub any, requestedSigAlgo SignatureAlgorithm) (ha
 	found := false
 	for _, details := range signatureAlgorithmDetails {
 		if details.algo == requestedSigAlgo {
-			if details.pubKeyAlgo != pubType {
+			_, isSM2Key := pub.(*sm2.PublicKey)
+			if details.pubKeyAlgo != pubType || isSM2Key != (requestedSigAlgo == SM2WithSM3) {
 				err = errors.New("x509: requested SignatureAlgorithm does not match private key type")
 				return
 			}
-- 
2.43.0


From 6cc8a4348e3b0a0ecbf658ceae0bb9ca40bce04f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 16/26] fix: reject insecure signature algorithms when
 verifying

MD5 and, in CheckSignatureFrom, SHA-1 signatures are documented as supported for
signing only and InsecureAlgorithmError was declared, but never returned.
---
 x509/x509.go | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/x509/x509.go b/x509/x509.go
index b8a41f8..0f05012 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -30,7 +30,9 @@ import (
 	"math/big"
 	"net"
 	"net/url"
+	"os"
 	"strconv"
+	"strings"
 	"time"
 	"unicode"
 
@@ -953,6 +955,10 @@ func (c *Certificate) hasSANExtension() bool {
 	return oidInExtensions(oidExtensionSubjectAltName, c.Extensions)
 }
 
+// debugAllowSHA1 allows SHA-1 certificate signatures. See
+// InsecureAlgorithmError.
+var debugAllowSHA1 = strings.Contains(","+os.Getenv("GODEBUG")+",", ",x509sha1=1,")
+
 // CheckSignatureFrom verifies that the signature on c is a valid signature
 // from parent.
 func (c *Certificate) CheckSignatureFrom(parent *Certificate) error {
@@ -976,13 +982,13 @@ func (c *Certificate) CheckSignatureFrom(parent *Certificate) error {
 
 	// TODO(agl): don't ignore the path length constraint.
 
-	return parent.CheckSignature(c.SignatureAlgorithm, c.RawTBSCertificate, c.Signature)
+	return checkSignature(c.SignatureAlgorithm, c.RawTBSCertificate, c.Signature, parent.PublicKey, debugAllowSHA1)
 }
 
 // CheckSignature verifies that signature is a valid signature over signed from
 // c's public key.
 func (c *Certificate) CheckSignature(algo SignatureAlgorithm, signed, signature []byte) error {
-	return checkSignature(algo, signed, signature, c.PublicKey)
+	return checkSignature(algo, signed, signature, c.PublicKey, true)
 }
 
 func (c *Certificate) hasNameConstraints() bool {
@@ -1004,7 +1010,7 @@ func signaturePublicKeyAlgoMismatchError(expectedPubKeyAlgo PublicKeyAlgorithm,
 
 // CheckSignature verifies that signature is a valid signature over signed from
 // a crypto.PublicKey.
-func checkSignature(algo SignatureAlgorithm, plain, signature []byte, publicKey crypto.PublicKey) (err error) {
+func checkSignature(algo SignatureAlgorithm, plain, signature []byte, publicKey crypto.PublicKey, allowSHA1 bool) (err error) {
 	var hashType Hash
 	var pubKeyAlgo PublicKeyAlgorithm
 
@@ -1015,6 +1021,15 @@ func checkSignature(algo SignatureAlgorithm, plain, signature []byte, publicKey
 		}
 	}
 
+	switch hashType {
+	case MD5:
+		return InsecureAlgorithmError(algo)
+	case SHA1:
+		if !allowSHA1 {
+			return InsecureAlgorithmError(algo)
+		}
+	}
+
 	signed := plain
 	if hashType == 0 {
 		if pubKeyAlgo != Ed25519 {
@@ -1801,7 +1816,7 @@ func CreateCertificate(rand io.Reader, template, parent *Certificate, pub, priv
 		// We skip the check if the signature algorithm is only supported for
 		// signing, not verification.
 	default:
-		if err := checkSignature(sigAlg, c.Raw, signature, key.Public()); err != nil {
+		if err := checkSignature(sigAlg, c.Raw, signature, key.Public(), true); err != nil {
 			return nil, fmt.Errorf("x509: signature over certificate returned by signer is invalid: %w", err)
 		}
 	}
@@ -2288,7 +2303,7 @@ func parseCertificateRequest(in *certificateRequest) (*CertificateRequest, error
 
 // CheckSignature reports whether the signature on c is valid.
 func (c *CertificateRequest) CheckSignature() error {
-	return checkSignature(c.SignatureAlgorithm, c.RawTBSCertificateRequest, c.Signature, c.PublicKey)
+	return checkSignature(c.SignatureAlgorithm, c.RawTBSCertificateRequest, c.Signature, c.PublicKey, true)
 }
 
 // RevocationList contains the fields used to create an X.509 v2 Certificate
-- 
2.43.0


From 4ce97e4cdf60ca11ae989618e3787b11a4966a08 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:18 +0000
Subject: [PATCH 17/26] fix: report malformed PKCS #7 SignedData

ParsePKCS7 ignored the decoding error and returned a partly filled result.
---
 x509/pkcs7.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/x509/pkcs7.go b/x509/pkcs7.go
index 2aa4867..646f84d 100644
--- a/x509/pkcs7.go
+++ b/x509/pkcs7.go
@@ -466,7 +466,9 @@ type unsignedData []byte
 
 func parseSignedData(data []byte) (*PKCS7, error) {
 	var sd signedData
-	asn1.Unmarshal(data, &sd)
+	if _, err := asn1.Unmarshal(data, &sd); err != nil {
+		return nil, err
+	}
 	certs, err := sd.Certificates.Parse()
 	if err != nil {
 		return nil, err
-- 
2.43.0


From f2380906ab99f3aaeb16dcee7e1b317215607852 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 18/26] fix: return signing failures from NewSignedData and
 NewSignedDataCallBack

The error was overwritten by that of marshaling the empty signer info.
---
 x509/pkcs7.go | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/x509/pkcs7.go b/x509/pkcs7.go
index 646f84d..ca94e69 100644
--- a/x509/pkcs7.go
+++ b/x509/pkcs7.go
@@ -190,6 +190,9 @@ func NewSignedDataCallBack(signerCertificate *Certificate, callback Callback, da
 	certs := []*Certificate{signerCertificate}
 
 	si, err := getSignerInfoWithAttrCallback(signerCertificate, callback, data, SignerInfoConfig{})
+	if err != nil {
+		return nil, err
+	}
 
 	sd := signedData{
 		Version:                    1,
@@ -228,6 +231,9 @@ func NewSignedData(signerCertificate *Certificate, signerPrivateKey crypto.Priva
 	certs := []*Certificate{signerCertificate}
 
 	si, err := getSignerInfoWithAttr(signerCertificate, signerPrivateKey, data, SignerInfoConfig{})
+	if err != nil {
+		return nil, err
+	}
 
 	sd := signedData{
 		Version:                    1,
-- 
2.43.0


From 08ab438332f0f232a8d2b4a914e3c4c8ca9917b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:19 +0000
Subject: [PATCH 19/26] fix: do not print to standard output while parsing a
 certificate

---
 x509/parser.go | 7 -------
 1 file changed, 7 deletions(-)

diff --git a/x509/parser.go b/x509/parser.go
index fe08981..a9abe23 100644
--- a/x509/parser.go
+++ b/x509/parser.go
@@ -1121,13 +1121,6 @@ func parseCertificate(der []byte) (*Certificate, error) {
 		return nil, err
 	}
 
-	var paramsoid cryptobyte.String
-	paramsoid = pkAI.Parameters.FullBytes
-	var paramsAlgorithm asn1.ObjectIdentifier
-	paramsoid.ReadASN1ObjectIdentifier(&paramsAlgorithm)
-
-	fmt.Println(paramsAlgorithm)
-
 	cert.PublicKeyAlgorithm = getPublicKeyAlgorithmFromOID(pkAI.Algorithm)
 	var spk asn1.BitString
 	if !spki.ReadASN1BitString(&spk) {
-- 
2.43.0


From e966e3bf81a3aeedbb9d1fe4af9507f7d8d9aedb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 20/26] fix: report a wrong password or a malformed file from
 ToPEM

The error of getSafeContents was dropped: ToPEM returned an empty list and no
error.
---
 pkcs12/pkcs12.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/pkcs12/pkcs12.go b/pkcs12/pkcs12.go
index 682ad78..a127082 100644
--- a/pkcs12/pkcs12.go
+++ b/pkcs12/pkcs12.go
@@ -110,6 +110,9 @@ func ToPEM(pfxData []byte, password string) ([]*pem.Block, error) {
 	}
 
 	bags, encodedPassword, err := getSafeContents(pfxData, encodedPassword)
+	if err != nil {
+		return nil, err
+	}
 
 	blocks := make([]*pem.Block, 0, len(bags))
 	for _, bag := range bags {
-- 
2.43.0


From 51b79781300dfd0181081996bf7e4b8e89d500a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:35:20 +0000
Subject: [PATCH 21/26] fix: make PKCS #12 decoding independent of the order of
 the bags

DecodeAll and Decode set an error for a second certificate or key bag, which the
next key bag overwrote. A certificate chain decoded only when the key came last,
Decode returned the last certificate of a chain, and a second key silently
replaced the first.
---
 pkcs12/pkcs12.go | 10 +++-------
 1 file changed, 3 insertions(+), 7 deletions(-)

diff --git a/pkcs12/pkcs12.go b/pkcs12/pkcs12.go
index a127082..7194641 100644
--- a/pkcs12/pkcs12.go
+++ b/pkcs12/pkcs12.go
@@ -227,10 +227,6 @@ func DecodeAll(pfxData []byte, password string) (privateKey interface{}, certifi
 	for _, bag := range bags {
 		switch {
 		case bag.Id.Equal(oidCertBag):
-			if certificate != nil {
-				err = errors.New("go-pkcs12: expected exactly one certificate bag")
-			}
-
 			certsData, err := decodeCertBag(bag.Value.Bytes)
 			if err != nil {
 				return nil, nil, err
@@ -247,7 +243,7 @@ func DecodeAll(pfxData []byte, password string) (privateKey interface{}, certifi
 
 		case bag.Id.Equal(oidPKCS8ShroundedKeyBag):
 			if privateKey != nil {
-				err = errors.New("go-pkcs12: expected exactly one key bag")
+				return nil, nil, errors.New("go-pkcs12: expected exactly one key bag")
 			}
 
 			if privateKey, err = decodePkcs8ShroudedKeyBag(bag.Value.Bytes, encodedPassword); err != nil {
@@ -289,7 +285,7 @@ func Decode(pfxData []byte, password string) (privateKey interface{}, certificat
 		switch {
 		case bag.Id.Equal(oidCertBag):
 			if certificate != nil {
-				err = errors.New("go-pkcs12: expected exactly one certificate bag")
+				return nil, nil, errors.New("go-pkcs12: expected exactly one certificate bag")
 			}
 
 			certsData, err := decodeCertBag(bag.Value.Bytes)
@@ -308,7 +304,7 @@ func Decode(pfxData []byte, password string) (privateKey interface{}, certificat
 
 		case bag.Id.Equal(oidPKCS8ShroundedKeyBag):
 			if privateKey != nil {
-				err = errors.New("go-pkcs12: expected exactly one key bag")
+				return nil, nil, errors.New("go-pkcs12: expected exactly one key bag")
 			}
 
 			if privateKey, err = decodePkcs8ShroudedKeyBag(bag.Value.Bytes, encodedPassword); err != nil {
-- 
2.43.0


From ff0427f871bdf98a98e15ec39c2e40dd132b88d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:05 +0000
Subject: [PATCH 22/26] fix: name the MD4 hash identifier

---
 x509/x509.go | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/x509/x509.go b/x509/x509.go
index 0f05012..8dd24bc 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -228,6 +228,8 @@ func (h Hash) HashFunc() crypto.Hash {
 
 func (h Hash) String() string {
 	switch h {
+	case MD4:
+		return "MD4"
 	case MD5:
 		return "MD5"
 	case SHA1:
-- 
2.43.0


From 4358f46e4ca98db0b5c74ea998e78e45aec70e9d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:35:38 +0000
Subject: [PATCH 23/26] fix: skip unique identifiers in certificates

issuerUniqueID and subjectUniqueID are IMPLICIT BIT STRINGs, so their tags
are primitive. Looking for constructed tags left them in place, and all
extensions of such a certificate were silently ignored.
---
 x509/parser.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x509/parser.go b/x509/parser.go
index a9abe23..12536ad 100644
--- a/x509/parser.go
+++ b/x509/parser.go
@@ -1135,10 +1135,10 @@ func parseCertificate(der []byte) (*Certificate, error) {
 	}
 
 	if cert.Version > 1 {
-		if !tbs.SkipOptionalASN1(cryptobyte_asn1.Tag(1).Constructed().ContextSpecific()) {
+		if !tbs.SkipOptionalASN1(cryptobyte_asn1.Tag(1).ContextSpecific()) {
 			return nil, errors.New("x509: malformed issuerUniqueID")
 		}
-		if !tbs.SkipOptionalASN1(cryptobyte_asn1.Tag(2).Constructed().ContextSpecific()) {
+		if !tbs.SkipOptionalASN1(cryptobyte_asn1.Tag(2).ContextSpecific()) {
 			return nil, errors.New("x509: malformed subjectUniqueID")
 		}
 		if cert.Version == 3 {
-- 
2.43.0


From 0995c9e9456904a24d7f4ca2b66c8ba45d475ddc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:53:04 +0000
Subject: [PATCH 24/26] fix: name a CRL's issuer as its certificate encodes it

---
 x509/x509.go | 41 +++++++++++++++++++++++++++++++++++------
 1 file changed, 35 insertions(+), 6 deletions(-)

diff --git a/x509/x509.go b/x509/x509.go
index 8dd24bc..2529ad3 100644
--- a/x509/x509.go
+++ b/x509/x509.go
@@ -1858,6 +1858,25 @@ func ParseDERCRL(derBytes []byte) (*pkix.CertificateList, error) {
 	return certList, nil
 }
 
+// certificateList and tbsCertificateList are pkix.CertificateList and
+// pkix.TBSCertificateList for writing: the issuer is kept as it is encoded in
+// the issuer's certificate.
+type certificateList struct {
+	TBSCertList        tbsCertificateList
+	SignatureAlgorithm pkix.AlgorithmIdentifier
+	SignatureValue     asn1.BitString
+}
+
+type tbsCertificateList struct {
+	Version             int `asn1:"optional,default:0"`
+	Signature           pkix.AlgorithmIdentifier
+	Issuer              asn1.RawValue
+	ThisUpdate          time.Time
+	NextUpdate          time.Time                 `asn1:"optional"`
+	RevokedCertificates []pkix.RevokedCertificate `asn1:"optional"`
+	Extensions          []pkix.Extension          `asn1:"tag:0,optional,explicit"`
+}
+
 // CreateCRL returns a DER encoded CRL, signed by this Certificate, that
 // contains the given list of revoked certificates.
 //
@@ -1881,10 +1900,15 @@ func (c *Certificate) CreateCRL(rand io.Reader, priv any, revokedCerts []pkix.Re
 		revokedCertsUTC[i] = rc
 	}
 
-	tbsCertList := pkix.TBSCertificateList{
+	issuerBytes, err := subjectBytes(c)
+	if err != nil {
+		return nil, err
+	}
+
+	tbsCertList := tbsCertificateList{
 		Version:             1,
 		Signature:           signatureAlgorithm,
-		Issuer:              c.Subject.ToRDNSequence(),
+		Issuer:              asn1.RawValue{FullBytes: issuerBytes},
 		ThisUpdate:          now.UTC(),
 		NextUpdate:          expiry.UTC(),
 		RevokedCertificates: revokedCertsUTC,
@@ -1919,7 +1943,7 @@ func (c *Certificate) CreateCRL(rand io.Reader, priv any, revokedCerts []pkix.Re
 		return
 	}
 
-	return asn1.Marshal(pkix.CertificateList{
+	return asn1.Marshal(certificateList{
 		TBSCertList:        tbsCertList,
 		SignatureAlgorithm: signatureAlgorithm,
 		SignatureValue:     asn1.BitString{Bytes: signature, BitLength: len(signature) * 8},
@@ -2390,10 +2414,15 @@ func CreateRevocationList(rand io.Reader, template *RevocationList, issuer *Cert
 		return nil, err
 	}
 
-	tbsCertList := pkix.TBSCertificateList{
+	issuerBytes, err := subjectBytes(issuer)
+	if err != nil {
+		return nil, err
+	}
+
+	tbsCertList := tbsCertificateList{
 		Version:    1, // v2
 		Signature:  signatureAlgorithm,
-		Issuer:     issuer.Subject.ToRDNSequence(),
+		Issuer:     asn1.RawValue{FullBytes: issuerBytes},
 		ThisUpdate: template.ThisUpdate.UTC(),
 		NextUpdate: template.NextUpdate.UTC(),
 		Extensions: []pkix.Extension{
@@ -2439,7 +2468,7 @@ func CreateRevocationList(rand io.Reader, template *RevocationList, issuer *Cert
 		return nil, err
 	}
 
-	return asn1.Marshal(pkix.CertificateList{
+	return asn1.Marshal(certificateList{
 		TBSCertList:        tbsCertList,
 		SignatureAlgorithm: signatureAlgorithm,
 		SignatureValue:     asn1.BitString{Bytes: signature, BitLength: len(signature) * 8},
-- 
2.43.0


From aacf531b6b91aa6b0f2729a483d2507c46828e87 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:17:10 +0000
Subject: [PATCH 25/26] fix: data race between SM2 curve arithmetic and the
 first use of a standard curve

---
 sm2/sm2.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/sm2/sm2.go b/sm2/sm2.go
index 7ba9f40..8919fbc 100644
--- a/sm2/sm2.go
+++ b/sm2/sm2.go
@@ -31,6 +31,9 @@ type P256V1Curve struct {
 }
 
 func init() {
+	// The arithmetic of CurveParams reads the standard curves, which are set up without
+	// synchronization with it on the first use of one of them: have that happen before.
+	elliptic.P256()
 	initSm2P256V1()
 }
 
-- 
2.43.0


From 9abfedd599719d1e780d8a84caf172d80fd6f08e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:45:12 +0000
Subject: [PATCH 26/26] fix: SignedData signing time is written in UTC

---
 x509/pkcs7.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/x509/pkcs7.go b/x509/pkcs7.go
index ca94e69..6e16d7a 100644
--- a/x509/pkcs7.go
+++ b/x509/pkcs7.go
@@ -261,7 +261,7 @@ func getSignerInfoWithAttrCallback(cert *Certificate, callback Callback, in []by
 	attrs := &attributes{}
 	attrs.Add(oidAttributeContentType, oidGMData)
 	attrs.Add(oidAttributeMessageDigest, messageDigest)
-	attrs.Add(oidAttributeSigningTime, time.Now())
+	attrs.Add(oidAttributeSigningTime, time.Now().UTC())
 	for _, attr := range config.ExtraSignedAttributes {
 		attrs.Add(attr.Type, attr.Value)
 	}
@@ -296,7 +296,7 @@ func getSignerInfoWithAttr(cert *Certificate, pkey crypto.PrivateKey, in []byte,
 	attrs := &attributes{}
 	attrs.Add(oidAttributeContentType, oidGMData)
 	attrs.Add(oidAttributeMessageDigest, messageDigest)
-	attrs.Add(oidAttributeSigningTime, time.Now())
+	attrs.Add(oidAttributeSigningTime, time.Now().UTC())
 	for _, attr := range config.ExtraSignedAttributes {
 		attrs.Add(attr.Type, attr.Value)
 	}
-- 
2.43.0

