#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (one place to edit the property texts)."""
import json
P=[]
def prop(id,title,statement,over,text,why,files,mech,observe,state=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech],"observe_at":observe,"hook_needed":None}
    if state: a["state"]=[{"name":n,"meaning":m,"where":w} for n,m,w in state]
    P.append({"id":id,"title":title,"statement":statement,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})

prop("C01","SM3 digests equal the GM/T 0004 hash of the message",
"For every message of any length, the SM3 digest equals the one GM/T 0004-2012 defines, through the one-shot function, through the streaming hash however the message is split into writes, and through the SM3 entry of the x509 hash registry. The digest is always 32 bytes, the hash reports Size 32 and BlockSize 64, and every Write consumes its whole argument without error.",
["inputs","histories"],"every message (lengths around block boundaries, hundreds of MiB where the bit length passes 32 bits) and every way of splitting it into writes",
"The two tests hash one short string and one file that is not in the repository; padding boundaries, write splits and 64-bit lengths are never reached.",
["sm3/sm3.go","x509/x509.go"],[("digest.Write/checkSum/block","sm3/sm3.go"),("Sum, New","sm3/sm3.go"),("RegisterHash(SM3, sm3.New)","x509/x509.go init")],
["sm3.Sum","sm3.New().Write/Sum","x509.SM3.New()"])

prop("C02","SM3 hash objects: Sum is pure, Reset forgets, instances are independent",
"In any sequence of Write, Sum and Reset calls, Sum appends exactly the digest of what was written since the last Reset to its argument, changes neither the hash state nor the caller's other bytes, and can be repeated or followed by more writes. Instances, however they are interleaved, never influence each other, and neither written slices nor returned digests stay aliased to the hash.",
["histories","inputs"],"every interleaving of Write/Sum/Reset over any number of live instances",
"No test calls Sum twice, writes after Sum, resets, or holds two instances.",
["sm3/sm3.go"],[("Sum copies the digest before padding","sm3/sm3.go Sum"),("Reset","sm3/sm3.go Reset")],
["hash.Hash values returned by sm3.New"],[("digest","chaining value, partial block, length","sm3/sm3.go")])

prop("C03","SM2 encryption produces standard ciphertexts that decrypt to the message",
"For every valid key pair and every message of any length, encryption succeeds and yields 0x04 || C1 || C3 || C2 of exactly 97 plus message-length bytes, which an independent GM/T 0003.4 decryption and this library's own decryption both turn back into the message. This includes points whose coordinates start with zero bytes and the retry when the key stream is all zero; conversely ciphertexts an independent implementation produces for any nonce decrypt here.",
["inputs"],"every key, message length and content, and nonce",
"The test encrypts one four-byte message with one random key; coordinates with leading zeros appear once in 128 runs and messages over 32 bytes are never tried.",
["sm2/sm2.go"],[("Encryt","sm2/sm2.go"),("kdf","sm2/sm2.go"),("appendBigIntTo32Bytes","sm2/sm2.go")],
["sm2.Encryt result","sm2.Decryt result"])

prop("C04","SM2 decryption releases plaintext only for authentic ciphertexts",
"Decryption returns a plaintext exactly when the input is a well-formed ciphertext (0x04 prefix, C1 on the curve, key stream not all zero) whose C3 matches for that private key, and then returns the plaintext the standard defines. For every other byte string, including truncated, extended, bit-flipped, wrong-key, reordered or off-curve ones, it returns an error and no plaintext bytes, and it never panics.",
["inputs"],"every byte string and every private key",
"No test decrypts anything but a genuine ciphertext.",
["sm2/sm2.go"],[("length, prefix and curve checks; C3 comparison","sm2/sm2.go Decryt")],
["sm2.Decryt result"])

prop("C05","Every SM2 signature verifies, through every entry point and elsewhere",
"For every valid key pair, message and user id, each signing entry point (message or digest, raw r/s or DER, function or method) produces a signature that all matching verification entry points and an independent GM/T 0003.2 verifier accept, where an absent or empty id means 1234567812345678 and message signatures equal digest signatures over the SM3 of Z and the message. Genuine signatures made by other implementations verify here, the DER form is the canonical encoding of (r, s), and an id too long for the two-byte length is refused, not truncated.",
["inputs"],"every key, message, user id and nonce, and every pairing of sign and verify entry points",
"Tests sign a handful of constant messages with the default id; one of the verification methods had its arguments swapped without any test noticing.",
["sm2/sm2.go"],[("Sign/SignRS/SignDigest/SignDigestRS","sm2/sm2.go"),("Verify*/SM3Digest/z","sm2/sm2.go"),("MarshalSign/UnmarshalSign","sm2/sm2.go")],
["results of the sm2 sign and verify functions and methods"])

prop("C06","SM2 verification accepts exactly the signatures the standard accepts",
"A verification entry point returns true for (key, message or digest, id, signature) exactly when GM/T 0003.2 verification succeeds: r and s in [1, n-1], r+s not 0 mod n, and the recomputed value equal to r. Any change to message, id, key, r or s, zero, negative, oversized or congruent-mod-n values, and any signature bytes that are not the strict DER SEQUENCE of two integers with nothing missing or trailing are rejected with false, without a panic.",
["inputs"],"every key, message, id and signature value or byte string",
"No test presents an invalid signature.",
["sm2/sm2.go"],[("range checks","sm2/sm2.go VerifyRS, VerifyDigestRS"),("UnmarshalSign","sm2/sm2.go")],
["results of Verify, VerifyRS, VerifyDigest, VerifyDigestRS and UnmarshalSign"])

prop("C07","SM2 keys and nonces come only from the given randomness, fresh and in range",
"Every private key lies in [1, n-2] with its public key equal to D*G, and every nonce used to sign or encrypt lies in [1, n-1], is full-width, differs from call to call, and depends on the supplied random source. If that source fails at any read, key generation, signing and encryption return an error and no key, signature or ciphertext; a source that delivers its bytes in short reads, with empty reads in between, or the last of them together with the end of the stream changes nothing, and a source whose output forces a retry still leads to a valid result.",
["inputs","fault_sequences"],"every random stream, every position at which the source fails, and every pattern of short reads",
"Tests only use the system source, look at no nonce, and never make it fail.",
["sm2/sm2.go","x509/pkcs7.go"],[("nextk","sm2/sm2.go"),("GenerateKey","sm2/sm2.go")],
["nonce recovered from (r, s, D) as s(1+D)+rD","bytes consumed from the supplied reader"])

prop("C08","Keys survive encoding and decoding and interoperate",
"For every supported key (SM2, ECDSA on all named curves, RSA, Ed25519) the PKCS #8, PKIX, PKCS #1 and SEC 1 encodings parse back to an equal key of the same type, and for the types the Go standard library supports the encodings are byte-identical to the library's and each side parses the other's. SM2 encodings are the standard DER structures with fixed-width scalars and points under the id-ecPublicKey and SM2 curve identifiers, whatever leading zero bytes the key has. Private keys other software writes with attributes or, as RFC 5958 does, with version 1 and the public key, are read too.",
["inputs"],"every key value of every supported type",
"Tests encode one random SM2 key and parse three constant blobs, printing instead of comparing.",
["x509/pkcs8.go","x509/sec1.go","x509/pkcs1.go","x509/x509.go"],[("MarshalPKCS8PrivateKey/ParsePKCS8PrivateKey","x509/pkcs8.go"),("marshalSM2PrivateKeyWithOID","x509/sec1.go"),("marshalPublicKey/parsePublicKey","x509/x509.go, x509/parser.go")],
["DER bytes and parsed keys"])

prop("C09","Parsed keys are always valid keys",
"Whatever bytes are given to the key parsers, the result is either an error or a usable key: EC and SM2 points on their curve, EC scalars in [1, n-1] (SM2 in [1, n-2]) with the matching public point, RSA keys positive and consistent as the standard library validates them, DSA public keys of positive numbers, Ed25519 keys of the right size. Encodings with a wrong algorithm, curve, SEC 1 version or length, a PKCS #1 version above 1, an off-curve or infinite point, an out-of-range scalar, or trailing data after a public key or PKCS #1 key are refused.",
["inputs"],"every byte string given to a key parser",
"Tests parse only well-formed keys.",
["x509/pkcs8.go","x509/sec1.go","x509/pkcs1.go","x509/parser.go"],[("range and curve checks","x509/sec1.go parseECPrivateKey, x509/parser.go parsePublicKey"),("PKCS #1 sanity checks","x509/pkcs1.go")],
["results of the Parse*Key functions"])

prop("C10","Created certificates carry exactly what the template says",
"For every valid template, parent and key of a supported type, certificate creation yields DER that parses back to a certificate with the template's serial, names, validity, key usages, basic constraints, alternative names, name constraints, policies, distribution points, key identifiers and extra extensions, the given public key, and the parent's subject as issuer. The signature verifies under the parent's key, and for key types the Go standard library supports the to-be-signed bytes are those the library reads the same way.",
["inputs"],"every certificate template, parent and signing key",
"No test creates a certificate.",
["x509/x509.go","x509/parser.go"],[("CreateCertificate, buildCertExtensions","x509/x509.go"),("parseCertificate, processExtensions","x509/parser.go")],
["CreateCertificate output, ParseCertificate fields"])

prop("C11","Signature checks accept only genuine, properly labelled signatures",
"A check of a certificate, request or revocation list signature succeeds only if the signature is genuine for those exact bytes under the signer's key and the stated algorithm matches that key's type; SM2WithSM3 verifies only with SM2 keys and SM2 keys verify only as SM2WithSM3. A certificate issued by a parent that is not a CA or whose key usage excludes certificate signing is refused, MD5 signatures are always refused, and SHA-1 signatures are refused between certificates.",
["inputs"],"every combination of signer key type, algorithm label, signed bytes, signature bytes and parent constraints",
"No test checks a certificate signature, valid or not.",
["x509/x509.go"],[("checkSignature","x509/x509.go"),("CheckSignatureFrom","x509/x509.go"),("signatureAlgorithmDetails","x509/x509.go")],
["errors of CheckSignature, CheckSignatureFrom, CheckCRLSignature, CertificateRequest.CheckSignature"])

prop("C12","Certificate parsing reads what is there and agrees with the standard library",
"For every byte string that both this parser and Go's crypto/x509 accept as a certificate without an SM2 key, all fields they share are equal (8-bit T61 text aside); and this parser accepts what the standard library accepts, unless a name holds a value that is not a UTF-8, printable, IA5, numeric, BMP or T61 string, or an object identifier has a component of more than 31 bits, and refuses what it refuses as malformed (a wrong type, length, number, order, encoding or character), except for checks only newer versions of it make. The raw fields are always exact sub-slices of the input, an SM2 certificate yields the same fields as the same certificate with another key, concatenated certificates parse one by one, and trailing data is an error.",
["inputs"],"every certificate, well-formed or mutated",
"Two constant certificates are parsed and printed; no field is compared.",
["x509/parser.go"],[("parseCertificate and its helpers","x509/parser.go")],
["ParseCertificate and ParseCertificates results"])

prop("C13","SignedData messages round-trip and carry what was signed",
"For every content, SM2 certificate and matching key, both ways of creating SignedData (with the key or with a signing callback) give DER that parses back to the same content and certificate, names that certificate as only signer, verifies, and is confirmed by an independent check of digest attribute and signature over the DER SET of attributes. If the key type is unsupported or the random source or callback fails, creation returns that error and no message.",
["inputs","fault_sequences"],"every content and certificate, and every failure of the key, random source or callback",
"Tests sign one constant string with one certificate and never make signing fail.",
["x509/pkcs7.go"],[("NewSignedData, NewSignedDataCallBack","x509/pkcs7.go"),("marshalAttributes","x509/pkcs7.go")],
["DER output, ParsePKCS7 fields, Verify result"])

prop("C14","SignedData verification succeeds only if every signer signed this content",
"Verification of a parsed SignedData succeeds only if there is at least one signer and, for each, the certificate with that issuer and serial is present, the message digest attribute equals the SM3 of the content when attributes exist, and the signature over the attributes (or over the content without them) is genuine under that certificate's SM2 key. Any change to content, attributes, signature, signer identity or certificate key, with one or several signers, makes parsing or verification fail; a genuine message, with any number and length of signed attributes, does verify.",
["inputs"],"every SignedData structure, genuine, altered or adversarially assembled",
"Tests verify unmodified messages only.",
["x509/pkcs7.go"],[("Verify, verifySignature","x509/pkcs7.go"),("getCertFromCertsByIssuerAndSerial","x509/pkcs7.go")],
["ParsePKCS7 and Verify results"])

prop("C15","Requests and revocation lists carry what was asked and verify",
"For every template and supported key, certificate requests and revocation lists (both creation functions) parse back to the requested subject, names, extensions, revoked entries, numbers and times (a list names its issuer exactly as the issuer's certificate does) and verify under the signer's public key, and only under it, in DER and in PEM form. For key types the Go standard library supports, the library reads the same values and accepts the same signatures.",
["inputs"],"every request or list template and signing key",
"No test touches requests or revocation lists.",
["x509/x509.go"],[("CreateCertificateRequest/ParseCertificateRequest","x509/x509.go"),("CreateCRL, CreateRevocationList, ParseCRL","x509/x509.go")],
["DER output, parsed fields, CheckSignature and CheckCRLSignature results"])

prop("C16","PKCS #12 files give back the key and certificates put in",
"For every supported private key (SM2, RSA, ECDSA, Ed25519), certificate, list of CA certificates and password encodable as a BMP string, an encoded file decodes under the same password to an equal key and the same certificates in order, end-entity first. The file helpers write and read back the same SM2 key and certificate, and a password that cannot be encoded is refused with an error.",
["inputs"],"every key, certificate chain and password",
"The package has no tests.",
["pkcs12/pkcs12.go","pkcs12/safebags.go","pkcs12/bmp-string.go"],[("Encode, DecodeAll, Decode, ToPEM","pkcs12/pkcs12.go"),("SM2P12Encrypt, SM2P12Decrypt","pkcs12/pkcs12.go")],
["decoded keys and certificates"])

prop("C17","PKCS #12 decoding fails for wrong passwords and altered files",
"For every file and every password with a different key derivation, and for every change to the authenticated content or the MAC value, or to the MAC salt or iteration count that changes the derived key, every decoding function (all certificates, single certificate, PEM, file helper) returns an error and no key or certificate. Files without a MAC or with trailing data, after the file or after a part of it, are refused, as are, except by the PEM conversion, files without a key or certificate.",
["inputs"],"every file, wrong password and alteration",
"The package has no tests; one decoding function dropped the error altogether.",
["pkcs12/pkcs12.go","pkcs12/mac.go"],[("verifyMac","pkcs12/mac.go"),("getSafeContents","pkcs12/pkcs12.go")],
["errors and results of DecodeAll, Decode, ToPEM, SM2P12Decrypt"])

prop("C18","PKCS #12 files follow RFC 7292 and keep their contents encrypted",
"An encoded file is read by an independent RFC 7292 implementation under the same password, and files independent implementations produce with 3DES or 40-bit RC2 and an SHA-1 MAC are read here with the same result whatever the order of their bags and iteration counts. Salts are 8 fresh random bytes for each use, private key bytes never appear in the clear, and key and certificate share the SHA-1 local key id.",
["inputs","histories"],"every key, chain, password, salt, iteration count and bag order",
"The package has no tests.",
["pkcs12/pkcs12.go","pkcs12/crypto.go","pkcs12/pbkdf.go"],[("pbkdf","pkcs12/pbkdf.go"),("pbEncrypt/pbDecrypt","pkcs12/crypto.go"),("makeSafeContents","pkcs12/pkcs12.go")],
["bytes of encoded files, results for independently encoded files"])

prop("C19","The RC2 cipher computes RFC 2268 RC2",
"For every key of 1 to 128 bytes, every effective key length of 1 to 1024 bits and every block, encryption equals RFC 2268 RC2 and decryption is its inverse, in place or between buffers, writing exactly 8 bytes. One cipher object gives the same results however often and in whatever order it is used.",
["inputs","histories"],"every key, effective length and block",
"The package has no tests.",
["pkcs12/rc2.go"],[("expandKey","pkcs12/rc2.go"),("Encrypt, Decrypt","pkcs12/rc2.go")],
["cipher.Block returned by pkcs12.New"])

prop("C20","No input bytes make parsing, verifying or decrypting panic or hang",
"Whatever bytes are passed to the parsing, verifying, decrypting and decoding functions of the library, and whatever methods are then called on a successfully parsed result, the call returns a value or an error: it does not panic, overflow the stack, use memory far beyond the input size, or run longer than the input's size and any iteration count it states call for. Private and public keys that parsed successfully can always be encoded again and used (two-prime RSA of 1024 bits and up, SM2, ECDSA, Ed25519).",
["inputs"],"every byte string given to any decoding entry point",
"Tests feed well-formed inputs only.",
["sm2/sm2.go","x509/parser.go","x509/pkcs7.go","x509/x509.go","x509/pkcs8.go","x509/sec1.go","x509/pkcs1.go","pkcs12/pkcs12.go"],[("length and structure checks in each parser","all packages")],
["returned values, recovered panics, CPU and allocation counters"])

prop("C21","Concurrent use is free of data races and gives sequential results",
"Any number of goroutines may call the library's functions at the same time, sharing keys, certificates, parsed messages and ciphers read-only: there is no data race and every call returns what it would return alone. Signatures, ciphertexts and files made concurrently are all valid and distinct.",
["schedules"],"every interleaving of calls from any number of goroutines on shared values",
"No test starts a goroutine.",
["sm2/sm2.go","sm3/sm3.go","x509/x509.go","x509/parser.go","x509/pkcs7.go","pkcs12/pkcs12.go","pkcs12/rc2.go"],[("no mutable package state after init; big.Int receivers are fresh","all packages")],
["race detector reports, results of each call"],[("sm2P256V1, hashes","package-level values shared by all calls","sm2/sm2.go, x509/x509.go")])

prop("C22","Calls have no side effects on arguments, shared state or output",
"No call modifies the caller's messages, digests, ids, signatures, DER buffers, keys, certificates, templates, big integers or the spare capacity behind slices, nor the SM2 curve parameters or other shared package values, and repeating a call gives an equal result. Nothing is written to standard output, standard error or the log, and no file is touched other than the one a file helper was given.",
["histories","inputs"],"every call of every exported function, in any order",
"Tests never compare an argument before and after; the certificate parser printed to standard output unnoticed.",
["sm2/sm2.go","sm3/sm3.go","x509/x509.go","x509/parser.go","x509/pkcs7.go","pkcs12/pkcs12.go"],[("copies before mutation; fresh big.Int receivers","all packages")],
["deep snapshots of arguments before and after, captured stdout and stderr"])

prop("C23","The SM2 curve is the standard curve and its operations are its group law",
"The exported SM2 curve has exactly the GM/T 0003.5 parameters, and for all points on it and all scalars its addition, doubling, base and point multiplication and membership test give the results of the group law, including the point at infinity, inverse and equal points, scalars of zero, n, above n and with leading zero bytes.",
["inputs"],"every point and scalar",
"Tests only check that one generated key lies on the curve.",
["sm2/sm2.go"],[("initSm2P256V1, P256V1Curve","sm2/sm2.go")],
["results of the elliptic.Curve methods of SM2P256V1()"])

prop("C24","The x509 identifiers and hash registry mean what they name",
"Every hash identifier of the x509 package that reports itself available constructs the hash function it names, with the size it declares, for every input; MD5, SHA-1, SHA-2, SHA-3, RIPEMD-160 and SM3 are available, and identifiers without an implementation report themselves unavailable and panic when constructed. The values and names of the hash, public key algorithm, key usage and extended key usage identifiers shared with the standard library are the standard library's, and so are the names of the signature algorithms; numbers that stand for nothing print as numbers. A hash function a program registers is the one constructed for that identifier, and no other identifier changes.",
["inputs","histories"],"every identifier and message",
"No test uses the registry.",
["x509/x509.go"],[("RegisterHash, Hash.New/Size/Available/String","x509/x509.go")],
["x509.Hash methods"])

prop("C25","Equal tells exactly whether two keys or certificates are the same",
"PrivateKey.Equal and PublicKey.Equal of SM2 keys and Certificate.Equal are true exactly when both sides are the same value: for SM2 public keys the same curve and coordinates, for SM2 private keys also the same private number, for certificates the same DER encoding (or both nil). The verdict is the same both ways round and whatever the way the values were made (generated, parsed, copied, used before); a value of another type, key kind or curve is never equal, and comparing changes neither side.",
["inputs","histories"],"every pair of values and the way they were made",
"No test compares keys or certificates; a comparison that looks at part of a value passes any sample of random keys.",
["sm2/sm2.go","x509/x509.go"],[("PrivateKey.Equal, PublicKey.Equal","sm2/sm2.go"),("Certificate.Equal","x509/x509.go")],
["Equal"])

prop("C26","ParsePKCS7 and its accessors return exactly what the message holds",
"For every well-formed SignedData message, however it was made, ParsePKCS7 returns its content, its certificates in order and its certificate lists, one signer per SignerInfo in order; UnmarshalSignedAttribute decodes the first signer's signed attribute of the named type and fails for types that are not there, leaving the destination alone; GetOnlySigner returns the certificate whose issuer and serial number the only signer names, and nil when there is not exactly one signer or no such certificate. Reading never changes the input, and messages of another content type, cut short or with trailing bytes are refused with an error.",
["inputs"],"every message",
"Tests parse one fixed message.",
["x509/pkcs7.go"],[("ParsePKCS7, UnmarshalSignedAttribute, GetOnlySigner","x509/pkcs7.go")],
["fields and accessors of PKCS7"])

prop("C27","Everything written is canonical DER, in any time zone and environment",
"Everything the library writes (certificates, requests, revocation lists, SignedData messages, PKCS #12 files including their decrypted parts, private and public keys, SM2 signatures) is DER as X.690 demands it: definite minimal lengths, minimal integers, booleans of 0 or 255, sorted sets, no default values, times in UTC with seconds, no trailing zeros in named bit lists, and the values of the standard extensions likewise. Parts the caller supplies ready-made (raw names, extra extensions, raw attributes) are taken as they are. This holds whatever the local time zone of the program.",
["inputs","configurations"],"every value written and every local time zone",
"Tests read the library's output with its own parsers, which accept what other implementations refuse; the test environment is in UTC.",
["x509/x509.go","x509/pkcs7.go","x509/pkcs8.go","x509/sec1.go","pkcs12/pkcs12.go","sm2/sm2.go"],[("CreateCertificate, CreateCertificateRequest, CreateCRL, CreateRevocationList","x509/x509.go"),("NewSignedData, marshalAttributes","x509/pkcs7.go"),("Encode","pkcs12/pkcs12.go"),("MarshalSign","sm2/sm2.go")],
["bytes returned by every writing function"])

prop("C28","Failures give the documented error, and no result with it",
"When an operation fails it returns an error and no result. The documented errors say why: a PKCS #12 password or content that does not match the MAC is ErrIncorrectPassword, wrong padding of encrypted contents with a right MAC is ErrDecryption, and an unknown MAC digest, encryption, version, number of items, item or certificate type is a NotImplementedError; a PKCS #7 content type other than GM/T SignedData is ErrUnsupportedContentType and content that does not match the signed digest a MessageDigestMismatchError with both digests; MD5 signatures, and SHA-1 signatures between certificates, are an InsecureAlgorithmError naming the algorithm; unknown algorithms and keys are ErrUnsupportedAlgorithm; and a parent that may not issue is a ConstraintViolationError. The error of a random source, signer or signing callback that fails is passed on. When the PKCS #12 file helper cannot encode, a file that was there stays as it was.",
["inputs","fault_sequences"],"every failing input and every point at which a source or signer fails",
"Tests hardly exercise failures, and none looks at which error it gets.",
["pkcs12/errors.go","pkcs12/pkcs12.go","x509/x509.go","x509/pkcs7.go","sm2/sm2.go"],[("ErrIncorrectPassword, ErrDecryption, NotImplementedError","pkcs12/errors.go"),("getSafeContents, verifyMac","pkcs12/pkcs12.go"),("checkSignature, CheckSignatureFrom","x509/x509.go"),("verifySignature, ParsePKCS7","x509/pkcs7.go"),("random sources","sm2/sm2.go")],
["errors and results of failing calls"])

prop("C29","Secrets appear in no public result and no error text",
"No certificate, request, list, signature, signed message, public key, ciphertext or PKCS #12 file contains (as it is, reversed, or in hexadecimal, base 64, decimal or UTF-16) part of a private key, nonce, password or encrypted message, or of the randomness consumed for a key or nonce; and no error text of any operation, whatever input or fault made it fail, contains part of the private key, password, plaintext or shared secret it worked with.",
["inputs","fault_sequences"],"every operation, secret and failure",
"Nothing in the tests looks for secrets in results or errors.",
["sm2/sm2.go","x509/x509.go","x509/pkcs8.go","x509/sec1.go","x509/pkcs7.go","pkcs12/pkcs12.go","pkcs12/safebags.go"],[("Encryt, Decryt, Sign","sm2/sm2.go"),("decodePkcs8ShroudedKeyBag","pkcs12/safebags.go"),("ParsePKCS8PrivateKey","x509/pkcs8.go"),("signing entry points","x509/x509.go")],
["results and error texts"])

prop("C30","Results depend only on the arguments, not on earlier calls",
"What a call returns is determined by its arguments and the random bytes it reads, and not by any call before it: after every history of calls, on the same or other values, including failed ones, with key objects, certificates, templates and buffers that have taken on other values since an earlier use, and with earlier results overwritten by their owner, each call gives the result it gives as the only call of a new process. Results of different calls share no memory, so that changing one changes no other.",
["histories","inputs"],"every sequence of calls, every reuse of objects and buffers between them, and every change to earlier results",
"Each test makes one or two calls in a fresh state; none changes an object between uses, calls again after a failure, or looks at a result after a later call.",
["sm2/sm2.go","sm3/sm3.go","x509/x509.go","x509/pkcs7.go","x509/pkcs8.go","x509/sec1.go","pkcs12/pkcs12.go"],[("Z and verification of the key as it is now","sm2/sm2.go"),("curve parameters","sm2/sm2.go"),("parsers build their results from their input","x509/x509.go, x509/pkcs7.go, pkcs12/pkcs12.go")],
["results of every exported function, compared with a fresh process and with the reference"])

prop("C31","Different entry points to the same operation agree on every input",
"Where the library offers several ways to the same operation, they agree on every input, valid, altered or malformed: the functions that verify an SM2 signature, given the parts or the encoding, the message or its digest, give one verdict; those that sign give one signature when given the same random bytes; one-shot and incremental digests are equal; a certificate, list, key, request or PKCS #12 file that one parser of its format accepts the others accept too, with the same value, alone, in PEM, in a concatenation or inside another structure that embeds it; and methods that check a signature (of a certificate under its parent, of a request, of a list, of a message) agree with the checking of the same bytes, algorithm and signature under the same key.",
["inputs"],"every input and every pair of entry points to one operation",
"Tests call one entry point each, mostly on valid input.",
["sm2/sm2.go","sm3/sm3.go","x509/x509.go","x509/pkcs7.go","x509/pkcs8.go","x509/sec1.go","x509/pkcs1.go","pkcs12/pkcs12.go"],[("Verify, VerifyDigest and the signing functions","sm2/sm2.go"),("ParseCertificate, ParseCertificates, ParseCRL, ParseDERCRL, CheckSignature and its callers","x509/x509.go"),("NewSignedData, NewSignedDataCallBack, Verify","x509/pkcs7.go"),("DecodeAll, Decode, ToPEM, SM2P12Decrypt","pkcs12/pkcs12.go")],
["verdicts and values of paired entry points"])

prop("C32","Keys, certificates, lists and messages keep their meaning through a PKI's life",
"Along every history of a public key infrastructure built with the library (roots, intermediate authorities, requests, certificates, renewals under the same name, revocations, lists, keys moved through PKCS #8 and PKCS #12, signed messages and encryption to certificates) each step works on what earlier steps gave, and what comes out keeps its meaning: a certificate verifies under the authority that issued it and under no other key, even one of the same name or key identifier; it has the names and key its request had; a list verifies under its issuer only and names exactly what that issuer had revoked, and when; a message is its signer's only; a ciphertext is read by the holder of the certificate's key, before and after the key moved, and by nobody else.",
["histories","inputs"],"every history of issuing, renewing, revoking, moving, signing and encrypting",
"Tests make single objects in isolation from fixed keys; none carries what one function made through the others.",
["x509/x509.go","x509/pkcs7.go","x509/pkcs8.go","pkcs12/pkcs12.go","sm2/sm2.go"],[("CreateCertificate, CreateCertificateRequest, CreateCRL, CreateRevocationList, CheckSignatureFrom","x509/x509.go"),("NewSignedData, Verify, GetOnlySigner","x509/pkcs7.go"),("Encode, DecodeAll, SM2P12Encrypt, SM2P12Decrypt","pkcs12/pkcs12.go"),("GenerateKey, Encryt, Decryt","sm2/sm2.go")],
["certificates, lists, messages, files and plaintexts of a history, against the model"])

with open("/verif/properties.jsonl","w") as f:
    for p in P: f.write(json.dumps(p,ensure_ascii=False)+"\n")
import jsonschema
s=json.load(open("/root/.vp/PROPERTIES.schema.json"))
for p in P: jsonschema.validate(p,s); assert len(p["title"])<=80,p["title"]; 
print(len(P))
