# ---- signatures (C24) ----
spec isPKCS1(a) = a == RSA_PKCS1_SHA1 || a == RSA_PKCS1_SHA256 || a == RSA_PKCS1_SHA384 || a == RSA_PKCS1_SHA512
spec isPSS(a) = a == RSA_PSS_SHA256 || a == RSA_PSS_SHA384 || a == RSA_PSS_SHA512
spec isECDSA(a) = a == ECDSA_P256_SHA256 || a == ECDSA_P384_SHA384 || a == ECDSA_P521_SHA512
spec fits(a, key) = is(key, *rsa.PrivateKey) && (isPKCS1(a) || isPSS(a)) || is(key, *ecdsa.PrivateKey) && isECDSA(a) && as(key, *ecdsa.PrivateKey).Curve.id == schemeCurve(a)
func schemeValidForKey(alg, key) (ok)
cut
ensures [C14,C24] fits: ok ==> fits(alg, key)
ensures [C14,C24] all: fits(alg, key) && alg != RSA_PKCS1_SHA1 ==> ok
spec schemeHash(a) = ite(a == RSA_PKCS1_SHA1, 3, ite(a == RSA_PKCS1_SHA256 || a == RSA_PSS_SHA256 || a == ECDSA_P256_SHA256, 5, ite(a == RSA_PKCS1_SHA384 || a == RSA_PSS_SHA384 || a == ECDSA_P384_SHA384, 6, 7)))
spec schemeCurve(a) = ite(a == ECDSA_P256_SHA256, 256, ite(a == ECDSA_P384_SHA384, 384, 521))
uf rsaPSSok(int, int, bytes, bytes, int, int) bool
uf rsaPKCS1ok(int, int, bytes, bytes) bool
uf ecdsaOk(int, bytes, int, int) bool
uf asn1ok(bytes) bool
uf asn1rest(bytes) bytes
uf asn1int(bytes, int) int
uf signedBy(int, bytes, int, bytes) bool
uf optsHash(int) int
uf optsPSS(int, int) int
spec digest(a, m) = hash(schemeHash(a), content(m))

func verify(alg, publicKey, sigInput, sig) (err)
let H = schemeHash(alg)
let usePSS = isPSS(alg) || isPKCS1(alg) && !allowPKCS1
ensures [C24] sha1-refused: alg == RSA_PKCS1_SHA1 ==> err != nil
ensures [C24] unknown-scheme-refused: !isPSS(alg) && !isPKCS1(alg) && !isECDSA(alg) ==> err != nil
ensures [C24] unknown-key-refused: !is(publicKey, *rsa.PublicKey) && !is(publicKey, *ecdsa.PublicKey) ==> err != nil
ensures [C24] rsa-unfit-refused: is(publicKey, *rsa.PublicKey) && !isPSS(alg) && !isPKCS1(alg) ==> err != nil
ensures [C24] rsa-pss: is(publicKey, *rsa.PublicKey) && err == nil && usePSS ==> rsaPSSok(ref(as(publicKey, *rsa.PublicKey)), H, digest(alg, sigInput), content(sig), hashSize(H), H)
ensures [C24] rsa-pkcs1: is(publicKey, *rsa.PublicKey) && err == nil && !usePSS ==> allowPKCS1 && rsaPKCS1ok(ref(as(publicKey, *rsa.PublicKey)), H, digest(alg, sigInput), content(sig))
ensures [C24] rsa-accepts: is(publicKey, *rsa.PublicKey) && isPSS(alg) && rsaPSSok(ref(as(publicKey, *rsa.PublicKey)), H, digest(alg, sigInput), content(sig), hashSize(H), H) ==> err == nil
ensures [C24] ec-unfit-refused: is(publicKey, *ecdsa.PublicKey) && !isECDSA(alg) ==> err != nil
ensures [C24] ec-curve: is(publicKey, *ecdsa.PublicKey) && err == nil ==> as(publicKey, *ecdsa.PublicKey).Curve.id == schemeCurve(alg)
ensures [C24] ec-no-trailing: is(publicKey, *ecdsa.PublicKey) && err == nil ==> asn1ok(content(sig)) && len(asn1rest(content(sig))) == 0
ensures [C24] ec-primitive: is(publicKey, *ecdsa.PublicKey) && err == nil ==> ecdsaOk(ref(as(publicKey, *ecdsa.PublicKey)), digest(alg, sigInput), asn1int(content(sig), 0), asn1int(content(sig), 1))
ensures [C24] ec-accepts: is(publicKey, *ecdsa.PublicKey) && isECDSA(alg) && as(publicKey, *ecdsa.PublicKey).Curve.id == schemeCurve(alg) && asn1ok(content(sig)) && len(asn1rest(content(sig))) == 0 && asn1int(content(sig), 0) > 0 && asn1int(content(sig), 1) > 0 && ecdsaOk(ref(as(publicKey, *ecdsa.PublicKey)), digest(alg, sigInput), asn1int(content(sig), 0), asn1int(content(sig), 1)) ==> err == nil

func sign(alg, privateKey, sigInput) (sig, err)
let H = schemeHash(alg)
ensures [C24] sha1-refused: alg == RSA_PKCS1_SHA1 ==> err != nil
ensures [C24] unfit-refused: !fits(alg, privateKey) ==> err != nil
ensures [C24] curve: is(privateKey, *ecdsa.PrivateKey) && err == nil ==> as(privateKey, *ecdsa.PrivateKey).Curve.id == schemeCurve(alg)
ensures [C24] rsa-pss: is(privateKey, *rsa.PrivateKey) && err == nil && (isPSS(alg) || !allowPKCS1) ==> signedBy(ref(privateKey), digest(alg, sigInput), optsPSS(hashSize(H), H), content(sig))
ensures [C24] rsa-pkcs1: is(privateKey, *rsa.PrivateKey) && err == nil && isPKCS1(alg) && allowPKCS1 ==> signedBy(ref(privateKey), digest(alg, sigInput), optsHash(H), content(sig))
ensures [C24] ecdsa: is(privateKey, *ecdsa.PrivateKey) && err == nil ==> signedBy(ref(privateKey), digest(alg, sigInput), ref(nil), content(sig))
ensures [C24] nothing-on-failure: err != nil ==> len(sig) == 0

func (*CertificateVerifyBody).EncodeSignatureInput(cv, data) (out)
ensures [C24] content: out == cat(rep(32, 64), "TLS 1.3, server CertificateVerify", bytes(0), content(data))

spec cvContent(h) = cat(rep(32, 64), "TLS 1.3, server CertificateVerify", bytes(0), content(h))
func (*CertificateVerifyBody).Verify(cv, publicKey, handshakeHash) (err)
spec cvPSS(cv) = isPSS(cv.Algorithm) || isPKCS1(cv.Algorithm) && !allowPKCS1
ensures [C24] sha1-refused: cv.Algorithm == RSA_PKCS1_SHA1 ==> err != nil
ensures [C24] unknown-key-refused: !is(publicKey, *rsa.PublicKey) && !is(publicKey, *ecdsa.PublicKey) ==> err != nil
ensures [C24] rsa-pss: is(publicKey, *rsa.PublicKey) && err == nil && cvPSS(cv) ==> rsaPSSok(ref(as(publicKey, *rsa.PublicKey)), schemeHash(cv.Algorithm), hash(schemeHash(cv.Algorithm), cvContent(handshakeHash)), content(cv.Signature), hashSize(schemeHash(cv.Algorithm)), schemeHash(cv.Algorithm))
ensures [C24] rsa-pkcs1: is(publicKey, *rsa.PublicKey) && err == nil && !cvPSS(cv) ==> allowPKCS1 && rsaPKCS1ok(ref(as(publicKey, *rsa.PublicKey)), schemeHash(cv.Algorithm), hash(schemeHash(cv.Algorithm), cvContent(handshakeHash)), content(cv.Signature))
ensures [C24] ec-curve: is(publicKey, *ecdsa.PublicKey) && err == nil ==> isECDSA(cv.Algorithm) && as(publicKey, *ecdsa.PublicKey).Curve.id == schemeCurve(cv.Algorithm)

ensures [C24] ec-primitive: is(publicKey, *ecdsa.PublicKey) && err == nil ==> ecdsaOk(ref(as(publicKey, *ecdsa.PublicKey)), hash(schemeHash(cv.Algorithm), cvContent(handshakeHash)), asn1int(content(cv.Signature), 0), asn1int(content(cv.Signature), 1)) && len(asn1rest(content(cv.Signature))) == 0

# cvValid: the signature sig with scheme alg over the transcript hash h is valid under public key pk, and the scheme fits the key
spec cvRSA(pk, alg, sig, h) = is(pk, *rsa.PublicKey) && ite(isPSS(alg) || isPKCS1(alg) && !allowPKCS1, rsaPSSok(ref(as(pk, *rsa.PublicKey)), schemeHash(alg), hash(schemeHash(alg), cvContent(h)), content(sig), hashSize(schemeHash(alg)), schemeHash(alg)), isPKCS1(alg) && allowPKCS1 && rsaPKCS1ok(ref(as(pk, *rsa.PublicKey)), schemeHash(alg), hash(schemeHash(alg), cvContent(h)), content(sig)))
spec cvEC(pk, alg, sig, h) = is(pk, *ecdsa.PublicKey) && isECDSA(alg) && as(pk, *ecdsa.PublicKey).Curve.id == schemeCurve(alg) && asn1ok(content(sig)) && len(asn1rest(content(sig))) == 0 && ecdsaOk(ref(as(pk, *ecdsa.PublicKey)), hash(schemeHash(alg), cvContent(h)), asn1int(content(sig), 0), asn1int(content(sig), 1))
spec cvValid(pk, alg, sig, h) = alg != RSA_PKCS1_SHA1 && (cvRSA(pk, alg, sig, h) || cvEC(pk, alg, sig, h))
func (*CertificateVerifyBody).Verify@states(cv, publicKey, handshakeHash) (err)
cut
ensures [C10,C11,C24] valid: err == nil ==> cvValid(publicKey, cv.Algorithm, cv.Signature, handshakeHash)

func (*CertificateVerifyBody).Sign(cv, privateKey, handshakeHash) (err)
spec cvDigest(cv, h) = hash(schemeHash(cv.Algorithm), cvContent(h))
ensures [C24] sha1-refused: cv.Algorithm == RSA_PKCS1_SHA1 ==> err != nil
ensures [C24] unfit-refused: !fits(cv.Algorithm, privateKey) ==> err != nil
ensures [C24] keeps-scheme: cv.Algorithm == old(cv.Algorithm)
ensures [C24] curve: is(privateKey, *ecdsa.PrivateKey) && err == nil ==> as(privateKey, *ecdsa.PrivateKey).Curve.id == schemeCurve(cv.Algorithm)
ensures [C24] rsa-pss: is(privateKey, *rsa.PrivateKey) && err == nil && cvPSS(cv) ==> signedBy(ref(privateKey), cvDigest(cv, handshakeHash), optsPSS(hashSize(schemeHash(cv.Algorithm)), schemeHash(cv.Algorithm)), content(cv.Signature))
ensures [C24] rsa-pkcs1: is(privateKey, *rsa.PrivateKey) && err == nil && !cvPSS(cv) ==> signedBy(ref(privateKey), cvDigest(cv, handshakeHash), optsHash(schemeHash(cv.Algorithm)), content(cv.Signature))
ensures [C24] ecdsa: is(privateKey, *ecdsa.PrivateKey) && err == nil ==> signedBy(ref(privateKey), cvDigest(cv, handshakeHash), ref(nil), content(cv.Signature))
