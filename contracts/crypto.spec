# ---- key derivation (C08) ----
uf hash(int, bytes) bytes
uf hmac(int, bytes, bytes) bytes
uf hashSize(int) int 16 64
# RFC 5869: T(0) = "", T(n) = HMAC(PRK, T(n-1) | info | n); output T(1) | T(2) | ...
rec hkT(h int, prk bytes, info bytes, n int) bytes = "" ; hmac(h, prk, cat(hkT(h, prk, info, n-1), info, be(n, 1)))
rec hkOut(h int, prk bytes, info bytes, n int) bytes = "" ; cat(hkOut(h, prk, info, n-1), hkT(h, prk, info, n))
pure hkdfExpand(h int, prk bytes, info bytes, L int) bytes len L = hkOut(h, prk, info, blocks(h, L))[:L]
spec blocks(h, L) = ite(h == 3, (L+19)/20, ite(h == 5, (L+31)/32, ite(h == 6, (L+47)/48, (L+63)/64)))
spec hkLabel(label, ctx, L) = cat(be(L, 2), be(6+len(label), 1), "tls13 ", label, be(len(ctx), 1), ctx)
spec expandLabel(h, secret, label, ctx, L) = hkdfExpand(h, secret, hkLabel(label, ctx, L), L)
spec derive(h, secret, label, msgHash) = expandLabel(h, secret, label, msgHash, hashSize(h))
spec extract(h, salt, ikm) = hmac(h, ite(isnil(salt), rep(0, hashSize(h)), content(salt)), content(ikm))
spec finishedMac(h, base, input) = hmac(h, expandLabel(h, base, "finished", "", hashSize(h)), input)

func HkdfExtract(hash, saltIn, input) (out)
ensures [C08] extract: out == extract(hash, saltIn, input)

func HkdfExpand(hash, prk, info, outLen) (out)
cut
opt unfold=hkdfExpand
pre 0 <= outLen && outLen <= 255*hashSize(hash)
inv len(out) == it*hashSize(hash)
inv it == 0 || len(out) - hashSize(hash) < outLen
inv out == hkOut(hash, prk, info, it)
inv T == hkT(hash, prk, info, it)
inv i == (it + 1) % 256
ensures [C08] expand: out == hkdfExpand(hash, content(prk), content(info), outLen)
case sha1
set hash := 3
case sha256
set hash := 5
case sha384
set hash := 6
case sha512
set hash := 7

func hkdfEncodeLabel(labelIn, hashValue, outLen) (out)
pre 0 <= outLen && outLen < 65536 && len(labelIn) <= 249 && len(hashValue) <= 255
ensures [C08] label: out == hkLabel(labelIn, content(hashValue), outLen)

func HkdfExpandLabel(hash, secret, label, hashValue, outLen) (out)
pre 0 <= outLen && outLen <= 255*hashSize(hash) && len(label) <= 249 && len(hashValue) <= 255
ensures [C08] expand-label: out == expandLabel(hash, content(secret), label, content(hashValue), outLen)

func deriveSecret(params, secret, label, messageHash) (out)
pre len(label) <= 249 && len(messageHash) <= 255
ensures [C08] derive: out == derive(params.Hash, content(secret), label, content(messageHash))

func computeFinishedData(params, baseKey, input) (out)
ensures [C08] finished: out == finishedMac(params.Hash, content(baseKey), content(input))

func makeTrafficKeys(params, secret) (ks)
ensures [C08] key: content(ks.Keys["key"]) == expandLabel(params.Hash, content(secret), "key", "", params.KeyLengths["key"])
ensures [C08] iv: content(ks.Keys["iv"]) == expandLabel(params.Hash, content(secret), "iv", "", params.KeyLengths["iv"])
ensures [C08] cipher: ks.Cipher == params.Cipher
case aes128
set params := cipherSuiteMap[TLS_AES_128_GCM_SHA256]
case aes256
set params := cipherSuiteMap[TLS_AES_256_GCM_SHA384]
