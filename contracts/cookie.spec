# C15: the default cookie protector. A token is nonce || AES-256-GCM(HKDF-SHA256(secret, nonce), data).
uf hkdfOut(int, bytes, bytes, bytes, int, int) bytes
uf gcm(bytes, int) int
spec ckInfo() = "mint cookie source"
spec ckAEAD(secret, nonce) = gcm(hkdfOut(5, secret, nonce, ckInfo(), 0, 32), 12)
spec ckNonce(secret, nonce) = hkdfOut(5, secret, nonce, ckInfo(), 32, 12)
spec tokOk(secret, p) = len(p) >= 32 && aeadOk(ckAEAD(secret, p[:32]), ckNonce(secret, p[:32]), bytes(), p[32:])
spec tokData(secret, p) = aeadOpen(ckAEAD(secret, p[:32]), ckNonce(secret, p[:32]), bytes(), p[32:])

func (*DefaultCookieProtector).NewToken(s, data) (tok, err)
ensures [C15] opens: err == nil ==> tokOk(content(s.secret), content(tok))
ensures [C15] same-data: err == nil ==> tokData(content(s.secret), content(tok)) == old(content(data))
ensures [C15] sealed: err == nil ==> content(tok)[:32] == event("rand", 0, 0) && len(tok) == 48 + len(data)
ensures [C15] untouched: content(s.secret) == old(content(s.secret)) && content(data) == old(content(data))
ensures [C15] refused: err != nil ==> isnil(tok)

func (*DefaultCookieProtector).DecodeToken(s, p) (data, err)
ensures [C15] authentic: iff(err == nil, old(tokOk(content(s.secret), content(p))))
ensures [C15] data: err == nil ==> content(data) == old(tokData(content(s.secret), content(p)))
ensures [C15] untouched: content(s.secret) == old(content(s.secret)) && content(p) == old(content(p))
ensures [C15] refused: err != nil ==> isnil(data)

func NewDefaultCookieProtector() (cp, err)
ensures [C15] fresh-secret: err == nil ==> is(cp, *DefaultCookieProtector) && len(as(cp, *DefaultCookieProtector).secret) == 32 && content(as(cp, *DefaultCookieProtector).secret) == event("rand", 0, 0)
ensures [C15] refused: err != nil ==> cp == nil
