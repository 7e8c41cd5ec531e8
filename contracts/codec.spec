# Handshake messages and extensions on the wire (C06). Package syntax is taken to encode a structure as its tags in the
# source declare it (opt wire); lists of structures are encs:T of the list.
spec v8(b) = cat(be(len(b), 1), content(b))
spec v16(b) = cat(be(len(b), 2), content(b))
spec within(e, lo, hi) = lo <= len(e) && len(e) <= hi
spec exts(l) = encsOk(Extension, l) && within(encs(Extension, l), 0, 65535)
spec l8(e) = cat(be(len(e), 1), e)
spec l16(e) = cat(be(len(e), 2), e)
spec l24(e) = cat(be(len(e), 3), e)

spec shWire(b) = cat(be(b.Version, 2), content(b.Random), v8(b.LegacySessionID), be(b.CipherSuite, 2), be(b.LegacyCompressionMethod, 1), l16(encs(Extension, b.Extensions)))
func (ServerHelloBody).Marshal(b) (out, err)
opt wire=1
ensures [C06] accepted: iff(err == nil, within(b.LegacySessionID, 0, 32) && exts(b.Extensions))
ensures [C06] format: err == nil ==> content(out) == shWire(b)
func (*ServerHelloBody).Unmarshal(b, data) (n, err)
opt wire=1
ensures [C06] inverse: err == nil ==> 0 <= n && n <= len(data) && shWire(b) == content(data)[:n]

spec eeWire(b) = l16(encs(Extension, b.Extensions))
func (EncryptedExtensionsBody).Marshal(b) (out, err)
opt wire=1
ensures [C06] accepted: iff(err == nil, exts(b.Extensions))
ensures [C06] format: err == nil ==> content(out) == eeWire(b)
func (*EncryptedExtensionsBody).Unmarshal(b, data) (n, err)
opt wire=1
ensures [C06] inverse: err == nil ==> 0 <= n && n <= len(data) && eeWire(b) == content(data)[:n]

spec cvWire(b) = cat(be(b.Algorithm, 2), v16(b.Signature))
func (CertificateVerifyBody).Marshal(b) (out, err)
opt wire=1
ensures [C06] accepted: iff(err == nil, within(b.Signature, 0, 65535))
ensures [C06] format: err == nil ==> content(out) == cvWire(b)
func (*CertificateVerifyBody).Unmarshal(b, data) (n, err)
opt wire=1
ensures [C06] inverse: err == nil ==> 0 <= n && n <= len(data) && cvWire(b) == content(data)[:n]

spec crWire(b) = cat(v8(b.CertificateRequestContext), l16(encs(Extension, b.Extensions)))
func (CertificateRequestBody).Marshal(b) (out, err)
opt wire=1
ensures [C06] accepted: iff(err == nil, within(b.CertificateRequestContext, 0, 255) && exts(b.Extensions))
ensures [C06] format: err == nil ==> content(out) == crWire(b)
func (*CertificateRequestBody).Unmarshal(b, data) (n, err)
opt wire=1
ensures [C06] inverse: err == nil ==> 0 <= n && n <= len(data) && crWire(b) == content(data)[:n]

spec nstWire(b) = cat(be(b.TicketLifetime, 4), be(b.TicketAgeAdd, 4), v8(b.TicketNonce), v16(b.Ticket), l16(encs(Extension, b.Extensions)))
func (NewSessionTicketBody).Marshal(b) (out, err)
opt wire=1
ensures [C06] accepted: iff(err == nil, within(b.TicketNonce, 0, 255) && within(b.Ticket, 1, 65535) && exts(b.Extensions))
ensures [C06] format: err == nil ==> content(out) == nstWire(b)
func (*NewSessionTicketBody).Unmarshal(b, data) (n, err)
opt wire=1
ensures [C06] inverse: err == nil ==> 0 <= n && n <= len(data) && nstWire(b) == content(data)[:n]

func (KeyUpdateBody).Marshal(b) (out, err)
opt wire=1
ensures [C06] accepted: iff(err == nil, true)
ensures [C06] format: err == nil ==> content(out) == be(b.KeyUpdateRequest, 1)
func (*KeyUpdateBody).Unmarshal(b, data) (n, err)
opt wire=1
ensures [C06] inverse: err == nil ==> n == 1 && len(data) >= 1 && be(b.KeyUpdateRequest, 1) == content(data)[:1]

func (EndOfEarlyDataBody).Marshal(b) (out, err)
ensures [C06] format: err == nil && len(out) == 0
func (*EndOfEarlyDataBody).Unmarshal(b, data) (n, err)
ensures [C06] empty: err == nil && n == 0

func (FinishedBody).Marshal(b) (out, err)
ensures [C06] accepted: iff(err == nil, len(b.VerifyData) == b.VerifyDataLen)
ensures [C06] format: err == nil ==> content(out) == content(b.VerifyData)
func (*FinishedBody).Unmarshal(b, data) (n, err)
pre 0 <= b.VerifyDataLen
ensures [C06] accepted: iff(err == nil, len(data) >= b.VerifyDataLen)
ensures [C06] inverse: err == nil ==> n == b.VerifyDataLen && content(b.VerifyData) == content(data)[:n] && b.VerifyDataLen == old(b.VerifyDataLen)

spec chTail(b) = cat(l16(encs(CipherSuite, b.CipherSuites)), bytes(1, 0), l16(encs(Extension, b.Extensions)))
spec chWire(b) = cat(be(b.LegacyVersion, 2), content(b.Random), v8(b.LegacySessionID), ite(b.LegacyVersion == tls12Version, "", bytes(0)), chTail(b))
func (ClientHelloBody).Marshal(b) (out, err)
opt wire=1
ensures [C06] accepted: iff(err == nil, within(b.LegacySessionID, 0, 32) && within(encs(CipherSuite, b.CipherSuites), 2, 65535) && exts(b.Extensions))
ensures [C06] format: err == nil ==> content(out) == chWire(b)
func (*ClientHelloBody).Unmarshal(b, data) (n, err)
opt wire=1
let dtls = b.LegacyVersion == dtls12WireVersion
ensures [C06] inverse-tls: err == nil && !dtls ==> 0 <= n && n <= len(data) && cat(be(b.LegacyVersion, 2), content(b.Random), v8(b.LegacySessionID), chTail(b)) == content(data)[:n]
ensures [C06] inverse-dtls: err == nil && dtls ==> 0 <= n && n <= len(data) && cat(be(b.LegacyVersion, 2), content(b.Random), v8(b.LegacySessionID), bytes(0), chTail(b)) == content(data)[:n]

# ---- extensions ----
spec simple(d, n, w) = 0 <= n && n <= len(d) && w == content(d)[:n]
func (Extension).Marshal(e) (out, err)
opt wire=1
ensures [C06] accepted: iff(err == nil, within(e.ExtensionData, 0, 65535))
ensures [C06] format: err == nil ==> content(out) == cat(be(e.ExtensionType, 2), v16(e.ExtensionData))
func (*Extension).Unmarshal(e, data) (n, err)
opt wire=1
ensures [C06] inverse: err == nil ==> simple(data, n, cat(be(e.ExtensionType, 2), v16(e.ExtensionData)))

func (ExtensionList).Marshal(l) (out, err)
opt wire=1
# an element of the list, whatever it is: its encoding by the tags in the source is the one of RFC 8446
ensures [C06] element: wireof(Extension) == cat(be(anyof(Extension).ExtensionType, 2), v16(anyof(Extension).ExtensionData))
ensures [C06] element-bounds: iff(wireok(Extension), len(anyof(Extension).ExtensionData) <= 65535)
ensures [C06] accepted: iff(err == nil, exts(l))
ensures [C06] format: err == nil ==> content(out) == l16(encs(Extension, l))
func (*ExtensionList).Unmarshal(l, data) (n, err)
opt wire=1
ensures [C06] inverse: err == nil ==> simple(data, n, l16(encs(Extension, *l)))

func (ServerNameExtension).Marshal(s) (out, err)
opt wire=1
ensures [C06] accepted: iff(err == nil, 1 <= len(s) && len(s) <= 65532)
ensures [C06] format: err == nil ==> content(out) == l16(cat(bytes(0), be(len(s), 2), content(s)))
func (*ServerNameExtension).Unmarshal(s, data) (n, err)
opt wire=1
ensures [C06] first: err == nil ==> content(*s) == content(dec(serverNameListInner, content(data)).ServerNameList[0].HostName) && dec(serverNameListInner, content(data)).ServerNameList[0].NameType == 0
ensures [C06] length: err == nil ==> n == decLen(serverNameListInner, content(data))

func (SupportedGroupsExtension).Marshal(e) (out, err)
opt wire=1
ensures [C06] accepted: iff(err == nil, within(encs(NamedGroup, e.Groups), 2, 65535))
ensures [C06] format: err == nil ==> content(out) == l16(encs(NamedGroup, e.Groups))
func (*SupportedGroupsExtension).Unmarshal(e, data) (n, err)
opt wire=1
ensures [C06] inverse: err == nil ==> simple(data, n, l16(encs(NamedGroup, e.Groups)))

func (SignatureAlgorithmsExtension).Marshal(e) (out, err)
opt wire=1
ensures [C06] accepted: iff(err == nil, within(encs(SignatureScheme, e.Algorithms), 2, 65535))
ensures [C06] format: err == nil ==> content(out) == l16(encs(SignatureScheme, e.Algorithms))
func (*SignatureAlgorithmsExtension).Unmarshal(e, data) (n, err)
opt wire=1
ensures [C06] inverse: err == nil ==> simple(data, n, l16(encs(SignatureScheme, e.Algorithms)))

func (PSKKeyExchangeModesExtension).Marshal(e) (out, err)
opt wire=1
ensures [C06] accepted: iff(err == nil, within(e.KEModes, 1, 255))
ensures [C06] format: err == nil ==> content(out) == l8(content(e.KEModes))
func (*PSKKeyExchangeModesExtension).Unmarshal(e, data) (n, err)
opt wire=1
ensures [C06] inverse: err == nil ==> simple(data, n, l8(content(e.KEModes)))

func (EarlyDataExtension).Marshal(e) (out, err)
ensures [C06] format: err == nil && len(out) == 0
func (*EarlyDataExtension).Unmarshal(e, data) (n, err)
ensures [C06] empty: err == nil && n == 0

func (TicketEarlyDataInfoExtension).Marshal(e) (out, err)
opt wire=1
ensures [C06] accepted: iff(err == nil, true)
ensures [C06] format: err == nil ==> content(out) == be(e.MaxEarlyDataSize, 4)
func (*TicketEarlyDataInfoExtension).Unmarshal(e, data) (n, err)
opt wire=1
ensures [C06] inverse: err == nil ==> simple(data, n, be(e.MaxEarlyDataSize, 4))

func (CookieExtension).Marshal(e) (out, err)
opt wire=1
ensures [C06] accepted: iff(err == nil, within(e.Cookie, 1, 65535))
ensures [C06] format: err == nil ==> content(out) == v16(e.Cookie)
func (*CookieExtension).Unmarshal(e, data) (n, err)
opt wire=1
ensures [C06] inverse: err == nil ==> simple(data, n, v16(e.Cookie))

func (KeyShareExtension).Marshal(k) (out, err)
opt wire=1
ensures [C06] element: wireof(KeyShareEntry) == cat(be(anyof(KeyShareEntry).Group, 2), v16(anyof(KeyShareEntry).KeyExchange))
ensures [C06] element-bounds: iff(wireok(KeyShareEntry), 1 <= len(anyof(KeyShareEntry).KeyExchange) && len(anyof(KeyShareEntry).KeyExchange) <= 65535)
spec sized(s) = len(s.KeyExchange) == keySize(s.Group)
ensures [C06] type: err == nil ==> k.HandshakeType == HandshakeTypeClientHello || k.HandshakeType == HandshakeTypeHelloRetryRequest || k.HandshakeType == HandshakeTypeServerHello
ensures [C06] client: err == nil && k.HandshakeType == HandshakeTypeClientHello ==> content(out) == l16(encs(KeyShareEntry, k.Shares))
ensures [C06] retry: err == nil && k.HandshakeType == HandshakeTypeHelloRetryRequest ==> len(k.Shares) == 0 && content(out) == be(k.SelectedGroup, 2)
ensures [C06] server: err == nil && k.HandshakeType == HandshakeTypeServerHello ==> len(k.Shares) == 1 && content(out) == cat(be(k.Shares[0].Group, 2), v16(k.Shares[0].KeyExchange))
func (*KeyShareExtension).Unmarshal(k, data) (n, err)
opt wire=1
ensures [C06] type: err == nil ==> k.HandshakeType == HandshakeTypeClientHello || k.HandshakeType == HandshakeTypeHelloRetryRequest || k.HandshakeType == HandshakeTypeServerHello
ensures [C06] client: err == nil && k.HandshakeType == HandshakeTypeClientHello ==> simple(data, n, l16(encs(KeyShareEntry, k.Shares)))
ensures [C06] retry: err == nil && k.HandshakeType == HandshakeTypeHelloRetryRequest ==> simple(data, n, be(k.SelectedGroup, 2))
ensures [C06] server: err == nil && k.HandshakeType == HandshakeTypeServerHello ==> len(k.Shares) == 1 && simple(data, n, cat(be(k.Shares[0].Group, 2), v16(k.Shares[0].KeyExchange)))

func (PreSharedKeyExtension).Marshal(p) (out, err)
opt wire=1
ensures [C06] identity: wireof(PSKIdentity) == cat(v16(anyof(PSKIdentity).Identity), be(anyof(PSKIdentity).ObfuscatedTicketAge, 4))
ensures [C06] identity-bounds: iff(wireok(PSKIdentity), within(anyof(PSKIdentity).Identity, 1, 65535))
ensures [C06] binder: wireof(PSKBinderEntry) == v8(anyof(PSKBinderEntry).Binder)
ensures [C06] binder-bounds: iff(wireok(PSKBinderEntry), within(anyof(PSKBinderEntry).Binder, 32, 255))
ensures [C06] type: err == nil ==> p.HandshakeType == HandshakeTypeClientHello || p.HandshakeType == HandshakeTypeServerHello
ensures [C06] client: err == nil && p.HandshakeType == HandshakeTypeClientHello ==> content(out) == cat(l16(encs(PSKIdentity, p.Identities)), l16(encs(PSKBinderEntry, p.Binders)))
ensures [C06] server: err == nil && p.HandshakeType == HandshakeTypeServerHello ==> content(out) == be(p.SelectedIdentity, 2)
func (*PreSharedKeyExtension).Unmarshal(p, data) (n, err)
opt wire=1
ensures [C06] type: err == nil ==> p.HandshakeType == HandshakeTypeClientHello || p.HandshakeType == HandshakeTypeServerHello
ensures [C06] client: err == nil && p.HandshakeType == HandshakeTypeClientHello ==> len(p.Identities) == len(p.Binders) && simple(data, n, cat(l16(encs(PSKIdentity, p.Identities)), l16(encs(PSKBinderEntry, p.Binders))))
ensures [C06] server: err == nil && p.HandshakeType == HandshakeTypeServerHello ==> simple(data, n, be(p.SelectedIdentity, 2))

func (SupportedVersionsExtension).Marshal(s) (out, err)
opt wire=1
pre len(s.Versions) > 0
spec svServer(s) = s.HandshakeType == HandshakeTypeServerHello || s.HandshakeType == HandshakeTypeHelloRetryRequest
ensures [C06] type: err == nil ==> s.HandshakeType == HandshakeTypeClientHello || svServer(s)
ensures [C06] client: err == nil && s.HandshakeType == HandshakeTypeClientHello ==> content(out) == l8(encs(uint16, s.Versions))
ensures [C06] server: err == nil && svServer(s) ==> content(out) == be(s.Versions[0], 2)
func (*SupportedVersionsExtension).Unmarshal(s, data) (n, err)
opt wire=1
ensures [C06] type: err == nil ==> s.HandshakeType == HandshakeTypeClientHello || svServer(s)
ensures [C06] client: err == nil && s.HandshakeType == HandshakeTypeClientHello ==> simple(data, n, l8(encs(uint16, s.Versions)))
ensures [C06] server: err == nil && svServer(s) ==> len(s.Versions) == 1 && simple(data, n, be(s.Versions[0], 2))

func (ALPNExtension).Marshal(a) (out, err)
opt wire=1
ensures [C06] element: wireof(protocolNameInner) == v8(anyof(protocolNameInner).Name)
ensures [C06] element-bounds: iff(wireok(protocolNameInner), within(anyof(protocolNameInner).Name, 1, 255))
ensures [C06] list: wireof(alpnExtensionInner) == l16(encs(protocolNameInner, anyof(alpnExtensionInner).Protocols))
inv len(protocols) == len(a.Protocols)
inv forall(j, 0, it, content(protocols[j].Name) == content(a.Protocols[j]))
ensures [C06] carried: err == nil ==> len(dec(alpnExtensionInner, content(out)).Protocols) == len(a.Protocols) && forall(i, 0, len(a.Protocols), content(dec(alpnExtensionInner, content(out)).Protocols[i].Name) == content(a.Protocols[i]))
func (*ALPNExtension).Unmarshal(a, data) (n, err)
opt wire=1
inv forall(j, 0, it, content(a.Protocols[j]) == content(dec(alpnExtensionInner, content(data)).Protocols[j].Name))
ensures [C06] carried: err == nil ==> len(dec(alpnExtensionInner, content(data)).Protocols) == len(a.Protocols) && forall(i, 0, len(a.Protocols), content(dec(alpnExtensionInner, content(data)).Protocols[i].Name) == content(a.Protocols[i]))
ensures [C06] length: err == nil ==> n == decLen(alpnExtensionInner, content(data))

# ---- messages ----
func safeUnmarshal(pdu, data) (err)
opt opaque=marshalledPDU
ensures [C06] once: events("marshalledPDU.Unmarshal") == 1 && same(event("marshalledPDU.Unmarshal", 0, 0), pdu) && content(event("marshalledPDU.Unmarshal", 0, 1)) == content(data)
ensures [C06] whole: iff(err == nil, isnil(event("marshalledPDU.Unmarshal", 0, 3)) && event("marshalledPDU.Unmarshal", 0, 2) == len(data))

func (HandshakeMessage).ToBody(hm) (body, err)
opt wire=1
opt use=(*CertificateBody).Unmarshal@states
let t = hm.msgType
let b = content(hm.body)
ensures [C06] client-hello: err == nil && t == HandshakeTypeClientHello ==> is(body, *ClientHelloBody) && chWireTLS(as(body, *ClientHelloBody)) == b
ensures [C06] server-hello: err == nil && t == HandshakeTypeServerHello ==> is(body, *ServerHelloBody) && shWire(as(body, *ServerHelloBody)) == b
ensures [C06] encrypted-extensions: err == nil && t == HandshakeTypeEncryptedExtensions ==> is(body, *EncryptedExtensionsBody) && eeWire(as(body, *EncryptedExtensionsBody)) == b
ensures [C06] certificate: err == nil && t == HandshakeTypeCertificate ==> is(body, *CertificateBody) && certMsg(as(body, *CertificateBody), b) && decLen(certificateBodyInner, b) == len(b)
ensures [C06] certificate-request: err == nil && t == HandshakeTypeCertificateRequest ==> is(body, *CertificateRequestBody) && crWire(as(body, *CertificateRequestBody)) == b
ensures [C06] certificate-verify: err == nil && t == HandshakeTypeCertificateVerify ==> is(body, *CertificateVerifyBody) && cvWire(as(body, *CertificateVerifyBody)) == b
ensures [C06] finished: err == nil && t == HandshakeTypeFinished ==> is(body, *FinishedBody) && content(as(body, *FinishedBody).VerifyData) == b
ensures [C06] ticket: err == nil && t == HandshakeTypeNewSessionTicket ==> is(body, *NewSessionTicketBody) && nstWire(as(body, *NewSessionTicketBody)) == b
ensures [C06] key-update: err == nil && t == HandshakeTypeKeyUpdate ==> is(body, *KeyUpdateBody) && be(as(body, *KeyUpdateBody).KeyUpdateRequest, 1) == b
ensures [C06] end-of-early-data: err == nil && t == HandshakeTypeEndOfEarlyData ==> is(body, *EndOfEarlyDataBody) && len(b) == 0
spec knownType(t) = t == HandshakeTypeClientHello || t == HandshakeTypeServerHello || t == HandshakeTypeEncryptedExtensions || t == HandshakeTypeCertificate || t == HandshakeTypeCertificateRequest || t == HandshakeTypeCertificateVerify || t == HandshakeTypeFinished || t == HandshakeTypeNewSessionTicket || t == HandshakeTypeKeyUpdate || t == HandshakeTypeEndOfEarlyData
ensures [C06] known: err == nil ==> knownType(t)
spec chWireTLS(b) = cat(be(b.LegacyVersion, 2), content(b.Random), v8(b.LegacySessionID), chTail(b))

func (*HandshakeLayer).HandshakeMessageFromBody(h, body) (m, err)
let before = h.msgSeq
ensures [C06] encoded: events("HandshakeMessageBody.Marshal") == 1 && same(event("HandshakeMessageBody.Marshal", 0, 0), body)
ensures [C06] error: iff(err == nil, isnil(event("HandshakeMessageBody.Marshal", 0, 2)))
ensures [C06] message: err == nil ==> m != nil && content(m.body) == content(event("HandshakeMessageBody.Marshal", 0, 1)) && m.length == len(m.body) % 4294967296 && m.offset == 0 && iff(m.datagram, h.datagram) && m.seq == before
ensures [C06] type: err == nil ==> events("HandshakeMessageBody.Type") == 1 && m.msgType == event("HandshakeMessageBody.Type", 0, 1)
ensures [C06,C20] numbered: err == nil ==> h.msgSeq == (before + 1) % 4294967296
ensures [C06] not-numbered: err != nil ==> h.msgSeq == before

func (CertificateBody).Marshal(c) (out, err)
ensures [C06] element: wireof(certificateEntryInner) == cat(be(len(anyof(certificateEntryInner).CertData), 3), content(anyof(certificateEntryInner).CertData), l16(encs(Extension, anyof(certificateEntryInner).Extensions)))
ensures [C06] element-bounds: iff(wireok(certificateEntryInner), within(anyof(certificateEntryInner).CertData, 1, 16777215) && exts(anyof(certificateEntryInner).Extensions))
ensures [C06] message: wireof(certificateBodyInner) == cat(v8(anyof(certificateBodyInner).CertificateRequestContext), l24(encs(certificateEntryInner, anyof(certificateBodyInner).CertificateList)))
pre forall(i, 0, len(c.CertificateList), c.CertificateList[i].CertData != nil)
inv len(inner.CertificateList) == len(c.CertificateList)
inv forall(j, 0, it, content(inner.CertificateList[j].CertData) == content(c.CertificateList[j].CertData.Raw))
inv forall(j, 0, it, inner.CertificateList[j].Extensions == c.CertificateList[j].Extensions)
ensures [C06] carried: err == nil ==> len(dec(certificateBodyInner, content(out)).CertificateList) == len(c.CertificateList) && content(dec(certificateBodyInner, content(out)).CertificateRequestContext) == content(c.CertificateRequestContext)
ensures [C06] certificates: err == nil ==> forall(i, 0, len(c.CertificateList), content(dec(certificateBodyInner, content(out)).CertificateList[i].CertData) == content(c.CertificateList[i].CertData.Raw))

# the ClientHello up to its binder list: the whole message without its last bytes, as many as the binders encode to
spec pskOf(ch) = dec(preSharedKeyClientInner, content(ch.Extensions[len(ch.Extensions)-1].ExtensionData))
spec chMsg(ch) = cat(bytes(HandshakeTypeClientHello), be(len(chWire(ch)), 3), chWire(ch))
func (ClientHelloBody).Truncated(ch) (out, err)
opt wire=1
opt unfold=msgB
let exts0 = ch.Extensions
ensures [C06,C13] last: err == nil ==> len(exts0) > 0 && exts0[len(exts0)-1].ExtensionType == ExtensionTypePreSharedKey && decOk(preSharedKeyClientInner, content(exts0[len(exts0)-1].ExtensionData))
ensures [C06,C13] all-but-binders: err == nil ==> content(out) == chMsg(ch)[:len(chMsg(ch)) - 2 - len(encs(PSKBinderEntry, pskOf(ch).Binders))]
