# ---- the server's first state: what a ClientHello leads to (C09, C12-C15, C27) ----
func VersionNegotiation@start(offered, supported) (ok, v)
cut
ensures [X] any: true
func CipherSuiteNegotiation@start(psk, offered, supported) (v, err)
cut
nilable psk
ensures [C14] psk-suite: psk != nil && err == nil ==> v == psk.CipherSuite
func PSKModeNegotiation@start(canDoDH, canDoPSK, modes) (dh, psk)
cut
ensures [C14] psk-needs-offer: psk ==> canDoPSK
ensures [C14] dh-needs-share: dh ==> canDoDH
func ALPNNegotiation@start(psk, offered, supported) (v, err)
cut
nilable psk
ensures [X] any: true
func DHNegotiation@start(keyShares, groups) (ok, g, pub, secret)
cut
ensures [X] any: true
func PSKNegotiation@start(identities, binders, context, psks) (ok, i, psk, params, err)
cut
pre len(binders) == len(identities) && psks != nil
ensures [C13] index: ok ==> err == nil && psk != nil
ensures [C13] none: !ok ==> psk == nil
ensures [C13] its-suite: ok ==> has(cipherSuiteMap, psk.CipherSuite) && params == cipherSuiteMap[psk.CipherSuite]
func (ClientHelloBody).Truncated@start(ch) (out, err)
cut
opt trusted=the encoding of the ClientHello up to its binders is left to C06
ensures [X] any: true

func (serverStateStart).Next(state, hr) (next, acts, alert)
opt use=VersionNegotiation@start; CipherSuiteNegotiation@start; PSKModeNegotiation@start; ALPNNegotiation@start; DHNegotiation@start; PSKNegotiation@start; (ClientHelloBody).Truncated@start; CertificateSelection@states; (*HandshakeContext).receivedEndOfFlight@states
opt opaque=RecordLayer
pre hr != nil && state.Config != nil && state.conn != nil && state.hsCtx != nil && state.hsCtx.hIn != nil && state.hsCtx.hOut != nil && state.Config.PSKs != nil
pre forall(i, 0, len(state.Config.Certificates), state.Config.Certificates[i] != nil && len(state.Config.Certificates[i].Chain) > 0 && state.Config.Certificates[i].Chain[0] != nil)
let dg = old(state.hsCtx.hIn.datagram)
let handler = old(state.Config.ExtensionHandler)
spec sNeg(n) = as(n, serverStateNegotiated)
ensures [C12] message: good(alert) ==> read(hr, HandshakeTypeClientHello) && is(next, serverStateNegotiated) && len(acts) == 0
ensures [C12] refused: !good(alert) && alert != AlertStatelessRetry ==> refused(next, acts)
ensures [C12,C15] retry: alert == AlertStatelessRetry && good(hr.alert) ==> is(next, serverStateStart) && len(acts) == 2 && isMsg(acts, 0, HandshakeTypeServerHello) && is(acts[1], SendQueuedHandshake)
# the ClientHello as its encoding reads, and the extensions it carries (with no extension handler to change them)
spec chD(hr) = content(hr.msg.body)
spec chExt(hr, dg) = ite(dg, dec(clientHelloBodyInnerDTLS, chD(hr)).Extensions, dec(clientHelloBodyInnerTLS, chD(hr)).Extensions)
spec chCookie(hr, dg) = ext(CookieExtension, chExt(hr, dg)).Cookie
spec chPSK(hr, dg) = ext(PreSharedKeyExtension, chExt(hr, dg))
spec cookieSent(hr, dg) = extHas(ExtensionTypeCookie, chExt(hr, dg)) && len(chCookie(hr, dg)) > 0
ensures [C12] decoded: good(alert) ==> imp(dg, decOk(clientHelloBodyInnerDTLS, chD(hr)) && decLen(clientHelloBodyInnerDTLS, chD(hr)) == len(chD(hr))) && imp(!dg, decOk(clientHelloBodyInnerTLS, chD(hr)) && decLen(clientHelloBodyInnerTLS, chD(hr)) == len(chD(hr)))
ensures [C12] version: good(alert) ==> ite(dg, dec(clientHelloBodyInnerDTLS, chD(hr)).LegacyVersion == dtls12WireVersion, dec(clientHelloBodyInnerTLS, chD(hr)).LegacyVersion == tls12Version)
ensures [C14] version-negotiated: good(alert) ==> events("VersionNegotiation") == 1 && event("VersionNegotiation", 0, 2) && len(event("VersionNegotiation", 0, 1)) == 1 && event("VersionNegotiation", 0, 1)[0] == tls13Version
ensures [C14] version-offer: good(alert) && handler == nil ==> extHas(ExtensionTypeSupportedVersions, chExt(hr, dg)) && content(event("VersionNegotiation", 0, 0)) == content(ext(SupportedVersionsExtension, chExt(hr, dg)).Versions)
ensures [C14] suite: good(alert) ==> events("CipherSuiteNegotiation") == 1 && event("CipherSuiteNegotiation", 0, 4) == nil && sNeg(next).Params.CipherSuite == event("CipherSuiteNegotiation", 0, 3)
ensures [C14] suite-offers: good(alert) ==> content(event("CipherSuiteNegotiation", 0, 1)) == ite(dg, content(dec(clientHelloBodyInnerDTLS, chD(hr)).CipherSuites), content(dec(clientHelloBodyInnerTLS, chD(hr)).CipherSuites)) && event("CipherSuiteNegotiation", 0, 2) == state.Config.CipherSuites
ensures [C13,C14] suite-psk: good(alert) && events("PSKNegotiation") == 1 ==> event("CipherSuiteNegotiation", 0, 0) == event("PSKNegotiation", 0, 6)
ensures [C14] suite-no-psk: good(alert) && events("PSKNegotiation") == 0 ==> event("CipherSuiteNegotiation", 0, 0) == nil
ensures [C14] group: good(alert) ==> events("DHNegotiation") == 1 && event("DHNegotiation", 0, 1) == state.Config.Groups
ensures [C14] modes: good(alert) ==> events("PSKModeNegotiation") == 1 && event("PSKModeNegotiation", 0, 0) == event("DHNegotiation", 0, 2) && sNeg(next).Params.UsingDH == event("PSKModeNegotiation", 0, 3) && sNeg(next).Params.UsingPSK == event("PSKModeNegotiation", 0, 4)
ensures [C13,C14] modes-psk: good(alert) && events("PSKNegotiation") == 1 ==> event("PSKModeNegotiation", 0, 1) == event("PSKNegotiation", 0, 4)
ensures [C13,C14] modes-no-psk: good(alert) && events("PSKNegotiation") == 0 ==> event("PSKModeNegotiation", 0, 1) == false && !sNeg(next).Params.UsingPSK
ensures [C14] modes-offer: good(alert) && handler == nil ==> imp(extHas(ExtensionTypePSKKeyExchangeModes, chExt(hr, dg)), content(event("PSKModeNegotiation", 0, 2)) == content(ext(PSKKeyExchangeModesExtension, chExt(hr, dg)).KEModes)) && imp(!extHas(ExtensionTypePSKKeyExchangeModes, chExt(hr, dg)), len(event("PSKModeNegotiation", 0, 2)) == 0)
ensures [C14] entropy: good(alert) ==> sNeg(next).Params.UsingDH || sNeg(next).Params.UsingPSK
ensures [C09,C14] share: good(alert) && sNeg(next).Params.UsingDH ==> sNeg(next).dhGroup == event("DHNegotiation", 0, 3) && sNeg(next).dhPublic == event("DHNegotiation", 0, 4) && sNeg(next).dhSecret == event("DHNegotiation", 0, 5)
ensures [C09,C14] no-share: good(alert) && !sNeg(next).Params.UsingDH ==> isnil(sNeg(next).dhSecret)
ensures [C09,C13] psk-secret: good(alert) && sNeg(next).Params.UsingPSK ==> events("PSKNegotiation") == 1 && event("PSKNegotiation", 0, 4) && event("PSKNegotiation", 0, 8) == nil && content(sNeg(next).pskSecret) == content(event("PSKNegotiation", 0, 6).Key) && sNeg(next).selectedPSK == event("PSKNegotiation", 0, 5)
ensures [C13] psk-error: events("PSKNegotiation") == 1 && event("PSKNegotiation", 0, 8) != nil ==> !good(alert) && alert != AlertStatelessRetry
ensures [C13] psk-args: events("PSKNegotiation") == 1 && handler == nil ==> extHas(ExtensionTypePreSharedKey, chExt(hr, dg)) && content(event("PSKNegotiation", 0, 0)) == content(chPSK(hr, dg).Identities) && content(event("PSKNegotiation", 0, 1)) == content(chPSK(hr, dg).Binders) && event("PSKNegotiation", 0, 3) == state.Config.PSKs
ensures [C13] psk-context: events("PSKNegotiation") == 1 && events("CookieProtector.DecodeToken") == 0 ==> content(event("PSKNegotiation", 0, 2)) == content(event("(ClientHelloBody).Truncated", 0, 1)) && event("(ClientHelloBody).Truncated", 0, 2) == nil
ensures [C13,C15] psk-context-cookie: good(alert) && events("PSKNegotiation") == 1 && events("CookieProtector.DecodeToken") == 1 ==> content(event("PSKNegotiation", 0, 2)) == cat(msgBytes(sNeg(next).firstClientHello), msgBytes(sNeg(next).helloRetryRequest), content(event("(ClientHelloBody).Truncated", 0, 1)))
ensures [C13] psk-asked: good(alert) && handler == nil && extHas(ExtensionTypePreSharedKey, chExt(hr, dg)) && len(chPSK(hr, dg).Identities) > 0 ==> events("PSKNegotiation") == 1
ensures [C14] certificate: good(alert) && !sNeg(next).Params.UsingPSK ==> events("CertificateSelection") == 1 && event("CertificateSelection", 0, 5) == nil && sNeg(next).cert == event("CertificateSelection", 0, 3) && sNeg(next).certScheme == event("CertificateSelection", 0, 4) && event("CertificateSelection", 0, 2) == state.Config.Certificates
ensures [C14] certificate-offer: good(alert) && !sNeg(next).Params.UsingPSK && handler == nil ==> extHas(ExtensionTypeSignatureAlgorithms, chExt(hr, dg)) && content(event("CertificateSelection", 0, 1)) == content(ext(SignatureAlgorithmsExtension, chExt(hr, dg)).Algorithms)
ensures [C14] protocol: good(alert) ==> events("ALPNNegotiation") == 1 && event("ALPNNegotiation", 0, 4) == nil && sNeg(next).Params.NextProto == event("ALPNNegotiation", 0, 3) && event("ALPNNegotiation", 0, 2) == state.Config.NextProtos
ensures [C14] protocol-psk: good(alert) ==> event("ALPNNegotiation", 0, 0) == ite(sNeg(next).Params.UsingPSK, event("PSKNegotiation", 0, 6), nil)
ensures [C14,C27] early: good(alert) && handler == nil ==> iff(sNeg(next).Params.UsingEarlyData, sNeg(next).Params.UsingPSK && extHas(ExtensionTypeEarlyData, chExt(hr, dg)) && state.Config.AllowEarlyData) && iff(sNeg(next).Params.RejectedEarlyData, extHas(ExtensionTypeEarlyData, chExt(hr, dg)) && !sNeg(next).Params.UsingEarlyData)
spec pskHash() = event("PSKNegotiation", 0, 7).Hash
ensures [C09,C27] early-secret: good(alert) && sNeg(next).Params.UsingEarlyData ==> content(sNeg(next).clientEarlyTrafficSecret) == derive(pskHash(), earlyS(pskHash(), content(sNeg(next).pskSecret)), "c e traffic", hash(pskHash(), msgBytes(hr.msg)))
ensures [C09,C12] transcript: good(alert) ==> sNeg(next).clientHello == hr.msg
ensures [C09,C12] transcript-no-cookie: good(alert) && handler == nil && !cookieSent(hr, dg) ==> sNeg(next).firstClientHello == nil && sNeg(next).helloRetryRequest == nil
ensures [C12] carries: good(alert) ==> sNeg(next).Config == state.Config && sNeg(next).hsCtx == state.hsCtx && content(sNeg(next).legacySessionId) == ite(dg, content(dec(clientHelloBodyInnerDTLS, chD(hr)).LegacySessionID), content(dec(clientHelloBodyInnerTLS, chD(hr)).LegacySessionID)) && !sNeg(next).Params.UsingClientAuth
# C15
spec token() = event("CookieProtector.DecodeToken", 0, 2)
spec ck() = dec(cookie, content(token()))
ensures [C15] cookie-opened: good(alert) && handler == nil && cookieSent(hr, dg) ==> events("CookieProtector.DecodeToken") == 1 && content(event("CookieProtector.DecodeToken", 0, 1)) == content(chCookie(hr, dg)) && event("CookieProtector.DecodeToken", 0, 3) == nil
ensures [C15] cookie-decoded: good(alert) && events("CookieProtector.DecodeToken") == 1 ==> decOk(cookie, content(token())) && decLen(cookie, content(token())) == len(token())
ensures [C15] cookie-suite: good(alert) && events("CookieProtector.DecodeToken") == 1 ==> sNeg(next).Params.CipherSuite == ck().CipherSuite && has(cipherSuiteMap, ck().CipherSuite)
ensures [C15] cookie-application: good(alert) && events("CookieProtector.DecodeToken") == 1 && state.Config.CookieHandler != nil ==> events("CookieHandler.Validate") == 1 && event("CookieHandler.Validate", 0, 3) && content(event("CookieHandler.Validate", 0, 2)) == content(ck().ApplicationCookie) && event("CookieHandler.Validate", 0, 1) == state.conn
ensures [C09,C15] cookie-transcript: good(alert) && events("CookieProtector.DecodeToken") == 1 ==> sNeg(next).firstClientHello != nil && sNeg(next).firstClientHello.msgType == HandshakeTypeMessageHash && content(sNeg(next).firstClientHello.body) == content(ck().ClientHelloHash) && sNeg(next).firstClientHello.length == len(ck().ClientHelloHash)
ensures [C09,C15] cookie-retry: good(alert) && events("CookieProtector.DecodeToken") == 1 && state.Config.RequireCookie ==> sNeg(next).helloRetryRequest != nil && sNeg(next).helloRetryRequest.msgType == HandshakeTypeServerHello && dec(ServerHelloBody, content(sNeg(next).helloRetryRequest.body)).CipherSuite == ck().CipherSuite && dec(ServerHelloBody, content(sNeg(next).helloRetryRequest.body)).Random == hrrRandomSentinel
ensures [C15] cookie-required: good(alert) && handler == nil && state.Config.RequireCookie && state.Config.CookieHandler == nil ==> cookieSent(hr, dg)
ensures [C15] cookie-required-application: good(alert) && handler == nil && state.Config.RequireCookie && state.Config.CookieHandler != nil && !cookieSent(hr, dg) ==> events("CookieHandler.Generate") == 1 && isnil(event("CookieHandler.Generate", 0, 2))
# the retry carries a token for the suite, the hash of this ClientHello and the application's part
spec made() = event("CookieProtector.NewToken", 0, 1)
spec hrrB(acts) = dec(ServerHelloBody, content(msgOf(acts, 0).body))
ensures [C15] retry-token: alert == AlertStatelessRetry && good(hr.alert) ==> events("CookieProtector.NewToken") == 1 && event("CookieProtector.NewToken", 0, 3) == nil && dec(cookie, content(made())).CipherSuite == event("CipherSuiteNegotiation", 0, 3)
ensures [C15] retry-hash: alert == AlertStatelessRetry && good(hr.alert) ==> content(dec(cookie, content(made())).ClientHelloHash) == hash(cipherSuiteMap[event("CipherSuiteNegotiation", 0, 3)].Hash, msgBytes(hr.msg))
ensures [C15] retry-message: alert == AlertStatelessRetry && good(hr.alert) ==> hrrB(acts).CipherSuite == event("CipherSuiteNegotiation", 0, 3) && hrrB(acts).Random == hrrRandomSentinel
ensures [C15] retry-cookie: alert == AlertStatelessRetry && good(hr.alert) && handler == nil ==> exists(k, 0, len(hrrB(acts).Extensions), hrrB(acts).Extensions[k].ExtensionType == ExtensionTypeCookie && content(dec(CookieExtension, content(hrrB(acts).Extensions[k].ExtensionData)).Cookie) == content(event("CookieProtector.NewToken", 0, 2)))
ensures [C15] retry-first-only: alert == AlertStatelessRetry && good(hr.alert) && handler == nil ==> !cookieSent(hr, dg)
case tls
set state.hsCtx.hIn.datagram := false
case dtls
set state.hsCtx.hIn.datagram := true

# ---- the client's first state ----
uf sharePair(int, bytes, bytes) bool
func newKeyShare@start(group) (pub, priv, err)
cut
opt trusted=sharePair names the relation between the public and private values newKeyShare returns together
ensures [X] pair: err == nil ==> sharePair(group, content(pub), content(priv))
func (clientStateStart).Next(state, hr) (next, acts, alert)
nilable hr
opt use=newKeyShare@start; (KeyShareExtension).Marshal@states; (ClientHelloBody).Truncated@start
opt opaque=RecordLayer
pre state.Config != nil && state.hsCtx != nil && state.hsCtx.hIn != nil && state.hsCtx.hOut != nil && state.Config.PSKs != nil && state.hsCtx.hIn.conn != nil && state.hsCtx.hOut.conn != nil
let dg = old(state.hsCtx.hIn.datagram)
let groups = state.Config.Groups
let known = pskKnown(ref(state.Config.PSKs), state.Opts.ServerName)
let earlyBefore = old(state.Params.ClientSendingEarlyData)
inv @pub len(ks.Shares) == len(state.Config.Groups)
inv @pub forall(k, 0, it, ks.Shares[k].Group == state.Config.Groups[k] && has(offeredDH, state.Config.Groups[k]))
spec lastOf(groups, k, n) = forall(m, k + 1, n, groups[m] != groups[k])
inv @pub forall(k, 0, it, imp(lastOf(state.Config.Groups, k, it), sharePair(state.Config.Groups[k], content(ks.Shares[k].KeyExchange), content(offeredDH[state.Config.Groups[k]]))))
inv @compatibleSuites forall(k, 0, len(compatibleSuites), exists(j, 0, len(state.Config.CipherSuites), state.Config.CipherSuites[j] == compatibleSuites[k]))
spec cWait(n) = as(n, clientStateWaitSH)
spec cBody(acts) = content(msgOf(acts, 0).body)
spec cSuites(acts, dg) = ite(dg, dec(clientHelloBodyInnerDTLS, cBody(acts)).CipherSuites, dec(clientHelloBodyInnerTLS, cBody(acts)).CipherSuites)
spec cExts(acts, dg) = ite(dg, dec(clientHelloBodyInnerDTLS, cBody(acts)).Extensions, dec(clientHelloBodyInnerTLS, cBody(acts)).Extensions)
ensures [C12] actions: good(alert) ==> is(next, clientStateWaitSH) && len(acts) >= 2 && is(acts[0], QueueHandshakeMessage) && is(acts[1], SendQueuedHandshake)
ensures [C12] refused: !good(alert) ==> refused(next, acts)
ensures [C12] hello: good(alert) ==> isMsg(acts, 0, HandshakeTypeClientHello)
ensures [C09] transcript: good(alert) ==> cWait(next).clientHello == msgOf(acts, 0) && cWait(next).firstClientHello == state.firstClientHello && cWait(next).helloRetryRequest == state.helloRetryRequest
ensures [C10,C12] carries: good(alert) ==> cWait(next).Config == state.Config && cWait(next).Opts == state.Opts && cWait(next).hsCtx == state.hsCtx
ensures [C14] suites: good(alert) && !known ==> content(cSuites(acts, dg)) == content(state.Config.CipherSuites)
ensures [C09] no-psk: good(alert) && !known ==> isnil(cWait(next).earlySecret) && len(acts) == ite(earlyBefore, 3, 2)
ensures [C27] early-offered: good(alert) ==> iff(cWait(next).Params.ClientSendingEarlyData, earlyBefore || known && state.Config.AllowEarlyData && old(state.helloRetryRequest) == nil)
ensures [C27] no-early-keys: good(alert) && !cWait(next).Params.ClientSendingEarlyData ==> len(acts) == 2
pre !pskKnown(ref(state.Config.PSKs), state.Opts.ServerName)
