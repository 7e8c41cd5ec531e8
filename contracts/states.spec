# ---- handshake states (C09-C12) ----
# the bytes of a handshake message: header, then body
pure msgB(dtls bool, t int, length int, seq int, off int, body bytes) bytes = cat(be(t, 1), be(length, 3), ite(dtls, cat(be(seq, 2), be(off, 3), be(len(body), 3)), ""), body)
spec msgBytes(m) = ite(isnil(m), "", msgB(m.datagram, m.msgType, m.length, m.seq, m.offset, content(m.body)))
func (*HandshakeMessage).Marshal(m) (out)
nilable m
cut
opt unfold=msgB
ensures [C06,C09] bytes: out == msgBytes(m)
func (*HandshakeContext).receivedEndOfFlight@states(h) ()
cut
opt trusted=DTLS flight bookkeeping changes only the timers, the acknowledgement list and the input queue
func (*HandshakeContext).receivedFinalFlight@states(h) ()
cut
opt trusted=DTLS flight bookkeeping changes only the timers, the acknowledgement list and the input queue

func CertificateSelection@states(serverName, signatureSchemes, certs) (cert, scheme, err)
nilable serverName
cut
pre forall(i, 0, len(certs), certs[i] != nil && len(certs[i].Chain) > 0 && certs[i].Chain[0] != nil)
ensures [X] found: err == nil ==> cert != nil
func (*CertificateVerifyBody).Sign@states(cv, privateKey, handshakeHash) (err)
cut
modifies cv.Signature

spec keysOf(ks, params, secret) = ks.Cipher == params.Cipher && content(ks.Keys["key"]) == expandLabel(params.Hash, content(secret), "key", "", params.KeyLengths["key"]) && content(ks.Keys["iv"]) == expandLabel(params.Hash, content(secret), "iv", "", params.KeyLengths["iv"])
spec good(a) = a == AlertNoAlert
spec connected(n) = as(n, stateConnected)
spec sent(acts, k) = msgBytes(the(QueueHandshakeMessage, acts, k).Message)

# a certificate message body: the parsed certificates, in order
spec certMsg(c, d) = decOk(certificateBodyInner, d) && len(c.CertificateList) == len(dec(certificateBodyInner, d).CertificateList) && forall(i, 0, len(c.CertificateList), c.CertificateList[i].CertData == x509cert(dec(certificateBodyInner, d).CertificateList[i].CertData))
spec read(hr, t) = hr.alert == AlertNoAlert && hr.msg != nil && hr.msg.msgType == t
spec hstate(s) = s.handshakeHash != nil && !s.handshakeHash.keyed
# n carries the handshake secrets of s, and its transcript is s's transcript tr followed by the message hm
spec carries(n, s, tr, hm) = content(n.masterSecret) == old(content(s.masterSecret)) && content(n.clientHandshakeTrafficSecret) == old(content(s.clientHandshakeTrafficSecret)) && content(n.serverHandshakeTrafficSecret) == old(content(s.serverHandshakeTrafficSecret)) && n.handshakeHash.content == cat(tr, msgBytes(hm)) && n.handshakeHash.alg == old(s.handshakeHash.alg) && n.cryptoParams == old(s.cryptoParams) && n.hsCtx == old(s.hsCtx)
spec refused(next, acts) = next == nil && len(acts) == 0

func (*CertificateBody).Unmarshal@states(c, data) (n, err)
cut
nilable data
modifies c.CertificateList
modifies c.CertificateRequestContext
inv len(c.CertificateList) == len(dec(certificateBodyInner, content(data)).CertificateList)
inv forall(j, 0, it, c.CertificateList[j].CertData == x509cert(dec(certificateBodyInner, content(data)).CertificateList[j].CertData))
ensures [C06,C10,C11] certificates: err == nil ==> certMsg(c, content(data))
ensures [C06] context: err == nil ==> content(c.CertificateRequestContext) == content(dec(certificateBodyInner, content(data)).CertificateRequestContext)
ensures [C06] length: err == nil ==> n == decLen(certificateBodyInner, content(data))

func (clientStateWaitEE).Next(state, hr) (next, acts, alert)
pre hr != nil && hstate(state) && state.Config != nil
let tr = old(state.handshakeHash.content)
let ee = content(hr.msg.body)
spec eeList(hr) = dec(EncryptedExtensionsBody, content(hr.msg.body)).Extensions
spec eeFin(n) = as(n, clientStateWaitFinished)
spec eeCert(n) = as(n, clientStateWaitCertCR)
ensures [C12] message: good(alert) ==> read(hr, HandshakeTypeEncryptedExtensions) && decOk(EncryptedExtensionsBody, content(hr.msg.body))
ensures [C12] refused: !good(alert) ==> refused(next, acts)
ensures [C10,C12] next-psk: good(alert) && state.Params.UsingPSK ==> is(next, clientStateWaitFinished)
ensures [C10,C12] next-certificate: good(alert) && !state.Params.UsingPSK ==> is(next, clientStateWaitCertCR)
ensures [C09,C10] carries-psk: good(alert) && is(next, clientStateWaitFinished) ==> carries(eeFin(next), state, tr, hr.msg)
ensures [C09,C10] carries-certificate: good(alert) && is(next, clientStateWaitCertCR) ==> carries(eeCert(next), state, tr, hr.msg)
ensures [C10] config: good(alert) && is(next, clientStateWaitCertCR) ==> eeCert(next).Config == state.Config
ensures [C10] no-peer-certificate: good(alert) && is(next, clientStateWaitFinished) ==> len(eeFin(next).peerCertificates) == 0 && isnil(eeFin(next).serverCertificateRequest)
ensures [C27] early-data-psk: good(alert) && is(next, clientStateWaitFinished) && state.Config.ExtensionHandler == nil ==> iff(eeFin(next).Params.UsingEarlyData, extHas(ExtensionTypeEarlyData, eeList(hr)))
ensures [C27] early-data-certificate: good(alert) && is(next, clientStateWaitCertCR) && state.Config.ExtensionHandler == nil ==> iff(eeCert(next).Params.UsingEarlyData, extHas(ExtensionTypeEarlyData, eeList(hr)))
ensures [C27] early-data-only-if-sent: good(alert) && is(next, clientStateWaitFinished) && eeFin(next).Params.UsingEarlyData ==> old(state.Params.ClientSendingEarlyData)
ensures [C27] early-data-rejected-keys: good(alert) && old(state.Params.ClientSendingEarlyData) && is(next, clientStateWaitFinished) && !eeFin(next).Params.UsingEarlyData ==> len(acts) == 1 && is(acts[0], RekeyOut) && as(acts[0], RekeyOut).epoch == EpochHandshakeData && keysOf(as(acts[0], RekeyOut).KeySet, state.cryptoParams, state.clientHandshakeTrafficSecret)
ensures [C14] alpn: good(alert) && is(next, clientStateWaitFinished) && state.Config.ExtensionHandler == nil && !extHas(ExtensionTypeALPN, eeList(hr)) ==> eeFin(next).Params.NextProto == old(state.Params.NextProto)
ensures [C14] psk-flag: good(alert) && is(next, clientStateWaitFinished) ==> eeFin(next).Params.UsingPSK == old(state.Params.UsingPSK) && eeFin(next).Params.UsingClientAuth == old(state.Params.UsingClientAuth)
case aes128
set state.cryptoParams := cipherSuiteMap[TLS_AES_128_GCM_SHA256]
set state.handshakeHash.alg := 5
case aes256
set state.cryptoParams := cipherSuiteMap[TLS_AES_256_GCM_SHA384]
set state.handshakeHash.alg := 6

func (clientStateWaitCertCR).Next(state, hr) (next, acts, alert)
opt use=(*CertificateBody).Unmarshal@states
pre hr != nil && hstate(state)
let tr = old(state.handshakeHash.content)
spec crCV(n) = as(n, clientStateWaitCV)
spec crCert(n) = as(n, clientStateWaitCert)
ensures [C12] message: good(alert) ==> hr.alert == AlertNoAlert && hr.msg != nil && (hr.msg.msgType == HandshakeTypeCertificate && is(next, clientStateWaitCV) || hr.msg.msgType == HandshakeTypeCertificateRequest && is(next, clientStateWaitCert)) && len(acts) == 0
ensures [C12] refused: !good(alert) ==> refused(next, acts)
ensures [C10] certificate: good(alert) && is(next, clientStateWaitCV) ==> certMsg(crCV(next).serverCertificate, content(hr.msg.body)) && crCV(next).Config == state.Config && isnil(crCV(next).serverCertificateRequest)
ensures [C09,C10] carries-certificate: good(alert) && is(next, clientStateWaitCV) ==> carries(crCV(next), state, tr, hr.msg)
ensures [C09,C10] carries-request: good(alert) && is(next, clientStateWaitCert) ==> carries(crCert(next), state, tr, hr.msg)
ensures [C11] request: good(alert) && is(next, clientStateWaitCert) ==> crCert(next).Params.UsingClientAuth && !isnil(crCert(next).serverCertificateRequest) && crCert(next).Config == state.Config && len(crCert(next).serverCertificateRequest.CertificateRequestContext) == 0
ensures [C12] request-context: good(alert) && is(next, clientStateWaitCert) ==> len(dec(CertificateRequestBody, content(hr.msg.body)).CertificateRequestContext) == 0

func (clientStateWaitCert).Next(state, hr) (next, acts, alert)
opt use=(*CertificateBody).Unmarshal@states
pre hr != nil && hstate(state)
let tr = old(state.handshakeHash.content)
ensures [C12] message: good(alert) ==> read(hr, HandshakeTypeCertificate) && is(next, clientStateWaitCV) && len(acts) == 0
ensures [C12] refused: !good(alert) ==> refused(next, acts)
ensures [C10] certificate: good(alert) ==> certMsg(crCV(next).serverCertificate, content(hr.msg.body)) && crCV(next).Config == state.Config
ensures [C09,C10] carries: good(alert) ==> carries(crCV(next), state, tr, hr.msg)
ensures [C11] request: good(alert) ==> crCV(next).serverCertificateRequest == state.serverCertificateRequest && crCV(next).Params.UsingClientAuth == old(state.Params.UsingClientAuth)

func (clientStateWaitCV).Next(state, hr) (next, acts, alert)
opt use=(*CertificateVerifyBody).Verify@states
pre hr != nil && hstate(state) && state.Config != nil && state.serverCertificate != nil
pre forall(i, 0, len(state.serverCertificate.CertificateList), state.serverCertificate.CertificateList[i].CertData != nil)
let tr = old(state.handshakeHash.content)
let list = old(state.serverCertificate.CertificateList)
spec cv(hr) = dec(CertificateVerifyBody, content(hr.msg.body))
spec cvFin(n) = as(n, clientStateWaitFinished)
ensures [C12] message: good(alert) ==> read(hr, HandshakeTypeCertificateVerify) && is(next, clientStateWaitFinished) && len(acts) == 0
ensures [C12] refused: !good(alert) ==> refused(next, acts)
ensures [C10] signature: good(alert) ==> len(list) > 0 && decOk(CertificateVerifyBody, content(hr.msg.body)) && cvValid(list[0].CertData.PublicKey, cv(hr).Algorithm, cv(hr).Signature, hash(old(state.handshakeHash.alg), tr))
ensures [C10] chain: good(alert) && !state.Config.InsecureSkipVerify ==> events("x509.Verify") == 1 && event("x509.Verify", 0, 0) == list[0].CertData && event("x509.Verify", 0, 1).Roots == state.Config.RootCAs && event("x509.Verify", 0, 1).DNSName == state.Config.ServerName && len(event("x509.Verify", 0, 1).KeyUsages) == 0 && event("x509.Verify", 0, 3) == nil && same(cvFin(next).verifiedChains, event("x509.Verify", 0, 2))
ensures [C10] peer-certificates: good(alert) ==> len(cvFin(next).peerCertificates) == len(list) && forall(i, 0, len(list), cvFin(next).peerCertificates[i] == list[i].CertData)
ensures [C10] callback: good(alert) && state.Config.VerifyPeerCertificate != nil ==> events("call") >= 1 && lastEvent("call", 0) == state.Config.VerifyPeerCertificate && same(lastEvent("call", 2), cvFin(next).verifiedChains) && lastEvent("call", 3) == nil && len(lastEvent("call", 1)) == len(list) && forall(i, 0, len(list), content(lastEvent("call", 1)[i]) == content(list[i].CertData.Raw))
ensures [C09,C10] carries: good(alert) ==> carries(cvFin(next), state, tr, hr.msg)
ensures [C11] request: good(alert) ==> cvFin(next).serverCertificateRequest == state.serverCertificateRequest && cvFin(next).Params.UsingClientAuth == old(state.Params.UsingClientAuth)

func (clientStateWaitFinished).Next(state, hr) (next, acts, alert)
opt use=(*HandshakeContext).receivedEndOfFlight@states; CertificateSelection@states; (*CertificateVerifyBody).Sign@states
pre hr != nil && state.handshakeHash != nil && !state.handshakeHash.keyed
pre state.hsCtx.hOut != nil
pre forall(i, 0, len(state.certificates), state.certificates[i] != nil && len(state.certificates[i].Chain) > 0 && state.certificates[i].Chain[0] != nil)
let params = state.cryptoParams
let h = params.Hash
let tr = old(state.handshakeHash.content)
let hm = hr.msg
let ms = content(state.masterSecret)
let t3 = cat(tr, msgBytes(hm))
ensures [C10] finished-verified: good(alert) ==> hr.alert == AlertNoAlert && hm != nil && hm.msgType == HandshakeTypeFinished && content(hm.body) == finishedMac(h, content(state.serverHandshakeTrafficSecret), hash(h, tr))
ensures [C12] next: good(alert) ==> is(next, stateConnected)
ensures [C12] stays-on-error: !good(alert) ==> next == nil && len(acts) == 0
ensures [C10] peer-certificates: good(alert) ==> connected(next).peerCertificates == state.peerCertificates && connected(next).verifiedChains == state.verifiedChains && connected(next).isClient
ensures [C09] client-secret: good(alert) ==> content(connected(next).clientTrafficSecret) == derive(h, ms, "c ap traffic", hash(h, t3))
ensures [C09] server-secret: good(alert) ==> content(connected(next).serverTrafficSecret) == derive(h, ms, "s ap traffic", hash(h, t3))
ensures [C09] exporter: good(alert) ==> content(connected(next).exporterSecret) == derive(h, ms, "exp master", hash(h, t3))
let early = old(state.Params.UsingEarlyData)
let k0 = ite(early, 2, 0)
# the transcript up to the client's Finished: end of early data, then the certificate messages
spec cl5(t3, k0, acts) = cat(t3, ite(k0 == 2, mb(acts, 0), ""), ite(len(acts) - 4 - k0 >= 1, mb(acts, k0), ""), ite(len(acts) - 4 - k0 >= 2, mb(acts, k0 + 1), ""))
ensures [C12] flight: good(alert) ==> len(acts) >= 4 + k0 && isMsg(acts, len(acts) - 4, HandshakeTypeFinished) && is(acts[len(acts) - 3], SendQueuedHandshake) && is(acts[len(acts) - 2], RekeyIn) && is(acts[len(acts) - 1], RekeyOut)
ensures [C12] flight-early: good(alert) && early ==> isMsg(acts, 0, HandshakeTypeEndOfEarlyData) && isRekeyOut(acts[1], EpochHandshakeData, params, content(state.clientHandshakeTrafficSecret))
ensures [C11,C12] flight-certificate: good(alert) && old(state.Params.UsingClientAuth) ==> (len(acts) == 5 + k0 || len(acts) == 6 + k0) && isMsg(acts, k0, HandshakeTypeCertificate) && imp(len(acts) == 6 + k0, isMsg(acts, k0 + 1, HandshakeTypeCertificateVerify))
ensures [C12] flight-plain: good(alert) && !old(state.Params.UsingClientAuth) ==> len(acts) == 4 + k0
ensures [C09,C11] client-finished: good(alert) ==> content(msgOf(acts, len(acts) - 4).body) == finishedMac(h, content(state.clientHandshakeTrafficSecret), hash(h, cl5(t3, k0, acts)))
ensures [C09,C12] read-keys: good(alert) ==> isRekeyIn(acts[len(acts) - 2], EpochApplicationData, params, derive(h, ms, "s ap traffic", hash(h, t3)))
ensures [C09,C12] write-keys: good(alert) ==> isRekeyOut(acts[len(acts) - 1], EpochApplicationData, params, derive(h, ms, "c ap traffic", hash(h, t3)))
ensures [C09,C18] resumption: good(alert) ==> content(connected(next).resumptionSecret) == derive(h, ms, "res master", hash(h, cat(cl5(t3, k0, acts), mb(acts, len(acts) - 4))))
case aes128
set state.cryptoParams := cipherSuiteMap[TLS_AES_128_GCM_SHA256]
set state.handshakeHash.alg := 5
set state.Params.UsingEarlyData := false
set state.Params.UsingClientAuth := false
case aes128-auth
set state.cryptoParams := cipherSuiteMap[TLS_AES_128_GCM_SHA256]
set state.handshakeHash.alg := 5
set state.Params.UsingEarlyData := false
set state.Params.UsingClientAuth := true
case aes128-early
set state.cryptoParams := cipherSuiteMap[TLS_AES_128_GCM_SHA256]
set state.handshakeHash.alg := 5
set state.Params.UsingEarlyData := true
set state.Params.UsingClientAuth := false
case aes128-early-auth
set state.cryptoParams := cipherSuiteMap[TLS_AES_128_GCM_SHA256]
set state.handshakeHash.alg := 5
set state.Params.UsingEarlyData := true
set state.Params.UsingClientAuth := true
case aes256
set state.cryptoParams := cipherSuiteMap[TLS_AES_256_GCM_SHA384]
set state.handshakeHash.alg := 6
set state.Params.UsingEarlyData := false
set state.Params.UsingClientAuth := false
case aes256-auth
set state.cryptoParams := cipherSuiteMap[TLS_AES_256_GCM_SHA384]
set state.handshakeHash.alg := 6
set state.Params.UsingEarlyData := false
set state.Params.UsingClientAuth := true
case aes256-early
set state.cryptoParams := cipherSuiteMap[TLS_AES_256_GCM_SHA384]
set state.handshakeHash.alg := 6
set state.Params.UsingEarlyData := true
set state.Params.UsingClientAuth := false
case aes256-early-auth
set state.cryptoParams := cipherSuiteMap[TLS_AES_256_GCM_SHA384]
set state.handshakeHash.alg := 6
set state.Params.UsingEarlyData := true
set state.Params.UsingClientAuth := true

# ---- server ----
# n continues s: same secrets and parameters, transcript tr2
spec skeeps(n, s, tr2) = content(n.masterSecret) == old(content(s.masterSecret)) && content(n.clientHandshakeTrafficSecret) == old(content(s.clientHandshakeTrafficSecret)) && content(n.clientTrafficSecret) == old(content(s.clientTrafficSecret)) && content(n.serverTrafficSecret) == old(content(s.serverTrafficSecret)) && content(n.exporterSecret) == old(content(s.exporterSecret)) && n.handshakeHash.content == tr2 && n.handshakeHash.alg == old(s.handshakeHash.alg) && n.cryptoParams == old(s.cryptoParams) && n.hsCtx == old(s.hsCtx) && n.Params == old(s.Params)
spec ssCert(n) = as(n, serverStateWaitCert)
spec ssCV(n) = as(n, serverStateWaitCV)
spec ssFin(n) = as(n, serverStateWaitFinished)
spec ssF2(n) = as(n, serverStateWaitFlight2)

func (serverStateWaitFlight2).Next(state, hr) (next, acts, alert)
nilable hr
pre hstate(state)
let tr = old(state.handshakeHash.content)
ensures [C12] always: good(alert) && len(acts) == 0
ensures [C11,C12] client-auth: old(state.Params.UsingClientAuth) ==> is(next, serverStateWaitCert)
ensures [C11,C12] no-client-auth: !old(state.Params.UsingClientAuth) ==> is(next, serverStateWaitFinished)
ensures [C09,C11] carries-cert: old(state.Params.UsingClientAuth) ==> skeeps(ssCert(next), state, tr) && ssCert(next).Config == state.Config
ensures [C09,C11] carries-finished: !old(state.Params.UsingClientAuth) ==> skeeps(ssFin(next), state, tr) && len(ssFin(next).peerCertificates) == 0 && len(ssFin(next).verifiedChains) == 0

func (serverStateWaitCert).Next(state, hr) (next, acts, alert)
opt use=(*CertificateBody).Unmarshal@states
pre hr != nil && hstate(state)
let tr = old(state.handshakeHash.content)
ensures [C12] message: good(alert) ==> read(hr, HandshakeTypeCertificate) && decOk(certificateBodyInner, content(hr.msg.body)) && len(acts) == 0
ensures [C12] refused: !good(alert) ==> refused(next, acts)
ensures [C11,C12] next-with: good(alert) && len(dec(certificateBodyInner, content(hr.msg.body)).CertificateList) > 0 ==> is(next, serverStateWaitCV)
ensures [C11,C12] next-without: good(alert) && len(dec(certificateBodyInner, content(hr.msg.body)).CertificateList) == 0 ==> is(next, serverStateWaitFinished)
ensures [C11] certificate: good(alert) && is(next, serverStateWaitCV) ==> certMsg(ssCV(next).clientCertificate, content(hr.msg.body)) && ssCV(next).Config == state.Config
ensures [C11] none: good(alert) && is(next, serverStateWaitFinished) ==> len(ssFin(next).peerCertificates) == 0 && len(ssFin(next).verifiedChains) == 0
ensures [C09,C11] carries-with: good(alert) && is(next, serverStateWaitCV) ==> skeeps(ssCV(next), state, cat(tr, msgBytes(hr.msg)))
ensures [C09,C11] carries-without: good(alert) && is(next, serverStateWaitFinished) ==> skeeps(ssFin(next), state, cat(tr, msgBytes(hr.msg)))

func (serverStateWaitCV).Next(state, hr) (next, acts, alert)
opt use=(*CertificateVerifyBody).Verify@states
pre hr != nil && hstate(state) && state.Config != nil && state.clientCertificate != nil
pre len(state.clientCertificate.CertificateList) > 0
pre forall(i, 0, len(state.clientCertificate.CertificateList), state.clientCertificate.CertificateList[i].CertData != nil)
let tr = old(state.handshakeHash.content)
let list = old(state.clientCertificate.CertificateList)
ensures [C12] message: good(alert) ==> read(hr, HandshakeTypeCertificateVerify) && is(next, serverStateWaitFinished) && len(acts) == 0
ensures [C12] refused: !good(alert) ==> refused(next, acts)
ensures [C11] signature: good(alert) ==> decOk(CertificateVerifyBody, content(hr.msg.body)) && cvValid(list[0].CertData.PublicKey, cv(hr).Algorithm, cv(hr).Signature, hash(old(state.handshakeHash.alg), tr))
ensures [C11] peer-certificates: good(alert) ==> len(ssFin(next).peerCertificates) == len(list) && forall(i, 0, len(list), ssFin(next).peerCertificates[i] == list[i].CertData)
ensures [C11] callback: good(alert) && state.Config.VerifyPeerCertificate != nil ==> events("call") >= 1 && lastEvent("call", 0) == state.Config.VerifyPeerCertificate && lastEvent("call", 3) == nil && len(lastEvent("call", 1)) == len(list) && forall(i, 0, len(list), content(lastEvent("call", 1)[i]) == content(list[i].CertData.Raw))
ensures [C09,C11] carries: good(alert) ==> skeeps(ssFin(next), state, cat(tr, msgBytes(hr.msg)))

func (serverStateWaitFinished).Next(state, hr) (next, acts, alert)
opt use=(*HandshakeContext).receivedFinalFlight@states
pre hr != nil && hstate(state) && state.hsCtx != nil
let params = state.cryptoParams
let h = params.Hash
let tr = old(state.handshakeHash.content)
let hm = hr.msg
let ms = content(state.masterSecret)
ensures [C11] finished-verified: good(alert) ==> read(hr, HandshakeTypeFinished) && content(hm.body) == finishedMac(h, content(state.clientHandshakeTrafficSecret), hash(h, tr))
ensures [C12] next: good(alert) ==> is(next, stateConnected) && !connected(next).isClient
ensures [C12] refused: !good(alert) ==> refused(next, acts)
ensures [C11] peer-certificates: good(alert) ==> connected(next).peerCertificates == state.peerCertificates && connected(next).verifiedChains == state.verifiedChains
ensures [C09] secrets: good(alert) ==> content(connected(next).clientTrafficSecret) == old(content(state.clientTrafficSecret)) && content(connected(next).serverTrafficSecret) == old(content(state.serverTrafficSecret)) && content(connected(next).exporterSecret) == old(content(state.exporterSecret)) && connected(next).cryptoParams == old(state.cryptoParams) && connected(next).Params == old(state.Params) && connected(next).hsCtx == old(state.hsCtx)
ensures [C09] resumption: good(alert) ==> content(connected(next).resumptionSecret) == derive(h, ms, "res master", hash(h, cat(tr, msgBytes(hm))))
ensures [C09] read-keys: good(alert) ==> len(acts) == 1 && is(acts[0], RekeyIn) && as(acts[0], RekeyIn).epoch == EpochApplicationData && keysOf(as(acts[0], RekeyIn).KeySet, old(state.cryptoParams), old(state.clientTrafficSecret))
case aes128
set state.cryptoParams := cipherSuiteMap[TLS_AES_128_GCM_SHA256]
set state.handshakeHash.alg := 5
case aes256
set state.cryptoParams := cipherSuiteMap[TLS_AES_256_GCM_SHA384]
set state.handshakeHash.alg := 6

func (serverStateReadPastEarlyData).Next(state, hr) (next, acts, alert)
opt opaque=RecordLayer
nilable hr
pre state.next != nil && state.hsCtx.hIn != nil && state.hsCtx.hIn.conn != nil
ensures [C12,C27] next: good(alert) ==> next == old(*state.next) && len(acts) == 0
ensures [C12] refused: !good(alert) ==> refused(next, acts)
ensures [C27] stops-at-readable: good(alert) ==> events("RecordLayer.PeekRecordType") >= 1 && lastEvent("RecordLayer.PeekRecordType", 3) == nil

func (serverStateWaitEOED).Next(state, hr) (next, acts, alert)
opt opaque=RecordLayer
pre hr != nil && hstate(state) && state.hsCtx.hIn != nil && state.hsCtx.hIn.conn != nil
let tr = old(state.handshakeHash.content)
ensures [C12] message: good(alert) ==> read(hr, HandshakeTypeEndOfEarlyData) && len(hr.msg.body) == 0 && is(next, serverStateWaitFlight2)
ensures [C12] refused: !good(alert) ==> refused(next, acts)
ensures [C09] carries: good(alert) ==> skeeps(ssF2(next), state, cat(tr, msgBytes(hr.msg))) && ssF2(next).Config == state.Config
ensures [C09,C27] read-keys: good(alert) ==> len(acts) == 1 && is(acts[0], RekeyIn) && as(acts[0], RekeyIn).epoch == EpochHandshakeData && keysOf(as(acts[0], RekeyIn).KeySet, old(state.cryptoParams), old(state.clientHandshakeTrafficSecret))
case aes128
set state.cryptoParams := cipherSuiteMap[TLS_AES_128_GCM_SHA256]
set state.handshakeHash.alg := 5
case aes256
set state.cryptoParams := cipherSuiteMap[TLS_AES_256_GCM_SHA384]
set state.handshakeHash.alg := 6

# RFC 8446 7.1: the key schedule
spec earlyS(h, psk) = hmac(h, rep(0, hashSize(h)), psk)
spec hsS(h, psk, dh) = hmac(h, derive(h, earlyS(h, psk), "derived", hash(h, "")), dh)
spec masterS(h, psk, dh) = hmac(h, derive(h, hsS(h, psk, dh), "derived", hash(h, "")), rep(0, hashSize(h)))
spec msgOf(acts, k) = as(acts[k], QueueHandshakeMessage).Message
spec isMsg(acts, k, t) = is(acts[k], QueueHandshakeMessage) && msgOf(acts, k) != nil && msgOf(acts, k).msgType == t
spec mb(acts, k) = msgBytes(msgOf(acts, k))
spec isRekeyOut(a, e, params, secret) = is(a, RekeyOut) && as(a, RekeyOut).epoch == e && keysOf(as(a, RekeyOut).KeySet, params, secret)
spec isRekeyIn(a, e, params, secret) = is(a, RekeyIn) && as(a, RekeyIn).epoch == e && keysOf(as(a, RekeyIn).KeySet, params, secret)

func (KeyShareExtension).Marshal@states(ks) (out, err)
cut

func (serverStateNegotiated).Next(state, hr) (next, acts, alert)
nilable hr
opt use=(*CertificateVerifyBody).Sign@states; (KeyShareExtension).Marshal@states
pre state.Config != nil && state.hsCtx != nil && state.hsCtx.hOut != nil
pre state.Params.UsingPSK || state.cert != nil
let params = cipherSuiteMap[state.Params.CipherSuite]
let h = params.Hash
let psk = ite(state.Params.UsingPSK, content(state.pskSecret), rep(0, hashSize(h)))
let dh = ite(isnil(state.dhSecret), rep(0, hashSize(h)), content(state.dhSecret))
let t0 = cat(msgBytes(state.firstClientHello), msgBytes(state.helloRetryRequest), msgBytes(state.clientHello))
let ms = masterS(h, psk, dh)
let hs = hsS(h, psk, dh)
let clientAuth = !state.Params.UsingPSK && state.Config.RequireClientAuth
spec fl(acts) = len(acts) - 4
# the transcript up to, and including, the server's Finished
spec negT3(t0, acts) = cat(t0, mb(acts, 0), mb(acts, 2), ite(fl(acts) >= 5, mb(acts, 3), ""), ite(fl(acts) >= 5, mb(acts, 4), ""), ite(fl(acts) >= 6, mb(acts, 5), ""))
spec negT4(t0, acts) = cat(negT3(t0, acts), mb(acts, fl(acts)))
spec negC(n) = ite(is(n, serverStateReadPastEarlyData), as(n, serverStateReadPastEarlyData).next, n)
spec negF(n) = as(ite(is(n, serverStateReadPastEarlyData), *as(n, serverStateReadPastEarlyData).next, n), serverStateWaitFlight2)
spec negSecrets(n, t, h, hs, ms, t0, acts) = content(n.masterSecret) == ms && content(n.clientHandshakeTrafficSecret) == derive(h, hs, "c hs traffic", hash(h, cat(t0, mb(acts, 0)))) && content(n.clientTrafficSecret) == derive(h, ms, "c ap traffic", hash(h, t)) && content(n.serverTrafficSecret) == derive(h, ms, "s ap traffic", hash(h, t)) && content(n.exporterSecret) == derive(h, ms, "exp master", hash(h, t)) && n.handshakeHash.content == t && n.handshakeHash.alg == h && !n.handshakeHash.keyed
ensures [C12] refused: !good(alert) ==> refused(next, acts)
ensures [C09,C12] flight: good(alert) ==> isMsg(acts, 0, HandshakeTypeServerHello) && is(acts[1], RekeyOut) && isMsg(acts, 2, HandshakeTypeEncryptedExtensions) && isMsg(acts, fl(acts), HandshakeTypeFinished) && is(acts[fl(acts)+1], SendQueuedHandshake) && is(acts[fl(acts)+2], RekeyOut) && is(acts[fl(acts)+3], RekeyIn)
ensures [C10,C12] flight-psk: good(alert) && old(state.Params.UsingPSK) ==> len(acts) == 7
ensures [C10,C12] flight-certificate: good(alert) && !old(state.Params.UsingPSK) && !clientAuth ==> len(acts) == 9 && isMsg(acts, 3, HandshakeTypeCertificate) && isMsg(acts, 4, HandshakeTypeCertificateVerify)
ensures [C11,C12] flight-client-auth: good(alert) && clientAuth ==> len(acts) == 10 && isMsg(acts, 3, HandshakeTypeCertificateRequest) && isMsg(acts, 4, HandshakeTypeCertificate) && isMsg(acts, 5, HandshakeTypeCertificateVerify)
ensures [C09] handshake-write-keys: good(alert) ==> isRekeyOut(acts[1], EpochHandshakeData, params, derive(h, hs, "s hs traffic", hash(h, cat(t0, mb(acts, 0)))))
ensures [C09] application-write-keys: good(alert) ==> isRekeyOut(acts[fl(acts)+2], EpochApplicationData, params, derive(h, ms, "s ap traffic", hash(h, negT4(t0, acts))))
ensures [C09] read-keys: good(alert) && !old(state.Params.UsingEarlyData) ==> isRekeyIn(acts[fl(acts)+3], EpochHandshakeData, params, derive(h, hs, "c hs traffic", hash(h, cat(t0, mb(acts, 0)))))
ensures [C09,C27] early-read-keys: good(alert) && old(state.Params.UsingEarlyData) ==> isRekeyIn(acts[fl(acts)+3], EpochEarlyData, params, content(state.clientEarlyTrafficSecret))
ensures [C10] finished: good(alert) ==> content(msgOf(acts, fl(acts)).body) == finishedMac(h, derive(h, hs, "s hs traffic", hash(h, cat(t0, mb(acts, 0)))), hash(h, negT3(t0, acts)))
ensures [C12,C27] next-early: good(alert) && old(state.Params.UsingEarlyData) ==> is(next, serverStateWaitEOED)
ensures [C12,C27] next-rejected: good(alert) && !old(state.Params.UsingEarlyData) && old(state.Params.RejectedEarlyData) ==> is(next, serverStateReadPastEarlyData) && is(*as(next, serverStateReadPastEarlyData).next, serverStateWaitFlight2)
ensures [C12,C27] next: good(alert) && !old(state.Params.UsingEarlyData) && !old(state.Params.RejectedEarlyData) ==> is(next, serverStateWaitFlight2)
ensures [C09] secrets-early: good(alert) && is(next, serverStateWaitEOED) ==> negSecrets(as(next, serverStateWaitEOED), negT4(t0, acts), h, hs, ms, t0, acts) && as(next, serverStateWaitEOED).cryptoParams == params
ensures [C09] secrets: good(alert) && !is(next, serverStateWaitEOED) ==> negSecrets(negF(next), negT4(t0, acts), h, hs, ms, t0, acts) && negF(next).cryptoParams == params
ensures [C11] client-auth: good(alert) && !is(next, serverStateWaitEOED) ==> iff(negF(next).Params.UsingClientAuth, old(state.Params.UsingClientAuth) || clientAuth) && negF(next).Config == state.Config
ensures [C11] client-auth-early: good(alert) && is(next, serverStateWaitEOED) ==> iff(as(next, serverStateWaitEOED).Params.UsingClientAuth, old(state.Params.UsingClientAuth) || clientAuth) && as(next, serverStateWaitEOED).Config == state.Config
case psk128
set state.Params.CipherSuite := TLS_AES_128_GCM_SHA256
set state.Params.UsingPSK := true
case psk256
set state.Params.CipherSuite := TLS_AES_256_GCM_SHA384
set state.Params.UsingPSK := true
case cert128
set state.Params.CipherSuite := TLS_AES_128_GCM_SHA256
set state.Params.UsingPSK := false
case cert256
set state.Params.CipherSuite := TLS_AES_256_GCM_SHA384
set state.Params.UsingPSK := false

spec hsE(h, es, dh) = hmac(h, derive(h, es, "derived", hash(h, "")), dh)
spec masterE(h, es, dh) = hmac(h, derive(h, hsE(h, es, dh), "derived", hash(h, "")), rep(0, hashSize(h)))
spec shB(hr) = dec(ServerHelloBody, content(hr.msg.body))
spec shSuite(hr) = shB(hr).CipherSuite
spec shKS(hr) = ext(KeyShareExtension, shB(hr).Extensions)
spec wEE(n) = as(n, clientStateWaitEE)
spec cStart(n) = as(n, clientStateStart)
spec isHRR(hr) = shB(hr).Random == hrrRandomSentinel

func (clientStateWaitSH).Next(state, hr) (next, acts, alert)
opt use=keyAgreement@states; (*HandshakeContext).receivedEndOfFlight@states
opt opaque=RecordLayer
pre hr != nil && state.Config != nil && state.hsCtx != nil && state.hsCtx.hIn != nil && state.hsCtx.hOut != nil
let suites = old(state.Config.CipherSuites)
let handler = old(state.Config.ExtensionHandler)
let modes = old(state.Config.PSKModes)
let t0 = cat(msgBytes(state.firstClientHello), msgBytes(state.helloRetryRequest), msgBytes(state.clientHello))
inv @supportedCipherSuite imp(supportedCipherSuite, exists(i, 0, it, state.Config.CipherSuites[i] == shSuite(hr)))
inv @offered imp(offered, exists(i, 0, it, state.Config.PSKModes[i] == mode))
spec shH(hr) = cipherSuiteMap[shSuite(hr)].Hash
spec shEarly(state, n, h) = ite(n.Params.UsingPSK, content(state.earlySecret), hmac(h, rep(0, hashSize(h)), rep(0, hashSize(h))))
spec shDH(state, n, hr, h) = ite(n.Params.UsingDH, dhShared(shKS(hr).Shares[0].Group, content(shKS(hr).Shares[0].KeyExchange), content(state.OfferedDH[shKS(hr).Shares[0].Group])), rep(0, hashSize(h)))
ensures [C12] message: good(alert) ==> read(hr, HandshakeTypeServerHello) && decOk(ServerHelloBody, content(hr.msg.body)) && (is(next, clientStateWaitEE) || is(next, clientStateStart))
ensures [C12] refused: !good(alert) ==> refused(next, acts)
ensures [C14] suite-offered: good(alert) ==> exists(i, 0, len(suites), suites[i] == shSuite(hr))
ensures [C14] version: good(alert) ==> shB(hr).Version == tls12Version && extHas(ExtensionTypeSupportedVersions, shB(hr).Extensions) && ext(SupportedVersionsExtension, shB(hr).Extensions).Versions[0] == tls13Version
ensures [C12] retry: good(alert) ==> iff(is(next, clientStateStart), isHRR(hr))
ensures [C12] one-retry: good(alert) && is(next, clientStateStart) ==> old(state.helloRetryRequest) == nil
ensures [C09,C12] retry-transcript: good(alert) && is(next, clientStateStart) ==> cStart(next).helloRetryRequest == hr.msg && cStart(next).firstClientHello != nil && cStart(next).firstClientHello.msgType == HandshakeTypeMessageHash && content(cStart(next).firstClientHello.body) == hash(shH(hr), msgBytes(state.clientHello)) && cStart(next).firstClientHello.length == hashSize(shH(hr))
ensures [C12] retry-actions: good(alert) && is(next, clientStateStart) ==> len(acts) == 1 && is(acts[0], ResetOut) && as(acts[0], ResetOut).seq == 1
ensures [C14,C15] retry-suite: good(alert) && is(next, clientStateStart) ==> cStart(next).Config != nil && len(cStart(next).Config.CipherSuites) == 1 && cStart(next).Config.CipherSuites[0] == shSuite(hr) && cStart(next).Config.PSKModes == state.Config.PSKModes && cStart(next).Config.Groups == state.Config.Groups && cStart(next).Opts == state.Opts && cStart(next).hsCtx == state.hsCtx
ensures [C10] retry-authentication: good(alert) && is(next, clientStateStart) ==> cStart(next).Config.InsecureSkipVerify == state.Config.InsecureSkipVerify && cStart(next).Config.RootCAs == state.Config.RootCAs && cStart(next).Config.ServerName == state.Config.ServerName && cStart(next).Config.VerifyPeerCertificate == state.Config.VerifyPeerCertificate
ensures [C26] config-untouched: len(state.Config.CipherSuites) == len(suites) && state.Config.CipherSuites == suites
ensures [C15] cookie: good(alert) && is(next, clientStateStart) && handler == nil ==> extHas(ExtensionTypeCookie, shB(hr).Extensions) && content(cStart(next).cookie) == content(ext(CookieExtension, shB(hr).Extensions).Cookie)
ensures [C14] entropy: good(alert) && is(next, clientStateWaitEE) && !old(state.Params.UsingPSK) && !old(state.Params.UsingDH) ==> wEE(next).Params.UsingPSK || wEE(next).Params.UsingDH
ensures [C10,C13] psk-offered: good(alert) && is(next, clientStateWaitEE) && wEE(next).Params.UsingPSK && !old(state.Params.UsingPSK) ==> !isnil(state.earlySecret) && shH(hr) == state.earlyHash
ensures [C14] psk-selected: good(alert) && is(next, clientStateWaitEE) && handler == nil && !old(state.Params.UsingPSK) ==> iff(wEE(next).Params.UsingPSK, extHas(ExtensionTypePreSharedKey, shB(hr).Extensions)) && imp(wEE(next).Params.UsingPSK, ext(PreSharedKeyExtension, shB(hr).Extensions).SelectedIdentity == 0)
ensures [C14] group-offered: good(alert) && is(next, clientStateWaitEE) && handler == nil && !old(state.Params.UsingDH) ==> iff(wEE(next).Params.UsingDH, extHas(ExtensionTypeKeyShare, shB(hr).Extensions)) && imp(wEE(next).Params.UsingDH, has(state.OfferedDH, shKS(hr).Shares[0].Group))
ensures [C14] mode-offered: good(alert) && is(next, clientStateWaitEE) && wEE(next).Params.UsingPSK ==> exists(i, 0, len(modes), modes[i] == ite(wEE(next).Params.UsingDH, PSKModeDHEKE, PSKModeKE))
ensures [C14] suite: good(alert) && is(next, clientStateWaitEE) ==> wEE(next).Params.CipherSuite == shSuite(hr) && wEE(next).cryptoParams == cipherSuiteMap[shSuite(hr)]
ensures [C10,C12] carries: good(alert) && is(next, clientStateWaitEE) ==> wEE(next).Config == state.Config && wEE(next).hsCtx == state.hsCtx && wEE(next).Params.UsingClientAuth == old(state.Params.UsingClientAuth) && wEE(next).Params.ClientSendingEarlyData == old(state.Params.ClientSendingEarlyData)
ensures [C09] transcript: good(alert) && is(next, clientStateWaitEE) ==> wEE(next).handshakeHash.content == cat(t0, msgBytes(hr.msg)) && wEE(next).handshakeHash.alg == shH(hr) && !wEE(next).handshakeHash.keyed
ensures [C09,C12] actions: good(alert) && is(next, clientStateWaitEE) ==> len(acts) == ite(wEE(next).Params.ClientSendingEarlyData, 1, 2) && isRekeyIn(acts[0], EpochHandshakeData, cipherSuiteMap[shSuite(hr)], content(wEE(next).serverHandshakeTrafficSecret))
ensures [C09,C12] write-keys: good(alert) && is(next, clientStateWaitEE) && !old(state.Params.ClientSendingEarlyData) ==> isRekeyOut(acts[1], EpochHandshakeData, cipherSuiteMap[shSuite(hr)], content(wEE(next).clientHandshakeTrafficSecret))
ensures [C09] master: good(alert) && is(next, clientStateWaitEE) && handler == nil && !old(state.Params.UsingDH) ==> content(wEE(next).masterSecret) == masterE(shH(hr), shEarly(state, wEE(next), shH(hr)), shDH(state, wEE(next), hr, shH(hr)))
ensures [C09] client-secret: good(alert) && is(next, clientStateWaitEE) && handler == nil && !old(state.Params.UsingDH) ==> content(wEE(next).clientHandshakeTrafficSecret) == derive(shH(hr), hsE(shH(hr), shEarly(state, wEE(next), shH(hr)), shDH(state, wEE(next), hr, shH(hr))), "c hs traffic", hash(shH(hr), cat(t0, msgBytes(hr.msg))))
ensures [C09] server-secret: good(alert) && is(next, clientStateWaitEE) && handler == nil && !old(state.Params.UsingDH) ==> content(wEE(next).serverHandshakeTrafficSecret) == derive(shH(hr), hsE(shH(hr), shEarly(state, wEE(next), shH(hr)), shDH(state, wEE(next), hr, shH(hr))), "s hs traffic", hash(shH(hr), cat(t0, msgBytes(hr.msg))))
case aes128
pre hr.msg != nil && dec(ServerHelloBody, content(hr.msg.body)).CipherSuite == TLS_AES_128_GCM_SHA256
case aes256
pre hr.msg != nil && dec(ServerHelloBody, content(hr.msg.body)).CipherSuite == TLS_AES_256_GCM_SHA384
case other
pre hr.msg == nil || dec(ServerHelloBody, content(hr.msg.body)).CipherSuite != TLS_AES_128_GCM_SHA256 && dec(ServerHelloBody, content(hr.msg.body)).CipherSuite != TLS_AES_256_GCM_SHA384
