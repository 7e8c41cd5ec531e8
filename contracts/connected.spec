# ---- the connected state: key updates (C17) and tickets (C18) ----
spec stepC(s) = derive(s.cryptoParams.Hash, old(content(s.clientTrafficSecret)), "traffic upd", "")
spec stepS(s) = derive(s.cryptoParams.Hash, old(content(s.serverTrafficSecret)), "traffic upd", "")
spec isKeyUpdate(acts, k, req) = isMsg(acts, k, HandshakeTypeKeyUpdate) && dec(KeyUpdateBody, content(msgOf(acts, k).body)).KeyUpdateRequest == req

func (*stateConnected).KeyUpdate(state, request) (acts, alert)
pre state.hsCtx != nil && state.hsCtx.hOut != nil
ensures [C17] actions: good(alert) ==> len(acts) == 3 && isKeyUpdate(acts, 0, request) && is(acts[1], SendQueuedHandshake) && isRekeyOut(acts[2], EpochUpdate, state.cryptoParams, ite(state.isClient, content(state.clientTrafficSecret), content(state.serverTrafficSecret)))
ensures [C17] client-step: state.isClient ==> content(state.clientTrafficSecret) == stepC(state) && content(state.serverTrafficSecret) == old(content(state.serverTrafficSecret))
ensures [C17] server-step: !state.isClient ==> content(state.serverTrafficSecret) == stepS(state) && content(state.clientTrafficSecret) == old(content(state.clientTrafficSecret))
ensures [C17] rest: state.isClient == old(state.isClient) && state.cryptoParams == old(state.cryptoParams) && content(state.resumptionSecret) == old(content(state.resumptionSecret)) && content(state.exporterSecret) == old(content(state.exporterSecret)) && state.hsCtx == old(state.hsCtx)
ensures [C17] none-on-error: !good(alert) ==> len(acts) == 0
case sha256
set state.cryptoParams := cipherSuiteMap[TLS_AES_128_GCM_SHA256]
case sha384
set state.cryptoParams := cipherSuiteMap[TLS_AES_256_GCM_SHA384]

func (stateConnected).ProcessMessage(state, hm) (next, acts, alert)
nilable hm
pre state.hsCtx != nil && state.hsCtx.hOut != nil
let h = state.cryptoParams.Hash
let isKU = hm != nil && hm.msgType == HandshakeTypeKeyUpdate
let isTkt = hm != nil && hm.msgType == HandshakeTypeNewSessionTicket
let req = dec(KeyUpdateBody, content(hm.body)).KeyUpdateRequest == KeyUpdateRequested
let tkt = dec(NewSessionTicketBody, content(hm.body))
spec stored(acts, k) = the(StorePSK, acts, k).PSK
ensures [C17,C18] only: good(alert) ==> isKU || isTkt && state.isClient
ensures [C17,C18] connected: good(alert) ==> is(next, stateConnected) && connected(next).isClient == state.isClient && connected(next).cryptoParams == state.cryptoParams && connected(next).hsCtx == state.hsCtx && content(connected(next).resumptionSecret) == content(state.resumptionSecret) && content(connected(next).exporterSecret) == content(state.exporterSecret) && connected(next).Params == state.Params
ensures [C17,C18] refused: !good(alert) ==> next == nil && len(acts) == 0
ensures [C17] peer-step-client: good(alert) && isKU && state.isClient ==> content(connected(next).serverTrafficSecret) == stepS(state) && isRekeyIn(acts[0], EpochUpdate, state.cryptoParams, stepS(state))
ensures [C17] peer-step-server: good(alert) && isKU && !state.isClient ==> content(connected(next).clientTrafficSecret) == stepC(state) && isRekeyIn(acts[0], EpochUpdate, state.cryptoParams, stepC(state))
ensures [C17] not-requested: good(alert) && isKU && !req ==> len(acts) == 1 && imp(state.isClient, content(connected(next).clientTrafficSecret) == content(state.clientTrafficSecret)) && imp(!state.isClient, content(connected(next).serverTrafficSecret) == content(state.serverTrafficSecret))
ensures [C17] answer-client: good(alert) && isKU && req && state.isClient ==> len(acts) == 4 && isKeyUpdate(acts, 1, KeyUpdateNotRequested) && is(acts[2], SendQueuedHandshake) && isRekeyOut(acts[3], EpochUpdate, state.cryptoParams, stepC(state)) && content(connected(next).clientTrafficSecret) == stepC(state)
ensures [C17] answer-server: good(alert) && isKU && req && !state.isClient ==> len(acts) == 4 && isKeyUpdate(acts, 1, KeyUpdateNotRequested) && is(acts[2], SendQueuedHandshake) && isRekeyOut(acts[3], EpochUpdate, state.cryptoParams, stepS(state)) && content(connected(next).serverTrafficSecret) == stepS(state)
ensures [C18] ticket: good(alert) && isTkt ==> len(acts) == 1 && is(acts[0], StorePSK) && content(stored(acts, 0).Identity) == content(tkt.Ticket) && stored(acts, 0).CipherSuite == state.cryptoParams.Suite && stored(acts, 0).IsResumption && stored(acts, 0).NextProto == state.Params.NextProto && stored(acts, 0).TicketAgeAdd == tkt.TicketAgeAdd
ensures [C18] ticket-key: good(alert) && isTkt ==> content(stored(acts, 0).Key) == resumptionKey(h, state.resumptionSecret, tkt.TicketNonce)
ensures [C18] ticket-times: good(alert) && isTkt ==> events("now") == 2 && stored(acts, 0).ReceivedAt == event("now", 0, 0) && stored(acts, 0).ExpiresAt == event("now", 1, 0) + tkt.TicketLifetime * 1000000000
ensures [C18] ticket-keeps: good(alert) && isTkt ==> content(connected(next).clientTrafficSecret) == content(state.clientTrafficSecret) && content(connected(next).serverTrafficSecret) == content(state.serverTrafficSecret)
case sha256
set state.cryptoParams := cipherSuiteMap[TLS_AES_128_GCM_SHA256]
case sha384
set state.cryptoParams := cipherSuiteMap[TLS_AES_256_GCM_SHA384]

spec resumptionKey(h, secret, nonce) = expandLabel(h, content(secret), "resumption", content(nonce), hashSize(h))
func (*stateConnected).NewSessionTicket(state, length, lifetime, earlyDataLifetime) (acts, alert)
pre state.hsCtx != nil && state.hsCtx.hOut != nil && length >= 0
let h = state.cryptoParams.Hash
spec sentTicket(acts) = dec(NewSessionTicketBody, content(msgOf(acts, 1).body))
ensures [C18] actions: good(alert) ==> len(acts) == 3 && is(acts[0], StorePSK) && isMsg(acts, 1, HandshakeTypeNewSessionTicket) && is(acts[2], SendQueuedHandshake)
ensures [C18] issued-key: good(alert) ==> content(stored(acts, 0).Key) == resumptionKey(h, state.resumptionSecret, sentTicket(acts).TicketNonce)
ensures [C18] issued: good(alert) ==> content(stored(acts, 0).Identity) == content(sentTicket(acts).Ticket) && stored(acts, 0).CipherSuite == state.cryptoParams.Suite && stored(acts, 0).IsResumption && stored(acts, 0).NextProto == state.Params.NextProto && stored(acts, 0).TicketAgeAdd == sentTicket(acts).TicketAgeAdd
ensures [C18] issued-times: good(alert) ==> sentTicket(acts).TicketLifetime == lifetime && events("now") == 2 && stored(acts, 0).ReceivedAt == event("now", 0, 0) && stored(acts, 0).ExpiresAt == event("now", 1, 0) + lifetime * 1000000000
ensures [C18] issued-size: good(alert) ==> len(sentTicket(acts).Ticket) == length && len(sentTicket(acts).TicketNonce) == 16
ensures [C18] none-on-error: !good(alert) ==> len(acts) == 0
ensures [C18] keeps: content(state.resumptionSecret) == old(content(state.resumptionSecret)) && content(state.clientTrafficSecret) == old(content(state.clientTrafficSecret)) && content(state.serverTrafficSecret) == old(content(state.serverTrafficSecret))
case sha256
set state.cryptoParams := cipherSuiteMap[TLS_AES_128_GCM_SHA256]
case sha384
set state.cryptoParams := cipherSuiteMap[TLS_AES_256_GCM_SHA384]
