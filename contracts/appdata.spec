# ---- application data (C16, C27): the record layer is seen from above (its contents are C01, C02) ----
spec conn16(c) = c.hsCtx.timers != nil && c.config != nil && c.hsCtx != nil && c.in != nil && c.out != nil && c.conn != nil && c.hsCtx.hIn != nil && c.hsCtx.hOut != nil && c.hsCtx.hIn.frame != nil
spec done(c) = c.handshakeComplete && is(c.hState, stateConnected) && c.handshakeAlert == AlertNoAlert && c.state.hsCtx != nil && c.state.hsCtx.hOut != nil

func (*Conn).Write(c, buffer) (n, err)
opt records=ghost
pre c.out != nil && content(c.out.sent) == "" && !c.out.bad
inv content(c.out.sent) == content(buffer)[:start] && !c.out.bad && sent == start && 0 <= start && start <= len(buffer)
let may = is(c.hState, stateConnected) || c.isClient && c.out.epoch == EpochEarlyData
ensures [C27] refused: !may ==> n == 0 && err != nil && content(c.out.sent) == ""
ensures [C27] allowed: may && len(buffer) == 0 ==> err == nil
ensures [C16] sent: content(c.out.sent) == content(buffer)[:n] && 0 <= n && n <= len(buffer)
ensures [C16] all: err == nil ==> n == len(buffer)
ensures [C16] records: !c.out.bad

func readPartial(in, buffer) (n)
let p = old(content(*in))
ensures [C16] length: n == ite(len(p) < len(buffer), len(p), len(buffer))
ensures [C16] prefix: content(buffer)[:n] == p[:n] && content(buffer)[n:] == old(content(buffer))[n:]
ensures [C16] rest: content(*in) == p[n:]

# handshake and acknowledgement bookkeeping does not touch application data
func (*HandshakeLayer).QueueMessage@records(h, hm) (err)
cut
opt trusted=queueing or writing a handshake message changes only the handshake layer and the outgoing records
func (*HandshakeLayer).SendQueuedMessages@records(h) (n, err)
cut
opt trusted=writing handshake messages changes only the handshake layer and the outgoing records
func (*timerSet).start@records(ts, label, cb, delayMs) (err)
cut
opt trusted=starting a timer changes only the timer set (C22)
func (*HandshakeContext).processAck@records(h, data) (err)
cut
nilable data
opt trusted=an acknowledgement changes only the record of sent fragments, the queue and the timers (C21)

func makeTrafficKeys@records(params, secret) (ks)
cut
nilable secret
opt trusted=key derivation is C08
func (*Conn).consumeRecord@records(c) (err)
cut
opt records=ghost
opt use=makeTrafficKeys@records; (*HandshakeLayer).QueueMessage@records; (*HandshakeLayer).SendQueuedMessages@records; (*timerSet).start@records; (*HandshakeContext).processAck@records
pre conn16(c) && done(c)
inv c.readBuffer == old(c.readBuffer)
inv c.state.hsCtx != nil && c.state.hsCtx.hOut != nil
modifies c.readBuffer
modifies c.state
modifies c.in.got
modifies c.in.last
modifies c.in.epoch
modifies c.in.peek
modifies c.out.sent
modifies c.out.bad
modifies c.out.epoch
modifies c.state.hsCtx.hOut.msgSeq
ensures [C16] appended: content(c.readBuffer) == cat(old(content(c.readBuffer)), content(c.in.last))
ensures [C16] received: content(c.in.got) == cat(old(content(c.in.got)), content(c.in.last))
ensures [C16] error-no-data: err != nil ==> content(c.in.last) == ""
ensures [X] still: conn16(c) && done(c)

func (*timerSet).check@records(ts, now) (err)
cut
opt trusted=timer callbacks change only the handshake layer, the outgoing records and the timers
func (*Conn).Read(c, buffer) (n, err)
opt records=ghost
opt use=(*Conn).consumeRecord@records; (*timerSet).check@records
pre conn16(c) && content(c.in.got) == "" && imp(is(c.hState, stateConnected), done(c))
inv content(c.readBuffer) == cat(old(content(c.readBuffer)), content(c.in.got)) && conn16(c) && done(c)
inv content(buffer) == old(content(buffer))
inv len(old(c.readBuffer)) > 0 ==> content(c.in.got) == ""
let early = !c.isClient && c.config.AllowEarlyData
let before = !is(c.hState, stateConnected)
let ed = content(c.hsCtx.earlyData)
let done0 = old(done(c))
ensures [C27] refused: before && !early ==> n == 0 && err != nil
ensures [C27] early-none: before && early && len(ed) == 0 ==> n == 0 && err != nil
ensures [C16,C27] early: before && early && len(ed) > 0 ==> err == nil && n == ite(len(ed) < len(buffer), len(ed), len(buffer)) && content(buffer)[:n] == ed[:n] && content(c.hsCtx.earlyData) == ed[n:]
ensures [C27] early-only: before ==> content(c.in.got) == "" && c.readBuffer == old(c.readBuffer)
ensures [C16] stream: done0 ==> cat(old(content(c.readBuffer)), content(c.in.got)) == cat(content(buffer)[:n], content(c.readBuffer)) && content(buffer)[n:] == old(content(buffer))[n:]
ensures [C16] some: done0 && err == nil && len(buffer) > 0 ==> n > 0
ensures [C16] as-much-as-fits: done0 && err == nil && n < len(buffer) ==> len(c.readBuffer) == 0
ensures [C16] none-lost-on-error: done0 && err != nil ==> n == 0
ensures [C16] buffered-first: done0 && len(old(c.readBuffer)) > 0 && !c.config.UseDTLS ==> err == nil && content(c.in.got) == ""
case tls
pre !c.config.UseDTLS
case dtls
pre c.config.UseDTLS

# early data: what the server keeps is what it read under the early-data key
func (serverStateWaitEOED).Next@early(state, hr) (next, acts, alert)
opt records=ghost
opt use=makeTrafficKeys@records
pre hr != nil && hstate(state) && state.hsCtx.hIn != nil && state.hsCtx.hIn.conn != nil && content(state.hsCtx.hIn.conn.got) == "" && state.hsCtx.hIn.conn.peek == 256
inv content(state.hsCtx.earlyData) == cat(old(content(state.hsCtx.earlyData)), content(state.hsCtx.hIn.conn.got)) && state.hsCtx.hIn.conn.peek == 256
ensures [C16,C27] early-data: content(state.hsCtx.earlyData) == cat(old(content(state.hsCtx.earlyData)), content(state.hsCtx.hIn.conn.got))
ensures [C27] early-key: state.hsCtx.hIn.conn.epoch == EpochEarlyData
case aes128
set state.cryptoParams := cipherSuiteMap[TLS_AES_128_GCM_SHA256]
set state.handshakeHash.alg := 5
case aes256
set state.cryptoParams := cipherSuiteMap[TLS_AES_256_GCM_SHA384]
set state.handshakeHash.alg := 6

func (*Conn).SendKeyUpdate(c, requestUpdate) (err)
opt records=ghost
opt use=(*HandshakeLayer).QueueMessage@records; (*HandshakeLayer).SendQueuedMessages@records; (*timerSet).start@records
pre conn16(c) && imp(c.handshakeComplete, done(c))
ensures [C17,C27] before-completion: !old(c.handshakeComplete) ==> err != nil && events("RecordLayer.Rekey") == 0 && c.state == old(c.state)
ensures [C17] one-update: err == nil ==> events("RecordLayer.Rekey") == 1 && event("RecordLayer.Rekey", 0, 0) == c.out && events("(*HandshakeLayer).QueueMessage") == 1
ensures [C17] keys: err == nil ==> event("RecordLayer.Rekey", 0, 1) == EpochUpdate && keysOf(*event("RecordLayer.Rekey", 0, 3), c.state.cryptoParams, ite(c.state.isClient, c.state.clientTrafficSecret, c.state.serverTrafficSecret))
ensures [C17] step-client: err == nil && c.state.isClient ==> content(c.state.clientTrafficSecret) == old(stepC(c.state)) && content(c.state.serverTrafficSecret) == old(content(c.state.serverTrafficSecret))
ensures [C17] step-server: err == nil && !c.state.isClient ==> content(c.state.serverTrafficSecret) == old(stepS(c.state)) && content(c.state.clientTrafficSecret) == old(content(c.state.clientTrafficSecret))
ensures [C17] request: err == nil ==> dec(KeyUpdateBody, content(event("(*HandshakeLayer).QueueMessage", 0, 1).body)).KeyUpdateRequest == ite(requestUpdate, KeyUpdateRequested, KeyUpdateNotRequested)
case sha256
set c.state.cryptoParams := cipherSuiteMap[TLS_AES_128_GCM_SHA256]
case sha384
set c.state.cryptoParams := cipherSuiteMap[TLS_AES_256_GCM_SHA384]
