# ---- exporter (C19) ----
func (*Conn).ComputeExporter(c, label, context, keyLength) (out, err)
pre 0 <= keyLength && len(label) <= 249
pre keyLength <= 255*hashSize(c.state.cryptoParams.Hash)
let h = c.state.cryptoParams.Hash
let connected = is(c.hState, stateConnected)
let empty = hash(h, "")
ensures [C19] refused-before-connected: !connected || isnil(c.state.exporterSecret) ==> err != nil && isnil(out)
ensures [C19] exported: connected && !isnil(c.state.exporterSecret) ==> err == nil && out == expandLabel(h, derive(h, content(c.state.exporterSecret), label, empty), "exporter", hash(h, content(context)), keyLength)

# ---- alerts (C23) ----
spec alertLevel(a) = ite(a == AlertNoRenegotiation || a == AlertCloseNotify, 1, 2)
spec outLayer(c) = as(c.out, *DefaultRecordLayer)
spec outReady(c) = is(c.out, *DefaultRecordLayer) && outLayer(c).direction == DirectionWrite && outLayer(c).conn != nil && outLayer(c).cipher != nil && outLayer(c).cipher.seq < 281474976710656
spec outKeyed(c) = outLayer(c).cipher.cipher != nil && len(outLayer(c).cipher.iv) >= 8
spec outDtls(c) = outLayer(c).datagram && (outLayer(c).version == tls12Version || outLayer(c).version == tls10Version)
spec wireOf(c, t, frag) = wireRecord(outLayer(c), outLayer(c).cipher, t, frag, 0)

func (*Conn).sendAlert(c, a) (e)
pre outReady(c) && c.conn != nil
ensures [C23] level-then-description: outLayer(c).conn.out == old(cat(outLayer(c).conn.out, wireOf(c, RecordTypeAlert, bytes(alertLevel(a), a))))
ensures [C23] reported: alertLevel(a) == 1 ==> e != nil
case tls-clear
pre !outLayer(c).datagram && outLayer(c).cipher.cipher == nil
case tls-aead
pre !outLayer(c).datagram && outKeyed(c)
case dtls-clear
pre outDtls(c) && outLayer(c).cipher.cipher == nil
case dtls-aead
pre outDtls(c) && outKeyed(c)

# ---- configuration (C26) ----
func (*Config).Clone(c) (r)
ensures [C26] distinct: r != nil && r != c
ensures [C26] ServerName: r.ServerName == old(c.ServerName) && c.ServerName == old(c.ServerName)
ensures [C26] SendSessionTickets: r.SendSessionTickets == old(c.SendSessionTickets) && c.SendSessionTickets == old(c.SendSessionTickets)
ensures [C26] TicketLifetime: r.TicketLifetime == old(c.TicketLifetime) && c.TicketLifetime == old(c.TicketLifetime)
ensures [C26] TicketLen: r.TicketLen == old(c.TicketLen) && c.TicketLen == old(c.TicketLen)
ensures [C26] EarlyDataLifetime: r.EarlyDataLifetime == old(c.EarlyDataLifetime) && c.EarlyDataLifetime == old(c.EarlyDataLifetime)
ensures [C26] AllowEarlyData: r.AllowEarlyData == old(c.AllowEarlyData) && c.AllowEarlyData == old(c.AllowEarlyData)
ensures [C26] RequireCookie: r.RequireCookie == old(c.RequireCookie) && c.RequireCookie == old(c.RequireCookie)
ensures [C26] CookieHandler: r.CookieHandler == old(c.CookieHandler) && c.CookieHandler == old(c.CookieHandler)
ensures [C26] CookieProtector: r.CookieProtector == old(c.CookieProtector) && c.CookieProtector == old(c.CookieProtector)
ensures [C26] ExtensionHandler: r.ExtensionHandler == old(c.ExtensionHandler) && c.ExtensionHandler == old(c.ExtensionHandler)
ensures [C26] RequireClientAuth: r.RequireClientAuth == old(c.RequireClientAuth) && c.RequireClientAuth == old(c.RequireClientAuth)
ensures [C26] Time: r.Time == old(c.Time) && c.Time == old(c.Time)
ensures [C26] RootCAs: r.RootCAs == old(c.RootCAs) && c.RootCAs == old(c.RootCAs)
ensures [C26] InsecureSkipVerify: r.InsecureSkipVerify == old(c.InsecureSkipVerify) && c.InsecureSkipVerify == old(c.InsecureSkipVerify)
ensures [C26] Certificates: r.Certificates == old(c.Certificates) && c.Certificates == old(c.Certificates)
ensures [C26] VerifyPeerCertificate: r.VerifyPeerCertificate == old(c.VerifyPeerCertificate) && c.VerifyPeerCertificate == old(c.VerifyPeerCertificate)
ensures [C26] CipherSuites: r.CipherSuites == old(c.CipherSuites) && c.CipherSuites == old(c.CipherSuites)
ensures [C26] Groups: r.Groups == old(c.Groups) && c.Groups == old(c.Groups)
ensures [C26] SignatureSchemes: r.SignatureSchemes == old(c.SignatureSchemes) && c.SignatureSchemes == old(c.SignatureSchemes)
ensures [C26] NextProtos: r.NextProtos == old(c.NextProtos) && c.NextProtos == old(c.NextProtos)
ensures [C26] PSKs: r.PSKs == old(c.PSKs) && c.PSKs == old(c.PSKs)
ensures [C26] PSKModes: r.PSKModes == old(c.PSKModes) && c.PSKModes == old(c.PSKModes)
ensures [C26] NonBlocking: r.NonBlocking == old(c.NonBlocking) && c.NonBlocking == old(c.NonBlocking)
ensures [C26] UseDTLS: r.UseDTLS == old(c.UseDTLS) && c.UseDTLS == old(c.UseDTLS)
ensures [C26] RecordLayer: r.RecordLayer == old(c.RecordLayer) && c.RecordLayer == old(c.RecordLayer)

func (*Config).Init(c, isClient) (err)
ensures [C26] no-error: err == nil
ensures [C26] ServerName: c.ServerName == old(c.ServerName)
ensures [C26] SendSessionTickets: c.SendSessionTickets == old(c.SendSessionTickets)
ensures [C26] TicketLifetime: c.TicketLifetime == old(c.TicketLifetime)
ensures [C26] TicketLen: c.TicketLen == ite(old(c.TicketLen) == 0, 16, old(c.TicketLen))
ensures [C26] EarlyDataLifetime: c.EarlyDataLifetime == old(c.EarlyDataLifetime)
ensures [C26] AllowEarlyData: c.AllowEarlyData == old(c.AllowEarlyData)
ensures [C26] RequireCookie: c.RequireCookie == old(c.RequireCookie)
ensures [C26] CookieHandler: c.CookieHandler == old(c.CookieHandler)
ensures [C26] CookieProtector: c.CookieProtector == old(c.CookieProtector)
ensures [C26] ExtensionHandler: c.ExtensionHandler == old(c.ExtensionHandler)
ensures [C26] RequireClientAuth: c.RequireClientAuth == old(c.RequireClientAuth)
ensures [C26] Time: c.Time == old(c.Time)
ensures [C26] RootCAs: c.RootCAs == old(c.RootCAs)
ensures [C26] InsecureSkipVerify: c.InsecureSkipVerify == old(c.InsecureSkipVerify)
ensures [C26] Certificates: c.Certificates == old(c.Certificates)
ensures [C26] VerifyPeerCertificate: c.VerifyPeerCertificate == old(c.VerifyPeerCertificate)
ensures [C26] CipherSuites: same(c.CipherSuites, ite(len(old(c.CipherSuites)) == 0, defaultSupportedCipherSuites, old(c.CipherSuites)))
ensures [C26] Groups: same(c.Groups, ite(len(old(c.Groups)) == 0, defaultSupportedGroups, old(c.Groups)))
ensures [C26] SignatureSchemes: same(c.SignatureSchemes, ite(len(old(c.SignatureSchemes)) == 0, defaultSignatureSchemes, old(c.SignatureSchemes)))
ensures [C26] NextProtos: c.NextProtos == old(c.NextProtos)
ensures [C26] PSKs: old(c.PSKs) != nil ==> c.PSKs == old(c.PSKs)
ensures [C26] PSKs-default: old(c.PSKs) == nil ==> is(c.PSKs, *PSKMapCache)
ensures [C26] PSKModes: same(c.PSKModes, ite(len(old(c.PSKModes)) == 0, defaultPSKModes, old(c.PSKModes)))
ensures [C26] NonBlocking: c.NonBlocking == old(c.NonBlocking)
ensures [C26] UseDTLS: c.UseDTLS == old(c.UseDTLS)
ensures [C26] RecordLayer: c.RecordLayer == old(c.RecordLayer)

# the handshake layer's own alert: always fatal
spec hsReady(h) = is(h.conn, *DefaultRecordLayer) && as(h.conn, *DefaultRecordLayer).direction == DirectionWrite && as(h.conn, *DefaultRecordLayer).conn != nil && as(h.conn, *DefaultRecordLayer).cipher != nil && as(h.conn, *DefaultRecordLayer).cipher.seq < 281474976710656
func (*HandshakeLayer).sendAlert(h, a) (e)
pre hsReady(h)
let r = as(h.conn, *DefaultRecordLayer)
ensures [C23] level-then-description: a != AlertCloseNotify && a != AlertNoRenegotiation ==> r.conn.out == old(cat(r.conn.out, wireRecord(r, r.cipher, RecordTypeAlert, bytes(2, a), 0)))
case tls-clear
pre !as(h.conn, *DefaultRecordLayer).datagram && as(h.conn, *DefaultRecordLayer).cipher.cipher == nil
case tls-aead
pre !as(h.conn, *DefaultRecordLayer).datagram && as(h.conn, *DefaultRecordLayer).cipher.cipher != nil && len(as(h.conn, *DefaultRecordLayer).cipher.iv) >= 8
case dtls
pre as(h.conn, *DefaultRecordLayer).datagram && as(h.conn, *DefaultRecordLayer).version == tls12Version && as(h.conn, *DefaultRecordLayer).cipher.cipher == nil

# a received alert (the next record is an alert; that it is the record received is C02)
spec inLayer(c) = as(c.in, *DefaultRecordLayer)
func (*Conn).consumeRecord@alert(c) (err)
pre outReady(c) && c.conn != nil && c.config != nil
pre !outLayer(c).datagram && outLayer(c).cipher.cipher == nil
pre is(c.in, *DefaultRecordLayer) && inLayer(c).conn != nil && inLayer(c) != outLayer(c)
pre !isnil(inLayer(c).cachedRecord) && isnil(inLayer(c).cachedError)
pre inLayer(c).cachedRecord.contentType == RecordTypeAlert
let f = content(inLayer(c).cachedRecord.fragment)
let sent = outLayer(c).conn.out
let answer = cat(outLayer(c).conn.out, wireOf(c, RecordTypeAlert, bytes(2, AlertUnexpectedMessage)))
ensures [C23] malformed-refused: len(f) != 2 ==> err != nil && outLayer(c).conn.out == answer
ensures [C23] close: len(f) == 2 && f[1] == 0 ==> err == io.EOF && outLayer(c).conn.out == sent
ensures [C23] warning: len(f) == 2 && f[1] != 0 && f[0] == 1 ==> err == nil && outLayer(c).conn.out == sent
ensures [C23] fatal: len(f) == 2 && f[1] != 0 && f[0] == 2 ==> is(err, Alert) && as(err, Alert) == f[1] && outLayer(c).conn.out == sent
ensures [C23] bad-level: len(f) == 2 && f[1] != 0 && f[0] != 1 && f[0] != 2 ==> err != nil && outLayer(c).conn.out == answer
ensures [C16,C23] no-data: c.readBuffer == old(c.readBuffer)

func (*HandshakeLayer).readRecord@alert(h) (err)
pre hsReady(h) && as(h.conn, *DefaultRecordLayer).cipher.cipher == nil && !as(h.conn, *DefaultRecordLayer).datagram && !h.datagram
let r = as(h.conn, *DefaultRecordLayer)
pre !isnil(as(h.conn, *DefaultRecordLayer).cachedRecord) && isnil(as(h.conn, *DefaultRecordLayer).cachedError) && as(h.conn, *DefaultRecordLayer).cachedRecord.contentType == RecordTypeAlert
let f = content(as(h.conn, *DefaultRecordLayer).cachedRecord.fragment)
ensures [C23] short-refused: len(f) < 2 ==> err != nil
ensures [C23] reported: len(f) >= 2 ==> is(err, Alert) && as(err, Alert) == f[1]
ensures [C20,C23] no-message-bytes: h.frame == old(h.frame) && h.recvdRecords == old(h.recvdRecords)
