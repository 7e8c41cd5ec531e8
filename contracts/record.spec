# Record layer (C01, C02)

spec combSeq(c, dg) = ite(dg, c.seq + int(c.epoch)*281474976710656, c.seq)
spec nonceOf(iv, s) = cat(iv[:len(iv)-8], bytes(xor(iv[len(iv)-8], (s>>56)%256), xor(iv[len(iv)-7], (s>>48)%256), xor(iv[len(iv)-6], (s>>40)%256), xor(iv[len(iv)-5], (s>>32)%256), xor(iv[len(iv)-4], (s>>24)%256), xor(iv[len(iv)-3], (s>>16)%256), xor(iv[len(iv)-2], (s>>8)%256), xor(iv[len(iv)-1], s%256)))
uf aeadSeal(int, bytes, bytes, bytes) bytes
uf aeadOpen(int, bytes, bytes, bytes) bytes
uf aeadOk(int, bytes, bytes, bytes) bool
uf aeadOverhead(int) int 0 255

func (*cipherState).computeNonce(c, seq) (nonce)
pre len(c.iv) >= 8
ensures [C01,C02] nonce: nonce == nonceOf(c.iv, seq)
ensures [C01,C02] iv-unchanged: c.iv == old(c.iv)

func (*cipherState).combineSeq(c, datagram) (s)
pre c.seq < 281474976710656
ensures [C01] combine: s == combSeq(c, datagram)

func (*cipherState).incrementSequenceNumber(c) ()
ensures [C01,C02] step: c.seq == old(c.seq) + 1
ensures [C01,C02] limit: c.seq < 281474976710656

# what is put on the wire for plaintext pt under cipher state c (before the call)
spec outerType(c, t) = ite(c.cipher != nil, RecordTypeApplicationData, t)
spec recLen(c, n, pad) = ite(c.cipher != nil, n + 1 + pad + aeadOverhead(c.cipher.id), n)
spec dtlsWire(v) = ite(v == tls12Version, 65277, 65279)
spec recHeader(r, c, t, n, pad) = ite(r.datagram, cat(bytes(outerType(c, t)), be(dtlsWire(r.version), 2), be(combSeq(c, true), 8), be(recLen(c, n, pad), 2)), cat(bytes(outerType(c, t)), be(r.version, 2), be(recLen(c, n, pad), 2)))
spec innerPlain(t, frag, pad) = cat(frag, bytes(t), rep(0, pad))
spec recBody(r, c, t, frag, pad) = ite(c.cipher != nil, aeadSeal(c.cipher.id, nonceOf(c.iv, combSeq(c, r.datagram)), recHeader(r, c, t, len(frag), pad), innerPlain(t, frag, pad)), frag)
spec wireRecord(r, c, t, frag, pad) = cat(recHeader(r, c, t, len(frag), pad), recBody(r, c, t, frag, pad))

func (*DefaultRecordLayer).writeRecordWithPadding(r, pt, cipher, padLen) (err)
pre r.direction == DirectionWrite
pre r.conn != nil
pre cipher.seq < 281474976710656
pre cipher.cipher != nil ==> len(cipher.iv) >= 8
pre 0 <= padLen
pre r.datagram ==> r.version == tls12Version || r.version == tls10Version
let out0 = old(r.conn.out)
let rec = wireRecord(r, cipher, pt.contentType, content(pt.fragment), padLen)
let toobig = len(pt.fragment) > 16384
ensures [C01] wire: r.conn.out == out0 || r.conn.out == cat(out0, rec)
ensures [C01] sequence: cipher.seq == old(cipher.seq) + ite(r.conn.out == out0, 0, 1)
ensures [C01] error-if-nothing-sent: r.conn.out == out0 ==> err != nil
ensures [C01] no-oversize: toobig ==> r.conn.out == out0
ensures [C01,C16] full-size-accepted: !toobig && padLen == 0 ==> r.conn.out == cat(out0, rec)
ensures [C01] cleartext-never-padded: padLen > 0 && cipher.cipher == nil ==> r.conn.out == out0
ensures [C01] fragment-unchanged: pt.fragment == old(pt.fragment)
ensures [C01] state-kept: cipher.epoch == old(cipher.epoch) && cipher.iv == old(cipher.iv) && r.version == old(r.version)
case tls-clear
pre !r.datagram && cipher.cipher == nil
case tls-aead
pre !r.datagram && cipher.cipher != nil
case dtls-clear
pre r.datagram && cipher.cipher == nil
case dtls-aead
pre r.datagram && cipher.cipher != nil

func (*DefaultRecordLayer).WriteRecord(r, pt) (err)
pre r.direction == DirectionWrite
pre r.conn != nil && r.cipher != nil
pre r.cipher.seq < 281474976710656
pre r.cipher.cipher != nil ==> len(r.cipher.iv) >= 8
pre r.datagram ==> r.version == tls12Version || r.version == tls10Version
let out0 = old(r.conn.out)
let rec = wireRecord(r, r.cipher, pt.contentType, content(pt.fragment), 0)
ensures [C01] wire: r.conn.out == out0 || r.conn.out == cat(out0, rec)
ensures [C01] sequence: r.cipher.seq == old(r.cipher.seq) + ite(r.conn.out == out0, 0, 1)
case tls-clear
pre !r.datagram && r.cipher.cipher == nil
case tls-aead
pre !r.datagram && r.cipher.cipher != nil
case dtls-clear
pre r.datagram && r.cipher.cipher == nil
case dtls-aead
pre r.datagram && r.cipher.cipher != nil

# C02: reading. S is everything that has arrived or will arrive; the first complete frame of it is h ++ b
spec hl(r) = ite(r.datagram, 13, 5)
spec stream(r) = cat(pending(r.frame), r.conn.in)
spec beInt8(h, i) = h[i]*72057594037927936 + h[i+1]*281474976710656 + h[i+2]*1099511627776 + h[i+3]*4294967296 + h[i+4]*16777216 + h[i+5]*65536 + h[i+6]*256 + h[i+7]
spec okType(t) = t == RecordTypeAlert || t == RecordTypeHandshake || t == RecordTypeApplicationData || t == RecordTypeAck
# opened(c, s, h, b, pt): pt is what record h ++ b carries under cipher state c and record number s
spec opened(c, s, h, b, pt) = ite(c.cipher == nil, content(pt.fragment) == b && pt.contentType == h[0], aeadOk(c.cipher.id, nonceOf(c.iv, s), h, b) && pt.contentType != 0 && len(pt.fragment) < len(aeadOpen(c.cipher.id, nonceOf(c.iv, s), h, b)) && cat(content(pt.fragment), bytes(pt.contentType), rep(0, len(aeadOpen(c.cipher.id, nonceOf(c.iv, s), h, b)) - len(pt.fragment) - 1)) == aeadOpen(c.cipher.id, nonceOf(c.iv, s), h, b))

func (*DefaultRecordLayer).nextRecord(r, allowOldEpoch) (pt, err)
logical X bytes
logical k int
pre 0 <= k && k <= len(X)
set pending(r.frame) := X[:k]
set r.conn.in := X[k:]
pre r.frame != nil && finv(r.frame)
pre r.direction == DirectionRead
pre r.conn != nil && r.cipher != nil
pre r.cipher.seq < 281474976710655
pre r.cipher.cipher != nil ==> len(r.cipher.iv) >= 8
pre r.cachedRecord == nil && isnil(r.cachedError)
let S = X
let n = hl(r)
let h = X[:n]
let L = recLenOf(h)
let b = S[n:n+L]
let c0 = old(r.cipher)
let sq = beInt8(h, 3)
let ep = h[3]*256 + h[4]
inv finv(r.frame)
inv err != nil ==> err == AlertWouldBlock && stream(r) == S
inv err == nil ==> len(header) == n && len(body) == recLenOf(header) && cat(header, body, stream(r)) == S
ensures [C02] consumed: stream(r) == S || len(S) >= n + L && stream(r) == S[n+L:]
ensures [C02] ok-consumed: err == nil ==> len(stream(r)) == len(S) - n - L
ensures [C02] type-checked: err == nil ==> okType(h[0])
ensures [C02] size-checked: err == nil ==> L <= 16384+256 && len(pt.fragment) <= 16384
ensures [C02] error-no-record: err != nil ==> pt == nil
ensures [C02] tls-opened: err == nil && !r.datagram ==> opened(c0, old(c0.seq), h, b, pt)
ensures [C02] tls-epoch: err == nil && !r.datagram ==> pt.epoch == old(c0.epoch)
ensures [C02] dtls-known-epoch: err == nil && r.datagram ==> has(r.readCiphers, ep) && (ep == old(c0.epoch) || allowOldEpoch)
ensures [C02] dtls-opened: err == nil && r.datagram && ep == old(c0.epoch) ==> opened(c0, sq, h, b, pt) && pt.epoch == old(c0.epoch)
ensures [C02] dtls-opened-old: err == nil && r.datagram && ep != old(c0.epoch) ==> opened(r.readCiphers[ep], sq, h, b, pt) && pt.epoch == old(r.readCiphers[ep].epoch)
ensures [C02] dtls-pt-seq: err == nil && r.datagram && old(c0.cipher) != nil && ep == old(c0.epoch) ==> pt.seq == sq
ensures [C02] tls-seq: !r.datagram && err == nil ==> c0.seq == old(r.cipher.seq) + 1
ensures [C02] tls-seq-kept: !r.datagram && err != nil ==> c0.seq == old(r.cipher.seq)
ensures [C02] cipher-kept: r.cipher == c0
ensures [C02] cached: ite(err == nil, r.cachedRecord == pt && isnil(r.cachedError), isnil(r.cachedRecord))
case tls-clear
set r.datagram := false
set r.frame.details := iface(recordLayerFrameDetails, mk(recordLayerFrameDetails, r.datagram))
pre r.cipher.cipher == nil
case tls-aead
set r.datagram := false
set r.frame.details := iface(recordLayerFrameDetails, mk(recordLayerFrameDetails, r.datagram))
pre r.cipher.cipher != nil
case dtls-clear
set r.datagram := true
set r.frame.details := iface(recordLayerFrameDetails, mk(recordLayerFrameDetails, r.datagram))
pre r.cipher.cipher == nil
case dtls-aead
set r.datagram := true
set r.frame.details := iface(recordLayerFrameDetails, mk(recordLayerFrameDetails, r.datagram))
pre r.cipher.cipher != nil

func (*DefaultRecordLayer).ReadRecord(r) (pt, err)
logical X bytes
logical k int
pre 0 <= k && k <= len(X)
set pending(r.frame) := X[:k]
set r.conn.in := X[k:]
pre r.frame != nil && finv(r.frame)
pre r.direction == DirectionRead
pre r.conn != nil && r.cipher != nil
pre r.cipher.seq < 281474976710655
pre r.cipher.cipher != nil ==> len(r.cipher.iv) >= 8
let S = X
let n = hl(r)
let h = X[:n]
let L = recLenOf(h)
let b = S[n:n+L]
let c0 = old(r.cipher)
let sq = beInt8(h, 3)
let ep = h[3]*256 + h[4]
inv finv(r.frame)
inv err != nil ==> err == AlertWouldBlock && stream(r) == S
inv err == nil ==> len(header) == n && len(body) == recLenOf(header) && cat(header, body, stream(r)) == S
ensures [C02] consumed: stream(r) == S || len(S) >= n + L && stream(r) == S[n+L:]
ensures [C02] ok-consumed: err == nil ==> len(stream(r)) == len(S) - n - L
ensures [C02] type-checked: err == nil ==> okType(h[0])
ensures [C02] size-checked: err == nil ==> L <= 16384+256 && len(pt.fragment) <= 16384
ensures [C02] error-no-record: err != nil ==> pt == nil
ensures [C02] tls-opened: err == nil && !r.datagram ==> opened(c0, old(c0.seq), h, b, pt)
ensures [C02] tls-epoch: err == nil && !r.datagram ==> pt.epoch == old(c0.epoch)
ensures [C02] dtls-known-epoch: err == nil && r.datagram ==> has(r.readCiphers, ep) && (ep == old(c0.epoch) || false)
ensures [C02] dtls-opened: err == nil && r.datagram && ep == old(c0.epoch) ==> opened(c0, sq, h, b, pt) && pt.epoch == old(c0.epoch)
ensures [C02] dtls-pt-seq: err == nil && r.datagram && old(c0.cipher) != nil && ep == old(c0.epoch) ==> pt.seq == sq
ensures [C02] tls-seq: !r.datagram && err == nil ==> c0.seq == old(r.cipher.seq) + 1
ensures [C02] tls-seq-kept: !r.datagram && err != nil ==> c0.seq == old(r.cipher.seq)
ensures [C02] cipher-kept: r.cipher == c0
ensures [C02] cache-emptied: isnil(r.cachedRecord) && isnil(r.cachedError)
case tls-clear
set r.datagram := false
set r.frame.details := iface(recordLayerFrameDetails, mk(recordLayerFrameDetails, r.datagram))
pre r.cipher.cipher == nil
pre r.cachedRecord == nil && isnil(r.cachedError)
case tls-aead
set r.datagram := false
set r.frame.details := iface(recordLayerFrameDetails, mk(recordLayerFrameDetails, r.datagram))
pre r.cipher.cipher != nil
pre r.cachedRecord == nil && isnil(r.cachedError)
case dtls-clear
set r.datagram := true
set r.frame.details := iface(recordLayerFrameDetails, mk(recordLayerFrameDetails, r.datagram))
pre r.cipher.cipher == nil
pre r.cachedRecord == nil && isnil(r.cachedError)
case dtls-aead
set r.datagram := true
set r.frame.details := iface(recordLayerFrameDetails, mk(recordLayerFrameDetails, r.datagram))
pre r.cipher.cipher != nil
pre r.cachedRecord == nil && isnil(r.cachedError)

func (*DefaultRecordLayer).ReadRecordAnyEpoch(r) (pt, err)
logical X bytes
logical k int
pre 0 <= k && k <= len(X)
set pending(r.frame) := X[:k]
set r.conn.in := X[k:]
pre r.frame != nil && finv(r.frame)
pre r.direction == DirectionRead
pre r.conn != nil && r.cipher != nil
pre r.cipher.seq < 281474976710655
pre r.cipher.cipher != nil ==> len(r.cipher.iv) >= 8
let S = X
let n = hl(r)
let h = X[:n]
let L = recLenOf(h)
let b = S[n:n+L]
let c0 = old(r.cipher)
let sq = beInt8(h, 3)
let ep = h[3]*256 + h[4]
inv finv(r.frame)
inv err != nil ==> err == AlertWouldBlock && stream(r) == S
inv err == nil ==> len(header) == n && len(body) == recLenOf(header) && cat(header, body, stream(r)) == S
ensures [C02] consumed: stream(r) == S || len(S) >= n + L && stream(r) == S[n+L:]
ensures [C02] ok-consumed: err == nil ==> len(stream(r)) == len(S) - n - L
ensures [C02] type-checked: err == nil ==> okType(h[0])
ensures [C02] size-checked: err == nil ==> L <= 16384+256 && len(pt.fragment) <= 16384
ensures [C02] error-no-record: err != nil ==> pt == nil
ensures [C02] tls-opened: err == nil && !r.datagram ==> opened(c0, old(c0.seq), h, b, pt)
ensures [C02] tls-epoch: err == nil && !r.datagram ==> pt.epoch == old(c0.epoch)
ensures [C02] dtls-known-epoch: err == nil && r.datagram ==> has(r.readCiphers, ep) && (ep == old(c0.epoch) || true)
ensures [C02] dtls-opened: err == nil && r.datagram && ep == old(c0.epoch) ==> opened(c0, sq, h, b, pt) && pt.epoch == old(c0.epoch)
ensures [C02] dtls-opened-old: err == nil && r.datagram && ep != old(c0.epoch) ==> opened(r.readCiphers[ep], sq, h, b, pt) && pt.epoch == old(r.readCiphers[ep].epoch)
ensures [C02] dtls-pt-seq: err == nil && r.datagram && old(c0.cipher) != nil && ep == old(c0.epoch) ==> pt.seq == sq
ensures [C02] tls-seq: !r.datagram && err == nil ==> c0.seq == old(r.cipher.seq) + 1
ensures [C02] tls-seq-kept: !r.datagram && err != nil ==> c0.seq == old(r.cipher.seq)
ensures [C02] cipher-kept: r.cipher == c0
ensures [C02] cache-emptied: isnil(r.cachedRecord) && isnil(r.cachedError)
case tls-clear
set r.datagram := false
set r.frame.details := iface(recordLayerFrameDetails, mk(recordLayerFrameDetails, r.datagram))
pre r.cipher.cipher == nil
pre r.cachedRecord == nil && isnil(r.cachedError)
case tls-aead
set r.datagram := false
set r.frame.details := iface(recordLayerFrameDetails, mk(recordLayerFrameDetails, r.datagram))
pre r.cipher.cipher != nil
pre r.cachedRecord == nil && isnil(r.cachedError)
case dtls-clear
set r.datagram := true
set r.frame.details := iface(recordLayerFrameDetails, mk(recordLayerFrameDetails, r.datagram))
pre r.cipher.cipher == nil
pre r.cachedRecord == nil && isnil(r.cachedError)
case dtls-aead
set r.datagram := true
set r.frame.details := iface(recordLayerFrameDetails, mk(recordLayerFrameDetails, r.datagram))
pre r.cipher.cipher != nil
pre r.cachedRecord == nil && isnil(r.cachedError)

# a cached record is handed out again (peek) until it is read
func (*DefaultRecordLayer).ReadRecord@cached(r) (pt, err)
pre !isnil(r.cachedRecord) && r.conn != nil
ensures [C02] replayed: pt == old(r.cachedRecord) && err == old(r.cachedError)
ensures [C02] emptied: isnil(r.cachedRecord) && isnil(r.cachedError)
ensures [C02] no-read: r.conn.in == old(r.conn.in)
func (*DefaultRecordLayer).PeekRecordType@cached(r, block) (t, err)
pre !isnil(r.cachedRecord) && r.conn != nil && isnil(r.cachedError)
ensures [C02] type: err == nil && t == old(r.cachedRecord.contentType)
ensures [C02] kept: r.cachedRecord == old(r.cachedRecord) && r.conn.in == old(r.conn.in)
