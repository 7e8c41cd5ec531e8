# ---- DTLS acknowledgement and retransmission (C21) ----
spec ackCovers(f, seq, o, n) = f.acked && f.seq == seq && f.offset <= o && f.offset + f.fragLength >= o + n
func (*HandshakeContext).fragmentAcked(h, seq, offset, fraglen) (acked)
pre forall(i, 0, len(h.sentFragments), h.sentFragments[i] != nil)
ensures [C21] only-acked: acked ==> exists(i, 0, len(h.sentFragments), ackCovers(h.sentFragments[i], seq, offset, fraglen))
ensures [C21] any-acked: !acked ==> forall(i, 0, len(h.sentFragments), !ackCovers(h.sentFragments[i], seq, offset, fraglen))

func (*HandshakeLayer).SendQueuedMessages@ack(h) (n, err)
cut
opt trusted=resending marks no fragment as acknowledged and forgets none (writeFragment)
func (*HandshakeContext).processAck(h, data) (err)
opt heap=SentHandshakeFragment
opt use=(*HandshakeLayer).SendQueuedMessages@ack; (*timerSet).start@records; (*timerSet).cancel@records
pre h.timers != nil && h.hOut != nil
pre forall(i, 0, len(h.sentFragments), h.sentFragments[i] != nil)
let n = len(h.sentFragments)
let ok = decOk(DtlsAck, content(data)) && decLen(DtlsAck, content(data)) == len(data)
spec inAck(data, r) = exists(k, 0, len(dec(DtlsAck, content(data)).RecordNumbers), dec(DtlsAck, content(data)).RecordNumbers[k] == r)
inv forall(i, 0, n, imp(old(h.sentFragments[i].acked), h.sentFragments[i].acked))
inv forall(i, 0, n, imp(h.sentFragments[i].acked && !old(h.sentFragments[i].acked), inAck(data, h.sentFragments[i].record)))
inv forall(i, 0, n, imp(exists(k, 0, it, dec(DtlsAck, content(data)).RecordNumbers[k] == h.sentFragments[i].record), h.sentFragments[i].acked))
inv forall(i, 0, it, imp(dec(DtlsAck, content(data)).RecordNumbers[ito] == h.sentFragments[i].record, h.sentFragments[i].acked))
inv forall(i, 0, n, imp(exists(k, 0, ito, dec(DtlsAck, content(data)).RecordNumbers[k] == h.sentFragments[i].record), h.sentFragments[i].acked))
ensures [C21] refused: !ok ==> err != nil && forall(i, 0, n, h.sentFragments[i].acked == old(h.sentFragments[i].acked))
ensures [C21] only-named: ok ==> forall(i, 0, n, imp(h.sentFragments[i].acked && !old(h.sentFragments[i].acked), inAck(data, h.sentFragments[i].record)))
ensures [C21] all-named: ok ==> forall(i, 0, n, imp(inAck(data, h.sentFragments[i].record), h.sentFragments[i].acked))
ensures [C21] kept: forall(i, 0, n, imp(old(h.sentFragments[i].acked), h.sentFragments[i].acked))
ensures [C21] rest: len(h.sentFragments) == n && forall(i, 0, n, h.sentFragments[i] == old(h.sentFragments[i]) && h.sentFragments[i].seq == old(h.sentFragments[i].seq) && h.sentFragments[i].offset == old(h.sentFragments[i].offset) && h.sentFragments[i].fragLength == old(h.sentFragments[i].fragLength) && h.sentFragments[i].record == old(h.sentFragments[i].record))
func (*timerSet).cancel@records(ts, label) ()
cut
opt trusted=cancelling a timer changes only the timer set (C22)

# ---- fragmentation (C20, C21) ----
func (*HandshakeContext).fragmentAcked@w(h, seq, offset, fraglen) (acked)
cut
pre forall(i, 0, len(h.sentFragments), h.sentFragments[i] != nil)
ensures [X] acked: iff(acked, exists(i, 0, len(h.sentFragments), ackCovers(h.sentFragments[i], seq, offset, fraglen)))
spec hsHdr(hm, start) = ite(hm.datagram, 12, ite(start == 0, 4, 0))
spec hsRoom(hm, start, room) = room - hsHdr(hm, start)
spec hsTake(hm, start, room) = ite(len(hm.body) - start > hsRoom(hm, start, room), hsRoom(hm, start, room), len(hm.body) - start)
spec hsBytes(hm, start, n) = cat(ite(hm.datagram, cat(bytes(hm.msgType), be(hm.length, 3), be(hm.seq, 2), be(start, 3), be(n, 3)), ite(start == 0, cat(bytes(hm.msgType), be(hm.length, 3)), "")), content(hm.body)[start:start+n])
spec rl(c) = as(c, *DefaultRecordLayer)
func (*HandshakeLayer).writeFragment(h, hm, start, room) (wrote, next, err)
opt use=(*HandshakeContext).fragmentAcked@w
opt unfold=msgB
pre h.ctx != nil && hm.datagram == h.datagram && hm.cipher != nil && is(h.conn, *DefaultRecordLayer)
pre rl(h.conn).direction == DirectionWrite && rl(h.conn).conn != nil && rl(h.conn).cipher != nil
pre 0 <= start && start <= len(hm.body) && len(hm.body) < 16777216 && hm.seq < 65536 && hm.length < 16777216
pre room > 12 && room <= 16384
pre forall(i, 0, len(h.ctx.sentFragments), h.ctx.sentFragments[i] != nil)
let n = hsTake(hm, start, room)
spec wasAcked() = event("(*HandshakeContext).fragmentAcked", 0, 4)
ensures [C20,C21] asked: ref(event("(*HandshakeContext).fragmentAcked", 0, 0)) == ref(h.ctx) && event("(*HandshakeContext).fragmentAcked", 0, 1) == hm.seq && event("(*HandshakeContext).fragmentAcked", 0, 2) == start && event("(*HandshakeContext).fragmentAcked", 0, 3) == n
let out0 = rl(h.conn).conn.out
let num = combSeq(hm.cipher, true)
let rec = wireRecord(rl(h.conn), ite(h.datagram, hm.cipher, rl(h.conn).cipher), RecordTypeHandshake, hsBytes(hm, start, n), 0)
ensures [C20] progress: next == start + n && next <= len(hm.body)
ensures [C20,C21] skipped: iff(wrote, !wasAcked())
ensures [C21] skip-silent: wasAcked() ==> rl(h.conn).conn.out == out0 && err == nil
ensures [C20,C21] sent: !wasAcked() && err == nil ==> rl(h.conn).conn.out == cat(out0, rec)
ensures [C20] all-or-nothing: rl(h.conn).conn.out == out0 || rl(h.conn).conn.out == cat(out0, rec)
let k = len(h.ctx.sentFragments)
ensures [C21] remembered: !wasAcked() && h.datagram ==> len(h.ctx.sentFragments) == k + 1 && h.ctx.sentFragments[k].seq == hm.seq && h.ctx.sentFragments[k].offset == start && h.ctx.sentFragments[k].fragLength == n && h.ctx.sentFragments[k].record == num && !h.ctx.sentFragments[k].acked
ensures [C21] others-kept: forall(i, 0, k, h.ctx.sentFragments[i] == old(h.ctx.sentFragments[i]) && h.ctx.sentFragments[i].acked == old(h.ctx.sentFragments[i].acked))
ensures [C21] none-forgotten: wasAcked() || !h.datagram ==> len(h.ctx.sentFragments) == k
case tls-clear
pre !h.datagram && rl(h.conn).cipher.cipher == nil
pre !rl(h.conn).datagram && rl(h.conn).cipher.seq < 281474976710656
case tls-aead
pre !h.datagram && rl(h.conn).cipher.cipher != nil && len(rl(h.conn).cipher.iv) >= 8
pre !rl(h.conn).datagram && rl(h.conn).cipher.seq < 281474976710656
case dtls-clear
pre h.datagram && hm.cipher.cipher == nil
pre rl(h.conn).datagram && hm.cipher.seq < 281474976710656 && (rl(h.conn).version == tls12Version || rl(h.conn).version == tls10Version)
case dtls-aead
pre h.datagram && hm.cipher.cipher != nil && len(hm.cipher.iv) >= 8
pre rl(h.conn).datagram && hm.cipher.seq < 281474976710656 && (rl(h.conn).version == tls12Version || rl(h.conn).version == tls10Version)

func (*HandshakeLayer).writeFragment@msg(h, hm, start, room) (wrote, next, err)
cut
opt use=(*HandshakeContext).fragmentAcked@w
opt unfold=msgB
pre h.ctx != nil && hm.datagram == h.datagram && hm.cipher != nil && is(h.conn, *DefaultRecordLayer)
pre rl(h.conn).direction == DirectionWrite && rl(h.conn).conn != nil && rl(h.conn).cipher != nil
pre 0 <= start && start <= len(hm.body) && len(hm.body) < 16777216 && hm.seq < 65536 && hm.length < 16777216
pre room > 12 && room <= 16384
pre forall(i, 0, len(h.ctx.sentFragments), h.ctx.sentFragments[i] != nil)
pre h.datagram
modifies h.ctx.sentFragments
modifies rl(h.conn).conn.out
modifies hm.cipher.seq
let n = hsTake(hm, start, room)
let k = len(h.ctx.sentFragments)
ensures [X] progress: next == start + n && n >= 0 && imp(start < len(hm.body), n > 0)
ensures [X] skipped: !wrote ==> len(h.ctx.sentFragments) == k && exists(i, 0, k, ackCovers(old(h.ctx.sentFragments)[i], hm.seq, start, n))
ensures [X] new: wrote ==> len(h.ctx.sentFragments) == k + 1 && h.ctx.sentFragments[k].seq == hm.seq && h.ctx.sentFragments[k].offset == start && h.ctx.sentFragments[k].fragLength == n && !h.ctx.sentFragments[k].acked && h.ctx.sentFragments[k] != nil
ensures [X] only-unacked: wrote ==> forall(i, 0, k, !ackCovers(old(h.ctx.sentFragments)[i], hm.seq, start, n))
ensures [X] kept: forall(i, 0, k, ref(h.ctx.sentFragments[i]) == old(ref(h.ctx.sentFragments[i])))
ensures [X] seq: hm.cipher.seq <= old(hm.cipher.seq) + 1
case dtls-clear
pre h.datagram && hm.cipher.cipher == nil
pre rl(h.conn).datagram && hm.cipher.seq < 281474976710656 && (rl(h.conn).version == tls12Version || rl(h.conn).version == tls10Version)
case dtls-aead
pre h.datagram && hm.cipher.cipher != nil && len(hm.cipher.iv) >= 8
pre rl(h.conn).datagram && hm.cipher.seq < 281474976710656 && (rl(h.conn).version == tls12Version || rl(h.conn).version == tls10Version)

func (*HandshakeLayer).WriteMessage(h, hm) (written, err)
opt use=(*HandshakeLayer).writeFragment@msg
pre h.ctx != nil && hm.datagram == h.datagram && hm.cipher != nil && is(h.conn, *DefaultRecordLayer)
pre rl(h.conn).direction == DirectionWrite && rl(h.conn).conn != nil && rl(h.conn).cipher != nil
pre forall(i, 0, len(h.ctx.sentFragments), h.ctx.sentFragments[i] != nil)
pre h.datagram && hm.seq < 65536 && hm.length < 16777216 && h.maxFragmentLen > 12 && h.maxFragmentLen <= 16384 && hm.cipher.seq < 281474960000000
pre rl(h.conn).datagram && (rl(h.conn).version == tls12Version || rl(h.conn).version == tls10Version) && imp(hm.cipher.cipher != nil, len(hm.cipher.iv) >= 8)
let k = len(h.ctx.sentFragments)
spec sentAt(f, seq, p) = f.seq == seq && f.offset <= p && p < f.offset + f.fragLength
spec inAcked(l, k, seq, p) = exists(i, 0, k, l[i].acked && sentAt(l[i], seq, p))
spec inSent(l, k, seq, p) = exists(i, k, len(l), sentAt(l[i], seq, p))
inv 0 <= start && start <= len(hm.body) && hm.cipher.seq <= old(hm.cipher.seq) + it
inv start >= it && written >= 0 && len(h.ctx.sentFragments) == k + written
inv forall(i, 0, k, ref(h.ctx.sentFragments[i]) == old(ref(h.ctx.sentFragments[i])))
inv forall(i, 0, len(h.ctx.sentFragments), h.ctx.sentFragments[i] != nil)
inv forall(i, k, len(h.ctx.sentFragments), h.ctx.sentFragments[i].seq == hm.seq && h.ctx.sentFragments[i].offset >= 0 && h.ctx.sentFragments[i].fragLength >= 0 && h.ctx.sentFragments[i].offset + h.ctx.sentFragments[i].fragLength <= start && !h.ctx.sentFragments[i].acked)
inv forall(p, 0, start, inAcked(old(h.ctx.sentFragments), k, hm.seq, p) || inSent(h.ctx.sentFragments, k, hm.seq, p))
inv forall(j, k, len(h.ctx.sentFragments), forall(i, k, j, h.ctx.sentFragments[i].offset + h.ctx.sentFragments[i].fragLength <= h.ctx.sentFragments[j].offset))
ensures [C20] too-long: len(hm.body) > 16777215 ==> err != nil
ensures [C20,C21] cover: err == nil ==> forall(p, 0, len(hm.body), inAcked(old(h.ctx.sentFragments), k, hm.seq, p) || inSent(h.ctx.sentFragments, k, hm.seq, p))
ensures [C20] in-order: forall(j, k, len(h.ctx.sentFragments), forall(i, k, j, h.ctx.sentFragments[i].offset + h.ctx.sentFragments[i].fragLength <= h.ctx.sentFragments[j].offset))
ensures [C20] inside: forall(i, k, len(h.ctx.sentFragments), h.ctx.sentFragments[i].seq == hm.seq && h.ctx.sentFragments[i].offset >= 0 && h.ctx.sentFragments[i].offset + h.ctx.sentFragments[i].fragLength <= len(hm.body))
ensures [C21] count: err == nil ==> written == len(h.ctx.sentFragments) - k
ensures [C21] earlier-kept: forall(i, 0, k, ref(h.ctx.sentFragments[i]) == old(ref(h.ctx.sentFragments[i])))

# ---- acknowledging (C21) ----
func (*DefaultRecordLayer).WriteRecord@ack(r, pt) (err)
cut
opt trusted=what a record layer puts on the wire is C01
modifies r.conn.out
modifies r.cipher.seq
func (*HandshakeContext).sendAck(h) (err)
opt use=(*DefaultRecordLayer).WriteRecord@ack
pre h.hIn != nil && h.hOut != nil && is(h.hOut.conn, *DefaultRecordLayer) && rl(h.hOut.conn) != nil
spec ackPt() = event("(*DefaultRecordLayer).WriteRecord", 0, 1)
spec ackList() = dec(DtlsAck, content(ackPt().fragment)).RecordNumbers
let got = h.hIn.recvdRecords
ensures [C21] one-record: events("(*DefaultRecordLayer).WriteRecord") == 1 || err != nil && events("(*DefaultRecordLayer).WriteRecord") == 0
ensures [C21] received: err == nil ==> ackPt().contentType == RecordTypeAck && len(ackList()) <= len(got) && forall(i, 0, len(ackList()), ackList()[i] == got[i])
ensures [C21] as-many-as-fit: err == nil ==> len(ackList()) == ite(len(got) > (initialMtu - 2) / 8, (initialMtu - 2) / 8, len(got))
ensures [C21] kept: content(h.hIn.recvdRecords) == old(content(h.hIn.recvdRecords))

func (*DefaultRecordLayer).ReadRecordAnyEpoch@ack(r) (pt, err)
cut
opt trusted=what a record layer delivers is C02
ensures [X] one: iff(err == nil, pt != nil)
func (*frameReader).addChunk@ack(f, chunk) ()
cut
opt trusted=the frame reader is C03
func (*HandshakeLayer).readRecord@ack(h) (err)
opt use=(*HandshakeContext).processAck@records; (*DefaultRecordLayer).ReadRecordAnyEpoch@ack; (*frameReader).addChunk@ack; (*HandshakeLayer).sendAlert@ack
pre h.conn != nil && h.frame != nil && h.ctx != nil && h.ctx.hIn != nil && h.ctx.hIn.conn != nil && h.datagram && is(h.conn, *DefaultRecordLayer) && rl(h.conn) != nil && is(h.ctx.hIn.conn, *DefaultRecordLayer)
spec gotRec() = event("(*DefaultRecordLayer).ReadRecordAnyEpoch", 0, 1)
let n = len(h.recvdRecords)
ensures [C21] noted: events("(*frameReader).addChunk") == 1 ==> err == nil && len(h.recvdRecords) == n + 1 && h.recvdRecords[n] == gotRec().seq && gotRec().contentType == RecordTypeHandshake
ensures [C21] only-those: events("(*frameReader).addChunk") == 0 ==> len(h.recvdRecords) == n
ensures [C21] earlier: forall(i, 0, n, h.recvdRecords[i] == old(h.recvdRecords[i]))
ensures [C21] acks-used: events("(*HandshakeContext).processAck") == 1 ==> gotRec().contentType == RecordTypeAck && content(event("(*HandshakeContext).processAck", 0, 1)) == content(gotRec().fragment)
func (*HandshakeLayer).sendAlert@ack(h, alert) (err)
cut
opt trusted=sending an alert is C23
