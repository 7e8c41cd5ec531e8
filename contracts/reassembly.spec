# ---- DTLS reassembly (C20) ----
spec fragEnd(f) = f.offset + len(f.body)
spec fragOK(f, seq) = f != nil && f.seq >= seq && f.length < 16777216 && f.offset < 16777216 && fragEnd(f) <= f.length
spec fragLE(f, g) = f.seq < g.seq || (f.seq == g.seq && f.offset <= g.offset)
spec queueOK(h) = forall(i, 0, len(h.queued), fragOK(h.queued[i], h.msgSeq)) && forall(i, 0, len(h.queued), forall(j, 0, i, fragLE(h.queued[j], h.queued[i])))

func (*HandshakeLayer).noteMessageDelivered(h, seq) ()
pre seq < 4294967295 && forall(i, 0, len(h.queued), h.queued[i] != nil)
let n = len(h.queued)
inv 0 <= i && i <= n && forall(j, 0, i, h.queued[j].seq <= seq)
ensures [C20] next: h.msgSeq == seq + 1
ensures [C20] suffix: len(h.queued) <= n && content(h.queued) == old(content(h.queued))[n - len(h.queued):]
ensures [C20] dropped: forall(j, 0, n - len(h.queued), old(h.queued[j].seq) <= seq)
ensures [C20] kept: len(h.queued) > 0 ==> h.queued[0].seq > seq

func (*HandshakeLayer).noteMessageDelivered@r(h, seq) ()
cut
pre seq < 4294967295 && queueOK(h)
let n = len(h.queued)
modifies h.msgSeq
modifies h.queued
inv 0 <= i && i <= n && forall(j, 0, i, h.queued[j].seq <= seq)
ensures [X] next: h.msgSeq == seq + 1
ensures [X] suffix: len(h.queued) <= n && forall(j, 0, len(h.queued), h.queued[j] == old(h.queued)[j + n - len(h.queued)])
ensures [X] dropped: forall(j, 0, n - len(h.queued), old(h.queued)[j].seq <= seq)
ensures [X] kept: queueOK(h)

spec covers(f, seq, p) = f.seq == seq && f.offset <= p && p < fragEnd(f)
func (*HandshakeLayer).checkMessageAvailable(h) (m, err)
opt use=(*HandshakeLayer).noteMessageDelivered@r
opt split=cat
pre queueOK(h) && h.msgSeq < 65536
let n = len(h.queued)
let q = h.queued
let sq = h.msgSeq
inv forall(j, 0, it, q[j].seq == sq && q[j].length == len(buf) && fragEnd(q[j]) <= end)
inv end <= hm.length && imp(len(buf) > 0 || it > 0, end < hm.length || it == 0)
inv forall(p, 0, end, exists(j, 0, it, covers(q[j], sq, p) && buf[p] == q[j].body[p - q[j].offset]))
ensures [C20] in-sequence: m != nil ==> err == nil && m.seq == sq && h.msgSeq == sq + 1
ensures [C20] whole: m != nil ==> m.offset == 0 && len(m.body) == m.length && n > 0 && m.length == q[0].length && m.msgType == q[0].msgType
ensures [C20] bytes: m != nil ==> forall(p, 0, len(m.body), exists(j, 0, n, covers(q[j], sq, p) && m.body[p] == q[j].body[p - q[j].offset]))
ensures [C20] waits: m == nil ==> h.msgSeq == sq && len(h.queued) == n && forall(j, 0, n, h.queued[j] == old(h.queued)[j])
ensures [C20] incomplete: m == nil && err == nil && n > 0 ==> exists(p, 0, q[0].length, forall(j, 0, n, !covers(q[j], sq, p))) || q[0].seq != sq
ensures [C20] refused: err != nil ==> m == nil && exists(j, 0, n, q[j].seq == sq && q[j].length != q[0].length)
ensures [C20] rest: queueOK(h)

func (*HandshakeContext).receivedHandshakeMessage@r(h) ()
cut
opt use=(*timerSet).start@records; (*timerSet).cancel@records; (*timerSet).getTimer@records
pre h.timers != nil && h.hOut != nil
modifies h.hOut.queued
modifies h.waitingNextFlight
func (*timerSet).getTimer@records(ts, label) (t)
cut
opt trusted=looking for a timer changes nothing (C22)
func (*HandshakeLayer).checkMessageAvailable@n(h) (m, err)
cut
opt use=(*HandshakeLayer).noteMessageDelivered@r
opt split=cat
pre queueOK(h) && h.msgSeq < 65536
modifies h.queued
modifies h.msgSeq
let n = len(h.queued)
let q = h.queued
let sq = h.msgSeq
inv forall(j, 0, it, q[j].seq == sq && q[j].length == len(buf) && fragEnd(q[j]) <= end)
inv end <= hm.length && imp(len(buf) > 0 || it > 0, end < hm.length || it == 0)
inv forall(p, 0, end, exists(j, 0, it, covers(q[j], sq, p) && buf[p] == q[j].body[p - q[j].offset]))
ensures [X] in-sequence: m != nil ==> err == nil && m.seq == sq && h.msgSeq == sq + 1
ensures [X] whole: m != nil ==> m.offset == 0 && len(m.body) == m.length && n > 0 && m.length == q[0].length && m.msgType == q[0].msgType
ensures [X] bytes: m != nil ==> forall(p, 0, len(m.body), exists(j, 0, n, covers(q[j], sq, p) && m.body[p] == q[j].body[p - q[j].offset]))
ensures [X] waits: m == nil ==> h.msgSeq == sq && len(h.queued) == n && forall(j, 0, n, h.queued[j] == old(h.queued)[j])
ensures [X] incomplete: m == nil && err == nil && n > 0 ==> exists(p, 0, q[0].length, forall(j, 0, n, !covers(q[j], sq, p))) || q[0].seq != sq
ensures [X] rest: queueOK(h)

func (*HandshakeLayer).newFragmentReceived(h, hm) (m, err)
opt use=(*HandshakeLayer).noteMessageDelivered@r; (*HandshakeContext).receivedHandshakeMessage@r; (*HandshakeLayer).checkMessageAvailable@n
opt split=cat
opt heap=HandshakeMessage
pre queueOK(h) && h.msgSeq < 65536 && hm.seq < 65536 && hm.offset < 16777216 && hm.length < 16777216 && len(hm.body) < 16777216 && h.ctx != nil && h.ctx.timers != nil && h.ctx.hOut != nil
let n = len(h.queued)
let q = h.queued
let sq = h.msgSeq
let old1 = hm.seq < sq
let bad = hm.seq >= sq && hm.offset + len(hm.body) > hm.length
inv 0 <= i && i <= n && forall(j, 0, i, fragLE(q[j], hm))
ensures [C20] stale: old1 ==> m == nil && err == nil
ensures [C20] refused: bad ==> m == nil && err != nil
ensures [C20] untouched: old1 || bad ==> h.msgSeq == sq && content(h.queued) == old(content(h.queued))
ensures [C20] in-sequence: m != nil ==> err == nil && m.seq == sq && h.msgSeq == sq + 1 && m.offset == 0 && len(m.body) == m.length
ensures [C20] bytes: m != nil ==> forall(p, 0, len(m.body), covers(hm, sq, p) && m.body[p] == hm.body[p - hm.offset] || exists(j, 0, n, covers(q[j], sq, p) && m.body[p] == q[j].body[p - q[j].offset]))
ensures [C20] undelivered-stay: m == nil ==> h.msgSeq == sq
ensures [C20] queued: m == nil && !old1 && !bad ==> len(h.queued) == n + 1 && exists(i, 0, n + 1, h.queued[i] == hm && forall(k, 0, i, h.queued[k] == q[k]) && forall(k, i, n, h.queued[k+1] == q[k]))
ensures [C20] incomplete: m == nil && err == nil && !old1 ==> exists(p, 0, h.queued[0].length, forall(j, 0, n + 1, !covers(h.queued[j], sq, p))) || h.queued[0].seq != sq
ensures [C20] rest: queueOK(h)

# what ReadMessage hands to reassembly is what the fragment's header says
func (*HandshakeLayer).readRecord@rm(h) (err)
cut
opt trusted=reading a record is C02 and C21
func (*frameReader).process@rm(f) (hdr, body, err)
cut
opt trusted=the frame reader is C03
ensures [X] header: err == nil ==> len(hdr) == 12
func (*frameReader).needed@rm(f) (n)
cut
opt trusted=the frame reader is C03
func (*HandshakeLayer).newFragmentReceived@rm(h, hm) (m, err)
cut
opt trusted=contract of newFragmentReceived
func (*HandshakeLayer).checkMessageAvailable@rm(h) (m, err)
cut
opt trusted=contract of checkMessageAvailable
ensures [X] one: err != nil ==> m == nil
func (*HandshakeLayer).ReadMessage@dtls(h) (m, err)
opt use=(*HandshakeLayer).readRecord@rm; (*frameReader).process@rm; (*frameReader).needed@rm; (*HandshakeLayer).newFragmentReceived@rm; (*HandshakeLayer).checkMessageAvailable@rm
pre h.datagram && h.frame != nil
spec frag() = event("(*HandshakeLayer).newFragmentReceived", 0, 1)
spec fragHdr() = content(lastEvent("(*frameReader).process", 1))
spec given() = events("(*HandshakeLayer).newFragmentReceived") == 1
ensures [C20] fields: given() ==> frag().msgType == fragHdr()[0] && be(frag().length, 3) == fragHdr()[1:4] && be(frag().seq, 2) == fragHdr()[4:6] && be(frag().offset, 3) == fragHdr()[6:9] && frag().datagram
ensures [C20] body: given() ==> content(frag().body) == content(lastEvent("(*frameReader).process", 2))
ensures [C20] result: given() ==> ref(m) == ref(event("(*HandshakeLayer).newFragmentReceived", 0, 2)) && iff(isnil(err), isnil(event("(*HandshakeLayer).newFragmentReceived", 0, 3)))
ensures [C20] waiting-first: m != nil && !given() ==> ref(m) == ref(event("(*HandshakeLayer).checkMessageAvailable", 0, 1))
