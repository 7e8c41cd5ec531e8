# Frame reader (C03): every byte given is either delivered in exactly one frame or still pending, in order

spec hdrLen(d) = ite(is(d, recordLayerFrameDetails), ite(as(d, recordLayerFrameDetails).datagram, 13, 5), ite(as(d, *handshakeLayerFrameDetails).datagram, 12, 4))
spec recLenOf(h) = h[len(h)-2]*256 + h[len(h)-1]
spec hsLenOf(h) = h[len(h)-3]*65536 + h[len(h)-2]*256 + h[len(h)-1]
spec frLen(d, h) = ite(is(d, recordLayerFrameDetails), recLenOf(h), hsLenOf(h))
abstract pending(f) bytes = ite(f.state == kFrameReaderBody, cat(content(f.header), f.body[:f.writeOffset], content(f.remainder)), cat(f.header[:f.writeOffset], content(f.remainder)))
abstract finv(f) bool = len(f.header) == hdrLen(f.details) && 0 <= f.writeOffset && (f.state == kFrameReaderHdr && same(f.working, f.header) && f.writeOffset < len(f.header) || f.state == kFrameReaderBody && same(f.working, f.body) && f.writeOffset <= len(f.body) && len(f.body) == frLen(f.details, f.header))

func (*frameReader).process(f) (hdr, body, err)
cut
opt concrete=1
pre finv(f)
modifies pending(f), f.state, f.working, f.writeOffset, f.remainder, f.body, elems(f.header), elems(f.body)
case rec-tls-hdr
set f.details := iface(recordLayerFrameDetails, mk(recordLayerFrameDetails, false))
set f.working := f.header
set f.state := kFrameReaderHdr
case rec-tls-body
set f.details := iface(recordLayerFrameDetails, mk(recordLayerFrameDetails, false))
set f.working := f.body
set f.state := kFrameReaderBody
case rec-dtls-hdr
set f.details := iface(recordLayerFrameDetails, mk(recordLayerFrameDetails, true))
set f.working := f.header
set f.state := kFrameReaderHdr
case rec-dtls-body
set f.details := iface(recordLayerFrameDetails, mk(recordLayerFrameDetails, true))
set f.working := f.body
set f.state := kFrameReaderBody
case hs-tls-hdr
set f.details := iface(*handshakeLayerFrameDetails, mk(handshakeLayerFrameDetails, false))
set f.working := f.header
set f.state := kFrameReaderHdr
case hs-tls-body
set f.details := iface(*handshakeLayerFrameDetails, mk(handshakeLayerFrameDetails, false))
set f.working := f.body
set f.state := kFrameReaderBody
case hs-dtls-hdr
set f.details := iface(*handshakeLayerFrameDetails, mk(handshakeLayerFrameDetails, true))
set f.working := f.header
set f.state := kFrameReaderHdr
case hs-dtls-body
set f.details := iface(*handshakeLayerFrameDetails, mk(handshakeLayerFrameDetails, true))
set f.working := f.body
set f.state := kFrameReaderBody
let before = old(pending(f))
let n = hdrLen(f.details)
ensures [C03] frame-or-nothing: err == nil || err == AlertWouldBlock
ensures [C03] delivered: err == nil ==> cat(hdr, body, pending(f)) == before && len(hdr) == n && len(body) == frLen(f.details, hdr)
ensures [C03] kept: err != nil ==> pending(f) == before
ensures [C03] not-withheld: err != nil ==> len(before) < n || len(before) < n + frLen(f.details, before[:n])
ensures [C03] invariant: finv(f)
ensures [C03] not-aliased: err == nil ==> fresharr(hdr) && fresharr(body) && !same(hdr, f.header) && !same(body, f.body)

func (*frameReader).addChunk(f, in) ()
cut
opt concrete=1
pre finv(f)
modifies pending(f), f.remainder
casesof (*frameReader).process
ensures [C03] invariant: finv(f)
ensures [C03] pending: pending(f) == cat(old(pending(f)), content(in))
ensures [C03] appended: content(f.remainder) == cat(old(content(f.remainder)), content(in))

func newFrameReader(d) (f)
cut
opt concrete=1
ensures [C03] empty: f != nil && pending(f) == "" && finv(f)
case rec-tls
set d := iface(recordLayerFrameDetails, mk(recordLayerFrameDetails, false))
case rec-dtls
set d := iface(recordLayerFrameDetails, mk(recordLayerFrameDetails, true))
case hs-tls
set d := iface(*handshakeLayerFrameDetails, mk(handshakeLayerFrameDetails, false))
case hs-dtls
set d := iface(*handshakeLayerFrameDetails, mk(handshakeLayerFrameDetails, true))
ensures [C03] starts: f.state == kFrameReaderHdr && len(f.header) == hdrLen(d) && same(f.working, f.header) && f.writeOffset == 0 && len(f.remainder) == 0

func (*frameReader).needed(f) (n)
cut
opt concrete=1
pre finv(f)
casesof (*frameReader).process
ensures [C03] nonneg: n >= 0
ensures [C03] not-withheld: n > 0 ==> len(pending(f)) < hdrLen(f.details) || len(pending(f)) < hdrLen(f.details) + frLen(f.details, pending(f)[:hdrLen(f.details)])
