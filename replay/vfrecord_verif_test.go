package mint

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"fmt"
	"testing"
)

func vfGCM(key []byte) cipher.AEAD {
	b, err := aes.NewCipher(key)
	if err != nil {
		panic(err)
	}
	a, err := cipher.NewGCM(b)
	if err != nil {
		panic(err)
	}
	return a
}

// vfSeal: RFC 8446 5.2 record (DTLS: 13-byte header with epoch and sequence number)
func vfSeal(a cipher.AEAD, iv []byte, seq uint64, outer byte, version uint16, dtls bool, inner []byte) []byte {
	nonce := append([]byte{}, iv...)
	s := vfBE(seq, 8)
	for i := range s {
		nonce[len(nonce)-8+i] ^= s[i]
	}
	h := vfHdr(outer, version, dtls, seq, len(inner)+a.Overhead())
	return append(append([]byte{}, h...), a.Seal(nil, nonce, inner, h)...)
}
func vfHdr(typ byte, version uint16, dtls bool, seq uint64, n int) []byte {
	h := append([]byte{typ}, vfBE(uint64(version), 2)...)
	if dtls {
		h = append(h, vfBE(seq, 8)...)
	}
	return append(h, vfBE(uint64(n), 2)...)
}

var vfSizes = []int{0, 1, 2, 15, 16, 17, 100, 255, 256, 257, 1000, 16383, 16384}
var vfPads = []int{0, 0, 1, 2, 7, 255, 1000}
var vfSeqs = []uint64{0, 0, 1, 2, 127, 255, 256, 257, 65535, 65536, 1 << 24, 1<<32 - 1, 1 << 32, 1<<40 + 5, 1<<48 - 9}

func vfKeySetOf(key, iv []byte) *KeySet {
	return &KeySet{Cipher: newAESGCM, Keys: map[string][]byte{labelForKey: key, labelForIV: iv}}
}

func TestVfC01(t *testing.T) {
	v := vfStart(t, "random records: AES-128/256-GCM and unprotected, TLS/DTLS, sizes 0..16385, padding 0..1000, sequence numbers up to 2^48-9, 1..3 records in sequence")
	types := []RecordType{RecordTypeAlert, RecordTypeHandshake, RecordTypeApplicationData, RecordTypeAck}
	for i := 0; i < v.n(1500) && !v.over(); i++ {
		dtls := v.rng.Intn(2) == 0
		prot := v.rng.Intn(4) != 0
		key, iv := v.bytes([]int{16, 32}[v.rng.Intn(2)]), v.bytes(12)
		epoch := Epoch(v.rng.Intn(4))
		seq := vfSeqs[v.rng.Intn(len(vfSeqs))]
		ver := []uint16{tls10Version, tls12Version}[v.rng.Intn(2)]
		class := fmt.Sprintf("dtls=%v protected=%v keylen=%d epoch=%d seq=%#x", dtls, prot, len(key), epoch, seq)
		v.run(class, func() {
			c := &vfConn{}
			var r *DefaultRecordLayer
			if dtls {
				r = NewRecordLayerDTLS(c, DirectionWrite)
			} else {
				r = NewRecordLayerTLS(c, DirectionWrite)
			}
			r.SetVersion(ver)
			if prot {
				if err := r.Rekey(epoch, newAESGCM, vfKeySetOf(key, iv)); err != nil {
					panic(err)
				}
			} else {
				epoch = 0
			}
			r.cipher.seq = seq
			wver := ver
			if dtls {
				wver = map[uint16]uint16{tls10Version: 0xfeff, tls12Version: 0xfefd}[ver]
			}
			for j := 0; j < 1+v.rng.Intn(3); j++ {
				ct := types[v.rng.Intn(len(types))]
				frag := v.bytes(vfSizes[v.rng.Intn(len(vfSizes))])
				pad := vfPads[v.rng.Intn(len(vfPads))]
				if !prot {
					pad = 0
				}
				s := seq + uint64(j)
				if dtls {
					s |= uint64(epoch) << 48
				}
				if len(frag)+pad > 16000 {
					pad = 0
				}
				var want []byte
				if prot {
					inner := append(append(append([]byte{}, frag...), byte(ct)), make([]byte, pad)...)
					want = vfSeal(vfGCM(key), iv, s, byte(RecordTypeApplicationData), wver, dtls, inner)
				} else {
					want = append(vfHdr(byte(ct), wver, dtls, s, len(frag)), frag...)
				}
				c.out = nil
				err := r.WriteRecordWithPadding(NewTLSPlaintext(ct, epoch, append([]byte{}, frag...)), pad)
				if err != nil {
					v.viol("write-error", "%s record %d type %d len %d pad %d: error %v", class, j, ct, len(frag), pad, err)
					return
				}
				if !bytes.Equal(c.out, want) {
					v.viol("wire", "%s record %d type %d len %d pad %d: wrote %s want %s", class, j, ct, len(frag), pad, vfHex(c.out), vfHex(want))
					return
				}
				if r.cipher.seq != seq+uint64(j)+1 {
					v.viol("sequence", "%s: sequence %#x after %d records", class, r.cipher.seq, j+1)
					return
				}
			}
			// oversized plaintext is refused and nothing is sent
			c.out = nil
			before := r.cipher.seq
			if err := r.WriteRecord(NewTLSPlaintext(RecordTypeApplicationData, epoch, make([]byte, 16385))); err == nil || len(c.out) != 0 || r.cipher.seq != before {
				v.viol("oversize", "%s: 16385-byte plaintext: err=%v wrote %d bytes seq %d->%d", class, err, len(c.out), before, r.cipher.seq)
			}
		})
	}
	v.done()
}

func TestVfC02(t *testing.T) {
	v := vfStart(t, "streams of 1..4 records (valid, padded, all-padding, corrupted, bad type, oversized, wrong epoch or sequence), cut into random chunks; TLS and DTLS, AES-128/256-GCM and unprotected")
	types := []byte{21, 22, 23, 25}
	for i := 0; i < v.n(2500) && !v.over(); i++ {
		dtls := v.rng.Intn(2) == 0
		prot := v.rng.Intn(4) != 0
		key, iv := v.bytes([]int{16, 32}[v.rng.Intn(2)]), v.bytes(12)
		oldKey, oldIV := v.bytes(16), v.bytes(12)
		epoch := Epoch(0)
		if prot {
			epoch = Epoch(2 + v.rng.Intn(2))
		}
		seq := vfSeqs[v.rng.Intn(len(vfSeqs))]
		anyEpoch := v.rng.Intn(2) == 0
		class := fmt.Sprintf("dtls=%v protected=%v keylen=%d epoch=%d anyEpoch=%v seq=%#x", dtls, prot, len(key), epoch, anyEpoch, seq)
		v.run(class, func() {
			c := &vfConn{dgram: dtls, chunk: []int{0, 1, 3, 7, 1000}[v.rng.Intn(5)]}
			var r *DefaultRecordLayer
			if dtls {
				r = NewRecordLayerDTLS(c, DirectionRead)
			} else {
				r = NewRecordLayerTLS(c, DirectionRead)
			}
			if prot {
				if dtls {
					r.Rekey(EpochEarlyData, newAESGCM, vfKeySetOf(oldKey, oldIV))
				}
				r.Rekey(epoch, newAESGCM, vfKeySetOf(key, iv))
			}
			r.cipher.seq = seq
			next := seq
			for j := 0; j < 1+v.rng.Intn(4); j++ {
				ct := types[v.rng.Intn(4)]
				frag := v.bytes(vfSizes[v.rng.Intn(len(vfSizes))])
				pad := vfPads[v.rng.Intn(len(vfPads))]
				if len(frag)+pad > 16384 {
					pad = 0
				}
				s := next
				if dtls {
					s = uint64(epoch)<<48 | uint64(v.rng.Intn(1<<30))
				}
				kind := v.rng.Intn(10)
				what := "valid"
				ok := true
				rver := uint16(0x0301)
				var rec []byte
				wantEpoch := epoch
				wantSeq := s
				switch {
				case kind == 0:
					what, ok = "bad content type", false
					bad := []byte{0, 20, 24, 26, 255}[v.rng.Intn(5)]
					if prot {
						rec = vfSeal(vfGCM(key), iv, s, bad, rver, dtls, append(append([]byte{}, frag...), ct))
					} else {
						rec = append(vfHdr(bad, rver, dtls, s, len(frag)), frag...)
					}
				case kind == 1 && prot:
					what, ok = "all padding", false
					rec = vfSeal(vfGCM(key), iv, s, 23, rver, dtls, make([]byte, pad))
				case kind == 2 && prot:
					what, ok = "corrupted", false
					rec = vfSeal(vfGCM(key), iv, s, 23, rver, dtls, append(append([]byte{}, frag...), ct))
					p := v.rng.Intn(len(rec))
					for dtls && p > 2 && p < 5 || p >= len(vfHdr(0, 0, dtls, 0, 0))-2 && p < len(vfHdr(0, 0, dtls, 0, 0)) || p == 0 {
						p = v.rng.Intn(len(rec))
					}
					rec[p] ^= 1 << uint(v.rng.Intn(8))
				case kind == 3 && prot && !dtls:
					what, ok = "wrong sequence number", false
					rec = vfSeal(vfGCM(key), iv, s^(1<<uint(v.rng.Intn(48))), 23, rver, dtls, append(append([]byte{}, frag...), ct))
				case kind == 3 && prot && dtls:
					what, ok = "other epoch", anyEpoch
					wantEpoch = EpochEarlyData
					s = uint64(EpochEarlyData)<<48 | uint64(v.rng.Intn(1<<20))
					wantSeq = s
					rec = vfSeal(vfGCM(oldKey), oldIV, s, 23, rver, dtls, append(append([]byte{}, frag...), ct))
				case kind == 4 && dtls:
					what, ok = "unknown epoch", false
					s = uint64(7+v.rng.Intn(9))<<48 | uint64(v.rng.Intn(1<<20))
					rec = vfSeal(vfGCM(key), iv, s, 23, rver, dtls, append(append([]byte{}, frag...), ct))
				case kind == 5:
					what, ok = "plaintext too long", false
					if prot {
						rec = vfSeal(vfGCM(key), iv, s, 23, rver, dtls, append(v.bytes(16385+v.rng.Intn(3)), ct))
					} else {
						frag = v.bytes(16385 + v.rng.Intn(3))
						rec = append(vfHdr(ct, rver, dtls, s, len(frag)), frag...)
					}
				case prot:
					outer := types[v.rng.Intn(4)]
					inner := append(append(append([]byte{}, frag...), ct), make([]byte, pad)...)
					rec = vfSeal(vfGCM(key), iv, s, outer, rver, dtls, inner)
				default:
					rec = append(vfHdr(ct, rver, dtls, s, len(frag)), frag...)
				}
				if dtls {
					c.inD = append(c.inD, rec)
				} else {
					c.in = append(c.in, rec...)
				}
				read := r.ReadRecord
				if anyEpoch {
					read = r.ReadRecordAnyEpoch
				}
				peek := v.rng.Intn(3) == 0 && !anyEpoch
				var pt *TLSPlaintext
				var err error
				for k := 0; k < len(rec)+5; k++ {
					if peek {
						var ty RecordType
						ty, err = r.PeekRecordType(false)
						if err == nil {
							pt, err = read()
							if err == nil && pt.contentType != ty {
								v.viol("peek", "%s: peeked type %d, read type %d", class, ty, pt.contentType)
								return
							}
						}
					} else {
						pt, err = read()
					}
					if err != AlertWouldBlock || dtls {
						break
					}
				}
				desc := fmt.Sprintf("%s: record %d (%s) %s, type %d, %d bytes, padding %d, chunks of %d", class, j, what, vfHex(rec), ct, len(frag), pad, c.chunk)
				if !ok {
					if err == nil {
						v.viol("accepted", "%s: accepted as type %d fragment %s", desc, pt.contentType, vfHex(pt.fragment))
						return
					}
					if r.cachedRecord != nil {
						v.viol("cached", "%s: refused record left in the cache", desc)
					}
					if !dtls {
						return // the connection is dead
					}
					continue
				}
				if err != nil {
					v.viol("refused", "%s: refused: %v", desc, err)
					return
				}
				if byte(pt.contentType) != ct || !bytes.Equal(pt.fragment, frag) {
					v.viol("content", "%s: delivered type %d fragment %s", desc, pt.contentType, vfHex(pt.fragment))
					return
				}
				if pt.epoch != wantEpoch {
					v.viol("epoch", "%s: delivered epoch %d want %d", desc, pt.epoch, wantEpoch)
				}
				if prot && dtls && pt.seq != wantSeq {
					v.viol("seq", "%s: delivered sequence number %#x want %#x", desc, pt.seq, wantSeq)
				}
				next++
				if !dtls && r.cipher.seq != next {
					v.viol("sequence", "%s: read sequence number %d want %d", desc, r.cipher.seq, next)
					return
				}
			}
		})
	}
	v.done()
}

// C03: the framing of a byte stream does not depend on how it was cut
type vfFraming struct{ h int }

func (f vfFraming) headerLen() int      { return f.h }
func (f vfFraming) defaultReadLen() int { return 100 }
func (f vfFraming) frameLen(h []byte) (int, error) {
	return int(h[len(h)-2])<<8 | int(h[len(h)-1]), nil
}

func TestVfC03(t *testing.T) {
	v := vfStart(t, "streams of 1..6 frames with bodies of 0..600 bytes cut into random chunks (sizes 0..700), handshake, record and test framings")
	for i := 0; i < v.n(4000) && !v.over(); i++ {
		var d framing
		var hl int
		switch v.rng.Intn(4) {
		case 0:
			d, hl = recordLayerFrameDetails{false}, 5
		case 1:
			d, hl = recordLayerFrameDetails{true}, 13
		case 2:
			d, hl = handshakeLayerFrameDetails{}, 4
		default:
			hl = 2 + v.rng.Intn(6)
			d = vfFraming{hl}
		}
		v.run(fmt.Sprintf("framing %T header %d", d, hl), func() {
			var stream []byte
			var hs, bs, kept, want [][]byte
			for j := 0; j < 1+v.rng.Intn(6); j++ {
				h, b := v.bytes(hl), v.bytes([]int{0, 0, 1, 2, 3, 20, 255, 256, 257, 600}[v.rng.Intn(10)])
				if _, ok := d.(handshakeLayerFrameDetails); ok {
					if v.rng.Intn(200) == 0 {
						b = v.bytes(65530 + v.rng.Intn(100))
					}
					h[1] = byte(len(b) >> 16)
				}
				h[hl-2], h[hl-1] = byte(len(b)>>8), byte(len(b))
				hs, bs = append(hs, h), append(bs, b)
				stream = append(append(stream, h...), b...)
			}
			f := newFrameReader(d)
			got := 0
			max := []int{1, 2, 5, 50, 700}[v.rng.Intn(5)]
			var cuts []int
			rest := stream
			for {
				h, b, err := f.process()
				if err == nil {
					if got >= len(hs) || !bytes.Equal(h, hs[got]) || !bytes.Equal(b, bs[got]) {
						v.viol("frame", "header length %d stream %s cuts %v: frame %d came out as %x %x", hl, vfHex(stream), cuts, got, h, vfHex(b))
						return
					}
					got++
					// the caller owns what it was given
					for k := range h {
						h[k] ^= 0x55
					}
					for k := range b {
						b[k] ^= 0x55
					}
					kept, want = append(kept, h, b), append(want, append([]byte{}, h...), append([]byte{}, b...))
					continue
				}
				if err != AlertWouldBlock {
					v.viol("error", "header length %d stream %s cuts %v: error %v", hl, vfHex(stream), cuts, err)
					return
				}
				if len(rest) == 0 {
					break
				}
				n := v.rng.Intn(max + 1)
				if n > len(rest) {
					n = len(rest)
				}
				cuts = append(cuts, n)
				chunk := append([]byte{}, rest[:n]...)
				f.addChunk(chunk)
				for k := range chunk {
					chunk[k] ^= 0xaa
				}
				rest = rest[n:]
			}
			for k := range kept {
				if !bytes.Equal(kept[k], want[k]) {
					v.viol("overwritten", "header length %d stream %s cuts %v: frame %d was overwritten after it was handed out", hl, vfHex(stream), cuts, k/2)
					return
				}
			}
			if got != len(hs) {
				v.viol("missing", "header length %d stream %s cuts %v: %d of %d frames delivered", hl, vfHex(stream), cuts, got, len(hs))
			}
		})
	}
	v.done()
}
