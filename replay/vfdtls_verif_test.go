package mint

import (
	"bytes"
	"fmt"
	"sort"
	"testing"
)

// vfFrag: a handshake fragment as found on the wire
type vfFrag struct {
	rec            uint64
	typ            byte
	length, seq    int
	offset, flen   int
	body           []byte
}

// vfFrags parses clear DTLS records holding one handshake fragment each
func vfFrags(data []byte) (out []vfFrag, err error) {
	for len(data) > 0 {
		if len(data) < 13 || data[0] != 22 {
			return nil, fmt.Errorf("bad record %x", data[:vfMin(len(data), 20)])
		}
		n := int(data[11])<<8 | int(data[12])
		if len(data) < 13+n || n < 12 {
			return nil, fmt.Errorf("bad record length %d", n)
		}
		f := vfFrag{}
		for _, b := range data[3:11] {
			f.rec = f.rec<<8 | uint64(b)
		}
		h := data[13 : 13+n]
		f.typ = h[0]
		f.length = int(h[1])<<16 | int(h[2])<<8 | int(h[3])
		f.seq = int(h[4])<<8 | int(h[5])
		f.offset = int(h[6])<<16 | int(h[7])<<8 | int(h[8])
		f.flen = int(h[9])<<16 | int(h[10])<<8 | int(h[11])
		f.body = append([]byte{}, h[12:]...)
		out = append(out, f)
		data = data[13+n:]
	}
	return
}

func vfMin(a, b int) int {
	if a < b {
		return a
	}
	return b
}

type vfWire struct{ out bytes.Buffer }

func (w *vfWire) Read(p []byte) (int, error)  { return 0, AlertWouldBlock }
func (w *vfWire) Write(p []byte) (int, error) { return w.out.Write(p) }

// vfLayers: a handshake context with an inbound and an outbound DTLS layer over a recording transport
func vfLayers() (*HandshakeContext, *vfWire) {
	w := &vfWire{}
	c := &HandshakeContext{timers: newTimerSet(), timeoutMS: 1000}
	c.hIn = NewHandshakeLayerDTLS(c, NewRecordLayerDTLS(w, DirectionRead))
	c.hOut = NewHandshakeLayerDTLS(c, NewRecordLayerDTLS(w, DirectionWrite))
	c.hIn.nonblocking, c.hOut.nonblocking = true, true
	return c, w
}

func TestVfC20(t *testing.T) {
	v := vfStart(t, "sending: bodies of up to 3000 bytes with 0 to 3 earlier messages and room for 1 to 200 body bytes per record; receiving: 1 to 4 messages of up to 24 bytes in up to 60 random fragments (any order, overlapping, duplicated, empty, future, stale, too long, with another length)")
	for i := 0; i < v.n(1500) && !v.over(); i++ { // sending
		c, w := vfLayers()
		room := 13 + v.rng.Intn(200)
		c.hOut.maxFragmentLen = room
		start := v.rng.Intn(4)
		c.hOut.msgSeq = uint32(start)
		n := v.rng.Intn(60)
		switch v.rng.Intn(4) {
		case 0:
			n = (room - 12) * v.rng.Intn(6)
		case 1:
			n = v.rng.Intn(3000)
		}
		body := make([]byte, n)
		v.rng.Read(body)
		v.run(fmt.Sprintf("send frags=%d exact=%v", vfMin((n+room-13)/(room-12), 9), n%(room-12) == 0), func() {
			m := &HandshakeMessage{msgType: HandshakeTypeFinished, body: body, seq: uint32(start), datagram: true, length: uint32(n), cipher: c.hOut.conn.(*DefaultRecordLayer).cipher}
			cnt, err := c.hOut.WriteMessage(m)
			if err != nil {
				v.viol("send-error", "a message of %d bytes with room %d fails: %v", n, room, err)
				return
			}
			fr, err := vfFrags(w.out.Bytes())
			if err != nil {
				v.viol("wire", "message of %d bytes, room %d: %v", n, room, err)
				return
			}
			at := 0
			for _, f := range fr {
				if f.offset != at || f.flen != len(f.body) || f.length != n || f.seq != start || f.typ != byte(HandshakeTypeFinished) || at+f.flen > n || !bytes.Equal(f.body, body[at:at+f.flen]) {
					v.viol("fragment", "message of %d bytes, seq %d, room %d: fragment at %d says type %d length %d seq %d offset %d fragment length %d and has %d bytes", n, start, room, at, f.typ, f.length, f.seq, f.offset, f.flen, len(f.body))
					return
				}
				if 12+f.flen > room {
					v.viol("room", "fragment of %d bytes in room %d", f.flen, room)
				}
				at += f.flen
			}
			if at != n || len(fr) != cnt || len(fr) == 0 {
				v.viol("cover", "message of %d bytes, room %d: %d fragments (%d reported) cover %d bytes", n, room, len(fr), cnt, at)
			}
		})
	}
	v.run("send too long", func() {
		c, _ := vfLayers()
		m := &HandshakeMessage{msgType: HandshakeTypeFinished, body: make([]byte, 1<<24), datagram: true, cipher: c.hOut.conn.(*DefaultRecordLayer).cipher}
		if _, err := c.hOut.WriteMessage(m); err == nil {
			v.viol("too-long", "a message of 2^24 bytes, whose length does not fit its field, is sent")
		}
	})
	for i := 0; i < v.n(6000) && !v.over(); i++ { // receiving
		c, _ := vfLayers()
		h := c.hIn
		nm := 1 + v.rng.Intn(4)
		first := v.rng.Intn(3)
		h.msgSeq = uint32(first)
		var bodies [][]byte
		for k := 0; k < nm; k++ {
			b := make([]byte, v.rng.Intn(25))
			v.rng.Read(b)
			bodies = append(bodies, b)
		}
		next := first              // the message expected next
		var stored [][]vfFrag      // fragments received so far, per message
		for k := 0; k < nm; k++ {
			stored = append(stored, nil)
		}
		hist := ""
		conflict := v.rng.Intn(6) == 0 // overlapping fragments with different bytes
		v.run(fmt.Sprintf("receive n=%d conflict=%v", nm, conflict), func() {
			complete := func(k int) bool {
				if k < 0 || k >= nm {
					return false
				}
				have := make([]bool, len(bodies[k]))
				for _, f := range stored[k] {
					for p := range f.body {
						have[f.offset+p] = true
					}
				}
				for _, x := range have {
					if !x {
						return false
					}
				}
				return len(stored[k]) > 0
			}
			check := func(m *HandshakeMessage, err error) bool {
				if err != nil {
					v.viol("error", "consistent fragments are refused: %v (%s)", err, hist)
					return false
				}
				k := next - first
				if m == nil {
					if complete(k) {
						v.viol("withheld", "message %d is complete but is not delivered (%s)", next, hist)
						return false
					}
					return true
				}
				if k >= nm || int(m.seq) != next {
					v.viol("order", "message %d is delivered when %d is next (%s)", m.seq, next, hist)
					return false
				}
				if !complete(k) {
					v.viol("early", "message %d is delivered before it is complete (%s)", next, hist)
					return false
				}
				if len(m.body) != len(bodies[k]) || m.offset != 0 || int(m.length) != len(bodies[k]) || m.msgType != HandshakeTypeCertificate {
					v.viol("shape", "message %d of %d bytes is delivered with %d bytes, length %d, offset %d, type %d (%s)", next, len(bodies[k]), len(m.body), m.length, m.offset, m.msgType, hist)
					return false
				}
				for p, x := range m.body {
					ok := false
					for _, f := range stored[k] {
						if p >= f.offset && p < f.offset+len(f.body) && f.body[p-f.offset] == x {
							ok = true
						}
					}
					if !ok {
						v.viol("bytes", "byte %d of message %d was not received (%s)", p, next, hist)
						return false
					}
				}
				next++
				return true
			}
			for s := 0; s < 60 && !v.over(); s++ {
				k := v.rng.Intn(nm)
				if v.rng.Intn(3) > 0 && next-first < nm {
					k = next - first
				}
				b := bodies[k]
				off := v.rng.Intn(len(b) + 1)
				n := v.rng.Intn(len(b) - off + 1)
				if v.rng.Intn(8) == 0 {
					off, n = 0, len(b)
				}
				f := vfFrag{seq: first + k, offset: off, flen: n, length: len(b), body: append([]byte{}, b[off:off+n]...)}
				if conflict && n > 0 && v.rng.Intn(3) == 0 {
					f.body[v.rng.Intn(n)] ^= 0x55
				}
				hist += fmt.Sprintf("%d:%d+%d/%d ", f.seq, off, n, len(b))
				if v.rng.Intn(25) == 0 { // past the end
					bad := &HandshakeMessage{msgType: HandshakeTypeCertificate, seq: uint32(f.seq), datagram: true, length: uint32(len(b)), offset: uint32(off), body: make([]byte, len(b)-off+1+v.rng.Intn(3))}
					m, err := h.newFragmentReceived(bad)
					if f.seq >= next && err == nil || m != nil {
						v.viol("too-long", "a fragment of %d bytes at %d of a message of %d bytes is accepted (%s)", len(bad.body), off, len(b), hist)
						return
					}
				}
				m, err := h.newFragmentReceived(&HandshakeMessage{msgType: HandshakeTypeCertificate, seq: uint32(f.seq), datagram: true, length: uint32(len(b)), offset: uint32(off), body: append([]byte{}, f.body...)})
				if f.seq >= next {
					stored[k] = append(stored[k], f)
				} else if m != nil || err != nil {
					v.viol("stale", "a fragment of the delivered message %d gives %v, %v (%s)", f.seq, m, err, hist)
					return
				}
				if f.seq < next {
					continue
				}
				if !check(m, err) {
					return
				}
				if m != nil {
					for {
						m, err := h.checkMessageAvailable()
						if !check(m, err) {
							return
						}
						if m == nil {
							break
						}
					}
				}
			}
		})
	}
	for i := 0; i < v.n(600) && !v.over(); i++ { // inconsistent lengths
		c, _ := vfLayers()
		n := 2 + v.rng.Intn(20)
		cut := 1 + v.rng.Intn(n-1)
		n2 := n + 1 + v.rng.Intn(5)
		v.run("receive other length", func() {
			a := &HandshakeMessage{msgType: HandshakeTypeCertificate, datagram: true, length: uint32(n), body: make([]byte, cut)}
			b := &HandshakeMessage{msgType: HandshakeTypeCertificate, datagram: true, length: uint32(n2), offset: uint32(cut), body: make([]byte, n-cut)}
			if v.rng.Intn(2) == 0 {
				a, b = b, a
			}
			m1, err1 := c.hIn.newFragmentReceived(a)
			m2, err2 := c.hIn.newFragmentReceived(b)
			if m1 != nil || m2 != nil || err1 != nil || err2 == nil {
				v.viol("mismatch", "fragments of one message with lengths %d and %d: %v %v, %v %v", n, n2, m1 != nil, err1, m2 != nil, err2)
			}
		})
	}
}

func TestVfC21(t *testing.T) {
	v := vfStart(t, "1 to 4 queued messages of up to 120 bytes, room for 1 to 40 body bytes that may change between flights, 1 to 6 rounds of acknowledging random subsets of the record numbers sent (and unknown ones, and malformed acknowledgements), against a reference of what was acknowledged; ACK records for up to 400 received numbers")
	for i := 0; i < v.n(2500) && !v.over(); i++ {
		c, w := vfLayers()
		rl := c.hOut.conn.(*DefaultRecordLayer)
		nm := 1 + v.rng.Intn(4)
		fixed := v.rng.Intn(3) > 0
		room := 13 + v.rng.Intn(40)
		c.hOut.maxFragmentLen = room
		if v.rng.Intn(2) == 0 {
			rl.cipher.epoch = Epoch(v.rng.Intn(4))
			rl.cipher.seq = uint64(v.rng.Intn(1 << 20))
		}
		v.run(fmt.Sprintf("acks n=%d fixed=%v epoch=%d", nm, fixed, rl.cipher.epoch), func() {
			var msgs []*HandshakeMessage
			for k := 0; k < nm; k++ {
				b := make([]byte, v.rng.Intn(121))
				v.rng.Read(b)
				m := &HandshakeMessage{msgType: HandshakeTypeCertificate, body: b, seq: uint32(k), datagram: true, length: uint32(len(b))}
				msgs = append(msgs, m)
				if err := c.hOut.QueueMessage(m); err != nil {
					v.viol("queue", "%v", err)
					return
				}
			}
			if _, err := c.hOut.SendQueuedMessages(); err != nil {
				v.viol("send", "%v", err)
				return
			}
			var all, acked []vfFrag // fragments sent so far, those acknowledged
			covered := func(seq, off, n int) bool {
				for _, f := range acked {
					if f.seq == seq && f.offset <= off && f.offset+f.flen >= off+n {
						return true
					}
				}
				return false
			}
			expect := func(what string) bool {
				fr, err := vfFrags(w.out.Bytes())
				w.out.Reset()
				if err != nil {
					v.viol("wire", "%s: %v", what, err)
					return false
				}
				i := 0
				for _, m := range msgs {
					for off := 0; ; {
						n := vfMin(len(m.body)-off, room-12)
						if !covered(int(m.seq), off, n) {
							if i >= len(fr) || fr[i].seq != int(m.seq) || fr[i].offset != off || fr[i].flen != n || !bytes.Equal(fr[i].body, m.body[off:off+n]) {
								v.viol("resend", "%s: fragment %d+%d of message %d was not acknowledged and is not sent again (%d records sent)", what, off, n, m.seq, len(fr))
								return false
							}
							i++
						}
						off += n
						if off >= len(m.body) {
							break
						}
					}
				}
				if i != len(fr) {
					v.viol("resend-acked", "%s: %d fragments sent, %d expected", what, len(fr), i)
					return false
				}
				for j := 1; j < len(fr); j++ {
					if fr[j].rec <= fr[j-1].rec {
						v.viol("number", "record number %d follows %d", fr[j].rec, fr[j-1].rec)
						return false
					}
				}
				all = append(all, fr...)
				return true
			}
			if !expect("first flight") {
				return
			}
			for r := 0; r < 1+v.rng.Intn(6) && len(c.hOut.queued) > 0; r++ {
				if !fixed {
					room = 13 + v.rng.Intn(40)
					c.hOut.maxFragmentLen = room
				}
				var ack []byte
				pick := v.rng.Intn(4)
				for _, f := range all {
					if v.rng.Intn(4) < pick {
						ack = append(ack, byte(f.rec>>56), byte(f.rec>>48), byte(f.rec>>40), byte(f.rec>>32), byte(f.rec>>24), byte(f.rec>>16), byte(f.rec>>8), byte(f.rec))
						acked = append(acked, f)
					}
				}
				if v.rng.Intn(4) == 0 { // never sent
					x := all[len(all)-1].rec + 1 + uint64(v.rng.Intn(9))
					if v.rng.Intn(2) == 0 {
						x = all[0].rec ^ 1<<48
					}
					ack = append(ack, byte(x>>56), byte(x>>48), byte(x>>40), byte(x>>32), byte(x>>24), byte(x>>16), byte(x>>8), byte(x))
				}
				data := append([]byte{byte(len(ack) >> 8), byte(len(ack))}, ack...)
				if v.rng.Intn(5) == 0 { // malformed: nothing is acknowledged
					bad := append(append([]byte{}, data...), 0)
					if v.rng.Intn(2) == 0 && len(data) > 2 {
						bad = data[:len(data)-1]
					}
					flags := fmt.Sprint(vfAckedFlags(c))
					if err := c.processAck(bad); err == nil {
						v.viol("malformed", "a malformed acknowledgement %x is accepted", bad)
						return
					}
					if fmt.Sprint(vfAckedFlags(c)) != flags {
						v.viol("malformed-marks", "a refused acknowledgement %x marks fragments", bad)
						return
					}
					w.out.Reset()
				}
				if err := c.processAck(data); err != nil {
					v.viol("ack-error", "acknowledgement %x: %v", data, err)
					return
				}
				if !expect(fmt.Sprintf("round %d, room %d", r, room)) {
					return
				}
			}
		})
	}
	for i := 0; i < v.n(300) && !v.over(); i++ {
		c, w := vfLayers()
		n := v.rng.Intn(12)
		if v.rng.Intn(3) == 0 {
			n = 100 + v.rng.Intn(300)
		}
		v.run(fmt.Sprintf("send ack many=%v none=%v", n > 12, n == 0), func() {
			for k := 0; k < n; k++ {
				c.hIn.recvdRecords = append(c.hIn.recvdRecords, v.rng.Uint64())
			}
			want := append([]uint64{}, c.hIn.recvdRecords...)
			if err := c.sendAck(); err != nil {
				v.viol("send-ack", "%d record numbers: %v", n, err)
				return
			}
			d := w.out.Bytes()
			if len(d) < 15 || d[0] != byte(RecordTypeAck) || int(d[11])<<8|int(d[12]) != len(d)-13 || int(d[13])<<8|int(d[14]) != len(d)-15 || (len(d)-15)%8 != 0 {
				v.viol("ack-form", "the acknowledgement of %d records is %x", n, d[:vfMin(len(d), 40)])
				return
			}
			cnt := (len(d) - 15) / 8
			if len(d)-13 > 1200 || cnt != n && cnt != (1200-2)/8 || cnt > n {
				v.viol("ack-count", "%d of %d record numbers acknowledged", cnt, n)
				return
			}
			for k := 0; k < cnt; k++ {
				var x uint64
				for _, b := range d[15+8*k : 23+8*k] {
					x = x<<8 | uint64(b)
				}
				if x != want[k] {
					v.viol("ack-number", "number %d of the acknowledgement is %x, the record received was %x", k, x, want[k])
					return
				}
			}
		})
	}
}

func vfAckedFlags(c *HandshakeContext) (out []int) {
	for i, f := range c.sentFragments {
		if f.acked {
			out = append(out, i)
		}
	}
	sort.Ints(out)
	return
}
