package mint

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"io"
	"testing"
	"time"
)

// Application data, key updates and tickets on established connections.

var vfLens = []int{0, 1, 2, 100, 16383, 16384, 16385, 32767, 32768, 32769, 49152, 70000}

func (v *vfRun) vfReadSome(c *Conn, n int) ([]byte, error) {
	b := make([]byte, n+3)
	copy(b[n:], "xyz")
	k, err := c.Read(b[:n])
	if string(b[n:]) != "xyz" {
		v.viol("read-overrun", "Read wrote behind its buffer")
	}
	if k < 0 || k > n {
		v.viol("read-count", "Read of %d bytes returned %d", n, k)
		return nil, err
	}
	return b[:k], err
}

func vfBlocked(err error) bool { return err == error(AlertWouldBlock) }

type vfDir struct {
	w, r    *Conn
	ws      *vfSide
	sent    []byte
	got     []byte
	started int // records written before
}

func vfDirs(l *vfLink) []*vfDir {
	return []*vfDir{{w: l.client, r: l.server, ws: l.cs}, {w: l.server, r: l.client, ws: l.ss}}
}

func (v *vfRun) vfSend(l *vfLink, d *vfDir, n int) {
	msg := v.bytes(n)
	keep := append([]byte{}, msg...)
	was := len(d.ws.appOut)
	k, err := d.w.Write(msg)
	if err != nil || k != n {
		v.viol("write", "writing %d bytes: %d, %v", n, k, err)
	}
	if !bytes.Equal(msg, keep) {
		v.viol("write-buffer", "Write changed its buffer")
	}
	d.sent = append(d.sent, keep...)
	if !l.dtls {
		var out []byte
		for _, r := range d.ws.appOut[was:] {
			if len(r) > 16384 {
				v.viol("record-size", "a record of %d bytes was written", len(r))
			}
			out = append(out, r...)
		}
		if !bytes.Equal(out, keep) {
			v.viol("records", "writing %d bytes: the records hold %d bytes, or others", n, len(out))
		}
	}
}

func (v *vfRun) vfRecv(d *vfDir, n int) {
	b, err := v.vfReadSome(d.r, n)
	if err != nil && !vfBlocked(err) {
		v.viol("read", "Read: %v", err)
		return
	}
	d.got = append(d.got, b...)
	if !bytes.HasPrefix(d.sent, d.got) {
		v.viol("stream", "after %d bytes the data read is not a prefix of the data written", len(d.got))
		return
	}
	if n > 0 && len(b) == 0 && len(d.got) < len(d.sent) && err == nil {
		v.viol("read-none", "Read returned nothing and no error")
	}
}

func (v *vfRun) vfDrain(d *vfDir) {
	for i := 0; i < 2000 && len(d.got) < len(d.sent) && !v.over(); i++ {
		v.vfRecv(d, 1+v.rng.Intn(20000))
	}
	if !v.over() && !bytes.Equal(d.got, d.sent) {
		v.viol("lost", "%d bytes written, %d read", len(d.sent), len(d.got))
	}
}

func vfTakeAll(c *Conn, actions []HandshakeAction, alert Alert) error {
	if alert != AlertNoAlert {
		return fmt.Errorf("alert %v", alert)
	}
	for _, a := range actions {
		if al := c.takeAction(a); al != AlertNoAlert {
			return fmt.Errorf("alert %v", al)
		}
	}
	return nil
}

// needs: vfcrypto vfneg vfhs
func TestVfC16(t *testing.T) {
	v := vfStart(t, "established connections: random sequences of writes (0 to 70000 bytes), reads, warning alerts, key updates and tickets; failing transports; TLS and DTLS")
	for i := 0; i < v.n(60) && !v.over(); i++ {
		c := vfRandCfg(v, 2)
		c.early, c.clientEarly = false, false
		v.run(fmt.Sprintf("data over %v", c), func() {
			l := vfHonest(v, c)
			if l == nil {
				return
			}
			ds := vfDirs(l)
			for k := 0; k < 25 && !v.over(); k++ {
				d := ds[v.rng.Intn(2)]
				switch v.rng.Intn(8) {
				case 0, 1, 2:
					v.vfSend(l, d, vfLens[v.rng.Intn(len(vfLens))])
				case 3, 4:
					v.vfRecv(d, []int{0, 1, 7, 16384, 40000}[v.rng.Intn(5)])
				case 5: // a warning alert is no data
					d.w.out.WriteRecord(&TLSPlaintext{contentType: RecordTypeAlert, fragment: []byte{AlertLevelWarning, byte(AlertNoRenegotiation)}})
				case 6:
					if !l.dtls {
						if err := d.w.SendKeyUpdate(v.rng.Intn(2) == 0); err != nil {
							v.viol("key-update", "%v", err)
						}
					} else {
						d.w.out.WriteRecord(&TLSPlaintext{contentType: RecordTypeAck, fragment: []byte{0, 0}})
					}
				case 7:
					if !l.dtls {
						a, al := l.server.state.NewSessionTicket(16, 10, 0)
						if err := vfTakeAll(l.server, a, al); err != nil {
							v.viol("ticket", "%v", err)
						}
					}
				}
			}
			for _, d := range ds {
				v.vfDrain(d)
			}
			// nothing is made up
			for _, d := range ds {
				if b, err := v.vfReadSome(d.r, 10); len(b) > 0 || err == nil {
					v.viol("made-up", "with nothing left to read, Read gives %d bytes, %v", len(b), err)
				}
			}
			for _, x := range []*Conn{l.client, l.server} {
				if !l.dtls && len(x.readBuffer) > 0 {
					v.viol("left", "%d bytes left", len(x.readBuffer))
				}
			}
		})
	}
	// a transport that fails: the count is that of the records written
	for i := 0; i < v.n(40) && !v.over(); i++ {
		n, ok := vfLens[v.rng.Intn(len(vfLens))], v.rng.Intn(5)
		v.run(fmt.Sprintf("write of %d bytes over a transport that takes %d writes", n, ok), func() {
			c := vfRandCfg(v, 0)
			c.early, c.clientEarly = false, false
			l := vfHonest(v, c)
			if l == nil {
				return
			}
			rl := l.client.out.(*vfRL)
			fl := &vfFailRL{RecordLayer: rl, left: ok}
			l.client.out = fl
			msg := v.bytes(n)
			k, err := l.client.Write(msg)
			if !bytes.HasPrefix(msg, fl.data) || len(fl.data) != k {
				v.viol("failing-write", "Write reports %d bytes, %d were written", k, len(fl.data))
			}
			if (err == nil) != (k == n) && n > 0 {
				v.viol("failing-write-error", "Write of %d bytes reports %d and %v", n, k, err)
			}
		})
	}
	v.done()
}

type vfFailRL struct {
	RecordLayer
	left int
	data []byte
}

func (r *vfFailRL) WriteRecord(pt *TLSPlaintext) error {
	if r.left == 0 {
		return io.ErrClosedPipe
	}
	r.left--
	r.data = append(r.data, pt.fragment...)
	return r.RecordLayer.WriteRecord(pt)
}

// needs: vfcrypto vfneg vfhs
func TestVfC17(t *testing.T) {
	v := vfStart(t, "random sequences of key updates from both sides, with and without a request, mixed with application data, against an independent derivation (TLS)")
	for i := 0; i < v.n(120) && !v.over(); i++ {
		c := vfRandCfg(v, 0)
		c.early, c.clientEarly = false, false
		v.run(fmt.Sprintf("updates over %v", c), func() {
			cc, sc := vfConfigs(c)
			l := vfLinkUp(cc, sc)
			if err := l.client.SendKeyUpdate(false); err == nil {
				v.viol("before", "a key update is sent before the handshake")
			}
			l.hs(nil)
			if !l.done() {
				v.viol("completes", "an honest handshake does not complete (%v)", c)
				return
			}
			s, err := l.oracle(c)
			if err != nil {
				v.viol("oracle", "%v", err)
				return
			}
			sec := map[bool][]byte{true: s.cAP, false: s.sAP}
			side := map[bool]*vfSide{true: l.cs, false: l.ss}
			conn := map[bool]*Conn{true: l.client, false: l.server}
			outs := map[bool]int{true: len(l.cs.out), false: len(l.ss.out)}
			ins := map[bool]int{true: len(l.cs.in), false: len(l.ss.in)}
			step := func(client bool) {
				sec[client] = vfExpandLabel(s.h, sec[client], "traffic upd", nil, s.h.Size())
			}
			key := func(what string, got []vfRekey, n int, client bool) {
				if len(got) != n {
					v.viol(what+"-count", "%d keys installed, expected %d (%v)", len(got), n, c)
					return
				}
				k, iv := s.keys(sec[client])
				if g := got[n-1]; g.epoch != EpochUpdate || !bytes.Equal(g.key, k) || !bytes.Equal(g.iv, iv) {
					v.viol(what, "wrong key installed (%v)", c)
				}
			}
			for k := 0; k < 8 && !v.over(); k++ {
				from, req := v.rng.Intn(2) == 0, v.rng.Intn(2) == 0
				nm := len(l.msgs)
				if err := conn[from].SendKeyUpdate(req); err != nil {
					v.viol("send", "%v", err)
					return
				}
				step(from)
				outs[from]++
				key("out", side[from].out, outs[from], from)
				want := byte(0)
				if req {
					want = 1
				}
				if len(l.msgs) != nm+1 || !bytes.Equal(l.msgs[nm].raw, []byte{24, 0, 0, 1, want}) || l.msgs[nm].client != from {
					v.viol("message", "key update message wrong")
					return
				}
				if len(side[from].in) != ins[from] {
					v.viol("other-direction", "sending an update changed the receiving keys")
				}
				d := &vfDir{w: conn[from], r: conn[!from], ws: side[from]}
				n := v.rng.Intn(100)
				v.vfSend(l, d, n)
				if n == 0 {
					conn[!from].Read(make([]byte, 5))
				}
				v.vfDrain(d)
				ins[!from]++
				key("in", side[!from].in, ins[!from], from)
				if req {
					step(!from)
					outs[!from]++
					key("answer", side[!from].out, outs[!from], !from)
					if len(l.msgs) != nm+2 || !bytes.Equal(l.msgs[nm+1].raw, []byte{24, 0, 0, 1, 0}) {
						v.viol("answer-message", "the answer to a requested update is wrong")
						return
					}
					d := &vfDir{w: conn[!from], r: conn[from], ws: side[!from]}
					v.vfSend(l, d, 1+v.rng.Intn(50))
					v.vfDrain(d)
					ins[from]++
					key("answer-in", side[from].in, ins[from], !from)
				} else if len(l.msgs) != nm+1 || len(side[!from].out) != outs[!from] {
					v.viol("unrequested", "an update that was not requested is answered")
				}
				for _, cl := range []bool{true, false} {
					if st := conn[cl].state; !bytes.Equal(st.clientTrafficSecret, sec[true]) || !bytes.Equal(st.serverTrafficSecret, sec[false]) {
						v.viol("secrets", "traffic secrets differ from the derivation (client=%v, %v)", cl, c)
					}
				}
			}
			for _, x := range []*Conn{l.client, l.server} { // a value that requests nothing
				st := x.state
				req := byte(2 + v.rng.Intn(254))
				nx, acts, al := st.ProcessMessage(&HandshakeMessage{msgType: HandshakeTypeKeyUpdate, body: []byte{req}})
				if al == AlertNoAlert {
					n := nx.(stateConnected)
					if len(acts) != 1 || st.isClient && !bytes.Equal(n.clientTrafficSecret, st.clientTrafficSecret) || !st.isClient && !bytes.Equal(n.serverTrafficSecret, st.serverTrafficSecret) {
						v.viol("unknown-request", "a key update with request value %d is answered", req)
					}
				}
			}
			for _, from := range []bool{true, false} {
				d := &vfDir{w: conn[from], r: conn[!from], ws: side[from]}
				v.vfSend(l, d, 1+v.rng.Intn(300))
				v.vfDrain(d)
			}
		})
	}
	v.done()
}

// needs: vfcrypto vfneg vfhs
func TestVfC18(t *testing.T) {
	v := vfStart(t, "tickets of many lengths and lifetimes on connections of every kind: both stored keys against an independent derivation, then a resumption with the stored key (TLS)")
	seen := map[string]bool{}
	for i := 0; i < v.n(120) && !v.over(); i++ {
		c := vfRandCfg(v, 0)
		c.early, c.clientEarly = false, false
		if c.psk { // the issued ticket has to be what the client finds
			c.ke = false
		}
		v.run(fmt.Sprintf("ticket over %v", c), func() {
			cc, sc := vfConfigs(c)
			auto := v.rng.Intn(2) == 0
			life := []uint32{1000, 604800, 60, 3600, 5000000, 1<<32 - 1, 100 + v.rng.Uint32()}[v.rng.Intn(7)]
			tl := []int{16, 1, 255, 5000, 32}[v.rng.Intn(5)]
			if auto {
				sc.SendSessionTickets, sc.TicketLen, sc.TicketLifetime = true, tl, life
			}
			l := vfLinkUp(cc, sc)
			l.hs(nil)
			if !l.done() {
				v.viol("completes", "an honest handshake does not complete (%v)", c)
				return
			}
			s, err := l.oracle(c)
			if err != nil {
				v.viol("oracle", "%v", err)
				return
			}
			if !auto {
				a, al := l.server.state.NewSessionTicket(tl, life, 0)
				if err := vfTakeAll(l.server, a, al); err != nil {
					v.viol("issue", "%v", err)
					return
				}
			}
			var raw []byte
			for _, m := range l.msgs {
				if m.raw[0] == 4 {
					raw = m.raw[4:]
				}
			}
			if len(raw) < 13 {
				v.viol("sent", "no ticket was sent")
				return
			}
			lt := uint32(raw[0])<<24 | uint32(raw[1])<<16 | uint32(raw[2])<<8 | uint32(raw[3])
			add := uint32(raw[4])<<24 | uint32(raw[5])<<16 | uint32(raw[6])<<8 | uint32(raw[7])
			nonce := raw[9 : 9+int(raw[8])]
			rest := raw[9+int(raw[8]):]
			ticket := rest[2 : 2+(int(rest[0])<<8|int(rest[1]))]
			if lt != life || len(ticket) != tl {
				v.viol("ticket", "ticket of %d bytes with lifetime %d, asked for %d and %d", len(ticket), lt, tl, life)
			}
			id := hex.EncodeToString(nonce) + hex.EncodeToString(raw[4:8])
			if seen[id] {
				v.viol("fresh", "nonce and age-add value repeat")
			}
			seen[id] = true
			if len(ticket) >= 16 && seen[hex.EncodeToString(ticket)] || len(ticket) >= 32 && bytes.Equal(ticket[:16], ticket[16:32]) {
				v.viol("fresh", "the ticket is not fresh")
			}
			seen[hex.EncodeToString(ticket)] = true
			l.client.Read(make([]byte, 10))
			want := vfExpandLabel(s.h, s.res, "resumption", nonce, s.h.Size())
			sp, ok1 := sc.PSKs.Get(hex.EncodeToString(ticket))
			cp, ok2 := cc.PSKs.Get("server.example")
			if !ok1 || !ok2 {
				v.viol("stored", "not stored: server %v client %v", ok1, ok2)
				return
			}
			for name, p := range map[string]PreSharedKey{"server": sp, "client": cp} {
				if !bytes.Equal(p.Key, want) || !bytes.Equal(p.Identity, ticket) || p.CipherSuite != c.suite || !p.IsResumption || p.TicketAgeAdd != add || p.NextProto != l.server.state.Params.NextProto {
					v.viol("psk", "%s stored %+v, key %x expected (%v)", name, p, want, c)
				}
				if d := p.ExpiresAt.Sub(p.ReceivedAt) - time.Duration(life)*time.Second; d < 0 || d > 5*time.Second {
					v.viol("lifetime", "%s stored a lifetime of %v, sent %d s", name, p.ExpiresAt.Sub(p.ReceivedAt), life)
				}
			}
			// resume
			cc2, sc2 := vfConfigs(vfCfg{suite: c.suite, group: c.group, key: c.key, alpn: c.alpn})
			if c.alpn != "" {
				cc2.NextProtos = []string{c.alpn}
			}
			cc2.PSKs, sc2.PSKs = cc.PSKs, sc.PSKs
			cc2.PSKModes, sc2.PSKModes = []PSKKeyExchangeMode{PSKModeDHEKE}, []PSKKeyExchangeMode{PSKModeDHEKE}
			l2 := vfLinkUp(cc2, sc2)
			l2.hs(nil)
			if !l2.done() || !l2.client.state.Params.UsingPSK || !l2.server.state.Params.UsingPSK {
				v.viol("resume", "resumption with the ticket: done=%v client psk=%v server psk=%v (%v)", l2.done(), l2.client.state.Params.UsingPSK, l2.server.state.Params.UsingPSK, c)
				return
			}
			if err := vfExchange(l2, 20); err != nil {
				v.viol("resume-data", "%v", err)
			}
		})
	}
	v.done()
}

// needs: vfcrypto vfneg vfhs
func TestVfC27(t *testing.T) {
	v := vfStart(t, "reads and writes at every step of handshakes over random configurations, with early data offered, accepted and refused (TLS and DTLS)")
	for i := 0; i < v.n(300) && !v.over(); i++ {
		c := vfRandCfg(v, 2)
		v.run(fmt.Sprintf("gating over %v", c), func() {
			cc, sc := vfConfigs(c)
			l := vfLinkUp(cc, sc)
			var sent, got []byte
			accepted := false
			poke := func() {
				for _, x := range []*Conn{l.client, l.server} {
					if x.handshakeComplete {
						continue
					}
					early := x.isClient && c.clientEarly && x.out.Epoch() == EpochEarlyData
					msg := v.bytes(1 + v.rng.Intn(40))
					side := l.ss
					if x.isClient {
						side = l.cs
					}
					was := len(side.appOut)
					n, err := x.Write(msg)
					if early {
						if err != nil || n != len(msg) {
							v.viol("early-write", "early data is refused: %d %v (%v)", n, err, c)
						}
						sent = append(sent, msg...)
					} else if err == nil || n != 0 || len(side.appOut) != was {
						v.viol("write", "a write before completion is accepted: client=%v state %v epoch %v: %d %v", x.isClient, x.GetHsState(), x.out.Epoch(), n, err)
					}
					b := make([]byte, 1+v.rng.Intn(30))
					k, err := x.Read(b)
					switch {
					case x.isClient || !c.early:
						if err == nil || k != 0 {
							v.viol("read", "a read before completion succeeds: client=%v state %v: %d %v (%v)", x.isClient, x.GetHsState(), k, err, c)
						}
					default:
						got = append(got, b[:k]...)
						if k > 0 {
							accepted = true
						}
						if !bytes.HasPrefix(sent, got) {
							v.viol("early-read", "early data read is not what was sent (%v)", c)
						}
					}
				}
			}
			l.client.Write([]byte("x"))
			for k := 0; k < 40 && !l.done() && !v.over(); k++ {
				if !l.client.handshakeComplete {
					if k == 0 || v.rng.Intn(3) > 0 {
						l.client.Handshake()
						if w, ok := l.client.hState.(clientStateWaitSH); ok {
							l.shares = w.OfferedDH
						}
					}
				}
				poke()
				if !l.server.handshakeComplete && v.rng.Intn(3) > 0 {
					l.server.Handshake()
					poke()
				}
			}
			for k := 0; k < 30 && !l.done(); k++ {
				l.client.Handshake()
				l.server.Handshake()
			}
			if !l.done() {
				v.viol("completes", "an honest handshake does not complete (%v)", c)
				return
			}
			for k := 0; k < 100 && !v.over(); k++ {
				b := make([]byte, 50)
				n, err := l.server.Read(b)
				if err != nil || n == 0 {
					break
				}
				got = append(got, b[:n]...)
			}
			if l.server.state.Params.UsingEarlyData {
				if !bytes.Equal(got, sent) {
					v.viol("early-data", "%d bytes of early data sent, %d read (%v)", len(sent), len(got), c)
				}
			} else if len(got) > 0 || accepted {
				v.viol("early-data-refused", "early data was refused and %d bytes of it were read (%v)", len(got), c)
			}
			if err := vfExchange(l, 30); err != nil {
				v.viol("after", "%v (%v)", err, c)
			}
		})
	}
	v.done()
}
