package mint

import (
	"bytes"
	"crypto"
	"encoding/hex"
	"fmt"
	"testing"
	"time"
)

// vfBinder is the PSK binder as RFC 8446, section 4.2.11.2 defines it.
func vfBinder(h crypto.Hash, key []byte, resumption bool, context []byte) []byte {
	label := "ext binder"
	if resumption {
		label = "res binder"
	}
	early := vfMac(h, make([]byte, h.Size()), key)
	bk := vfDerive(h, early, label, vfSum(h))
	return vfMac(h, vfExpandLabel(h, bk, "finished", nil, h.Size()), vfSum(h, context))
}

var vfSuiteHash = map[CipherSuite]crypto.Hash{TLS_AES_128_GCM_SHA256: crypto.SHA256, TLS_AES_256_GCM_SHA384: crypto.SHA384}

// needs: vfcrypto vfhs vfneg vfconn vfrecord
func TestVfC13(t *testing.T) {
	v := vfStart(t, "up to 5 identities over caches of up to 3 keys, both suites, external and resumption keys, binders right, wrong, of another key, of another kind, truncated or swapped, ages off by 0 to 40 s or by multiples of 2^16 ms and ages whose 32-bit arithmetic wraps; and full server starts on ClientHellos whose binder is altered in transit")
	suites := []CipherSuite{TLS_AES_128_GCM_SHA256, TLS_AES_256_GCM_SHA384}
	for i := 0; i < v.n(1500) && !v.over(); i++ {
		cache := PSKMapCache{}
		var all [][]byte
		for k := 0; k < 5; k++ {
			id := make([]byte, 1+v.rng.Intn(20))
			v.rng.Read(id)
			if k > 0 && v.rng.Intn(8) == 0 {
				id = append(append([]byte{}, all[0]...), 0)
			}
			all = append(all, id)
		}
		n := v.rng.Intn(6)
		knows := v.rng.Intn(4)
		perm := v.rng.Perm(5)
		for _, k := range perm[:knows] {
			p := PreSharedKey{CipherSuite: suites[v.rng.Intn(2)], Identity: all[k], Key: make([]byte, 16+v.rng.Intn(40)), IsResumption: v.rng.Intn(2) == 0}
			v.rng.Read(p.Key)
			p.TicketAgeAdd = v.rng.Uint32()
			if v.rng.Intn(3) == 0 {
				p.TicketAgeAdd = ^uint32(0) - uint32(v.rng.Intn(1000))
			}
			p.ReceivedAt = time.Now().Add(-time.Duration(v.rng.Intn(100000)) * time.Millisecond)
			if v.rng.Intn(3) == 0 {
				p.ReceivedAt = time.Now().Add(-time.Duration(1+v.rng.Intn(3)) * 65536 * time.Millisecond)
			}
			cache[hex.EncodeToString(all[k])] = p
		}
		context := make([]byte, v.rng.Intn(300))
		v.rng.Read(context)
		var ids []PSKIdentity
		var bs []PSKBinderEntry
		perm = v.rng.Perm(5)
		sel, want, why := -1, "none", "none"
		for k := 0; k < n; k++ {
			id := all[perm[k]]
			p, known := cache[hex.EncodeToString(id)]
			h := vfSuiteHash[p.CipherSuite]
			var b []byte
			age := v.rng.Uint32()
			okBinder, okAge := true, true
			kind := v.rng.Intn(9)
			if v.rng.Intn(2) == 0 {
				kind = 0
			}
			if !known {
				b = make([]byte, 32)
				v.rng.Read(b)
			} else {
				b = vfBinder(h, p.Key, p.IsResumption, context)
				switch kind {
				case 1:
					b[v.rng.Intn(len(b))] ^= 1 << uint(v.rng.Intn(8))
				case 2:
					b = vfBinder(h, p.Key, !p.IsResumption, context)
				case 3:
					b = vfBinder(h, append([]byte{0}, p.Key...), p.IsResumption, context)
				case 4:
					b = b[:len(b)-1-v.rng.Intn(len(b))]
				case 5:
					b = append(b, 0)
				case 6:
					b = vfBinder(h, p.Key, p.IsResumption, append([]byte{1}, context...))
				}
				okBinder = kind == 0 || kind > 6
				ms := int64(time.Since(p.ReceivedAt) / time.Millisecond)
				off := int64(0)
				if v.rng.Intn(3) == 0 {
					off = int64(7000 + v.rng.Intn(40000))
					switch v.rng.Intn(4) {
					case 0:
						off = 65536 * int64(1+v.rng.Intn(3))
					case 1:
						off = 1 << uint(16+v.rng.Intn(15))
					}
					if v.rng.Intn(2) == 0 {
						off = -off
					}
				} else if v.rng.Intn(2) == 0 {
					off = int64(v.rng.Intn(7000) - 3500)
				}
				age = uint32(ms+off) + p.TicketAgeAdd
				// the code compares the two ages as 32-bit numbers: an offset below zero is a large age
				d := int64(uint32(ms+off)) - int64(uint32(ms))
				if d < 0 {
					d = -d
				}
				okAge = !p.IsResumption || d <= 3600
				if p.IsResumption && d > 3600 && d < 6500 {
					okAge, age = true, uint32(ms)+p.TicketAgeAdd
				}
			}
			ids = append(ids, PSKIdentity{Identity: id, ObfuscatedTicketAge: age})
			bs = append(bs, PSKBinderEntry{Binder: b})
			if known && sel < 0 {
				sel = k
				want, why = "use", fmt.Sprintf("binder kind %d resumption %v", kind, p.IsResumption)
				if !okBinder || !okAge {
					want = "error"
				}
				if !okAge {
					why += " stale"
				}
			}
		}
		v.run(fmt.Sprintf("offered=%d known=%d at=%d %s %s", n, knows, sel, want, why), func() {
			start := time.Now()
			ok, at, psk, params, err := PSKNegotiation(ids, bs, context, &cache)
			if time.Since(start) > time.Second {
				return // too slow to judge ages
			}
			switch want {
			case "none":
				if ok || err != nil {
					v.viol("none-known", "no offered identity is known, yet ok=%v err=%v", ok, err)
				}
			case "error":
				if ok || err == nil {
					v.viol("bad-accepted", "identity %d of %d is known, its binder or age is wrong (%s), yet ok=%v at=%d err=%v", sel, n, why, ok, at, err)
				}
			default:
				if !ok || err != nil || at != sel {
					v.viol("good-refused", "identity %d of %d is known, binder and age right (%s): ok=%v at=%d err=%v", sel, n, why, ok, at, err)
				} else if p := cache[hex.EncodeToString(ids[sel].Identity)]; !bytes.Equal(psk.Key, p.Key) || params.Suite != p.CipherSuite {
					v.viol("other-key", "identity %d of %d: another key or suite is used", sel, n)
				}
			}
		})
	}
	for i := 0; i < v.n(40) && !v.over(); i++ {
		c := vfRandCfg(v, 0)
		c.psk, c.hrr = true, false
		vfStarts(v, c)
	}
}

// vfStarts gives a real server's first state a real ClientHello with a PSK, unchanged or altered in one byte that the binder covers or that belongs to it.
func vfStarts(v *vfRun, c vfCfg) {
	what := v.rng.Intn(4)
	v.run(fmt.Sprintf("start alter=%d %v", what, c), func() {
		cc, sc := vfConfigs(c)
		l := vfLinkUp(cc, sc)
		l.client.Handshake()
		if a := l.server.HandshakeSetup(); a != AlertNoAlert {
			v.viol("setup", "server set-up fails: %v", a)
			return
		}
		hm, err := l.server.hsCtx.hIn.ReadMessage()
		if err != nil || hm == nil {
			v.viol("setup", "no ClientHello: %v", err)
			return
		}
		st, ok := l.server.hState.(serverStateStart)
		if !ok {
			v.viol("setup", "server starts in %T", l.server.hState)
			return
		}
		switch what {
		case 1: // the binder
			hm.body[len(hm.body)-1-v.rng.Intn(vfSuiteHash[c.suite].Size())] ^= 1 << uint(v.rng.Intn(8))
		case 2: // the random
			hm.body[2+v.rng.Intn(32)] ^= 1 << uint(v.rng.Intn(8))
		case 3: // the client's ticket age is part of what the binder covers
			hm.body[len(hm.body)-1-vfSuiteHash[c.suite].Size()-2-1] ^= 1
		}
		next, _, alert := st.Next(vfProbe{hm})
		n, good := next.(serverStateNegotiated)
		if what == 0 {
			if alert != AlertNoAlert || !good || !n.Params.UsingPSK || !bytes.Equal(n.pskSecret, vfPSK(c).Key) {
				v.viol("start-good", "an honest ClientHello with a PSK: alert %v, next %T, PSK used %v (%v)", alert, next, n.Params.UsingPSK, c)
			}
			return
		}
		if alert == AlertNoAlert {
			v.viol("start-bad", "a ClientHello altered in transit (%d) is accepted: next %T, PSK used %v (%v)", what, next, n.Params.UsingPSK, c)
		}
	})
}
