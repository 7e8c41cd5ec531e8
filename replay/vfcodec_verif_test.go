package mint

import (
	"bytes"
	"fmt"
	"reflect"
	"testing"
)

// The structures of RFC 8446 section 4, written again; vfsEnc and vfsDec encode and decode them.
type vfcExt struct {
	T uint16
	D []uint8 `tls:"head=2"`
}
type vfcCH struct {
	V  uint16
	R  [32]uint8
	S  []uint8  `tls:"head=1,max=32"`
	CS []uint16 `tls:"head=2,min=2"`
	CM []uint8  `tls:"head=1,min=1"`
	E  []vfcExt `tls:"head=2"`
}
type vfcCHD struct {
	V  uint16
	R  [32]uint8
	S  []uint8 `tls:"head=1,max=32"`
	CK uint8
	CS []uint16 `tls:"head=2,min=2"`
	CM []uint8  `tls:"head=1,min=1"`
	E  []vfcExt `tls:"head=2"`
}
type vfcSH struct {
	V  uint16
	R  [32]uint8
	S  []uint8 `tls:"head=1,max=32"`
	CS uint16
	CM uint8
	E  []vfcExt `tls:"head=2"`
}
type vfcEE struct {
	E []vfcExt `tls:"head=2"`
}
type vfcCR struct {
	C []uint8  `tls:"head=1"`
	E []vfcExt `tls:"head=2"`
}
type vfcCV struct {
	A uint16
	S []uint8 `tls:"head=2"`
}
type vfcNST struct {
	L, A uint32
	N    []uint8  `tls:"head=1"`
	T    []uint8  `tls:"head=2,min=1"`
	E    []vfcExt `tls:"head=2"`
}
type vfcKU struct{ R uint8 }
type vfcName struct {
	T uint8
	N []uint8 `tls:"head=2,min=1"`
}
type vfcSNI struct {
	L []vfcName `tls:"head=2,min=1"`
}
type vfcKSE struct {
	G uint16
	K []uint8 `tls:"head=2,min=1"`
}
type vfcKSC struct {
	S []vfcKSE `tls:"head=2"`
}
type vfcU16s struct {
	L []uint16 `tls:"head=2,min=2"`
}
type vfcID struct {
	I []uint8 `tls:"head=2,min=1"`
	A uint32
}
type vfcBinder struct {
	B []uint8 `tls:"head=1,min=32"`
}
type vfcPSK struct {
	I []vfcID     `tls:"head=2,min=7"`
	B []vfcBinder `tls:"head=2,min=33"`
}
type vfcModes struct {
	M []uint8 `tls:"head=1,min=1"`
}
type vfcProto struct {
	N []uint8 `tls:"head=1,min=1"`
}
type vfcALPN struct {
	P []vfcProto `tls:"head=2,min=2"`
}
type vfcSV struct {
	V []uint16 `tls:"head=1,min=2,max=254"`
}
type vfcCookie struct {
	C []uint8 `tls:"head=2,min=1"`
}

func vfcExts(e []vfcExt) (l ExtensionList) {
	l = ExtensionList{}
	for _, x := range e {
		l = append(l, Extension{ExtensionType(x.T), x.D})
	}
	return
}

type vfcPDU interface {
	Marshal() ([]byte, error)
	Unmarshal([]byte) (int, error)
}

// vfcKind: one message or extension. conv gives the value mint should hold for ref, and whether it is to be accepted
type vfcKind struct {
	name  string
	ref   interface{}
	conv  func(ref interface{}) (vfcPDU, bool)
	empty func() vfcPDU
}

var vfcGroupLen = map[NamedGroup]int{P256: 65, P384: 97, P521: 133, X25519: 32, FFDHE2048: 256, FFDHE3072: 384, FFDHE4096: 512, FFDHE6144: 768, FFDHE8192: 1024}

func vfcKinds() []vfcKind {
	ks := func(t HandshakeType) func() vfcPDU {
		return func() vfcPDU { return &KeyShareExtension{HandshakeType: t} }
	}
	shares := func(s []vfcKSE) (o []KeyShareEntry, ok bool) {
		o, ok = []KeyShareEntry{}, true
		for _, e := range s {
			o = append(o, KeyShareEntry{NamedGroup(e.G), e.K})
			ok = ok && len(e.K) == vfcGroupLen[NamedGroup(e.G)]
		}
		return
	}
	cs := func(l []uint16) (o []CipherSuite) {
		o = []CipherSuite{}
		for _, c := range l {
			o = append(o, CipherSuite(c))
		}
		return
	}
	return []vfcKind{
		{"ClientHello", vfcCH{}, func(r interface{}) (vfcPDU, bool) {
			x := r.(vfcCH)
			return &ClientHelloBody{x.V, x.R, x.S, cs(x.CS), vfcExts(x.E)}, len(x.CM) == 1 && x.CM[0] == 0
		}, func() vfcPDU { return &ClientHelloBody{} }},
		{"ClientHello DTLS", vfcCHD{}, func(r interface{}) (vfcPDU, bool) {
			x := r.(vfcCHD)
			return &ClientHelloBody{x.V, x.R, x.S, cs(x.CS), vfcExts(x.E)}, x.CK == 0 && len(x.CM) == 1 && x.CM[0] == 0
		}, func() vfcPDU { return &ClientHelloBody{LegacyVersion: dtls12WireVersion} }},
		{"ServerHello", vfcSH{}, func(r interface{}) (vfcPDU, bool) {
			x := r.(vfcSH)
			return &ServerHelloBody{x.V, x.R, x.S, CipherSuite(x.CS), x.CM, vfcExts(x.E)}, true
		}, func() vfcPDU { return &ServerHelloBody{} }},
		{"EncryptedExtensions", vfcEE{}, func(r interface{}) (vfcPDU, bool) {
			return &EncryptedExtensionsBody{vfcExts(r.(vfcEE).E)}, true
		}, func() vfcPDU { return &EncryptedExtensionsBody{} }},
		{"ExtensionList", vfcEE{}, func(r interface{}) (vfcPDU, bool) { l := vfcExts(r.(vfcEE).E); return &l, true }, func() vfcPDU { return &ExtensionList{} }},
		{"Extension", vfcExt{}, func(r interface{}) (vfcPDU, bool) {
			x := r.(vfcExt)
			return &Extension{ExtensionType(x.T), x.D}, true
		}, func() vfcPDU { return &Extension{} }},
		{"CertificateRequest", vfcCR{}, func(r interface{}) (vfcPDU, bool) {
			x := r.(vfcCR)
			return &CertificateRequestBody{x.C, vfcExts(x.E)}, true
		}, func() vfcPDU { return &CertificateRequestBody{} }},
		{"CertificateVerify", vfcCV{}, func(r interface{}) (vfcPDU, bool) {
			x := r.(vfcCV)
			return &CertificateVerifyBody{SignatureScheme(x.A), x.S}, true
		}, func() vfcPDU { return &CertificateVerifyBody{} }},
		{"NewSessionTicket", vfcNST{}, func(r interface{}) (vfcPDU, bool) {
			x := r.(vfcNST)
			return &NewSessionTicketBody{x.L, x.A, x.N, x.T, vfcExts(x.E)}, true
		}, func() vfcPDU { return &NewSessionTicketBody{} }},
		{"KeyUpdate", vfcKU{}, func(r interface{}) (vfcPDU, bool) { return &KeyUpdateBody{KeyUpdateRequest(r.(vfcKU).R)}, true }, func() vfcPDU { return &KeyUpdateBody{} }},
		{"server_name", vfcSNI{}, func(r interface{}) (vfcPDU, bool) {
			x := r.(vfcSNI)
			if len(x.L) == 0 {
				return new(ServerNameExtension), false
			}
			s := ServerNameExtension(x.L[0].N)
			return &s, x.L[0].T == 0
		}, func() vfcPDU { return new(ServerNameExtension) }},
		{"key_share client", vfcKSC{}, func(r interface{}) (vfcPDU, bool) {
			s, ok := shares(r.(vfcKSC).S)
			return &KeyShareExtension{HandshakeType: HandshakeTypeClientHello, Shares: s}, ok
		}, ks(HandshakeTypeClientHello)},
		{"key_share server", vfcKSE{}, func(r interface{}) (vfcPDU, bool) {
			s, ok := shares([]vfcKSE{r.(vfcKSE)})
			return &KeyShareExtension{HandshakeType: HandshakeTypeServerHello, Shares: s}, ok
		}, ks(HandshakeTypeServerHello)},
		{"key_share retry", vfsU16{}, func(r interface{}) (vfcPDU, bool) {
			return &KeyShareExtension{HandshakeType: HandshakeTypeHelloRetryRequest, SelectedGroup: NamedGroup(r.(vfsU16).V)}, true
		}, ks(HandshakeTypeHelloRetryRequest)},
		{"supported_groups", vfcU16s{}, func(r interface{}) (vfcPDU, bool) {
			e := &SupportedGroupsExtension{[]NamedGroup{}}
			for _, g := range r.(vfcU16s).L {
				e.Groups = append(e.Groups, NamedGroup(g))
			}
			return e, true
		}, func() vfcPDU { return &SupportedGroupsExtension{} }},
		{"signature_algorithms", vfcU16s{}, func(r interface{}) (vfcPDU, bool) {
			e := &SignatureAlgorithmsExtension{[]SignatureScheme{}}
			for _, g := range r.(vfcU16s).L {
				e.Algorithms = append(e.Algorithms, SignatureScheme(g))
			}
			return e, true
		}, func() vfcPDU { return &SignatureAlgorithmsExtension{} }},
		{"pre_shared_key client", vfcPSK{}, func(r interface{}) (vfcPDU, bool) {
			x := r.(vfcPSK)
			e := &PreSharedKeyExtension{HandshakeType: HandshakeTypeClientHello, Identities: []PSKIdentity{}, Binders: []PSKBinderEntry{}}
			for _, i := range x.I {
				e.Identities = append(e.Identities, PSKIdentity{i.I, i.A})
			}
			for _, b := range x.B {
				e.Binders = append(e.Binders, PSKBinderEntry{b.B})
			}
			return e, len(x.I) == len(x.B)
		}, func() vfcPDU { return &PreSharedKeyExtension{HandshakeType: HandshakeTypeClientHello} }},
		{"pre_shared_key server", vfsU16{}, func(r interface{}) (vfcPDU, bool) {
			return &PreSharedKeyExtension{HandshakeType: HandshakeTypeServerHello, SelectedIdentity: r.(vfsU16).V}, true
		}, func() vfcPDU { return &PreSharedKeyExtension{HandshakeType: HandshakeTypeServerHello} }},
		{"psk_key_exchange_modes", vfcModes{}, func(r interface{}) (vfcPDU, bool) {
			e := &PSKKeyExchangeModesExtension{[]PSKKeyExchangeMode{}}
			for _, m := range r.(vfcModes).M {
				e.KEModes = append(e.KEModes, PSKKeyExchangeMode(m))
			}
			return e, true
		}, func() vfcPDU { return &PSKKeyExchangeModesExtension{} }},
		{"early_data ticket", vfsU32{}, func(r interface{}) (vfcPDU, bool) { return &TicketEarlyDataInfoExtension{r.(vfsU32).V}, true }, func() vfcPDU { return &TicketEarlyDataInfoExtension{} }},
		{"alpn", vfcALPN{}, func(r interface{}) (vfcPDU, bool) {
			e := &ALPNExtension{[]string{}}
			for _, p := range r.(vfcALPN).P {
				e.Protocols = append(e.Protocols, string(p.N))
			}
			return e, true
		}, func() vfcPDU { return &ALPNExtension{} }},
		{"supported_versions client", vfcSV{}, func(r interface{}) (vfcPDU, bool) {
			return &SupportedVersionsExtension{HandshakeTypeClientHello, r.(vfcSV).V}, true
		}, func() vfcPDU { return &SupportedVersionsExtension{HandshakeType: HandshakeTypeClientHello} }},
		{"supported_versions server", vfsU16{}, func(r interface{}) (vfcPDU, bool) {
			return &SupportedVersionsExtension{HandshakeTypeServerHello, []uint16{r.(vfsU16).V}}, true
		}, func() vfcPDU { return &SupportedVersionsExtension{HandshakeType: HandshakeTypeServerHello} }},
		{"cookie", vfcCookie{}, func(r interface{}) (vfcPDU, bool) { return &CookieExtension{r.(vfcCookie).C}, true }, func() vfcPDU { return &CookieExtension{} }},
	}
}

// vfcShape makes random values often acceptable: compression, cookies, versions, key sizes, equal binder counts
func vfcShape(r *vfRun, k string, v interface{}) {
	odd := r.rng.Intn(8) == 0
	size := func(e *vfcKSE) {
		gs := []NamedGroup{P256, P384, P521, X25519, FFDHE2048}
		e.G = uint16(gs[r.rng.Intn(len(gs))])
		n := vfcGroupLen[NamedGroup(e.G)]
		if r.rng.Intn(12) == 0 {
			n += r.rng.Intn(3) - 1
		}
		e.K = r.bytes(n)
	}
	switch x := v.(type) {
	case *vfcCH:
		x.V = tls12Version
		if !odd {
			x.CM = []uint8{0}
		}
	case *vfcCHD:
		x.V = dtls12WireVersion
		if !odd {
			x.CM, x.CK = []uint8{0}, 0
		}
	case *vfcKSC:
		for i := range x.S {
			size(&x.S[i])
		}
	case *vfcKSE:
		size(x)
	case *vfcSNI:
		if len(x.L) > 0 && !odd {
			x.L[0].T = 0
		}
	case *vfcPSK:
		for i := range x.B {
			x.B[i].B = r.bytes([]int{32, 48, 64, 33, 255, 31, 256}[r.rng.Intn(5+2*r.rng.Intn(2))])
		}
		if len(x.B) < len(x.I) || !odd {
			for len(x.B) < len(x.I) {
				x.B = append(x.B, vfcBinder{r.bytes(32)})
			}
			if !odd {
				x.B = x.B[:len(x.I)]
			}
		}
	}
}

// needs: vfsyntax
func TestVfC06(t *testing.T) {
	r := vfStart(t, "25 messages and extensions; 250 values each with lengths around their limits (20 times as many in the thorough tier), encodings, every truncation of short ones, tails and corruptions, against structures of RFC 8446 written separately; message headers, bodies with extra bytes, and binder prefixes of ClientHello")
	dec := func(k vfcKind, typ reflect.Type, d []byte, class string) {
		r.run(k.name+" decode "+class, func() {
			ref := reflect.New(typ)
			rest, ok := vfsDec(d, ref.Elem(), vfsTag{})
			var want vfcPDU
			if ok {
				want, ok = k.conv(ref.Elem().Interface())
			}
			got := k.empty()
			n, err := got.Unmarshal(d)
			if (err == nil) != ok {
				r.viol("decode-accept", "%s from %s: error %v, expected accepted=%v", k.name, vfHex(d), err, ok)
				return
			}
			if !ok {
				return
			}
			if n != len(d)-len(rest) {
				r.viol("decode-consumed", "%s from %s: %d bytes consumed, expected %d", k.name, vfHex(d), n, len(d)-len(rest))
			}
			if !reflect.DeepEqual(got, want) {
				r.viol("decode-value", "%s from %s: decoded %.300s, expected %.300s", k.name, vfHex(d), fmt.Sprintf("%+v", got), fmt.Sprintf("%+v", want))
			}
		})
	}
	kinds := vfcKinds()
	hl := &HandshakeLayer{}
	for i := 0; i < r.n(250) && !r.over(); i++ {
		for _, k := range kinds {
			typ := reflect.TypeOf(k.ref)
			v := reflect.New(typ)
			vfsRand(r, v.Elem(), vfsTag{})
			vfcShape(r, k.name, v.Interface())
			want, ok := vfsEnc(v.Elem(), vfsTag{})
			val, conv := k.conv(v.Elem().Interface())
			if conv && !(k.name == "server_name" && len(v.Elem().Field(0).Interface().([]vfcName)) != 1) {
				r.run(k.name+" encode", func() {
					got, err := val.Marshal()
					if (err == nil) != ok {
						r.viol("encode-accept", "%s %.300s: error %v, expected accepted=%v", k.name, fmt.Sprintf("%+v", val), err, ok)
					} else if ok && !bytes.Equal(got, want) {
						r.viol("encode-bytes", "%s %.300s: encoded %s, expected %s", k.name, fmt.Sprintf("%+v", val), vfHex(got), vfHex(want))
					}
				})
			}
			if !ok || len(want) > 3000 && i%16 != 0 {
				continue
			}
			dec(k, typ, want, "whole")
			dec(k, typ, append(append([]byte{}, want...), r.bytes(1+r.rng.Intn(5))...), "with a tail")
			for j := 0; j < len(want) && (len(want) < 50 || j < 8); j++ {
				c := j
				if len(want) >= 50 {
					c = r.rng.Intn(len(want))
				}
				dec(k, typ, want[:c], "truncated")
			}
			for j := 0; j < 3; j++ {
				d := append([]byte{}, want...)
				for m := r.rng.Intn(3); m >= 0; m-- {
					p := r.rng.Intn(len(d))
					d[p] = []byte{0, 1, d[p] + 1, d[p] - 1, 0xff, byte(r.rng.Intn(256))}[r.rng.Intn(6)]
				}
				if k.name == "ClientHello" { // the first two bytes choose nothing when decoding
					dec(k, typ, d, "corrupted")
				} else {
					dec(k, typ, d, "corrupted")
				}
			}
			// as a message
			body, isBody := val.(HandshakeMessageBody)
			if !isBody || !conv || k.name == "ClientHello DTLS" {
				continue
			}
			r.run(k.name+" message", func() {
				hl.datagram = r.rng.Intn(2) == 0
				hl.msgSeq = uint32(r.rng.Intn(60000))
				seq := hl.msgSeq
				m, err := hl.HandshakeMessageFromBody(body)
				if err != nil {
					r.viol("message", "%s: %v", k.name, err)
					return
				}
				head := append([]byte{byte(body.Type())}, vfBE(uint64(len(want)), 3)...)
				if hl.datagram {
					head = vfCat(head, vfBE(uint64(seq), 2), []byte{0, 0, 0}, vfBE(uint64(len(want)), 3))
				}
				if got := m.Marshal(); !bytes.Equal(got, append(head, want...)) {
					r.viol("message-bytes", "%s (datagram %v, sequence %d): transcript form %s, expected %s", k.name, hl.datagram, seq, vfHex(got), vfHex(append(head, want...)))
				}
				if hl.msgSeq != seq+1 {
					r.viol("message-seq", "%s: next message sequence %d after %d", k.name, hl.msgSeq, seq)
				}
				back, err := m.ToBody()
				if err != nil || !reflect.DeepEqual(back, body) {
					r.viol("message-body", "%s: decoded again as %.300s (error %v), was %.300s", k.name, fmt.Sprintf("%+v", back), err, fmt.Sprintf("%+v", body))
				}
				m.body = append(m.body, byte(r.rng.Intn(256)))
				if _, err := m.ToBody(); err == nil {
					r.viol("message-extra", "%s: a body with an extra byte is accepted", k.name)
				}
			})
		}
		// Finished, whose length is the body's, and EndOfEarlyData
		r.run("Finished message", func() {
			f := &FinishedBody{VerifyData: r.bytes(r.rng.Intn(70))}
			f.VerifyDataLen = len(f.VerifyData)
			if r.rng.Intn(5) == 0 {
				f.VerifyDataLen += r.rng.Intn(3) - 1
			}
			b, err := f.Marshal()
			if (err == nil) != (f.VerifyDataLen == len(f.VerifyData)) || err == nil && !bytes.Equal(b, f.VerifyData) {
				r.viol("finished", "%+v encodes to %x (error %v)", f, b, err)
			}
			g := &FinishedBody{VerifyDataLen: r.rng.Intn(70)}
			d := r.bytes(r.rng.Intn(80))
			n, err := g.Unmarshal(d)
			if (err == nil) != (len(d) >= g.VerifyDataLen) || err == nil && (n != g.VerifyDataLen || !bytes.Equal(g.VerifyData, d[:n])) {
				r.viol("finished", "%x with length %d decodes to %x, %d bytes consumed (error %v)", d, g.VerifyDataLen, g.VerifyData, n, err)
			}
		})
		r.run("EndOfEarlyData message", func() {
			m := HandshakeMessage{msgType: HandshakeTypeEndOfEarlyData, body: r.bytes(r.rng.Intn(2))}
			if _, err := m.ToBody(); (err == nil) != (len(m.body) == 0) {
				r.viol("end-of-early-data", "body %x: error %v", m.body, err)
			}
		})
		// the binder prefix
		r.run("binder prefix", func() {
			var p vfcPSK
			for len(p.I) == 0 {
				vfsRand(r, reflect.ValueOf(&p).Elem(), vfsTag{})
			}
			p.B = nil
			for j := range p.I {
				if len(p.I[j].I) == 0 {
					p.I[j].I = []byte{1}
				}
				p.B = append(p.B, vfcBinder{r.bytes([]int{32, 48, 64}[r.rng.Intn(3)])})
			}
			pd, ok := vfsEnc(reflect.ValueOf(p), vfsTag{})
			if !ok {
				return
			}
			var ch vfcCH
			vfsRand(r, reflect.ValueOf(&ch).Elem(), vfsTag{})
			vfcShape(r, "", &ch)
			ch.CM, ch.S = []uint8{0}, r.bytes(r.rng.Intn(33))
			if len(ch.CS) == 0 {
				ch.CS = []uint16{0x1301}
			}
			ch.E = append(ch.E, vfcExt{uint16(ExtensionTypePreSharedKey), pd})
			all, ok := vfsEnc(reflect.ValueOf(ch), vfsTag{})
			if !ok {
				return
			}
			bl := 2
			for _, b := range p.B {
				bl += 1 + len(b.B)
			}
			val, _ := kinds[0].conv(ch)
			got, err := val.(*ClientHelloBody).Truncated()
			want := vfCat([]byte{1}, vfBE(uint64(len(all)), 3), all)
			want = want[:len(want)-bl]
			if err != nil || !bytes.Equal(got, want) {
				r.viol("binder-prefix", "ClientHello of %d bytes with binders of %d bytes: prefix %s (%d bytes, error %v), expected %d bytes", len(all), bl, vfHex(got), len(got), err, len(want))
			}
			if n := len(ch.E); n > 1 && ch.E[n-2].T != uint16(ExtensionTypePreSharedKey) {
				ch.E[n-1], ch.E[n-2] = ch.E[n-2], ch.E[n-1]
				val, _ = kinds[0].conv(ch)
				if _, err := val.(*ClientHelloBody).Truncated(); err == nil {
					r.viol("binder-prefix-last", "a pre_shared_key extension that is not last is accepted")
				}
			}
		})
	}
	r.done()
}
