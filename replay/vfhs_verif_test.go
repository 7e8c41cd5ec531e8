package mint

import (
	"bytes"
	"crypto"
	"crypto/ecdh"
	"crypto/ecdsa"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/x509"
	"crypto/x509/pkix"
	"fmt"
	"hash"
	"io"
	"math/big"
	"net"
	"testing"
	"time"
)

// Full handshakes between two endpoints of the real code over an in-memory transport. For TLS the record layers are
// wrapped, so that every fragment written and every key installed is seen in the clear, and may be altered.

type vfPipe struct {
	in, out *bytes.Buffer
}

func (p *vfPipe) Read(b []byte) (int, error) {
	n, err := p.in.Read(b)
	if err == io.EOF {
		err = nil
	}
	return n, err
}
func (p *vfPipe) Write(b []byte) (int, error)      { return p.out.Write(b) }
func (p *vfPipe) Close() error                     { return nil }
func (p *vfPipe) LocalAddr() net.Addr              { return nil }
func (p *vfPipe) RemoteAddr() net.Addr             { return nil }
func (p *vfPipe) SetDeadline(time.Time) error      { return nil }
func (p *vfPipe) SetReadDeadline(time.Time) error  { return nil }
func (p *vfPipe) SetWriteDeadline(time.Time) error { return nil }

type vfRekey struct {
	epoch   Epoch
	key, iv []byte
	msgs    int // handshake messages seen (both directions) when the key was installed
}
type vfSide struct {
	l        *vfLink
	client   bool
	in, out  []vfRekey
	hs       []byte // handshake bytes written so far, not yet split
	appOut   [][]byte
	appClear int // application data records written before any key
}
type vfMsg struct {
	client bool
	raw    []byte
	epoch  Epoch
}
type vfLink struct {
	dtls           bool
	client, server *Conn
	cs, ss         *vfSide
	msgs           []vfMsg
	tamper         func(client bool, idx int, m []byte) [][]byte // what is put on the wire instead of message idx
	count          [2]int
	shares         map[NamedGroup][]byte
}

type vfRL struct {
	RecordLayer
	s   *vfSide
	dir Direction
	buf []byte
}

func (r *vfRL) Rekey(epoch Epoch, f AEADFactory, keys *KeySet) error {
	k := vfRekey{epoch, append([]byte{}, keys.Keys["key"]...), append([]byte{}, keys.Keys["iv"]...), len(r.s.l.msgs)}
	if r.dir == DirectionRead {
		r.s.in = append(r.s.in, k)
	} else {
		r.s.out = append(r.s.out, k)
	}
	return r.RecordLayer.Rekey(epoch, f, keys)
}
func (r *vfRL) WriteRecord(pt *TLSPlaintext) error {
	l := r.s.l
	if pt.contentType == RecordTypeApplicationData {
		r.s.appOut = append(r.s.appOut, append([]byte{}, pt.fragment...))
		if len(r.s.out) == 0 {
			r.s.appClear++
		}
	}
	if pt.contentType != RecordTypeHandshake {
		return r.RecordLayer.WriteRecord(pt)
	}
	r.buf = append(r.buf, pt.fragment...)
	var wire []byte
	for len(r.buf) >= 4 {
		n := 4 + int(r.buf[1])<<16 + int(r.buf[2])<<8 + int(r.buf[3])
		if len(r.buf) < n {
			break
		}
		m := append([]byte{}, r.buf[:n]...)
		r.buf = r.buf[n:]
		l.msgs = append(l.msgs, vfMsg{r.s.client, m, r.Epoch()})
		put := [][]byte{m}
		if l.tamper != nil {
			i := 0
			if !r.s.client {
				i = 1
			}
			put = l.tamper(r.s.client, l.count[i], append([]byte{}, m...))
			l.count[i]++
		}
		for _, x := range put {
			wire = append(wire, x...)
		}
	}
	for len(wire) > 0 {
		n := len(wire)
		if n > maxFragmentLen {
			n = maxFragmentLen
		}
		q := *pt
		q.fragment = wire[:n]
		if err := r.RecordLayer.WriteRecord(&q); err != nil {
			return err
		}
		wire = wire[n:]
	}
	return nil
}

type vfFac struct{ s *vfSide }

func (f vfFac) NewLayer(conn io.ReadWriter, dir Direction) RecordLayer {
	return &vfRL{RecordLayer: NewRecordLayerTLS(conn, dir), s: f.s, dir: dir}
}

func vfLinkUp(cc, sc *Config) *vfLink {
	a, b := &bytes.Buffer{}, &bytes.Buffer{}
	l := &vfLink{dtls: cc.UseDTLS}
	l.cs, l.ss = &vfSide{l: l, client: true}, &vfSide{l: l}
	cc.NonBlocking, sc.NonBlocking = true, true
	if !l.dtls {
		cc.RecordLayer, sc.RecordLayer = vfFac{l.cs}, vfFac{l.ss}
	}
	l.client, l.server = Client(&vfPipe{b, a}, cc), Server(&vfPipe{a, b}, sc)
	return l
}

// step runs both endpoints until both are connected, one fails, or nothing happens any more
func (l *vfLink) hs(early func(i int)) (ca, sa Alert) {
	for i := 0; i < 30; i++ {
		if !l.client.handshakeComplete {
			ca = l.client.Handshake()
		}
		if w, ok := l.client.hState.(clientStateWaitSH); ok {
			l.shares = w.OfferedDH
		}
		if early != nil {
			early(i)
		}
		if !l.server.handshakeComplete {
			sa = l.server.Handshake()
		}
		if ca != AlertNoAlert && ca != AlertWouldBlock && ca != AlertStatelessRetry || sa != AlertNoAlert && sa != AlertWouldBlock && sa != AlertStatelessRetry {
			// give the other side a chance to see what was sent
			for j := 0; j < 5; j++ {
				if !l.client.handshakeComplete && (ca == AlertNoAlert || ca == AlertWouldBlock) {
					ca = l.client.Handshake()
				}
				if !l.server.handshakeComplete && (sa == AlertNoAlert || sa == AlertWouldBlock) {
					sa = l.server.Handshake()
				}
			}
			return
		}
		if l.client.handshakeComplete && l.server.handshakeComplete {
			return
		}
	}
	return
}
func (l *vfLink) done() bool { return l.client.handshakeComplete && l.server.handshakeComplete }

// ---- certificates and configurations ----
type vfCA struct {
	cert *x509.Certificate
	key  *ecdsa.PrivateKey
	pool *x509.CertPool
}

func vfNewCA(name string) *vfCA {
	k, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	t := &x509.Certificate{SerialNumber: big.NewInt(1), Subject: pkix.Name{CommonName: name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(1000 * time.Hour),
		IsCA: true, BasicConstraintsValid: true, KeyUsage: x509.KeyUsageCertSign | x509.KeyUsageDigitalSignature}
	d, err := x509.CreateCertificate(crand.Reader, t, t, &k.PublicKey, k)
	if err != nil {
		panic(err)
	}
	c, _ := x509.ParseCertificate(d)
	p := x509.NewCertPool()
	p.AddCert(c)
	return &vfCA{c, k, p}
}
func (ca *vfCA) issue(name string, key crypto.Signer) *Certificate {
	t := &x509.Certificate{SerialNumber: big.NewInt(2), Subject: pkix.Name{CommonName: name}, DNSNames: []string{name}, NotBefore: time.Now().Add(-time.Hour), NotAfter: time.Now().Add(1000 * time.Hour),
		KeyUsage: x509.KeyUsageDigitalSignature, ExtKeyUsage: []x509.ExtKeyUsage{x509.ExtKeyUsageServerAuth, x509.ExtKeyUsageClientAuth}}
	d, err := x509.CreateCertificate(crand.Reader, t, ca.cert, key.Public(), ca.key)
	if err != nil {
		panic(err)
	}
	c, _ := x509.ParseCertificate(d)
	return &Certificate{Chain: []*x509.Certificate{c}, PrivateKey: key}
}

var vfTheCA, vfOtherCA *vfCA
var vfServerCerts = map[string]*Certificate{}
var vfClientCert, vfForeignCert, vfMisnamedCert *Certificate

func vfPKI() {
	if vfTheCA != nil {
		return
	}
	vfTheCA, vfOtherCA = vfNewCA("ca"), vfNewCA("other ca")
	k := vfKeys()
	vfServerCerts["rsa"] = vfTheCA.issue("server.example", k.rsa1)
	vfServerCerts["p256"] = vfTheCA.issue("server.example", k.p256)
	vfServerCerts["p384"] = vfTheCA.issue("server.example", k.p384)
	vfClientCert = vfTheCA.issue("client.example", k.p256)
	vfForeignCert = vfOtherCA.issue("server.example", k.p256)
	vfMisnamedCert = vfTheCA.issue("elsewhere.example", k.p256)
}

type vfCfg struct {
	dtls, psk, ke, hrr, clientAuth, early, rejectEarly, clientEarly, noClientCert bool
	suite                                                                         CipherSuite
	group                                                                         NamedGroup
	key, alpn                                                                     string
	resumption                                                                    bool
}

func (c vfCfg) String() string {
	return fmt.Sprintf("dtls=%v psk=%v ke=%v hrr=%v clientAuth=%v clientEarly=%v early=%v suite=%v group=%v key=%v alpn=%q resumption=%v", c.dtls, c.psk, c.ke, c.hrr, c.clientAuth, c.clientEarly, c.early, uint16(c.suite), uint16(c.group), c.key, c.alpn, c.resumption)
}

func vfPSK(c vfCfg) PreSharedKey {
	p := PreSharedKey{CipherSuite: c.suite, Identity: []byte{1, 2, 3, 4}, Key: []byte("a pre-shared key of 32 bytes xxx"), IsResumption: c.resumption, NextProto: c.alpn}
	if c.resumption {
		p.ReceivedAt = time.Now()
		p.ExpiresAt = time.Now().Add(time.Hour)
		p.TicketAgeAdd = 0x12345678
	}
	return p
}

func vfConfigs(c vfCfg) (*Config, *Config) {
	vfPKI()
	cc := &Config{ServerName: "server.example", CipherSuites: []CipherSuite{c.suite}, RootCAs: vfTheCA.pool, UseDTLS: c.dtls, AllowEarlyData: c.clientEarly}
	sc := &Config{CipherSuites: []CipherSuite{c.suite}, UseDTLS: c.dtls, Certificates: []*Certificate{vfServerCerts[c.key]}, RequireClientAuth: c.clientAuth, AllowEarlyData: c.early}
	cc.SignatureSchemes = []SignatureScheme{RSA_PSS_SHA256, ECDSA_P256_SHA256, ECDSA_P384_SHA384}
	sc.SignatureSchemes = cc.SignatureSchemes
	cc.Groups, sc.Groups = []NamedGroup{c.group}, []NamedGroup{c.group}
	if c.clientAuth && !c.noClientCert {
		cc.Certificates = []*Certificate{vfClientCert}
	}
	if c.alpn != "" {
		cc.NextProtos, sc.NextProtos = []string{"zz", c.alpn}, []string{c.alpn, "yy"}
		if c.psk {
			cc.NextProtos = []string{c.alpn}
		}
	}
	cc.PSKs, sc.PSKs = &PSKMapCache{}, &PSKMapCache{}
	if c.psk {
		p := vfPSK(c)
		cc.PSKs.Put("server.example", p)
		sc.PSKs.Put("01020304", p)
		modes := []PSKKeyExchangeMode{PSKModeDHEKE}
		if c.ke {
			modes = []PSKKeyExchangeMode{PSKModeKE}
		}
		cc.PSKModes, sc.PSKModes = modes, modes
	}
	if c.hrr {
		sc.RequireCookie = true
		sc.CookieProtector, _ = NewDefaultCookieProtector()
	}
	return cc, sc
}

func vfRandCfg(v *vfRun, dtls int) vfCfg {
	b := func() bool { return v.rng.Intn(2) == 0 }
	c := vfCfg{suite: []CipherSuite{TLS_AES_128_GCM_SHA256, TLS_AES_256_GCM_SHA384}[v.rng.Intn(2)], group: []NamedGroup{P256, X25519, P384, P521, FFDHE2048}[v.rng.Intn(5)],
		key: []string{"rsa", "p256", "p384"}[v.rng.Intn(3)]}
	if dtls == 1 || dtls == 2 && b() {
		c.dtls = true
	}
	c.psk = b()
	c.hrr = v.rng.Intn(3) == 0
	if c.psk {
		c.ke = b()
		c.resumption = b()
		if c.clientEarly = b() && !c.hrr; c.clientEarly {
			c.early = b()
		}
	}
	if !c.psk {
		c.clientAuth = b()
		c.noClientCert = v.rng.Intn(4) == 0
	}
	if b() {
		c.alpn = "proto"
	}
	return c
}

// vfOracle: the secrets RFC 8446 section 7.1 defines for this handshake
type vfSecrets struct {
	h                                   crypto.Hash
	suite                               CipherSuite
	early, cHS, sHS, cAP, sAP, exp, res []byte
}

func vfShared(group NamedGroup, priv, pub []byte) []byte {
	curves := map[NamedGroup]ecdh.Curve{P256: ecdh.P256(), P384: ecdh.P384(), P521: ecdh.P521(), X25519: ecdh.X25519()}
	if c, ok := curves[group]; ok {
		n := map[NamedGroup]int{P256: 32, P384: 48, P521: 66, X25519: 32}[group]
		for len(priv) < n {
			priv = append([]byte{0}, priv...)
		}
		k, err := c.NewPrivateKey(priv)
		if err != nil {
			return nil
		}
		p, err := c.NewPublicKey(pub)
		if err != nil {
			return nil
		}
		z, err := k.ECDH(p)
		if err != nil {
			return nil
		}
		return z
	}
	if group == FFDHE2048 {
		p := vfFFPrime(2048, 560316)
		return new(big.Int).Exp(new(big.Int).SetBytes(pub), new(big.Int).SetBytes(priv), p).FillBytes(make([]byte, 256))
	}
	return nil
}

// the server's key share in a ServerHello message, if any
func vfServerShare(sh []byte) (NamedGroup, []byte, bool) {
	b := sh[4:]
	p := 34
	p += 1 + int(b[p]) + 3
	if p+2 > len(b) {
		return 0, nil, false
	}
	e := b[p+2:]
	for len(e) >= 4 {
		t, n := int(e[0])<<8|int(e[1]), int(e[2])<<8|int(e[3])
		if t == 51 && n > 4 {
			d := e[4 : 4+n]
			return NamedGroup(int(d[0])<<8 | int(d[1])), d[4:], true
		}
		e = e[4+n:]
	}
	return 0, nil, false
}

func (l *vfLink) oracle(c vfCfg) (*vfSecrets, error) {
	h := map[CipherSuite]crypto.Hash{TLS_AES_128_GCM_SHA256: crypto.SHA256, TLS_AES_256_GCM_SHA384: crypto.SHA384}[c.suite]
	s := &vfSecrets{h: h, suite: c.suite}
	zero := make([]byte, h.Size())
	pskKey := zero
	if c.psk {
		pskKey = vfPSK(c).Key
	}
	es := vfMac(h, zero, pskKey)
	var tr, t1 []byte
	var hsS, ms []byte
	chs, seenSH := 0, false
	var cFin []byte
	for _, m := range l.msgs {
		t := m.raw[0]
		if t == 4 || t == 24 { // post-handshake
			continue
		}
		if seenSH && ms == nil { // nothing
		}
		isHRR := t == 2 && bytes.Equal(m.raw[6:38], vfHRRRandom)
		if isHRR {
			mh := vfSum(h, tr)
			tr = vfCat([]byte{254, 0, 0, byte(len(mh))}, mh)
		}
		if t == 20 && m.client {
			cFin = m.raw
			s.cAP, s.sAP, s.exp = vfDerive(h, ms, "c ap traffic", vfSum(h, t1)), vfDerive(h, ms, "s ap traffic", vfSum(h, t1)), vfDerive(h, ms, "exp master", vfSum(h, t1))
		}
		tr = append(tr, m.raw...)
		switch {
		case t == 1:
			chs++
			s.early = vfDerive(h, es, "c e traffic", vfSum(h, tr))
		case t == 2 && !isHRR:
			seenSH = true
			z := zero
			if g, pub, ok := vfServerShare(m.raw); ok {
				z = vfShared(g, l.shares[g], pub)
				if z == nil {
					return nil, fmt.Errorf("cannot compute the shared secret")
				}
			}
			hsS = vfMac(h, vfDerive(h, es, "derived", vfSum(h)), z)
			s.cHS, s.sHS = vfDerive(h, hsS, "c hs traffic", vfSum(h, tr)), vfDerive(h, hsS, "s hs traffic", vfSum(h, tr))
			ms = vfMac(h, vfDerive(h, hsS, "derived", vfSum(h)), zero)
		case t == 20 && !m.client:
			t1 = append([]byte{}, tr...)
		}
	}
	if cFin == nil || ms == nil {
		return nil, fmt.Errorf("incomplete transcript")
	}
	s.res = vfDerive(h, ms, "res master", vfSum(h, tr))
	return s, nil
}

var vfHRRRandom = []byte{0xCF, 0x21, 0xAD, 0x74, 0xE5, 0x9A, 0x61, 0x11, 0xBE, 0x1D, 0x8C, 0x02, 0x1E, 0x65, 0xB8, 0x91, 0xC2, 0xA2, 0x11, 0x16, 0x7A, 0xBB, 0x8C, 0x5E, 0x07, 0x9E, 0x09, 0xE2, 0xC8, 0xA8, 0x33, 0x9C}

func (s *vfSecrets) keys(secret []byte) (key, iv []byte) {
	n := 16
	if s.suite == TLS_AES_256_GCM_SHA384 {
		n = 32
	}
	return vfExpandLabel(s.h, secret, "key", nil, n), vfExpandLabel(s.h, secret, "iv", nil, 12)
}

func (v *vfRun) vfCheckKeys(name string, s *vfSecrets, got []vfRekey, want []struct {
	e Epoch
	k []byte
}) {
	if len(got) != len(want) {
		v.viol(name, "%d keys installed, expected %d", len(got), len(want))
		return
	}
	for i, g := range got {
		k, iv := s.keys(want[i].k)
		if g.epoch != want[i].e || !bytes.Equal(g.key, k) || !bytes.Equal(g.iv, iv) {
			v.viol(name, "key %d: epoch %d key %x iv %x, expected epoch %d key %x iv %x", i, g.epoch, g.key, g.iv, want[i].e, k, iv)
			return
		}
	}
}

type vfEK = struct {
	e Epoch
	k []byte
}

func vfHonest(v *vfRun, c vfCfg) *vfLink {
	cc, sc := vfConfigs(c)
	l := vfLinkUp(cc, sc)
	var early func(int)
	if c.clientEarly {
		early = func(i int) {
			if i == 0 {
				l.client.Write([]byte("early"))
			}
		}
	}
	ca, sa := l.hs(early)
	if !l.done() {
		v.viol("completes", "an honest handshake does not complete (%v): client %v %v, server %v %v", c, ca, l.client.GetHsState(), sa, l.server.GetHsState())
		return nil
	}
	return l
}

func vfExchange(l *vfLink, n int) error {
	for _, d := range []struct{ a, b *Conn }{{l.client, l.server}, {l.server, l.client}} {
		msg := bytes.Repeat([]byte{7}, n)
		if k, err := d.a.Write(msg); err != nil || k != n {
			return fmt.Errorf("write: %v %v", k, err)
		}
		got := []byte{}
		for i := 0; len(got) < n && i < 1000; i++ {
			b := make([]byte, n)
			k, err := d.b.Read(b)
			if err != nil && err != error(AlertWouldBlock) {
				return fmt.Errorf("read: %v", err)
			}
			got = append(got, b[:k]...)
		}
		if !bytes.Equal(got, msg) {
			return fmt.Errorf("got %d bytes, sent %d", len(got), n)
		}
	}
	return nil
}

// needs: vfcrypto vfneg
func TestVfC09(t *testing.T) {
	v := vfStart(t, "full handshakes over random configurations (PSK or certificate, key exchange, group, suite, retry, client authentication, early data accepted or refused, ALPN, TLS and DTLS)")
	for i := 0; i < v.n(500) && !v.over(); i++ {
		c := vfRandCfg(v, 2)
		v.run(fmt.Sprintf("handshake %v", c), func() {
			l := vfHonest(v, c)
			if l == nil {
				return
			}
			for _, n := range []int{0, 1, 32, 100} {
				a, e1 := l.client.ComputeExporter("label", []byte("context"), n)
				b, e2 := l.server.ComputeExporter("label", []byte("context"), n)
				if e1 != nil || e2 != nil || !bytes.Equal(a, b) {
					v.viol("exporter", "exported values differ (%v): %x %x %v %v", c, a, b, e1, e2)
				}
			}
			if !bytes.Equal(l.client.state.resumptionSecret, l.server.state.resumptionSecret) {
				v.viol("resumption", "resumption secrets differ (%v)", c)
			}
			if !l.dtls {
				s, err := l.oracle(c)
				if err != nil {
					v.viol("oracle", "%v (%v)", err, c)
					return
				}
				chk := func(n string, got, want []byte) {
					if !bytes.Equal(got, want) {
						v.viol(n, "%x, RFC 8446 value %x (%v)", got, want, c)
					}
				}
				for _, st := range []*stateConnected{&l.client.state, &l.server.state} {
					chk("exporter-secret", st.exporterSecret, s.exp)
					chk("resumption-secret", st.resumptionSecret, s.res)
					chk("client-traffic-secret", st.clientTrafficSecret, s.cAP)
					chk("server-traffic-secret", st.serverTrafficSecret, s.sAP)
				}
				co := []vfEK{}
				if c.clientEarly {
					co = append(co, vfEK{EpochEarlyData, s.early})
				}
				co = append(co, vfEK{EpochHandshakeData, s.cHS}, vfEK{EpochApplicationData, s.cAP})
				si := co
				if c.clientEarly && !c.early {
					si = co[1:]
				}
				sv := []vfEK{{EpochHandshakeData, s.sHS}, {EpochApplicationData, s.sAP}}
				v.vfCheckKeys("client-out", s, l.cs.out, co)
				v.vfCheckKeys("server-in", s, l.ss.in, si)
				v.vfCheckKeys("client-in", s, l.cs.in, sv)
				v.vfCheckKeys("server-out", s, l.ss.out, sv)
			}
			if c.early {
				b := make([]byte, 10)
				n, _ := l.server.Read(b)
				if string(b[:n]) != "early" {
					v.viol("early", "early data read: %q (%v)", b[:n], c)
				}
			}
			if err := vfExchange(l, 1+v.rng.Intn(40)); err != nil {
				v.viol("application-keys", "application data does not pass: %v (%v)", err, c)
			}
		})
	}
	v.done()
}

// vfProbe feeds one message to the state an endpoint is in
type vfProbe struct{ m *HandshakeMessage }

func (p vfProbe) ReadMessage() (*HandshakeMessage, Alert) {
	if p.m == nil {
		return nil, AlertWouldBlock
	}
	return p.m, AlertNoAlert
}

// what each state may accept (RFC 8446 section 4 and appendix A)
var vfAllowed = map[State][]HandshakeType{
	StateClientWaitSH: {2}, StateClientWaitEE: {8}, StateClientWaitCertCR: {11, 13}, StateClientWaitCert: {11}, StateClientWaitCV: {15}, StateClientWaitFinished: {20},
	StateServerStart: {1}, StateServerWaitEOED: {5}, StateServerWaitCert: {11}, StateServerWaitCV: {15}, StateServerWaitFinished: {20},
}

// the transcript and the peer's handshake secret a state holds
func vfInfo(s HandshakeState) (h hash.Hash, secret []byte) {
	switch s := s.(type) {
	case clientStateWaitEE:
		return s.handshakeHash, s.serverHandshakeTrafficSecret
	case clientStateWaitCertCR:
		return s.handshakeHash, s.serverHandshakeTrafficSecret
	case clientStateWaitCert:
		return s.handshakeHash, s.serverHandshakeTrafficSecret
	case clientStateWaitCV:
		return s.handshakeHash, s.serverHandshakeTrafficSecret
	case clientStateWaitFinished:
		return s.handshakeHash, s.serverHandshakeTrafficSecret
	case serverStateWaitEOED:
		return s.handshakeHash, s.clientHandshakeTrafficSecret
	case serverStateWaitCert:
		return s.handshakeHash, s.clientHandshakeTrafficSecret
	case serverStateWaitCV:
		return s.handshakeHash, s.clientHandshakeTrafficSecret
	case serverStateWaitFinished:
		return s.handshakeHash, s.clientHandshakeTrafficSecret
	}
	return nil, nil
}

func vfForgeFinished(s HandshakeState, c vfCfg) []byte {
	hh, secret := vfInfo(s)
	if hh == nil {
		return nil
	}
	h := map[CipherSuite]crypto.Hash{TLS_AES_128_GCM_SHA256: crypto.SHA256, TLS_AES_256_GCM_SHA384: crypto.SHA384}[c.suite]
	return vfMac(h, vfExpandLabel(h, secret, "finished", nil, h.Size()), hh.Sum(nil))
}

// probe feeds every message a state must not accept, and wrong Finished messages where Finished is due
func (v *vfRun) probe(l *vfLink, conn *Conn, c vfCfg, bodies map[HandshakeType][]byte, key string) {
	s := conn.hState
	if s == nil {
		return
	}
	allowed, ok := vfAllowed[s.State()]
	if !ok {
		return
	}
	name := fmt.Sprintf("%v", s.State())
	feed := func(t HandshakeType, body []byte, what string) {
		m := &HandshakeMessage{msgType: t, body: body, length: uint32(len(body)), datagram: c.dtls}
		if c.dtls {
			m.seq = conn.hsCtx.hIn.msgSeq
		}
		next, acts, alert := s.Next(vfProbe{m})
		if alert == AlertNoAlert || next != nil && alert != AlertStatelessRetry || len(acts) != 0 && alert != AlertNoAlert {
			v.viol(key, "state %s accepts %s (message type %d): alert %v, next %T, %d actions (%v)", name, what, t, alert, next, len(acts), c)
		}
	}
	in := func(t HandshakeType) bool {
		for _, a := range allowed {
			if a == t {
				return true
			}
		}
		return false
	}
	for _, t := range []HandshakeType{0, 1, 2, 4, 5, 8, 11, 13, 15, 20, 24, 254, 99} {
		if in(t) {
			continue
		}
		feed(t, bodies[t], "a message out of order")
		if t == 20 {
			if f := vfForgeFinished(s, c); f != nil {
				feed(20, f, "a Finished with the right MAC out of order")
			}
		}
	}
	if in(20) {
		f := vfForgeFinished(s, c)
		for i := 0; i < 4; i++ {
			g := append([]byte{}, f...)
			switch i {
			case 0:
				g[v.rng.Intn(len(g))] ^= byte(1 + v.rng.Intn(255))
			case 1:
				g[len(g)-1] ^= 1
			case 2:
				g = make([]byte, len(g))
			case 3: // the MAC under another key
				h := map[CipherSuite]crypto.Hash{TLS_AES_128_GCM_SHA256: crypto.SHA256, TLS_AES_256_GCM_SHA384: crypto.SHA384}[c.suite]
				hh, secret := vfInfo(s)
				g = vfMac(h, secret, hh.Sum(nil))
			}
			feed(20, g, "a wrong Finished")
		}
	}
}

// hsProbe: a handshake in which every state is probed before it sees the real message
func (v *vfRun) hsProbe(l *vfLink, c vfCfg, bodies map[HandshakeType][]byte, key string) {
	for i := 0; i < 40 && !l.done() && !v.over(); i++ {
		for _, conn := range []*Conn{l.client, l.server} {
			if conn.handshakeComplete {
				continue
			}
			v.probe(l, conn, c, bodies, key)
			a := conn.Handshake()
			if conn == l.client && i == 0 && c.clientEarly {
				l.client.Write([]byte("early"))
			}
			if a != AlertNoAlert && a != AlertWouldBlock && a != AlertStatelessRetry {
				return
			}
		}
	}
}

var vfBodies map[HandshakeType][]byte

func (v *vfRun) bodies() map[HandshakeType][]byte {
	if vfBodies != nil {
		return vfBodies
	}
	b := map[HandshakeType][]byte{5: {}, 24: {0}, 4: {0, 0, 0, 1, 0, 0, 0, 0, 1, 1, 0, 1, 1, 0, 0}}
	for _, c := range []vfCfg{{suite: TLS_AES_128_GCM_SHA256, group: X25519, key: "p256", clientAuth: true}} {
		cc, sc := vfConfigs(c)
		l := vfLinkUp(cc, sc)
		l.hs(nil)
		for _, m := range l.msgs {
			b[HandshakeType(m.raw[0])] = m.raw[4:]
		}
	}
	vfBodies = b
	return b
}

// needs: vfcrypto vfneg
func TestVfC12(t *testing.T) {
	v := vfStart(t, "handshakes over random configurations; in every state that reads a message, every other message type with a well-formed body, a Finished with the right MAC, and wrong Finished messages")
	b := v.bodies()
	for i := 0; i < v.n(300) && !v.over(); i++ {
		c := vfRandCfg(v, 2)
		v.run(fmt.Sprintf("order %v", c), func() {
			cc, sc := vfConfigs(c)
			l := vfLinkUp(cc, sc)
			v.hsProbe(l, c, b, "order")
			if l.dtls || v.viols > 0 {
				return
			}
			// each epoch is installed once per direction, in order
			for _, side := range []*vfSide{l.cs, l.ss} {
				for _, ks := range [][]vfRekey{side.in, side.out} {
					for k := range ks {
						if k > 0 && ks[k].epoch <= ks[k-1].epoch {
							v.viol("keys", "epoch %d installed after epoch %d (%v)", ks[k].epoch, ks[k-1].epoch, c)
						}
					}
				}
			}
		})
	}
	// a message dropped or repeated on the way
	for i := 0; i < v.n(150) && !v.over(); i++ {
		c := vfRandCfg(v, 0)
		n := v.rng.Intn(6)
		cl, dup := v.rng.Intn(2) == 0, v.rng.Intn(2) == 0
		v.run(fmt.Sprintf("dup=%v client=%v message %d", dup, cl, n), func() {
			cc, sc := vfConfigs(c)
			l := vfLinkUp(cc, sc)
			hit := byte(0)
			l.tamper = func(client bool, idx int, m []byte) [][]byte {
				if client == cl && idx == n && !l.done() {
					hit = m[0]
					if dup {
						return [][]byte{m, m}
					}
					return nil
				}
				return [][]byte{m}
			}
			l.hs(nil)
			if l.server.handshakeComplete && hit != 0 && hit != 4 && !(hit == 20 && dup) {
				v.viol("sequence", "the server completes although message type %d (client %v) was dropped or repeated (%v)", hit, cl, c)
			}
			if l.client.handshakeComplete && hit != 0 && !cl && hit != 4 && !(hit == 20 && dup) {
				v.viol("sequence", "the client completes although message type %d from the server was dropped or repeated (%v)", hit, c)
			}
		})
	}
	v.done()
}

// tampered: one byte of one message is altered on the way
func (v *vfRun) tampered(server bool) {
	for i := 0; i < v.n(400) && !v.over(); i++ {
		c := vfRandCfg(v, 0)
		n := v.rng.Intn(6)
		cl := v.rng.Intn(2) == 0
		if server && v.rng.Intn(3) > 0 {
			cl = true
		}
		x := byte(1 + v.rng.Intn(255))
		pos := v.rng.Float64()
		v.run(fmt.Sprintf("altered client=%v message %d %v", cl, n, c), func() {
			cc, sc := vfConfigs(c)
			l := vfLinkUp(cc, sc)
			hit, at := byte(0), 0
			l.tamper = func(client bool, idx int, m []byte) [][]byte {
				if client == cl && idx == n && !l.done() {
					hit = m[0]
					at = 4 + int(pos*float64(len(m)-4))
					if at < len(m) {
						m[at] ^= x
					} else {
						hit = 0
					}
				}
				return [][]byte{m}
			}
			l.hs(nil)
			if hit == 0 || hit == 4 {
				return
			}
			if server && l.server.handshakeComplete {
				v.viol("altered", "the server completes although byte %d of message type %d (from the client: %v) was altered (%v)", at, hit, cl, c)
			}
			// the client's second flight follows the server's Finished
			if !server && l.client.handshakeComplete && !(cl && (hit == 20 || hit == 11 || hit == 15 || hit == 5)) {
				v.viol("altered", "the client completes although byte %d of message type %d (from the client: %v) was altered (%v)", at, hit, cl, c)
			}
		})
	}
}

// needs: vfcrypto vfneg
func TestVfC10(t *testing.T) {
	v := vfStart(t, "handshakes with one byte of one message altered; servers with the wrong key, a foreign, misnamed or missing certificate, or the wrong PSK; application callbacks that refuse; probes with forged Finished messages")
	b := v.bodies()
	v.tampered(false)
	k := vfKeys()
	vfPKI()
	other, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	own := vfOtherCA.issue("server.example", other)
	for i := 0; i < v.n(300) && !v.over(); i++ {
		c := vfRandCfg(v, 2)
		c.psk, c.clientEarly = false, false
		kind := v.rng.Intn(9)
		v.run(fmt.Sprintf("server identity %d %v", kind, c), func() {
			cc, sc := vfConfigs(c)
			ok := false
			skip := false
			switch kind {
			case 0:
				sc.Certificates = []*Certificate{{Chain: vfServerCerts["p256"].Chain, PrivateKey: other}}
				skip = v.rng.Intn(2) == 0
			case 1:
				sc.Certificates = []*Certificate{{Chain: vfServerCerts["rsa"].Chain, PrivateKey: k.rsa2}}
				skip = v.rng.Intn(2) == 0
			case 2:
				sc.Certificates = []*Certificate{vfForeignCert}
				skip = v.rng.Intn(2) == 0
				ok = skip
			case 3: // the certificate is for another name; the server is made to present it
				sc.Certificates = []*Certificate{{Chain: vfMisnamedCert.Chain, PrivateKey: k.p256}}
				vfMisnamedCert.Chain[0].DNSNames = []string{"server.example"} // what the server looks at, not what is sent
				skip = v.rng.Intn(2) == 0
				ok = skip
			case 4:
				cc.VerifyPeerCertificate = func([][]byte, [][]*x509.Certificate) error { return fmt.Errorf("no") }
				skip = v.rng.Intn(2) == 0
			case 5:
				cc.RootCAs = vfOtherCA.pool
			case 6:
				ok = true
				n := 0
				var raw [][]byte
				cc.VerifyPeerCertificate = func(r [][]byte, ch [][]*x509.Certificate) error {
					n++
					raw = r
					if len(ch) == 0 {
						return fmt.Errorf("no verified chain")
					}
					return nil
				}
				defer func() {
					if len(raw) != 1 || !bytes.Equal(raw[0], vfServerCerts[c.key].Chain[0].Raw) || n != 1 {
						v.viol("identity", "the certificate callback ran %d times, with %d certificates (%v)", n, len(raw), c)
					}
				}()
			case 7:
				// the presented leaf is not the one whose key signs
				sc.Certificates = []*Certificate{{Chain: []*x509.Certificate{vfServerCerts["p256"].Chain[0], own.Chain[0]}, PrivateKey: other}}
			case 8:
				ok = true
			}
			cc.InsecureSkipVerify = skip
			if cc.VerifyPeerCertificate == nil && v.rng.Intn(2) == 0 {
				cc.VerifyPeerCertificate = func([][]byte, [][]*x509.Certificate) error { return nil }
			}
			l := vfLinkUp(cc, sc)
			ca, sa := l.hs(nil)
			if l.client.handshakeComplete != ok {
				v.viol("identity", "server identity case %d (verification disabled: %v): client completes: %v (%v %v) (%v)", kind, skip, !ok, ca, sa, c)
				return
			}
			if ok {
				cs := l.client.ConnectionState()
				if len(cs.PeerCertificates) != 1 || !bytes.Equal(cs.PeerCertificates[0].Raw, sc.Certificates[0].Chain[0].Raw) || (len(cs.VerifiedChains) == 0) != skip {
					v.viol("identity", "reported: %d certificates, %d chains (%v)", len(cs.PeerCertificates), len(cs.VerifiedChains), c)
				}
			}
		})
	}
	for i := 0; i < v.n(100) && !v.over(); i++ {
		c := vfRandCfg(v, 2)
		c.psk = true
		v.run(fmt.Sprintf("wrong PSK %v", c), func() {
			cc, sc := vfConfigs(c)
			p := vfPSK(c)
			p.Key = append([]byte{}, p.Key...)
			p.Key[v.rng.Intn(len(p.Key))] ^= 1
			sc.PSKs.Put("01020304", p)
			l := vfLinkUp(cc, sc)
			l.hs(nil)
			if l.client.handshakeComplete || l.server.handshakeComplete {
				v.viol("psk", "a handshake completes with different PSKs (%v)", c)
			}
		})
	}
	for i := 0; i < v.n(60) && !v.over(); i++ {
		c := vfRandCfg(v, 2)
		v.run(fmt.Sprintf("forged Finished %v", c), func() {
			cc, sc := vfConfigs(c)
			l := vfLinkUp(cc, sc)
			v.hsProbe(l, c, b, "forged")
		})
	}
	v.done()
}

// needs: vfcrypto vfneg
func TestVfC11(t *testing.T) {
	v := vfStart(t, "handshakes with one byte of one message altered; clients that sign with another key than their certificate's; application callbacks that refuse; probes with forged Finished messages in every server state")
	b := v.bodies()
	v.tampered(true)
	other, _ := ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	for i := 0; i < v.n(200) && !v.over(); i++ {
		c := vfRandCfg(v, 2)
		c.psk, c.clientEarly, c.clientAuth, c.noClientCert = false, false, true, false
		kind := v.rng.Intn(5)
		v.run(fmt.Sprintf("client identity %d %v", kind, c), func() {
			cc, sc := vfConfigs(c)
			ok := true
			calls := 0
			switch kind {
			case 0:
				cc.Certificates = []*Certificate{{Chain: vfClientCert.Chain, PrivateKey: other}}
				ok = false
			case 1:
				sc.VerifyPeerCertificate = func([][]byte, [][]*x509.Certificate) error { return fmt.Errorf("no") }
				ok = false
			case 2:
				sc.VerifyPeerCertificate = func(r [][]byte, _ [][]*x509.Certificate) error {
					calls++
					if len(r) != 1 || !bytes.Equal(r[0], vfClientCert.Chain[0].Raw) {
						return fmt.Errorf("wrong certificate")
					}
					return nil
				}
			case 3:
				cc.Certificates = []*Certificate{{Chain: []*x509.Certificate{vfClientCert.Chain[0], vfOtherCA.issue("x", other).Chain[0]}, PrivateKey: other}}
				ok = false
			}
			l := vfLinkUp(cc, sc)
			ca, sa := l.hs(nil)
			if l.server.handshakeComplete != ok {
				v.viol("identity", "client identity case %d: server completes: %v (%v %v) (%v)", kind, !ok, ca, sa, c)
				return
			}
			if kind == 2 && calls != 1 {
				v.viol("identity", "the certificate callback ran %d times (%v)", calls, c)
			}
			if ok {
				cs := l.server.ConnectionState()
				if len(cs.PeerCertificates) != 1 || !bytes.Equal(cs.PeerCertificates[0].Raw, vfClientCert.Chain[0].Raw) {
					v.viol("identity", "reported: %d certificates (%v)", len(cs.PeerCertificates), c)
				}
			}
		})
	}
	for i := 0; i < v.n(100) && !v.over(); i++ {
		c := vfRandCfg(v, 2)
		v.run(fmt.Sprintf("forged Finished %v", c), func() {
			cc, sc := vfConfigs(c)
			l := vfLinkUp(cc, sc)
			v.hsProbe(l, c, b, "forged")
		})
	}
	v.done()
}
