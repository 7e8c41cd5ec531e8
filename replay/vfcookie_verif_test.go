package mint

import (
	"bytes"
	"errors"
	"fmt"
	"testing"

	"github.com/bifurcation/mint/syntax"
)

type vfCookieApp struct {
	ok, fail  bool
	app       []byte
	validated [][]byte
}

func (h *vfCookieApp) Generate(*Conn) ([]byte, error) {
	if h.fail {
		return nil, errors.New("no cookie")
	}
	return h.app, nil
}
func (h *vfCookieApp) Validate(c *Conn, b []byte) bool {
	h.validated = append(h.validated, append([]byte{}, b...))
	return h.ok
}

// needs: vfcrypto vfhs vfneg vfconn vfrecord vfpsk
func TestVfC15(t *testing.T) {
	v := vfStart(t, "tokens over up to 300 bytes of data: decoded, truncated to every length, with bytes flipped or added, opened by another protector; server starts (TLS and DTLS) on second ClientHellos carrying genuine, forged, truncated, extended and re-wrapped cookies over both suites with and without an application that accepts or refuses; full handshakes with a retry")
	for i := 0; i < v.n(60) && !v.over(); i++ {
		v.run("token", func() {
			a, e1 := NewDefaultCookieProtector()
			b, e2 := NewDefaultCookieProtector()
			data := v.bytes(v.rng.Intn(300))
			tok, e3 := a.NewToken(append([]byte{}, data...))
			tok2, e4 := a.NewToken(append([]byte{}, data...))
			if e1 != nil || e2 != nil || e3 != nil || e4 != nil {
				v.viol("make", "no token: %v %v %v %v", e1, e2, e3, e4)
				return
			}
			keep := append([]byte{}, tok...)
			for n := 0; n < 2; n++ {
				got, err := a.DecodeToken(tok)
				if err != nil || !bytes.Equal(got, data) {
					v.viol("round-trip", "token over %s decodes to %s, %v", vfHex(data), vfHex(got), err)
					return
				}
			}
			if !bytes.Equal(keep, tok) {
				v.viol("untouched", "decoding changes the token")
			}
			if bytes.Equal(tok, tok2) {
				v.viol("fresh", "two tokens over the same data are equal")
			}
			if bytes.Contains(tok, data) && len(data) >= 4 {
				v.viol("opaque", "the token shows the data")
			}
			if got, err := b.DecodeToken(tok); err == nil {
				v.viol("foreign", "a token of another protector decodes to %s", vfHex(got))
			}
			for n := 0; n < len(tok); n++ {
				if got, err := a.DecodeToken(tok[:n]); err == nil {
					v.viol("truncated", "the first %d of %d bytes of a token decode to %s", n, len(tok), vfHex(got))
					return
				}
				f := append([]byte{}, tok...)
				f[n] ^= 1 << uint(v.rng.Intn(8))
				if got, err := a.DecodeToken(f); err == nil {
					v.viol("altered", "a token with byte %d altered decodes to %s", n, vfHex(got))
					return
				}
			}
			if _, err := a.DecodeToken(append(append([]byte{}, tok...), 0)); err == nil {
				v.viol("extended", "a token with a byte added decodes")
			}
		})
	}
	suites := []CipherSuite{TLS_AES_128_GCM_SHA256, TLS_AES_256_GCM_SHA384}
	for i := 0; i < v.n(400) && !v.over(); i++ {
		c := vfRandCfg(v, 2)
		c.hrr, c.psk, c.ke, c.resumption, c.clientEarly, c.early, c.alpn = true, false, false, false, false, false, ""
		kind := []string{"genuine", "foreign", "truncated", "extended", "altered", "trailing", "suite", "hash"}[v.rng.Intn(8)]
		app := &vfCookieApp{app: v.bytes(v.rng.Intn(20)), ok: v.rng.Intn(3) > 0}
		withApp := v.rng.Intn(3) > 0
		v.run(fmt.Sprintf("cookie kind=%s app=%v/%v dtls=%v suite=%d", kind, withApp, app.ok, c.dtls, c.suite), func() {
			cc, sc := vfConfigs(c)
			sc.CipherSuites = suites
			if v.rng.Intn(2) == 0 {
				sc.CipherSuites = []CipherSuite{suites[1], suites[0]}
			}
			if withApp {
				sc.CookieHandler = app
			}
			prot := sc.CookieProtector
			l := vfLinkUp(cc, sc)
			if a := l.server.HandshakeSetup(); a != AlertNoAlert {
				v.viol("setup", "server setup: %v", a)
				return
			}
			if a := l.client.HandshakeSetup(); a != AlertNoAlert {
				v.viol("setup", "client setup: %v", a)
				return
			}
			w, ok := l.client.hState.(clientStateWaitSH)
			if !ok {
				v.viol("client", "no ClientHello: %T", l.client.hState)
				return
			}
			chm := w.clientHello
			first := &HandshakeMessage{msgType: HandshakeTypeClientHello, body: chm.body, length: uint32(len(chm.body)), datagram: c.dtls}
			start := l.server.hState
			next, acts, alert := start.Next(vfProbe{first})
			if alert != AlertStatelessRetry || len(acts) == 0 {
				v.viol("retry", "a cookie is required and the first ClientHello has none: alert %v, next %T", alert, next)
				return
			}
			hrr := &ServerHelloBody{}
			if _, err := hrr.Unmarshal(acts[0].(QueueHandshakeMessage).Message.body); err != nil {
				v.viol("retry", "HelloRetryRequest: %v", err)
				return
			}
			ce := new(CookieExtension)
			if ok, err := hrr.Extensions.Find(ce); !ok || err != nil {
				v.viol("retry", "no cookie in the HelloRetryRequest")
				return
			}
			plain, err := prot.DecodeToken(ce.Cookie)
			ck := cookie{}
			if err == nil {
				_, err = syntax.Unmarshal(plain, &ck)
			}
			h := vfSuiteHash[c.suite]
			fm := first.Marshal()
			if err != nil || ck.CipherSuite != c.suite || hrr.CipherSuite != c.suite || !bytes.Equal(ck.ClientHelloHash, vfSum(h, fm)) {
				v.viol("retry-content", "the cookie holds suite %d (selected %d), hash %x (want %x), %v", ck.CipherSuite, c.suite, ck.ClientHelloHash, vfSum(h, fm), err)
				return
			}
			if withApp && !bytes.Equal(ck.ApplicationCookie, app.app) || !withApp && len(ck.ApplicationCookie) != 0 {
				v.viol("retry-application", "the cookie holds the application's part %x", ck.ApplicationCookie)
				return
			}
			other, _ := NewDefaultCookieProtector()
			tok, good := append([]byte{}, ce.Cookie...), true
			wantHash := ck.ClientHelloHash
			switch kind {
			case "foreign":
				tok, _ = other.NewToken(plain)
				good = false
			case "truncated":
				tok, good = tok[:v.rng.Intn(len(tok))], false
				if len(tok) == 0 {
					tok = []byte{0}
				}
			case "extended":
				tok, good = append(tok, byte(v.rng.Intn(256))), false
			case "altered":
				tok[v.rng.Intn(len(tok))] ^= 1 << uint(v.rng.Intn(8))
				good = false
			case "trailing":
				tok, _ = prot.NewToken(append(append([]byte{}, plain...), 1))
				good = false
			case "suite":
				k2 := ck
				k2.CipherSuite = suites[0]
				if c.suite == suites[0] {
					k2.CipherSuite = suites[1]
				}
				p2, _ := syntax.Marshal(k2)
				tok, _ = prot.NewToken(p2)
				good = false
			case "hash":
				k2 := ck
				k2.ClientHelloHash = v.bytes(h.Size())
				wantHash = k2.ClientHelloHash
				p2, _ := syntax.Marshal(k2)
				tok, _ = prot.NewToken(p2)
			}
			good = good && (!withApp || app.ok)
			body := &ClientHelloBody{}
			if c.dtls {
				body.LegacyVersion = dtls12WireVersion
			}
			if _, err := body.Unmarshal(chm.body); err != nil {
				v.viol("hello", "the client's own ClientHello: %v", err)
				return
			}
			if err := body.Extensions.Add(&CookieExtension{Cookie: tok}); err != nil {
				return
			}
			raw, err := body.Marshal()
			if err != nil {
				v.viol("hello", "%v", err)
				return
			}
			app.validated = nil
			second := &HandshakeMessage{msgType: HandshakeTypeClientHello, body: raw, length: uint32(len(raw)), datagram: c.dtls, seq: 1}
			next, acts, alert = start.Next(vfProbe{second})
			n, isNeg := next.(serverStateNegotiated)
			if good != (alert == AlertNoAlert && isNeg) || !good && (next != nil || len(acts) != 0) {
				v.viol("accept", "cookie kind %s, application %v/%v: alert %v, next %T, %d actions", kind, withApp, app.ok, alert, next, len(acts))
				return
			}
			if withApp && good && (len(app.validated) != 1 || !bytes.Equal(app.validated[0], app.app)) {
				v.viol("application", "the application validated %x, its cookie is %x", app.validated, app.app)
			}
			if good && (n.firstClientHello == nil || n.firstClientHello.msgType != HandshakeTypeMessageHash || !bytes.Equal(n.firstClientHello.body, wantHash) || n.Params.CipherSuite != c.suite) {
				v.viol("transcript", "after a cookie the first ClientHello stands as %+v (recorded hash %x)", n.firstClientHello, wantHash)
			}
			if good && n.helloRetryRequest == nil {
				v.viol("transcript", "after a cookie the HelloRetryRequest is not in the transcript")
			}
		})
	}
	for i := 0; i < v.n(60) && !v.over(); i++ {
		c := vfRandCfg(v, 2)
		c.hrr, c.clientEarly, c.early = true, false, false
		v.run(fmt.Sprintf("full dtls=%v psk=%v suite=%v", c.dtls, c.psk, c.suite), func() {
			if l := vfHonest(v, c); l != nil {
				if err := vfExchange(l, 20); err != nil {
					v.viol("application", "after a retry: %v", err)
				}
			}
		})
	}
	v.done()
}
