package mint

import (
	"bytes"
	"crypto"
	"crypto/ecdh"
	"crypto/ecdsa"
	"crypto/elliptic"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/asn1"
	"fmt"
	"math/big"
	"sync"
	"testing"
)

type vfKeyT struct {
	rsa1, rsa2       *rsa.PrivateKey
	p256, p384, p521 *ecdsa.PrivateKey
}

var vfKeyOnce sync.Once
var vfKeySet vfKeyT

func vfKeys() *vfKeyT {
	vfKeyOnce.Do(func() {
		k := &vfKeySet
		k.rsa1, _ = rsa.GenerateKey(rand.Reader, 2048)
		k.rsa2, _ = rsa.GenerateKey(rand.Reader, 2048)
		k.p256, _ = ecdsa.GenerateKey(elliptic.P256(), rand.Reader)
		k.p384, _ = ecdsa.GenerateKey(elliptic.P384(), rand.Reader)
		k.p521, _ = ecdsa.GenerateKey(elliptic.P521(), rand.Reader)
	})
	return &vfKeySet
}

// what a scheme number means (RFC 8446 4.2.3)
type vfScheme struct {
	kind string // pkcs1 pss ecdsa
	hash crypto.Hash
	bits int
}

var vfSchemes = map[SignatureScheme]vfScheme{
	0x0201: {"pkcs1", crypto.SHA1, 0}, 0x0401: {"pkcs1", crypto.SHA256, 0}, 0x0501: {"pkcs1", crypto.SHA384, 0}, 0x0601: {"pkcs1", crypto.SHA512, 0},
	0x0804: {"pss", crypto.SHA256, 0}, 0x0805: {"pss", crypto.SHA384, 0}, 0x0806: {"pss", crypto.SHA512, 0},
	0x0403: {"ecdsa", crypto.SHA256, 256}, 0x0503: {"ecdsa", crypto.SHA384, 384}, 0x0603: {"ecdsa", crypto.SHA512, 521},
}

// vfSigOK: independent verdict on a signature
func vfSigOK(a SignatureScheme, pub crypto.PublicKey, msg, sig []byte) bool {
	s, ok := vfSchemes[a]
	if !ok || s.hash == crypto.SHA1 {
		return false
	}
	d := vfSum(s.hash, msg)
	switch p := pub.(type) {
	case *rsa.PublicKey:
		switch s.kind {
		case "pkcs1":
			return rsa.VerifyPKCS1v15(p, s.hash, d, sig) == nil
		case "pss":
			return rsa.VerifyPSS(p, s.hash, d, sig, &rsa.PSSOptions{SaltLength: s.hash.Size(), Hash: s.hash}) == nil
		}
	case *ecdsa.PublicKey:
		return s.kind == "ecdsa" && p.Curve.Params().BitSize == s.bits && ecdsa.VerifyASN1(p, d, sig)
	}
	return false
}
func vfFits(a SignatureScheme, k interface{}) bool {
	s, ok := vfSchemes[a]
	switch k := k.(type) {
	case *rsa.PrivateKey:
		return ok && s.kind != "ecdsa"
	case *ecdsa.PrivateKey:
		return ok && s.kind == "ecdsa" && k.Curve.Params().BitSize == s.bits
	}
	return false
}

// needs: vfcrypto
func TestVfC24(t *testing.T) {
	v := vfStart(t, "every scheme number defined plus unknown ones; RSA-2048, P-256, P-384 and P-521 keys; random content; altered content, signature, key, scheme, trailing bytes")
	ks := vfKeys()
	privs := []crypto.Signer{ks.rsa1, ks.p256, ks.p384, ks.p521}
	pubs := []crypto.PublicKey{&ks.rsa1.PublicKey, &ks.rsa2.PublicKey, &ks.p256.PublicKey, &ks.p384.PublicKey, &ks.p521.PublicKey, nil, 7}
	algs := []SignatureScheme{0x0201, 0x0401, 0x0501, 0x0601, 0x0403, 0x0503, 0x0603, 0x0804, 0x0805, 0x0806, 0x0203, 0x0807, 0, 0x0402}
	for i := 0; i < v.n(150) && !v.over(); i++ {
		hh := v.bytes([]int{0, 20, 32, 48, 64}[v.rng.Intn(5)])
		want := vfCat(bytes.Repeat([]byte{32}, 64), []byte("TLS 1.3, server CertificateVerify"), []byte{0}, hh)
		v.run("content", func() {
			cv := CertificateVerifyBody{}
			if g := cv.EncodeSignatureInput(hh); !bytes.Equal(g, want) {
				v.viol("content", "EncodeSignatureInput(%x) = %x, want %x", hh, g, want)
			}
		})
		for _, a := range algs {
			for ki, k := range privs {
				class := fmt.Sprintf("scheme %04x key %T %d", uint16(a), k, ki)
				v.run(class, func() {
					s := vfSchemes[a]
					may := vfFits(a, k) && s.hash != crypto.SHA1
					if e, ok := k.(*ecdsa.PrivateKey); ok && may {
						may = e.Curve.Params().BitSize == s.bits
					}
					cv := &CertificateVerifyBody{Algorithm: a}
					err := cv.Sign(k, hh)
					if (err == nil) != may {
						v.viol("sign", "%s: signing gives error %v", class, err)
						return
					}
					if err != nil {
						if len(cv.Signature) > 0 {
							v.viol("sign", "%s: refused but left a signature", class)
						}
						return
					}
					pub := k.Public()
					if !vfSigOK(a, pub, want, cv.Signature) {
						v.viol("sign", "%s: the signature made is not one of that scheme over the specified content", class)
					}
					if err := cv.Verify(pub, hh); err != nil {
						v.viol("verify", "%s: own signature refused: %v", class, err)
					}
					for n := 0; n < 8; n++ {
						a2, pub2, h2, sig2 := a, pub, hh, append([]byte{}, cv.Signature...)
						what := ""
						switch n {
						case 0:
							a2, what = algs[v.rng.Intn(len(algs))], "scheme"
						case 1:
							pub2, what = pubs[v.rng.Intn(len(pubs))], "key"
						case 2:
							h2, what = append(append([]byte{}, hh...), 0), "content"
						case 3:
							sig2, what = append(sig2, v.bytes(1+v.rng.Intn(3))...), "trailing bytes"
						case 4:
							sig2[v.rng.Intn(len(sig2))] ^= byte(1 << uint(v.rng.Intn(8)))
							what = "signature bit"
						case 5:
							sig2, what = sig2[:v.rng.Intn(len(sig2))], "truncated signature"
						case 6:
							r := []*big.Int{big.NewInt(0), big.NewInt(1), big.NewInt(-1)}
							sig2, _ = asn1.Marshal(struct{ R, S *big.Int }{r[v.rng.Intn(3)], r[v.rng.Intn(3)]})
							what = "chosen integers"
						case 7:
							// a PSS signature with another salt length, or made with another hash
							if rk, ok := k.(*rsa.PrivateKey); ok && s.kind == "pss" {
								sig2, _ = rsa.SignPSS(rand.Reader, rk, s.hash, vfSum(s.hash, want), &rsa.PSSOptions{SaltLength: v.rng.Intn(s.hash.Size())})
							}
							what = "salt length"
						}
						c2 := &CertificateVerifyBody{Algorithm: a2, Signature: sig2}
						w2 := vfCat(want[:98], h2)
						if err := c2.Verify(pub2, h2); (err == nil) != vfSigOK(a2, pub2, w2, sig2) {
							v.viol("verify", "%s: with changed %s (scheme %04x, key %T, signature %s) the verdict is %v", class, what, uint16(a2), pub2, vfHex(sig2), err)
						}
					}
				})
			}
		}
	}
	v.done()
}

func TestVfC25(t *testing.T) {
	v := vfStart(t, "all eight groups and unknown ones; shares of every size 0..size+2 sampled, valid, random, boundary and off-curve values")
	groups := []NamedGroup{P256, P384, P521, FFDHE2048, FFDHE3072, FFDHE4096, FFDHE6144, FFDHE8192, X25519, 0, 22, 26, 30, 261, 65535}
	size := map[NamedGroup]int{23: 65, 24: 97, 25: 133, 256: 256, 257: 384, 258: 512, 259: 768, 260: 1024, 29: 32}
	curves := map[NamedGroup]elliptic.Curve{23: elliptic.P256(), 24: elliptic.P384(), 25: elliptic.P521()}
	cs := map[NamedGroup]ecdh.Curve{23: ecdh.P256(), 24: ecdh.P384(), 25: ecdh.P521(), 29: ecdh.X25519()}
	prime := map[NamedGroup]*big.Int{256: vfFFPrime(2048, 560316), 257: vfFFPrime(3072, 2625351), 258: vfFFPrime(4096, 5736041), 259: vfFFPrime(6144, 15705020), 260: vfFFPrime(8192, 10965728)}
	secret := func(g NamedGroup, pub, priv []byte) ([]byte, bool) {
		if len(pub) != size[g] || size[g] == 0 {
			return nil, false
		}
		if p := prime[g]; p != nil {
			y := new(big.Int).SetBytes(pub)
			if y.Cmp(big.NewInt(1)) <= 0 || y.Cmp(new(big.Int).Sub(p, big.NewInt(1))) >= 0 {
				return nil, false
			}
			return new(big.Int).Exp(y, new(big.Int).SetBytes(priv), p).FillBytes(make([]byte, size[g])), true
		}
		k, err := cs[g].NewPrivateKey(priv)
		if err != nil {
			panic(err)
		}
		p, err := cs[g].NewPublicKey(pub)
		if err != nil {
			return nil, false
		}
		z, err := k.ECDH(p)
		return z, err == nil
	}
	for i := 0; i < v.n(60) && !v.over(); i++ {
		for _, g := range groups {
			if g >= 258 && g <= 260 && i%10 != 0 {
				continue
			}
			v.run(fmt.Sprintf("group %d", g), func() {
				if n := keyExchangeSizeFromNamedGroup(g); n != size[g] {
					v.viol("size", "size of group %d is %d, want %d", g, n, size[g])
				}
				pub, priv, err := newKeyShare(g)
				if size[g] == 0 {
					if err == nil {
						v.viol("unknown", "newKeyShare(%d) made a share", g)
					}
					if z, err := keyAgreement(g, v.bytes(v.rng.Intn(100)), v.bytes(32)); err == nil || len(z) > 0 {
						v.viol("unknown", "keyAgreement(%d) made a secret", g)
					}
					return
				}
				if err != nil || len(pub) != size[g] {
					v.viol("share", "newKeyShare(%d): share of %d bytes, error %v", g, len(pub), err)
					return
				}
				var own []byte
				if p := prime[g]; p != nil {
					own = new(big.Int).Exp(big.NewInt(2), new(big.Int).SetBytes(priv), p).FillBytes(make([]byte, size[g]))
				} else {
					k, err := cs[g].NewPrivateKey(priv)
					if err != nil {
						v.viol("share", "newKeyShare(%d): bad private part %x", g, priv)
						return
					}
					own = k.PublicKey().Bytes()
				}
				if !bytes.Equal(own, pub) {
					v.viol("share", "newKeyShare(%d): private part %s does not belong to %s", g, vfHex(priv), vfHex(pub))
				}
				pub2, priv2, _ := newKeyShare(g)
				for n := 0; n < 12; n++ {
					q := append([]byte{}, pub2...)
					switch n {
					case 0:
					case 1:
						q = v.bytes(size[g])
					case 2:
						q = q[:v.rng.Intn(len(q))]
					case 3:
						q = append(q, v.bytes(1+v.rng.Intn(2))...)
					case 4:
						q[v.rng.Intn(len(q))] ^= byte(1 << uint(v.rng.Intn(8)))
					case 5:
						q = make([]byte, size[g])
					case 6:
						q = make([]byte, size[g])
						q[v.rng.Intn(2)*(len(q)-1)] = 1
					case 7:
						if c := curves[g]; c != nil {
							q[0] = byte(v.rng.Intn(8))
						}
					case 8:
						if p := prime[g]; p != nil {
							q = new(big.Int).Add(p, big.NewInt(int64(v.rng.Intn(5)-3))).FillBytes(make([]byte, size[g]))
						}
					case 9:
						q = nil
					case 10: // a small result: the secret must keep its length
						if p := prime[g]; p != nil {
							q = big.NewInt(2).FillBytes(make([]byte, size[g]))
							priv = []byte{byte(1 + v.rng.Intn(200))}
						} else {
							// shares whose secret starts with a zero byte
							for k := 0; k < 400; k++ {
								pp, _, _ := newKeyShare(g)
								if z, ok := secret(g, pp, priv); ok && z[0] == 0 {
									q = pp
									break
								}
							}
						}
					case 11:
						if g == X25519 { // low-order points
							q = make([]byte, 32)
							q[0] = 0xec + byte(v.rng.Intn(2))
							for k := 1; k < 31; k++ {
								q[k] = 0xff
							}
							q[31] = 0x7f
						}
					}
					z, err := keyAgreement(g, q, priv)
					w, ok := secret(g, q, priv)
					if ok != (err == nil) || !bytes.Equal(z, w) {
						v.viol("secret", "keyAgreement(%d, %s, %s) = %s, %v; want %s, accepted %v", g, vfHex(q), vfHex(priv), vfHex(z), err, vfHex(w), ok)
						return
					}
				}
				z1, e1 := keyAgreement(g, pub2, priv)
				_, _ = z1, e1
				if z2, err := keyAgreement(g, pub, priv2); err == nil && len(z2) == 0 {
					v.viol("secret", "keyAgreement(%d) gave an empty secret", g)
				}
			})
		}
	}
	v.done()
}

// vfFFPrime: 2^n - 2^(n-64) + (floor(2^(n-130) e) + x) 2^64 - 1 (RFC 7919)
func vfFFPrime(n uint, x int64) *big.Int {
	e := new(big.Int) // 2^(n-130) e by series
	term := new(big.Int).Lsh(big.NewInt(1), n-130+64)
	for k := int64(1); term.Sign() > 0; k++ {
		e.Add(e, term)
		term.Div(term, big.NewInt(k))
	}
	e.Rsh(e, 64)
	e.Add(e, big.NewInt(x))
	e.Lsh(e, 64)
	p := new(big.Int).Lsh(big.NewInt(1), n)
	p.Sub(p, new(big.Int).Lsh(big.NewInt(1), n-64))
	p.Add(p, e)
	return p.Sub(p, big.NewInt(1))
}

func vfInU16(x uint16, s []uint16) bool {
	for _, y := range s {
		if x == y {
			return true
		}
	}
	return false
}

func TestVfC14(t *testing.T) {
	v := vfStart(t, "random offered and supported lists of up to 6 entries over small value sets, PSKs present and absent, resumption or external")
	ks := vfKeys()
	names := []string{"a.example", "b.example", "c.example"}
	protos := []string{"h2", "http/1.1", "x"}
	list := func(max int, vals []uint16) []uint16 {
		var l []uint16
		for n := v.rng.Intn(max + 1); n > 0; n-- {
			l = append(l, vals[v.rng.Intn(len(vals))])
		}
		return l
	}
	slist := func(max int, vals []string) []string {
		var l []string
		for n := v.rng.Intn(max + 1); n > 0; n-- {
			l = append(l, vals[v.rng.Intn(len(vals))])
		}
		return l
	}
	signers := []crypto.Signer{ks.rsa1, ks.p256, ks.p384}
	type kx struct {
		g    NamedGroup
		good bool
		b    []byte
	}
	var shares []kx
	for _, g := range []NamedGroup{P256, P384, X25519} {
		for n := 0; n < 2; n++ {
			p, _, _ := newKeyShare(g)
			shares = append(shares, kx{g, true, p})
		}
		shares = append(shares, kx{g, false, []byte{4, 1}}, kx{g, false, make([]byte, keyExchangeSizeFromNamedGroup(g))})
	}
	shares = append(shares, kx{99, false, []byte{1, 2, 3}})
	for i := 0; i < v.n(6000) && !v.over(); i++ {
		vers := []uint16{0x0304, 0x0303, 0x7f16, 0x7f15, 0}
		off, sup := list(5, vers), list(4, vers)
		v.run(fmt.Sprintf("version %d/%d", len(off), len(sup)), func() {
			ok, x := VersionNegotiation(off, sup)
			wok, wx := false, uint16(0)
			for _, o := range off {
				if !wok && vfInU16(o, sup) {
					wok, wx = true, o
				}
			}
			if ok != wok || ok && x != wx {
				v.viol("version", "offered %x supported %x: %v %x, want %v %x", off, sup, ok, x, wok, wx)
			}
		})
		var psk *PreSharedKey
		if v.rng.Intn(2) == 0 {
			psk = &PreSharedKey{CipherSuite: CipherSuite(1 + v.rng.Intn(4)), NextProto: protos[v.rng.Intn(len(protos))], IsResumption: v.rng.Intn(2) == 0}
		}
		suites := []uint16{1, 2, 3, 4}
		off, sup = list(4, suites), list(4, suites)
		v.run(fmt.Sprintf("suite %d/%d psk %v", len(off), len(sup), psk != nil), func() {
			var o, s []CipherSuite
			for _, x := range off {
				o = append(o, CipherSuite(x))
			}
			for _, x := range sup {
				s = append(s, CipherSuite(x))
			}
			x, err := CipherSuiteNegotiation(psk, o, s)
			wok, wx := false, CipherSuite(0)
			for _, y := range off {
				if psk != nil && CipherSuite(y) == psk.CipherSuite || psk == nil && !wok && vfInU16(y, sup) {
					wok, wx = true, CipherSuite(y)
				}
			}
			if (err == nil) != wok || wok && x != wx {
				v.viol("suite", "offered %x supported %x psk %v: %v %v, want %v %v", off, sup, psk, x, err, wx, wok)
			}
		})
		v.run("psk mode", func() {
			dh, pk := v.rng.Intn(2) == 0, v.rng.Intn(2) == 0
			var modes []PSKKeyExchangeMode
			ke, dhe := false, false
			for n := v.rng.Intn(4); n > 0; n-- {
				m := PSKKeyExchangeMode(v.rng.Intn(4))
				modes = append(modes, m)
				ke, dhe = ke || m == 0, dhe || m == 1
			}
			ud, up := PSKModeNegotiation(dh, pk, modes)
			if up && (!pk || !ke && !dhe) || ud && !dh || up && !ud && !ke || up && ud && !dhe || !pk && ud != dh {
				v.viol("psk-mode", "key share %v psk %v modes %v: key share %v psk %v", dh, pk, modes, ud, up)
			}
		})
		v.run("alpn", func() {
			o, s := slist(4, protos), slist(4, protos)
			x, err := ALPNNegotiation(psk, o, s)
			w := ""
			for _, y := range o {
				in := false
				for _, z := range s {
					in = in || y == z
				}
				if w == "" && in && (psk == nil || y == psk.NextProto) {
					w = y
				}
			}
			werr := psk != nil && psk.IsResumption && len(o) > 0 && w == ""
			if psk != nil && psk.NextProto == "" {
				return // an empty name is not a protocol
			}
			if x != w || (err != nil) != werr {
				v.viol("alpn", "offered %q supported %q psk %v: %q %v, want %q, error %v", o, s, psk, x, err, w, werr)
			}
		})
		v.run("early data", func() {
			a, b, c := v.rng.Intn(2) == 0, v.rng.Intn(2) == 0, v.rng.Intn(2) == 0
			u, r := EarlyDataNegotiation(a, b, c)
			if u != (a && b && c) || r != (b && !u) {
				v.viol("early-data", "EarlyDataNegotiation(%v, %v, %v) = %v, %v", a, b, c, u, r)
			}
		})
		v.run("certificate", func() {
			var certs []*Certificate
			for n := v.rng.Intn(4); n > 0; n-- {
				certs = append(certs, &Certificate{Chain: []*x509.Certificate{{DNSNames: slist(3, names)}}, PrivateKey: signers[v.rng.Intn(3)]})
			}
			var schemes []SignatureScheme
			all := []SignatureScheme{0x0401, 0x0403, 0x0503, 0x0804, 0x0203, 0}
			for n := v.rng.Intn(4); n > 0; n-- {
				schemes = append(schemes, all[v.rng.Intn(len(all))])
			}
			var name *string
			if v.rng.Intn(4) > 0 {
				name = &names[v.rng.Intn(len(names))]
			}
			c, s, err := CertificateSelection(name, schemes, certs)
			named := func(c *Certificate) bool {
				if name == nil {
					return true
				}
				for _, n := range c.Chain[0].DNSNames {
					if n == *name {
						return true
					}
				}
				return false
			}
			some := false
			for _, k := range certs {
				for _, x := range schemes {
					some = some || named(k) && vfFits(x, k.PrivateKey)
				}
			}
			if (err == nil) != some {
				v.viol("certificate", "name %v schemes %x: error %v, but a usable certificate exists: %v", name, schemes, err, some)
				return
			}
			if err != nil {
				return
			}
			first := SignatureScheme(0)
			for k := len(schemes) - 1; k >= 0; k-- {
				if vfFits(schemes[k], c.PrivateKey) {
					first = schemes[k]
				}
			}
			conf := false
			for _, k := range certs {
				conf = conf || k == c
			}
			if !conf || !named(c) || s != first {
				v.viol("certificate", "name %v schemes %x: chose scheme %x, key %T, configured %v, named %v, want scheme %x", name, schemes, s, c.PrivateKey, conf, named(c), first)
			}
		})
		if i%8 == 0 {
			v.run("key share", func() {
				var off []KeyShareEntry
				var ok []bool
				for n := v.rng.Intn(4); n > 0; n-- {
					s := shares[v.rng.Intn(len(shares))]
					off = append(off, KeyShareEntry{s.g, s.b})
					ok = append(ok, s.good)
				}
				var groups []NamedGroup
				for n := v.rng.Intn(4); n > 0; n-- {
					groups = append(groups, []NamedGroup{P256, P384, X25519, 99}[v.rng.Intn(4)])
				}
				got, g, pub, sec := DHNegotiation(off, groups)
				w := -1
				for k := range off {
					in := false
					for _, x := range groups {
						in = in || x == off[k].Group
					}
					if w < 0 && in && ok[k] {
						w = k
					}
				}
				if got != (w >= 0) || got && (g != off[w].Group || len(pub) != keyExchangeSizeFromNamedGroup(g) || len(sec) == 0) || !got && (pub != nil || sec != nil) {
					v.viol("key-share", "offered %v groups %v: %v %v, want entry %d", off, groups, got, g, w)
				}
			})
		}
	}
	v.done()
}
