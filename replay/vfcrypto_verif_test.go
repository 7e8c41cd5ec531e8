package mint

import (
	"bytes"
	"crypto"
	"crypto/hmac"
	"fmt"
	"testing"
)

// vfMac, vfExpand, vfExpandLabel: RFC 5869 / RFC 8446 7.1, written independently of the code under test
func vfMac(h crypto.Hash, key []byte, data ...[]byte) []byte {
	m := hmac.New(h.New, key)
	for _, d := range data {
		m.Write(d)
	}
	return m.Sum(nil)
}
func vfSum(h crypto.Hash, data ...[]byte) []byte {
	x := h.New()
	for _, d := range data {
		x.Write(d)
	}
	return x.Sum(nil)
}
func vfExpand(h crypto.Hash, prk, info []byte, n int) []byte {
	out, t := []byte{}, []byte{}
	for i := 1; len(out) < n; i++ {
		t = vfMac(h, prk, t, info, []byte{byte(i)})
		out = append(out, t...)
	}
	return out[:n]
}
func vfExpandLabel(h crypto.Hash, secret []byte, label string, ctx []byte, n int) []byte {
	info := vfCat(vfBE(uint64(n), 2), []byte{byte(6 + len(label))}, []byte("tls13 "+label), []byte{byte(len(ctx))}, ctx)
	return vfExpand(h, secret, info, n)
}
func vfDerive(h crypto.Hash, secret []byte, label string, msgHash []byte) []byte {
	return vfExpandLabel(h, secret, label, msgHash, h.Size())
}

var vfHashes = []crypto.Hash{crypto.SHA1, crypto.SHA256, crypto.SHA384, crypto.SHA512}

func TestVfC08(t *testing.T) {
	v := vfStart(t, "random secrets and contexts; SHA-1/256/384/512; output lengths 0..255 blocks sampled, block boundaries included")
	for i := 0; i < v.n(600) && !v.over(); i++ {
		h := vfHashes[v.rng.Intn(len(vfHashes))]
		hs := h.Size()
		lens := []int{0, 1, hs - 1, hs, hs + 1, 2 * hs, 2*hs + 1, 3*hs - 1, 8 * hs, 254 * hs, 254*hs + 1, 255 * hs, v.rng.Intn(255 * hs)}
		n := lens[v.rng.Intn(len(lens))]
		secret := v.bytes([]int{0, 1, 16, 20, 32, 48, 64, 65, 127, 128, 129, 200}[v.rng.Intn(12)])
		label := string(v.bytes([]int{0, 1, 3, 12, 100, 249}[v.rng.Intn(6)]))
		ctx := v.bytes([]int{0, 1, 20, 32, 48, 64, 255}[v.rng.Intn(7)])
		v.run(fmt.Sprintf("hash=%v len=%d secret=%d label=%d context=%d", h, n, len(secret), len(label), len(ctx)), func() {
			s0, c0 := append([]byte{}, secret...), append([]byte{}, ctx...)
			if g, w := HkdfExpand(h, secret, ctx, n), vfExpand(h, secret, ctx, n); !bytes.Equal(g, w) {
				v.viol("expand", "HkdfExpand(%v, %s, %s, %d) = %s, want %s", h, vfHex(secret), vfHex(ctx), n, vfHex(g), vfHex(w))
			}
			if g, w := HkdfExpandLabel(h, secret, label, ctx, n), vfExpandLabel(h, secret, label, ctx, n); !bytes.Equal(g, w) {
				v.viol("expand-label", "HkdfExpandLabel(%v, %s, %x, %s, %d) = %s, want %s", h, vfHex(secret), label, vfHex(ctx), n, vfHex(g), vfHex(w))
			}
			if g, w := HkdfExtract(h, secret, ctx), vfMac(h, secret, ctx); !bytes.Equal(g, w) {
				v.viol("extract", "HkdfExtract(%v, %s, %s) = %s, want %s", h, vfHex(secret), vfHex(ctx), vfHex(g), vfHex(w))
			}
			if g, w := HkdfExtract(h, nil, ctx), vfMac(h, make([]byte, hs), ctx); !bytes.Equal(g, w) {
				v.viol("extract", "HkdfExtract(%v, nil, %s) = %s, want %s", h, vfHex(ctx), vfHex(g), vfHex(w))
			}
			if !bytes.Equal(secret, s0) || !bytes.Equal(ctx, c0) {
				v.viol("input-changed", "inputs changed")
			}
			p := CipherSuiteParams{Hash: h}
			if g, w := deriveSecret(p, secret, label, ctx), vfDerive(h, secret, label, ctx); !bytes.Equal(g, w) {
				v.viol("derive", "deriveSecret(%v, %s, %x, %s) = %s, want %s", h, vfHex(secret), label, vfHex(ctx), vfHex(g), vfHex(w))
			}
			if g, w := computeFinishedData(p, secret, ctx), vfMac(h, vfExpandLabel(h, secret, "finished", nil, hs), ctx); !bytes.Equal(g, w) {
				v.viol("finished", "computeFinishedData(%v, %s, %s) = %s, want %s", h, vfHex(secret), vfHex(ctx), vfHex(g), vfHex(w))
			}
			for id, p := range cipherSuiteMap {
				ks := makeTrafficKeys(p, secret)
				kl := map[CipherSuite]int{TLS_AES_128_GCM_SHA256: 16, TLS_AES_256_GCM_SHA384: 32}[id]
				if !bytes.Equal(ks.Keys["key"], vfExpandLabel(p.Hash, secret, "key", nil, kl)) || !bytes.Equal(ks.Keys["iv"], vfExpandLabel(p.Hash, secret, "iv", nil, 12)) {
					v.viol("traffic-keys", "makeTrafficKeys(%v, %s) = %x", id, vfHex(secret), ks.Keys)
				}
			}
		})
	}
	v.done()
}

// needs: vfcrypto
func TestVfC19(t *testing.T) {
	v := vfStart(t, "random exporter secrets, labels of 0..249 bytes, contexts of 0..300 bytes, lengths 0..255 blocks sampled, SHA-256 and SHA-384")
	states := []HandshakeState{nil, clientStateStart{}, clientStateWaitSH{}, clientStateWaitFinished{}, serverStateStart{}, serverStateWaitFlight2{}, serverStateWaitFinished{}}
	for i := 0; i < v.n(800) && !v.over(); i++ {
		h := vfHashes[1+v.rng.Intn(2)]
		hs := h.Size()
		secret := v.bytes(hs)
		label := string(v.bytes([]int{0, 1, 3, 12, 100, 249}[v.rng.Intn(6)]))
		ctx := v.bytes([]int{0, 1, 32, 48, 64, 255, 256, 300}[v.rng.Intn(8)])
		if v.rng.Intn(6) == 0 {
			ctx = nil
		}
		n := []int{0, 1, 16, 32, hs, hs + 1, 255 * hs, v.rng.Intn(255 * hs)}[v.rng.Intn(8)]
		v.run(fmt.Sprintf("hash=%v label=%d context=%d length=%d", h, len(label), len(ctx), n), func() {
			st := stateConnected{cryptoParams: CipherSuiteParams{Hash: h}, exporterSecret: secret}
			c := &Conn{config: &Config{}, hState: st, state: st}
			got, err := c.ComputeExporter(label, ctx, n)
			want := vfExpandLabel(h, vfDerive(h, secret, label, vfSum(h)), "exporter", vfSum(h, ctx), n)
			if err != nil || !bytes.Equal(got, want) {
				v.viol("value", "label %x context %s length %d: %s (error %v), want %s", label, vfHex(ctx), n, vfHex(got), err, vfHex(want))
			}
			for _, s := range states {
				c := &Conn{config: &Config{}, hState: s, state: st}
				if got, err := c.ComputeExporter(label, ctx, n); err == nil || got != nil {
					v.viol("early", "in state %T ComputeExporter gives %s, error %v", s, vfHex(got), err)
				}
			}
			c = &Conn{config: &Config{}, hState: st, state: stateConnected{cryptoParams: st.cryptoParams}}
			if got, err := c.ComputeExporter(label, ctx, n); err == nil || got != nil {
				v.viol("early", "without an exporter secret ComputeExporter gives %s, error %v", vfHex(got), err)
			}
		})
	}
	v.done()
}
