From 79f53f3fa391cc9eaa440dfb2ad10254dd65bea9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:09 +0000
Subject: [PATCH 01/38] fix: reject decrypted records that are all padding
 instead of panicking

---
 record-layer.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/record-layer.go b/record-layer.go
index ccb90bd..0653b42 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -285,7 +285,11 @@ func (r *DefaultRecordLayer) decrypt(seq uint64, header []byte, pt *TLSPlaintext
 
 	// Find the padding boundary
 	padLen := 0
-	for ; padLen < decryptLen+1 && out.fragment[decryptLen-padLen-1] == 0; padLen++ {
+	for ; padLen < decryptLen && out.fragment[decryptLen-padLen-1] == 0; padLen++ {
+	}
+	if padLen == decryptLen {
+		// All padding: there is no content type (RFC 8446, Section 5.4)
+		return nil, 0, DecryptError("tls.record.decrypt: No content type")
 	}
 
 	// Transfer the content type
-- 
2.43.0


From ed914acd8f7678b640638edd6775142cad3cd318 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:10 +0000
Subject: [PATCH 02/38] fix: decrypt a record with the cipher of the record's
 epoch, not the current one

---
 record-layer.go | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/record-layer.go b/record-layer.go
index 0653b42..057cd9c 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -262,22 +262,22 @@ func (r *DefaultRecordLayer) encrypt(cipher *cipherState, seq uint64, header []b
 	return ciphertext
 }
 
-func (r *DefaultRecordLayer) decrypt(seq uint64, header []byte, pt *TLSPlaintext) (*TLSPlaintext, int, error) {
+func (r *DefaultRecordLayer) decrypt(cipher *cipherState, seq uint64, header []byte, pt *TLSPlaintext) (*TLSPlaintext, int, error) {
 	assert(r.direction == DirectionRead)
 	logf(logTypeIO, "%s Decrypt seq=[%x]", r.label, seq)
-	if len(pt.fragment) < r.cipher.overhead() {
-		msg := fmt.Sprintf("tls.record.decrypt: Record too short [%d] < [%d]", len(pt.fragment), r.cipher.overhead())
+	if len(pt.fragment) < cipher.overhead() {
+		msg := fmt.Sprintf("tls.record.decrypt: Record too short [%d] < [%d]", len(pt.fragment), cipher.overhead())
 		return nil, 0, DecryptError(msg)
 	}
 
-	decryptLen := len(pt.fragment) - r.cipher.overhead()
+	decryptLen := len(pt.fragment) - cipher.overhead()
 	out := &TLSPlaintext{
 		contentType: pt.contentType,
 		fragment:    make([]byte, decryptLen),
 	}
 
 	// Decrypt
-	_, err := r.cipher.cipher.Open(out.fragment[:0], r.cipher.computeNonce(seq), pt.fragment, header)
+	_, err := cipher.cipher.Open(out.fragment[:0], cipher.computeNonce(seq), pt.fragment, header)
 	if err != nil {
 		logf(logTypeIO, "%s AEAD decryption failure [%x]", r.label, pt)
 		return nil, 0, DecryptError("tls.record.decrypt: AEAD decrypt failed")
@@ -434,7 +434,7 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 
 	if cipher.cipher != nil {
 		logf(logTypeIO, "%s RecordLayer.ReadRecord epoch=[%s] seq=[%x] [%d] ciphertext=[%x]", r.label, cipher.epoch.label(), seq, pt.contentType, pt.fragment)
-		pt, _, err = r.decrypt(seq, header, pt)
+		pt, _, err = r.decrypt(cipher, seq, header, pt)
 		if err != nil {
 			logf(logTypeIO, "%s Decryption failed", r.label)
 			return nil, err
-- 
2.43.0


From 7ca6b142aab29e97d91671acfbaea396380ad202 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:12:47 +0000
Subject: [PATCH 03/38] fix: accept full-size plaintext fragments when records
 are encrypted

---
 record-layer.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/record-layer.go b/record-layer.go
index 057cd9c..7601c20 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -12,6 +12,7 @@ const (
 	recordHeaderLenTLS  = 5       // record header length (TLS)
 	recordHeaderLenDTLS = 13      // record header length (DTLS)
 	maxFragmentLen      = 1 << 14 // max number of bytes in a record
+	maxCiphertextLen    = maxFragmentLen + 256
 	labelForKey         = "key"
 	labelForIV          = "iv"
 )
@@ -357,7 +358,7 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 
 	for err != nil {
 		if r.frame.needed() > 0 {
-			buf := make([]byte, r.frame.details.headerLen()+maxFragmentLen)
+			buf := make([]byte, r.frame.details.headerLen()+maxCiphertextLen)
 			n, err := r.conn.Read(buf)
 			if err != nil {
 				logf(logTypeIO, "%s Error reading, %v", r.label, err)
@@ -399,7 +400,7 @@ func (r *DefaultRecordLayer) nextRecord(allowOldEpoch bool) (*TLSPlaintext, erro
 	// Validate size < max
 	size := (int(header[len(header)-2]) << 8) + int(header[len(header)-1])
 
-	if size > maxFragmentLen+256 {
+	if size > maxCiphertextLen {
 		return nil, fmt.Errorf("tls.record: Ciphertext size too big")
 	}
 
@@ -499,7 +500,9 @@ func (r *DefaultRecordLayer) writeRecordWithPadding(pt *TLSPlaintext, cipher *ci
 		ciphertext = pt.fragment
 	}
 
-	if len(ciphertext) > maxFragmentLen {
+	// The limit is on the plaintext, so the AEAD expansion does not count
+	// towards it, but padding must not push the record over it.
+	if len(pt.fragment) > maxFragmentLen || (padLen > 0 && len(ciphertext) > maxFragmentLen) {
 		return fmt.Errorf("tls.record: Record size too big")
 	}
 
-- 
2.43.0


From 29d2f8b0400bad76bb7f7004c4694a582c3efcca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:24 +0000
Subject: [PATCH 04/38] fix: expired timers no longer drop or duplicate the
 other timers

---
 timer.go | 27 ++++++++++++++-------------
 1 file changed, 14 insertions(+), 13 deletions(-)

diff --git a/timer.go b/timer.go
index 0b7f7af..c559efe 100644
--- a/timer.go
+++ b/timer.go
@@ -56,21 +56,22 @@ func (ts *timerSet) start(label string, cb timerCb, delayMs uint32) *timer {
 // We should be able to do just one list manipulation, as long
 // as we're careful about how we handle inserts during callbacks.
 func (ts *timerSet) check(now time.Time) error {
-	for i, t := range ts.ts {
-		if now.After(t.deadline) {
-			ts.ts = append(ts.ts[:i], ts.ts[:i+1]...)
-			if t.cb != nil {
-				logf(logTypeHandshake, "Timer %s expired [%v > %v]", t.label, now, t.deadline)
-				cb := t.cb
-				t.cb = nil
-				err := cb()
-				if err != nil {
-					return err
-				}
-			}
-		} else {
+	// Callbacks may start timers, so look at the first one afresh each time.
+	for len(ts.ts) > 0 {
+		t := ts.ts[0]
+		if !now.After(t.deadline) {
 			break
 		}
+		ts.ts = ts.ts[1:]
+		if t.cb != nil {
+			logf(logTypeHandshake, "Timer %s expired [%v > %v]", t.label, now, t.deadline)
+			cb := t.cb
+			t.cb = nil
+			err := cb()
+			if err != nil {
+				return err
+			}
+		}
 	}
 	return nil
 }
-- 
2.43.0


From b40be99fdca34ef85ac97464f28adf5213cd83cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:24 +0000
Subject: [PATCH 05/38] fix: hash the exporter context instead of prefixing it
 to the empty hash

---
 conn.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index ccf8dc1..26d4079 100644
--- a/conn.go
+++ b/conn.go
@@ -885,7 +885,9 @@ func (c *Conn) ComputeExporter(label string, context []byte, keyLength int) ([]b
 	h0 := c.state.cryptoParams.Hash.New().Sum(nil)
 	tmpSecret := deriveSecret(c.state.cryptoParams, c.state.exporterSecret, label, h0)
 
-	hc := c.state.cryptoParams.Hash.New().Sum(context)
+	h := c.state.cryptoParams.Hash.New()
+	h.Write(context)
+	hc := h.Sum(nil)
 	return HkdfExpandLabel(c.state.cryptoParams.Hash, tmpSecret, "exporter", hc, keyLength), nil
 }
 
-- 
2.43.0


From 6087e3a32915549a9b461a3900744517d9698414 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:24 +0000
Subject: [PATCH 06/38] fix: send the alert level before the alert description

---
 conn.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/conn.go b/conn.go
index 26d4079..89e4e6f 100644
--- a/conn.go
+++ b/conn.go
@@ -521,7 +521,7 @@ func (c *Conn) sendAlert(err Alert) error {
 		level = AlertLevelError
 	}
 
-	buf := []byte{byte(err), byte(level)}
+	buf := []byte{byte(level), byte(err)}
 	c.out.WriteRecord(&TLSPlaintext{
 		contentType: RecordTypeAlert,
 		fragment:    buf,
-- 
2.43.0


From 9f93f96e7c00edb85109272dbabfbc485e7e0733 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:24 +0000
Subject: [PATCH 07/38] fix: Config.Clone keeps the record layer factory

---
 conn.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/conn.go b/conn.go
index 89e4e6f..6cb7a8c 100644
--- a/conn.go
+++ b/conn.go
@@ -169,6 +169,7 @@ func (c *Config) Clone() *Config {
 		PSKModes:              c.PSKModes,
 		NonBlocking:           c.NonBlocking,
 		UseDTLS:               c.UseDTLS,
+		RecordLayer:           c.RecordLayer,
 	}
 }
 
-- 
2.43.0


From a40e2b0e952dbd6cb7c8db85bf13e11e34e1d69f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:01:24 +0000
Subject: [PATCH 08/38] fix: check the length of an alert before logging it

---
 handshake-layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index ae11cb8..75ce66d 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -202,11 +202,11 @@ func (h *HandshakeLayer) readRecord() error {
 	}
 
 	if pt.contentType == RecordTypeAlert {
-		logf(logTypeIO, "read alert %v", pt.fragment[1])
 		if len(pt.fragment) < 2 {
 			h.sendAlert(AlertUnexpectedMessage)
 			return io.EOF
 		}
+		logf(logTypeIO, "read alert %v", pt.fragment[1])
 		return Alert(pt.fragment[1])
 	}
 
-- 
2.43.0


From 8c2ffcb4fb899b6aa7eeec55b5283503ed39a765 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:15 +0000
Subject: [PATCH 09/38] fix: drop every queued fragment of a delivered DTLS
 message

---
 handshake-layer.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index 75ce66d..d28b407 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -247,12 +247,9 @@ func (h *HandshakeLayer) sendAlert(err Alert) error {
 
 func (h *HandshakeLayer) noteMessageDelivered(seq uint32) {
 	h.msgSeq = seq + 1
-	var i int
-	var m *HandshakeMessage
-	for i, m = range h.queued {
-		if m.seq > seq {
-			break
-		}
+	i := 0
+	for i < len(h.queued) && h.queued[i].seq <= seq {
+		i++
 	}
 	h.queued = h.queued[i:]
 }
-- 
2.43.0


From 87684c71fde4198e26f32e72b1da1ef08185b395 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:15 +0000
Subject: [PATCH 10/38] fix: keep queued DTLS fragments sorted by message first

---
 handshake-layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index d28b407..425973f 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -277,7 +277,7 @@ func (h *HandshakeLayer) newFragmentReceived(hm *HandshakeMessage) (*HandshakeMe
 		if hm.seq < f.seq {
 			break
 		}
-		if hm.offset < f.offset {
+		if hm.seq == f.seq && hm.offset < f.offset {
 			break
 		}
 	}
-- 
2.43.0


From c6aa36b7d82f4eef46eacdcd83c0ac2e8fe4b801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:15 +0000
Subject: [PATCH 11/38] fix: refuse DTLS fragments that extend past the end of
 their message

---
 handshake-layer.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/handshake-layer.go b/handshake-layer.go
index 425973f..9ca828d 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -259,6 +259,10 @@ func (h *HandshakeLayer) newFragmentReceived(hm *HandshakeMessage) (*HandshakeMe
 		return nil, nil
 	}
 
+	if hm.offset+uint32(len(hm.body)) > hm.length {
+		return nil, fmt.Errorf("DTLS fragment extends past the end of its message")
+	}
+
 	// TODO(ekr@rtfm.com): Send an ACK immediately if we got something
 	// out of order.
 	h.ctx.receivedHandshakeMessage()
-- 
2.43.0


From bf42a0fb6a71d698cc78e3da9dd554f3ddafab0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:05:15 +0000
Subject: [PATCH 12/38] fix: remember a DTLS fragment under the record number
 it is sent with

---
 handshake-layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index 9ca828d..28113ed 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -475,7 +475,7 @@ func (h *HandshakeLayer) writeFragment(hm *HandshakeMessage, start int, room int
 			hm.seq,
 			start,
 			len(body),
-			h.conn.(*DefaultRecordLayer).cipher.combineSeq(true),
+			hm.cipher.combineSeq(true),
 			false,
 		})
 		err = h.conn.(*DefaultRecordLayer).writeRecordWithPadding(
-- 
2.43.0


From 8c8e7c8396f9ed815a119b0dfbc0c08c427456a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:46 +0000
Subject: [PATCH 13/38] fix: refuse key shares that are not points of the curve

---
 crypto.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto.go b/crypto.go
index 4fa59a2..fe94fc4 100644
--- a/crypto.go
+++ b/crypto.go
@@ -268,6 +268,9 @@ func keyAgreement(group NamedGroup, pub []byte, priv []byte) ([]byte, error) {
 
 		crv := curveFromNamedGroup(group)
 		pubX, pubY := elliptic.Unmarshal(crv, pub)
+		if pubX == nil {
+			return nil, fmt.Errorf("tls.keyagreement: Invalid public key")
+		}
 		x, _ := crv.Params().ScalarMult(pubX, pubY, priv)
 		xBytes := x.Bytes()
 
-- 
2.43.0


From 777b416b3dbdd7d19ea9db97c469f20a66e80124 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:46 +0000
Subject: [PATCH 14/38] fix: refuse finite-field key shares outside 1 < Y < p-1

---
 crypto.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/crypto.go b/crypto.go
index fe94fc4..a19e77e 100644
--- a/crypto.go
+++ b/crypto.go
@@ -289,6 +289,10 @@ func keyAgreement(group NamedGroup, pub []byte, priv []byte) ([]byte, error) {
 		p := primeFromNamedGroup(group)
 		x := big.NewInt(0).SetBytes(priv)
 		Y := big.NewInt(0).SetBytes(pub)
+		one := big.NewInt(1)
+		if Y.Cmp(one) <= 0 || Y.Cmp(big.NewInt(0).Sub(p, one)) >= 0 {
+			return nil, fmt.Errorf("tls.keyagreement: Invalid public key")
+		}
 		ZBytes := big.NewInt(0).Exp(Y, x, p).Bytes()
 
 		ret := make([]byte, numBytes)
-- 
2.43.0


From 7654467e050c454cdbe675065011f462f6580bc2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:46 +0000
Subject: [PATCH 15/38] fix: refuse X25519 key shares that give the all-zero
 secret

---
 crypto.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/crypto.go b/crypto.go
index a19e77e..1202ffb 100644
--- a/crypto.go
+++ b/crypto.go
@@ -309,6 +309,9 @@ func keyAgreement(group NamedGroup, pub []byte, priv []byte) ([]byte, error) {
 		copy(private[:], priv)
 		copy(public[:], pub)
 		curve25519.ScalarMult(&ret, &private, &public)
+		if ret == [32]byte{} {
+			return nil, fmt.Errorf("tls.keyagreement: Invalid public key")
+		}
 
 		return ret[:], nil
 
-- 
2.43.0


From 0a06d541622597ba359cbb3399c9bf65f19d0523 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:46 +0000
Subject: [PATCH 16/38] fix: client fails the handshake on an unusable server
 key share

---
 client-state-machine.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index d8464a1..1a0e574 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -468,7 +468,11 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		}
 
 		state.Params.UsingDH = true
-		dhSecret, _ = keyAgreement(sks.Group, sks.KeyExchange, priv)
+		dhSecret, err = keyAgreement(sks.Group, sks.KeyExchange, priv)
+		if err != nil {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Invalid key share [%v]", err)
+			return nil, nil, AlertIllegalParameter
+		}
 	}
 
 	suite := sh.CipherSuite
-- 
2.43.0


From fd214c7e5f491a9fc706527d53685fb8e0b0cd53 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:46 +0000
Subject: [PATCH 17/38] fix: client refuses a PSK selection it did not offer

---
 client-state-machine.go | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 1a0e574..159b317 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -454,7 +454,12 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		return nil, nil, AlertDecodeError
 	}
 
-	if foundExts[ExtensionTypePreSharedKey] && (serverPSK.SelectedIdentity == 0) {
+	if foundExts[ExtensionTypePreSharedKey] {
+		// We offer at most one PSK, so this has to be that one.
+		if state.earlySecret == nil || serverPSK.SelectedIdentity != 0 {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Server selected a PSK that was not offered")
+			return nil, nil, AlertIllegalParameter
+		}
 		state.Params.UsingPSK = true
 	}
 
-- 
2.43.0


From 8ce9c458315c1dccd2e74ef731fcdf45d5eb1035 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:46 +0000
Subject: [PATCH 18/38] fix: client refuses a cipher suite whose hash is not
 the PSK's

---
 client-state-machine.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index 159b317..6e2351e 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -504,6 +504,7 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		if params.Hash != state.earlyHash {
 			logf(logTypeCrypto, "Change of hash between early and normal init early=[%02x] suite=[%04x] hash=[%02x]",
 				state.earlyHash, suite, params.Hash)
+			return nil, nil, AlertIllegalParameter
 		}
 
 		earlySecret = state.earlySecret
-- 
2.43.0


From f4936da2989280347d6a2a0637b69fb6ea68ec7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:46 +0000
Subject: [PATCH 19/38] fix: client refuses an empty server certificate list
 instead of panicking

---
 client-state-machine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index 6e2351e..4a16121 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -828,6 +828,11 @@ func (state clientStateWaitCV) Next(hr handshakeMessageReader) (HandshakeState,
 	hcv := state.handshakeHash.Sum(nil)
 	logf(logTypeHandshake, "Handshake Hash to be verified: [%d] %x", len(hcv), hcv)
 
+	if len(state.serverCertificate.CertificateList) == 0 {
+		logf(logTypeHandshake, "[ClientStateWaitCV] Server sent no certificate")
+		return nil, nil, AlertDecodeError
+	}
+
 	serverPublicKey := state.serverCertificate.CertificateList[0].CertData.PublicKey
 	if err := certVerify.Verify(serverPublicKey, hcv); err != nil {
 		logf(logTypeHandshake, "[ClientStateWaitCV] Server signature failed to verify")
-- 
2.43.0


From a1641b9207da52e02fc01186173a67ab460f8ebe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:46 +0000
Subject: [PATCH 20/38] fix: client refuses a ServerHello with trailing data

---
 client-state-machine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 4a16121..525a591 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -334,7 +334,7 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 	}
 
 	sh := &ServerHelloBody{}
-	if _, err := sh.Unmarshal(hm.body); err != nil {
+	if err := safeUnmarshal(sh, hm.body); err != nil {
 		logf(logTypeHandshake, "[ClientStateWaitSH] unexpected message")
 		return nil, nil, AlertUnexpectedMessage
 	}
-- 
2.43.0


From e8edc8e84655df8fb2ce08934cb1088b892eafce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:46 +0000
Subject: [PATCH 21/38] fix: client refuses a second HelloRetryRequest

---
 client-state-machine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index 525a591..73635ef 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -377,6 +377,11 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		// This is actually HRR.
 		hrr := sh
 
+		if state.helloRetryRequest != nil {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Second HelloRetryRequest")
+			return nil, nil, AlertUnexpectedMessage
+		}
+
 		// Narrow the supported ciphersuites to the server-provided one
 		state.Config.CipherSuites = []CipherSuite{hrr.CipherSuite}
 
-- 
2.43.0


From 31a8dab04282a539ad56cc455fe4610616d01806 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:06:46 +0000
Subject: [PATCH 22/38] fix: client refuses early data acceptance it did not
 ask for

---
 client-state-machine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index 73635ef..cf82d1d 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -616,6 +616,10 @@ func (state clientStateWaitEE) Next(hr handshakeMessageReader) (HandshakeState,
 		return nil, nil, AlertDecodeError
 	}
 
+	if foundExts[ExtensionTypeEarlyData] && !state.Params.ClientSendingEarlyData {
+		logf(logTypeHandshake, "[ClientStateWaitEE] Server accepted early data that was not offered")
+		return nil, nil, AlertUnsupportedExtension
+	}
 	state.Params.UsingEarlyData = foundExts[ExtensionTypeEarlyData]
 
 	if foundExts[ExtensionTypeALPN] && len(serverALPN.Protocols) > 0 {
-- 
2.43.0


From 5d5d05efb83dc72a53e6619e942f1652e46c70eb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:35 +0000
Subject: [PATCH 23/38] fix: refuse a cookie instead of panicking when there is
 no cookie protector

---
 server-state-machine.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/server-state-machine.go b/server-state-machine.go
index e392a5d..be244cf 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -173,6 +173,10 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	var firstClientHello *HandshakeMessage
 	var initialCipherSuite CipherSuiteParams // the cipher suite that was negotiated when sending the HelloRetryRequest
 	if clientSentCookie {
+		if state.Config.CookieProtector == nil {
+			logf(logTypeHandshake, "[ServerStateStart] Client sent a cookie that was not requested")
+			return nil, nil, AlertIllegalParameter
+		}
 		plainCookie, err := state.Config.CookieProtector.DecodeToken(clientCookie.Cookie)
 		if err != nil {
 			logf(logTypeHandshake, fmt.Sprintf("[ServerStateStart] Error decoding token [%v]", err))
-- 
2.43.0


From 29d3277a5ae208ac4bccd68b27359077add9e361 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:07:35 +0000
Subject: [PATCH 24/38] fix: refuse a cookie that does not decode

---
 server-state-machine.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/server-state-machine.go b/server-state-machine.go
index be244cf..8647ee6 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -183,7 +183,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 			return nil, nil, AlertDecryptError
 		}
 		cookie := &cookie{}
-		if rb, err := syntax.Unmarshal(plainCookie, cookie); err != nil && rb != len(plainCookie) { // this should never happen
+		if rb, err := syntax.Unmarshal(plainCookie, cookie); err != nil || rb != len(plainCookie) { // this should never happen
 			logf(logTypeHandshake, fmt.Sprintf("[ServerStateStart] Error unmarshaling cookie [%v]", err))
 			return nil, nil, AlertInternalError
 		}
-- 
2.43.0


From 9973cfb427d535559db4b559177a66aaa2566ccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:34:19 +0000
Subject: [PATCH 25/38] fix: do not use a PSK without key exchange for modes
 the client did not offer

---
 negotiation.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/negotiation.go b/negotiation.go
index 7463953..4c7eaae 100644
--- a/negotiation.go
+++ b/negotiation.go
@@ -121,11 +121,11 @@ func PSKModeNegotiation(canDoDH, canDoPSK bool, modes []PSKKeyExchangeMode) (boo
 	dhRequired := true
 	for _, mode := range modes {
 		dhAllowed = dhAllowed || (mode == PSKModeDHEKE)
-		dhRequired = dhRequired && (mode == PSKModeDHEKE)
+		dhRequired = dhRequired && (mode != PSKModeKE)
 	}
 
-	// Use PSK if we can meet DH requirement and modes were provided
-	usingPSK := canDoPSK && (!dhRequired || canDoDH) && (len(modes) > 0)
+	// Use PSK if one of the modes provided is one we know and can meet
+	usingPSK := canDoPSK && (!dhRequired || (dhAllowed && canDoDH))
 
 	// Use DH if allowed
 	usingDH := canDoDH && (dhAllowed || !usingPSK)
-- 
2.43.0


From 83810ef30895244871b110c2b4b7471b4ecb7cd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:08 +0000
Subject: [PATCH 26/38] fix: go on to the client's flight after skipping
 rejected early data

---
 server-state-machine.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/server-state-machine.go b/server-state-machine.go
index 8647ee6..03bc0bd 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -759,9 +759,10 @@ func (state serverStateNegotiated) Next(_ handshakeMessageReader) (HandshakeStat
 		exporterSecret:               exporterSecret,
 	}
 	if state.Params.RejectedEarlyData {
+		afterEarlyData := nextState
 		nextState = serverStateReadPastEarlyData{
 			hsCtx: state.hsCtx,
-			next:  &nextState,
+			next:  &afterEarlyData,
 		}
 	}
 	return nextState, toSend, AlertNoAlert
-- 
2.43.0


From 01f84a5749df13fb6af4fd5e8a5ce5fddb1c4522 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:51 +0000
Subject: [PATCH 27/38] fix: set the initial record version of DTLS, so that
 writing before it is negotiated does not panic

---
 record-layer.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/record-layer.go b/record-layer.go
index 7601c20..d6e5593 100644
--- a/record-layer.go
+++ b/record-layer.go
@@ -157,6 +157,7 @@ func NewRecordLayerDTLS(conn io.ReadWriter, dir Direction) *DefaultRecordLayer {
 	r.readCiphers = make(map[Epoch]*cipherState, 0)
 	r.readCiphers[0] = r.cipher
 	r.datagram = true
+	r.version = tls10Version
 	return &r
 }
 
-- 
2.43.0


From 536eaa7c166efae258c1f6bc08241d4c40c61c34 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 28/38] fix: give the message_hash pseudo-message its length

---
 client-state-machine.go | 4 +++-
 server-state-machine.go | 1 +
 2 files changed, 4 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index cf82d1d..408f0fa 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -413,9 +413,11 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		params := cipherSuiteMap[hrr.CipherSuite]
 		h := params.Hash.New()
 		h.Write(state.clientHello.Marshal())
+		chHash := h.Sum(nil)
 		firstClientHello := &HandshakeMessage{
 			msgType: HandshakeTypeMessageHash,
-			body:    h.Sum(nil),
+			length:  uint32(len(chHash)),
+			body:    chHash,
 		}
 
 		state.hsCtx.receivedEndOfFlight()
diff --git a/server-state-machine.go b/server-state-machine.go
index 03bc0bd..78c5833 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -190,6 +190,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		// restore the hash of initial ClientHello from the cookie
 		firstClientHello = &HandshakeMessage{
 			msgType: HandshakeTypeMessageHash,
+			length:  uint32(len(cookie.ClientHelloHash)),
 			body:    cookie.ClientHelloHash,
 		}
 		// have the application validate its part of the cookie
-- 
2.43.0


From 86c667a396afb8017c6226ea929b130cb999795b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:17:10 +0000
Subject: [PATCH 29/38] fix: compute PSK binders over the whole transcript
 after a HelloRetryRequest

---
 client-state-machine.go | 2 ++
 server-state-machine.go | 8 ++++----
 2 files changed, 6 insertions(+), 4 deletions(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index 408f0fa..d664b9a 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -240,6 +240,8 @@ func (state clientStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		}
 
 		truncHash := params.Hash.New()
+		truncHash.Write(state.firstClientHello.Marshal())
+		truncHash.Write(state.helloRetryRequest.Marshal())
 		truncHash.Write(trunc)
 
 		binder := computeFinishedData(params, binderKey, truncHash.Sum(nil))
diff --git a/server-state-machine.go b/server-state-machine.go
index 78c5833..a6a74a6 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -219,18 +219,19 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 	var selectedPSK int
 	var params CipherSuiteParams
 	var psk *PreSharedKey
+	var helloRetryRequest *HandshakeMessage
 	if len(clientPSK.Identities) > 0 {
 		contextBase := []byte{}
 		if clientSentCookie {
 			contextBase = append(contextBase, firstClientHello.Marshal()...)
 			// fill in the cookie sent by the client. Needed to calculate the correct hash
 			cookieExt := &CookieExtension{Cookie: clientCookie.Cookie}
-			hrr, err := state.generateHRR(params.Suite,
+			helloRetryRequest, err = state.generateHRR(initialCipherSuite.Suite,
 				ch.LegacySessionID, cookieExt)
 			if err != nil {
 				return nil, nil, AlertInternalError
 			}
-			contextBase = append(contextBase, hrr.Marshal()...)
+			contextBase = append(contextBase, helloRetryRequest.Marshal()...)
 		}
 		chTrunc, err := ch.Truncated()
 		if err != nil {
@@ -260,7 +261,6 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		return nil, nil, AlertInternalError
 	}
 
-	var helloRetryRequest *HandshakeMessage
 	if state.Config.RequireCookie {
 		// Send a cookie if required
 		// NB: Need to do this here because it's after ciphersuite selection, which
@@ -309,7 +309,7 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 		// 2. We need to validate a cookie. Then we need its hash
 		// Ignoring errors because everything here is newly constructed, so there
 		// shouldn't be marshal errors
-		if shouldSendHRR || clientSentCookie {
+		if helloRetryRequest == nil && (shouldSendHRR || clientSentCookie) {
 			helloRetryRequest, err = state.generateHRR(connParams.CipherSuite,
 				ch.LegacySessionID, cookieExt)
 			if err != nil {
-- 
2.43.0


From a9770fdcff1e214d6974bb96deb5ebd18216c86e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:11 +0000
Subject: [PATCH 30/38] fix: rebuild the HelloRetryRequest with its own DTLS
 sequence number

---
 server-state-machine.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/server-state-machine.go b/server-state-machine.go
index a6a74a6..635d2fd 100644
--- a/server-state-machine.go
+++ b/server-state-machine.go
@@ -322,6 +322,9 @@ func (state serverStateStart) Next(hr handshakeMessageReader) (HandshakeState, [
 				QueueHandshakeMessage{helloRetryRequest},
 				SendQueuedHandshake{},
 			}
+			// This message is rebuilt, with the same sequence number, when the
+			// client returns the cookie.
+			state.hsCtx.hOut.msgSeq = helloRetryRequest.seq
 			logf(logTypeHandshake, "[ServerStateStart] -> [ServerStateStart]")
 			return state, toSend, AlertStatelessRetry
 		}
-- 
2.43.0


From eab8b043c5185b46ef3ba23ba6db6604658b3bce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 31/38] fix: refuse a ServerHello that selects neither a PSK
 nor a key share

---
 client-state-machine.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index d664b9a..463712d 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -489,6 +489,11 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		}
 	}
 
+	if !state.Params.UsingDH && !state.Params.UsingPSK {
+		logf(logTypeHandshake, "[ClientStateWaitSH] Server selected neither a PSK nor a key share")
+		return nil, nil, AlertMissingExtension
+	}
+
 	suite := sh.CipherSuite
 	state.Params.CipherSuite = suite
 
-- 
2.43.0


From 179232a784c1751b107664def84a13df6df01343 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 32/38] fix: refuse a PSK key exchange mode that the client did
 not offer

---
 client-state-machine.go | 15 +++++++++++++++
 1 file changed, 15 insertions(+)

diff --git a/client-state-machine.go b/client-state-machine.go
index 463712d..f0a1ecc 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -494,6 +494,21 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 		return nil, nil, AlertMissingExtension
 	}
 
+	if state.Params.UsingPSK {
+		mode := PSKModeKE
+		if state.Params.UsingDH {
+			mode = PSKModeDHEKE
+		}
+		offered := false
+		for _, m := range state.Config.PSKModes {
+			offered = offered || m == mode
+		}
+		if !offered {
+			logf(logTypeHandshake, "[ClientStateWaitSH] Server selected a PSK mode that was not offered")
+			return nil, nil, AlertIllegalParameter
+		}
+	}
+
 	suite := sh.CipherSuite
 	state.Params.CipherSuite = suite
 
-- 
2.43.0


From 1270d24c9091b7674225ac13c201624f1e5e61f9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 33/38] fix: do not change the shared Config when a server
 sends HelloRetryRequest

---
 client-state-machine.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/client-state-machine.go b/client-state-machine.go
index f0a1ecc..8ec1cea 100644
--- a/client-state-machine.go
+++ b/client-state-machine.go
@@ -384,7 +384,9 @@ func (state clientStateWaitSH) Next(hr handshakeMessageReader) (HandshakeState,
 			return nil, nil, AlertUnexpectedMessage
 		}
 
-		// Narrow the supported ciphersuites to the server-provided one
+		// Narrow the supported ciphersuites to the server-provided one, for this
+		// connection only
+		state.Config = state.Config.Clone()
 		state.Config.CipherSuites = []CipherSuite{hrr.CipherSuite}
 
 		// Handle external extensions.
-- 
2.43.0


From 05fba78b46151b7172f0a649f5af7cf057412e49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:18:40 +0000
Subject: [PATCH 34/38] fix: keep the legacy session ID when marshaling a
 ClientHello

---
 handshake-messages.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/handshake-messages.go b/handshake-messages.go
index e8e3aef..54e66d7 100644
--- a/handshake-messages.go
+++ b/handshake-messages.go
@@ -60,7 +60,7 @@ func (ch ClientHelloBody) Marshal() ([]byte, error) {
 		return syntax.Marshal(clientHelloBodyInnerTLS{
 			LegacyVersion:            ch.LegacyVersion,
 			Random:                   ch.Random,
-			LegacySessionID:          []byte{},
+			LegacySessionID:          ch.LegacySessionID,
 			CipherSuites:             ch.CipherSuites,
 			LegacyCompressionMethods: []byte{0},
 			Extensions:               ch.Extensions,
@@ -69,7 +69,7 @@ func (ch ClientHelloBody) Marshal() ([]byte, error) {
 		return syntax.Marshal(clientHelloBodyInnerDTLS{
 			LegacyVersion:            ch.LegacyVersion,
 			Random:                   ch.Random,
-			LegacySessionID:          []byte{},
+			LegacySessionID:          ch.LegacySessionID,
 			CipherSuites:             ch.CipherSuites,
 			LegacyCompressionMethods: []byte{0},
 			Extensions:               ch.Extensions,
-- 
2.43.0


From 197eecd378497e3d6b6c26b46a7764105744457e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:54:48 +0000
Subject: [PATCH 35/38] fix: match the curve of an ECDSA key when selecting a
 signature scheme

---
 crypto.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/crypto.go b/crypto.go
index 1202ffb..7ac50ba 100644
--- a/crypto.go
+++ b/crypto.go
@@ -187,7 +187,9 @@ func schemeValidForKey(alg SignatureScheme, key crypto.Signer) bool {
 	case *rsa.PrivateKey:
 		return sigType == signatureAlgorithmRSA_PKCS1 || sigType == signatureAlgorithmRSA_PSS
 	case *ecdsa.PrivateKey:
-		return sigType == signatureAlgorithmECDSA
+		// In TLS 1.3 an ECDSA scheme fixes the curve as well as the hash
+		return sigType == signatureAlgorithmECDSA &&
+			curveMap[alg] == namedGroupFromECDSAKey(key.Public().(*ecdsa.PublicKey))
 	default:
 		return false
 	}
-- 
2.43.0


From 525de5a6e300bf8ab2a0445ed370373f559f7237 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:32:16 +0000
Subject: [PATCH 36/38] fix: use the RFC 8446 label when updating traffic
 secrets

---
 crypto.go        | 1 +
 state-machine.go | 8 ++++----
 2 files changed, 5 insertions(+), 4 deletions(-)

diff --git a/crypto.go b/crypto.go
index 7ac50ba..f433d18 100644
--- a/crypto.go
+++ b/crypto.go
@@ -543,6 +543,7 @@ const (
 	labelServerHandshakeTrafficSecret   = "s hs traffic"
 	labelClientApplicationTrafficSecret = "c ap traffic"
 	labelServerApplicationTrafficSecret = "s ap traffic"
+	labelTrafficUpdate                  = "traffic upd"
 	labelExporterSecret                 = "exp master"
 	labelResumptionSecret               = "res master"
 	labelDerived                        = "derived"
diff --git a/state-machine.go b/state-machine.go
index f0635c8..2d7ba7f 100644
--- a/state-machine.go
+++ b/state-machine.go
@@ -114,11 +114,11 @@ func (state *stateConnected) KeyUpdate(request KeyUpdateRequest) ([]HandshakeAct
 	var trafficKeys KeySet
 	if state.isClient {
 		state.clientTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.clientTrafficSecret,
-			labelClientApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+			labelTrafficUpdate, []byte{}, state.cryptoParams.Hash.Size())
 		trafficKeys = makeTrafficKeys(state.cryptoParams, state.clientTrafficSecret)
 	} else {
 		state.serverTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.serverTrafficSecret,
-			labelServerApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+			labelTrafficUpdate, []byte{}, state.cryptoParams.Hash.Size())
 		trafficKeys = makeTrafficKeys(state.cryptoParams, state.serverTrafficSecret)
 	}
 
@@ -199,11 +199,11 @@ func (state stateConnected) ProcessMessage(hm *HandshakeMessage) (HandshakeState
 		var trafficKeys KeySet
 		if !state.isClient {
 			state.clientTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.clientTrafficSecret,
-				labelClientApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+				labelTrafficUpdate, []byte{}, state.cryptoParams.Hash.Size())
 			trafficKeys = makeTrafficKeys(state.cryptoParams, state.clientTrafficSecret)
 		} else {
 			state.serverTrafficSecret = HkdfExpandLabel(state.cryptoParams.Hash, state.serverTrafficSecret,
-				labelServerApplicationTrafficSecret, []byte{}, state.cryptoParams.Hash.Size())
+				labelTrafficUpdate, []byte{}, state.cryptoParams.Hash.Size())
 			trafficKeys = makeTrafficKeys(state.cryptoParams, state.serverTrafficSecret)
 		}
 
-- 
2.43.0


From 73daad480e9e5b5f3f5b48bc3a215fac403f431c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:40 +0000
Subject: [PATCH 37/38] fix: refuse handshake messages whose length does not
 fit 24 bits

---
 handshake-layer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/handshake-layer.go b/handshake-layer.go
index 28113ed..0d376b7 100644
--- a/handshake-layer.go
+++ b/handshake-layer.go
@@ -9,7 +9,7 @@ import (
 const (
 	handshakeHeaderLenTLS  = 4       // handshake message header length
 	handshakeHeaderLenDTLS = 12      // handshake message header length
-	maxHandshakeMessageLen = 1 << 24 // max handshake message length
+	maxHandshakeMessageLen = 1<<24 - 1 // max handshake message length
 )
 
 // struct {
-- 
2.43.0


From b10df9406ca91224634d0c46df5edf4855d22cac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:20:40 +0000
Subject: [PATCH 38/38] fix: refuse an optional field whose flag byte is
 missing

---
 syntax/decode.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/syntax/decode.go b/syntax/decode.go
index 7cedc3c..2a80f35 100644
--- a/syntax/decode.go
+++ b/syntax/decode.go
@@ -412,6 +412,9 @@ func (pd *pointerDecoder) decode(d *decodeState, v reflect.Value, opts fieldOpti
 	if opts.optional {
 		readBase = 1
 		flag := d.Next(1)
+		if len(flag) != 1 {
+			panic(fmt.Errorf("Insufficient data to read optional flag"))
+		}
 		switch flag[0] {
 		case optionalFlagAbsent:
 			indir := v.Elem()
-- 
2.43.0

