#!/usr/bin/env python3
# Generates properties.jsonl (kept in one readable place).
import json,os
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),
      why_tests_cant=why,anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=a,meaning=b,where=c) for a,b,c in state]
    assert len(title)<=80,(id,len(title))
    P.append(d)
I="inputs";H="histories";C="configurations"
p("C01","Record write: exact header, unique nonce, sealed fragment",
 "Every record written is the correct header (outer type, version, sequence/epoch for DTLS, length of what follows) followed by the fragment itself in the clear, or, under a key, by the AEAD sealing of fragment, true content type and zero padding with that header as associated data and the key's IV XORed with the record number as nonce. The record number under a key starts at 0, grows by exactly one per record, and never wraps or repeats (the writer stops instead). Any fragment of up to 2^14 bytes can be sent, and a larger one is refused without writing anything.",
 [I,H],"every fragment, padding length, content type, key, IV, version, epoch and sequence number; every number of previous writes",
 "The tests compare three fixed vectors and one write per cipher; nonce uniqueness and the size limits quantify over all sequence numbers and lengths.",
 ["record-layer.go"],[("record writing","writeRecordWithPadding"),("sealing","encrypt, computeNonce"),("counter","incrementSequenceNumber, combineSeq")],["bytes handed to the transport","sequence counter"],
 [("sequence number","records protected so far under the current key","record-layer.go cipherState.seq")])
p("C02","Record read: only authentic records, exact inverse of write",
 "A record delivered from under a key is the AEAD opening of exactly the received body, with the received header as associated data and the nonce for its record number under the key of its epoch, stripped of zero padding and of the final non-zero byte, which becomes its content type; a record with no non-zero byte, one that fails to open, or one over the size limit is rejected. A rejected record changes neither the read sequence number nor what later reads return, and an accepted one advances it by exactly one. A record obtained by peeking is the one returned by the next read.",
 [I,H],"every byte sequence received, every padding, key, epoch, sequence number and read history",
 "Tests open a handful of well-formed records plus a few corruptions; they contain no record of only zeros and no old-epoch record.",
 ["record-layer.go"],[("opening","decrypt"),("record parsing","nextRecord"),("peek","PeekRecordType, ReadRecord")],["returned record","returned error","sequence counter"],
 [("cached record","record already read and not yet consumed","record-layer.go DefaultRecordLayer.cachedRecord")])
p("C03","Framing does not depend on how bytes arrive",
 "The frame reader yields exactly the frames (header and declared-length body) of the byte stream it has been given, in order, with no byte lost, duplicated or altered, however the stream was cut into chunks. It reports that it would block exactly when the bytes given so far do not complete a frame, and the number of bytes it says it still needs is never zero at that point.",
 [I,H],"every byte stream, every division into chunks, every interleaving of feeding and extracting",
 "Tests feed one fixed frame in three or four chunkings.",
 ["frame-reader.go","record-layer.go","handshake-layer.go"],[("chunk reassembly","addChunk, process, needed"),("declared length","frameLen")],["returned header and body","needed()"],
 [("buffered bytes","received but not yet returned","frame-reader.go frameReader.remainder/working/writeOffset")])
p("C04","No peer input crashes the endpoint",
 "No sequence of bytes received from the network can make an endpoint panic: every record, alert, acknowledgement, handshake message, extension and handshake fragment either is processed or is refused with an error or alert. This covers index and slice bounds, nil dereferences, failed type assertions, negative allocations and explicit panics, before and after keys are established.",
 [I],"every value of every byte received, at every point of the protocol covered by the functions under contract",
 "A crash needs one specific malformed input per code path; the suite has only a few malformed vectors, and the repository's fuzz target covers one decoder.",
 ["record-layer.go","frame-reader.go","handshake-layer.go","dtls.go","conn.go","handshake-messages.go","extensions.go","syntax/decode.go","crypto.go","client-state-machine.go","server-state-machine.go","negotiation.go"],
 [("record layer","nextRecord, decrypt"),("handshake layer","readRecord, ReadMessage, newFragmentReceived, checkMessageAvailable"),("decoders","Unmarshal methods"),("state machines","Next methods")],["panic"])
p("C05","Presentation-language integers and lengths are exact",
 "The serialisation primitives are mutually inverse: a fixed-width or variable-length integer encodes big-endian to its canonical form and decodes to the same value, consuming exactly the bytes it was encoded to. A vector is encoded as its byte length (in the declared header size) followed by its elements, a length outside the declared minimum, maximum or header capacity is refused when encoding and when decoding, and decoding never reads beyond, or reports consuming, bytes that are not there. Truncated or malformed input yields an error, not a crash.",
 [I],"every integer value, vector length, header size, declared bound and input byte string",
 "Tests use a few sample structures; boundary lengths and all truncations are not enumerated.",
 ["syntax/encode.go","syntax/decode.go","handshake-layer.go"],[("integers","writeUint, writeVarint, readVarint, decodeUintFromBuffer, encodeUint, decodeUint"),("vectors","encodeLength, decodeLength, sliceEncoder, sliceDecoder"),("optional","pointerEncoder, pointerDecoder")],["encoded bytes","decoded value","bytes consumed","error"])
p("C06","Handshake messages and extensions encode and decode faithfully",
 "For every handshake message and extension type, decoding an encoding returns the original value and consumes exactly the encoding, with every field (including the legacy session identifier) carried. A message body is accepted only if decoding consumes all of it. The transcript form of a handshake message is its type, its 24-bit body length (plus sequence, offset and fragment length for DTLS) and its body, and the part of a ClientHello covered by a PSK binder is its encoding minus exactly the encoded binder list.",
 [I],"every message and extension value within its wire limits, every message body",
 "Tests encode and decode one sample value per message and contain none with a non-empty session identifier.",
 ["handshake-messages.go","extensions.go","handshake-layer.go","syntax/encode.go","syntax/decode.go"],[("message codecs","Marshal/Unmarshal methods"),("trailing data","safeUnmarshal"),("transcript form","HandshakeMessage.Marshal"),("binder prefix","ClientHelloBody.Truncated")],["encoded bytes","decoded value","error"])
p("C07","Extension lists keep one value per type and find it",
 "Adding an extension to a list replaces the data of the first entry of its type in place if there is one and otherwise appends exactly one entry, leaving every other entry and the order unchanged. Looking an extension up reports it as found exactly when an entry of its type exists, decodes the first such entry entirely, and parsing several fails on a duplicate of a requested type; a failure to encode leaves the list unchanged.",
 [I,H],"every list and every extension, including lists with several entries and repeated types",
 "Tests use lists of one or two entries.",
 ["extensions.go"],[("add or replace","ExtensionList.Add"),("lookup","ExtensionList.Find, ExtensionList.Parse")],["resulting list","found flag","error"])
p("C08","Key derivation follows HKDF and the TLS 1.3 label format",
 "For every hash, secret, label, context and output length, extraction is HMAC(salt, input) with a hash-length zero salt when none is given, and expansion is the first L bytes of the RFC 5869 chain T(1), T(2), ... under the TLS 1.3 label structure (16-bit length, length-prefixed 'tls13 ' label, length-prefixed context). Finished values are the HMAC of the transcript hash under the 'finished' key, and traffic keys are the 'key' and 'iv' expansions of the suite's lengths.",
 [I],"every secret, salt, label of up to 249 bytes, context of up to 255 bytes and output length up to 255 hash lengths",
 "Tests compare fixed vectors, none needing more than a few blocks.",
 ["crypto.go"],[("HKDF","HkdfExtract, HkdfExpand, hkdfEncodeLabel, HkdfExpandLabel"),("derived values","deriveSecret, computeFinishedData, makeTrafficKeys")],["returned bytes"])
p("C09","Both sides derive the same secrets from the same transcript",
 "Given the same pre-shared key, (EC)DHE result and handshake transcript, client and server install identical handshake and application traffic keys in each direction at the same point of the transcript, and end with identical exporter and resumption secrets, each being the TLS 1.3 key-schedule value for that transcript. A change in any message, the shared key or the (EC)DHE input on one side enters the derivation.",
 [I,H],"every transcript, PSK, (EC)DHE secret, cipher suite and combination of negotiated modes",
 "Tests run a dozen loopback handshakes and compare a few secrets; a wrong input that both sides share, or a mode not exercised, is not seen.",
 ["client-state-machine.go","server-state-machine.go","crypto.go"],[("client schedule","clientStateWaitSH.Next, clientStateWaitFinished.Next"),("server schedule","serverStateNegotiated.Next, serverStateWaitFinished.Next")],["installed key sets","exporter and resumption secrets"])
p("C10","Client completes only with an authenticated server",
 "A client reaches the connected state only after verifying the server's Finished over the transcript and either having offered a pre-shared key that the server selected, or having received a non-empty certificate list whose first certificate's key verifies the CertificateVerify signature over the transcript hash, whose chain verifies for the configured name and roots unless verification is disabled, and which the application's callback (if any) accepted. Any failure of one of these ends the handshake with an alert and installs no application keys.",
 [I,H],"every sequence of server messages, every certificate list, signature and configuration",
 "Tests try a few failing servers; a bypass through an unsolicited extension, an empty list or an ignored error needs a specific hostile message.",
 ["client-state-machine.go","handshake-messages.go","crypto.go"],[("PSK acceptance","clientStateWaitSH.Next"),("certificate checks","clientStateWaitCV.Next"),("Finished check","clientStateWaitFinished.Next")],["next state","alert"])
p("C11","Server completes only with a verified client Finished and signature",
 "A server reaches the connected state only after the client's Finished equals the HMAC over the transcript under the client handshake secret. When it asked for a certificate and the client presented one, it additionally verified the client's CertificateVerify signature over the transcript hash with the key of the first presented certificate and had the application's callback (if any) accept it, and it reports exactly the presented chain; otherwise it reports no peer certificate.",
 [I,H],"every sequence of client messages, every certificate list and signature",
 "Tests cover one good and one bad client certificate.",
 ["server-state-machine.go","handshake-messages.go","crypto.go"],[("client certificate","serverStateWaitCert.Next, serverStateWaitCV.Next"),("Finished check","serverStateWaitFinished.Next")],["next state","alert","reported peer certificates"])
p("C12","Handshake messages are accepted only in protocol order",
 "In each handshake state an endpoint accepts only the message types TLS 1.3 allows there and answers any other with an alert and no actions; each accepted message leads only to the protocol's successor states, and the connected state is entered only from the wait-for-Finished states. Keys for each epoch are installed exactly once, in the direction and at the transition the protocol prescribes.",
 [I,H],"every message type in every state, every configuration",
 "Tests drive the valid paths and a few unexpected messages, not every (state, message) pair.",
 ["client-state-machine.go","server-state-machine.go","state-machine.go"],[("transitions","Next methods of the handshake states"),("post-handshake","stateConnected.ProcessMessage")],["next state","actions","alert"])
p("C13","A server uses a PSK only with a valid binder and fresh ticket",
 "A server selects a pre-shared key only if it is the first offered identity it knows, the binder at the same index equals the Finished-style HMAC of the binder transcript under that key's external or resumption binder key, and, for a resumption key, the age the client reports agrees with the age the server measures within the tolerance. A wrong binder or age on a known identity fails the handshake rather than falling back.",
 [I,C],"every list of identities and binders, every cache content, every reported and measured age",
 "Tests use one or two identities with one ticket age.",
 ["negotiation.go"],[("PSK selection","PSKNegotiation")],["selected index and key","error"])
p("C14","Negotiated parameters are ones both sides offered",
 "The version, cipher suite, key-exchange group, certificate, signature scheme and application protocol selected are each a member of both the peer's offer and the local configuration, the first acceptable one in the peer's preference order, and negotiation fails exactly when there is none. A PSK fixes the cipher suite and, for ALPN, the protocol; PSK without key exchange happens only if the client allowed it, and early data is used only with a PSK, an offer and local permission.",
 [I,C],"every pair of offered and supported lists, every PSK, mode list and flag combination",
 "Tests check a few two-element lists; the claim is over all lists and orders.",
 ["negotiation.go","server-state-machine.go"],[("selection","VersionNegotiation, DHNegotiation, PSKModeNegotiation, CipherSuiteNegotiation, ALPNNegotiation, CertificateSelection, EarlyDataNegotiation")],["selected values","error"])
p("C15","Cookies are protected and bind the retried handshake",
 "A cookie token decodes to exactly the data it was made from and only if it is an authentic token of the same protector; a token shorter than its nonce or not authentic is refused. A server continues after a cookie only if the token opened, the application accepted its part, and the cipher suite selected equals the one recorded in it, and it then uses the recorded first-ClientHello hash in the transcript.",
 [I],"every token, cookie content and second ClientHello",
 "Tests round-trip one token and corrupt one byte.",
 ["cookie-protector.go","server-state-machine.go"],[("token protection","DefaultCookieProtector.NewToken, DecodeToken"),("cookie processing","serverStateStart.Next")],["token","decoded data","error or alert"])
p("C16","Application data is delivered byte for byte",
 "Writing a buffer of any length sends exactly its bytes, in order, in records of at most 2^14 bytes, and reports how many were sent (all of them when no error occurs). Reading returns a prefix of the received but unread application data, as much as fits, and leaves the rest for the next read; alerts, handshake messages and acknowledgements never appear in or remove application data.",
 [I,H],"every buffer length and content, every sequence of reads and writes and of records received",
 "Tests send short messages of a few bytes; record-boundary sizes and partial reads in every combination are not tried.",
 ["conn.go"],[("write fragmentation","Conn.Write"),("read buffering","Conn.Read, readPartial, consumeRecord")],["records written","bytes returned"],
 [("read buffer","received and unread application data","conn.go Conn.readBuffer")])
p("C17","Key update replaces exactly the sender's keys on both sides",
 "When one side sends a key update it moves its own sending secret one step forward (the RFC 8446 'traffic upd' derivation) and installs the resulting sending keys after the message; the receiver moves its copy of that same secret by the same step and installs the resulting receiving keys, so both again agree. The other direction's secret is unchanged unless an update was requested, in which case exactly one update that requests nothing is sent back.",
 [I,H],"every traffic secret, role, suite, request value and number of successive updates",
 "Tests perform one or two updates in each direction.",
 ["state-machine.go","conn.go"],[("send","stateConnected.KeyUpdate"),("receive","stateConnected.ProcessMessage")],["traffic secrets","actions"])
p("C18","A ticket gives both sides the same resumption key",
 "For every ticket the server issues, the key it stores under the ticket and the key the client stores on receiving it are the same function of the resumption secret and the ticket nonce, for the same cipher suite, application protocol, identity and age-add value. The ticket carries fresh randomness of the configured length, and the stored lifetime is the one sent.",
 [I],"every resumption secret, nonce, ticket length and lifetime",
 "Tests resume once with the default lengths.",
 ["state-machine.go","handshake-messages.go"],[("issue","stateConnected.NewSessionTicket, NewSessionTicket"),("receive","stateConnected.ProcessMessage")],["stored PSK","ticket message"])
p("C19","Exported keying material matches RFC 8446",
 "For every label, context and length, the exported value is HKDF-Expand-Label of Derive-Secret(exporter secret, label, empty hash) with label 'exporter' and the hash of the context. It depends on every byte of the label and context, and is refused before the handshake completes.",
 [I],"every label, context and output length",
 "The tests only compare the two sides with each other, so a computation wrong in the same way on both passes.",
 ["conn.go","crypto.go"],[("exporter","Conn.ComputeExporter")],["returned bytes"])
p("C20","DTLS handshake messages are fragmented and reassembled exactly",
 "A handshake message larger than the room is sent as fragments that cover its body exactly, in order and without overlap, each carrying the message's type, total length and sequence number and its own offset and length. A receiver delivers messages in sequence order, each exactly once and only when every byte of its body has been received; the delivered body has the bytes received at each position and the declared length, whatever the order, overlap or duplication of the fragments, and inconsistent fragments are refused.",
 [I,H],"every body length, fragment size, and every order, overlap and repetition of received fragments",
 "Tests deliver a couple of two-fragment messages in two orders.",
 ["handshake-layer.go"],[("fragmentation","writeFragment, WriteMessage"),("reassembly","newFragmentReceived, checkMessageAvailable, noteMessageDelivered")],["records written","messages delivered"],
 [("fragment queue","received fragments of undelivered messages, in order","handshake-layer.go HandshakeLayer.queued")])
p("C21","DTLS acknowledges what arrived and resends what was not acknowledged",
 "A sent fragment counts as acknowledged only if a record number under which it, or a fragment of the same message covering it, was actually sent has been acknowledged by the peer; on retransmission every fragment of the flight not so acknowledged is sent again and no other. An acknowledgement lists record numbers actually received, in order.",
 [I,H],"every sequence of sends, acknowledgements and retransmissions, across epochs",
 "Tests drop one record of one flight.",
 ["dtls.go","handshake-layer.go"],[("bookkeeping","writeFragment, fragmentAcked, processAck"),("ack","sendAck")],["acknowledged flags","records written"])
p("C22","Timers fire once, in order, and never take others with them",
 "Starting a timer leaves the set sorted by deadline with every existing timer still in it; checking the set runs the callback of each live timer whose deadline has passed exactly once and removes exactly those, stopping at the first error. Cancelling or looking up a label affects only timers with that label, and the reported remaining time is that of the earliest live timer.",
 [I,H],"every number of timers, deadlines, check times and start/cancel/check sequences",
 "Tests use at most two timers and check them one at a time.",
 ["timer.go"],[("timer set","timerSet.start, check, cancel, getTimer, remaining")],["callbacks run","timers remaining"])
p("C23","Alerts are sent as level then description",
 "Every alert an endpoint sends is a two-byte record fragment of alert type whose first byte is the level (warning for close-notify and no-renegotiation, fatal otherwise) and whose second byte is the alert's description, so the peer decodes the same alert. A received alert is reported with its description, and a malformed one is refused.",
 [I],"every alert value, in handshake and connected states",
 "No test looks at the bytes of a sent alert.",
 ["conn.go","handshake-layer.go"],[("sending","Conn.sendAlert, HandshakeLayer.sendAlert"),("receiving","Conn.consumeRecord, HandshakeLayer.readRecord")],["record fragment written","returned error"])
p("C24","Signatures use only permitted schemes that fit the key",
 "Signing and verifying never use SHA-1, use the hash of the named scheme, use PSS for RSA unless PKCS#1 is explicitly enabled, and refuse a scheme whose type does not match the key or whose curve is not the key's curve. The signed content is 64 spaces, the TLS 1.3 context string, a zero byte and the transcript hash; verification succeeds only when the underlying primitive accepts exactly that content and the given signature, with no trailing data.",
 [I],"every scheme, key type, curve, input and signature",
 "Tests sign and verify with matching pairs and a few mismatches.",
 ["crypto.go","handshake-messages.go"],[("policy","sign, verify, schemeValidForKey"),("content","EncodeSignatureInput")],["signature input","error"])
p("C25","Key shares have the right size and invalid ones are refused",
 "A generated key share has exactly the size of its group and its private part agrees with it; the shared secret has the group's fixed length (left-padded) and is the primitive's result for the given shares. A peer share of the wrong size, one that is not a valid point, or an unsupported group yields an error that stops its use, never a crash or a default secret.",
 [I],"every group and every byte string as peer share",
 "Tests use valid shares generated by the same code.",
 ["crypto.go","client-state-machine.go","negotiation.go"],[("key exchange","newKeyShare, keyAgreement, keyExchangeSizeFromNamedGroup"),("use","clientStateWaitSH.Next, DHNegotiation")],["shared secret","error"])
p("C26","A cloned configuration equals the original",
 "Cloning a configuration yields a distinct object in which every setting has the original's value, so a connection made with the clone behaves as one made with the original. Filling in defaults changes only settings that were unset.",
 [C],"every configuration",
 "The tests check a few fields by hand.",
 ["conn.go"],[("clone","Config.Clone"),("defaults","Config.Init")],["fields of the clone"])
p("C27","No application data crosses before it is allowed",
 "Before the handshake completes, a write is refused unless the endpoint is a client sending early data under early keys, and a read is refused on a client and on a server that does not allow early data; a server that does returns only early data received under the early-data key. After completion both are allowed.",
 [H,C],"every handshake state, role, configuration and epoch",
 "Tests call read and write early in a few states.",
 ["conn.go","server-state-machine.go"],[("gating","Conn.Read, Conn.Write, Conn.Writable"),("early data","serverStateWaitEOED.Next")],["returned error","data returned"])
p("C28","Concurrent reads and writes do not corrupt the stream",
 "Concurrent calls from several goroutines to write, read and send key updates on one connection behave as some sequential order of those calls.",
 ["schedules"],"every interleaving of calls on one connection","The suite runs one reader and one writer.",
 ["conn.go","record-layer.go"],[("locks","Conn.Read/Write locking of the record layers")],["stream contents"])
p("C29","A handshake between honest peers terminates",
 "A handshake between a client and a server with compatible configurations completes on both sides within a bounded number of messages, also when DTLS datagrams are lost finitely often.",
 ["schedules","fault_sequences"],"every loss pattern with finitely many losses","The suite samples a few loss patterns.",
 ["conn.go","dtls.go","client-state-machine.go","server-state-machine.go"],[("handshake loop","Conn.Handshake"),("retransmission","handshakeRetransmit")],["handshake result"])
out=os.path.join(os.path.dirname(os.path.abspath(__file__)),"..","properties.jsonl")
open(out,"w").write("".join(json.dumps(x)+"\n" for x in P))
