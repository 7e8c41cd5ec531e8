# ---- pre-shared key selection (C13) ----
uf hexEncode(bytes) bytes
uf pskKnown(int, bytes) bool
spec knownId(psks, id) = pskKnown(ref(psks), hexEncode(content(id.Identity)))
spec gotPsk(k) = lastEvent("PreSharedKeyCache.Get", k)
spec binderKey(h, psk) = derive(h, hmac(h, rep(0, hashSize(h)), content(psk.Key)), ite(psk.IsResumption, "res binder", "ext binder"), hash(h, ""))
func PSKNegotiation(identities, binders, context, psks) (ok, i, psk, params, err)
nilable psk
pre len(binders) == len(identities) && psks != nil
inv forall(k, 0, it, !knownId(psks, identities[k]))
ensures [C13] index: ok ==> err == nil && 0 <= i && i < len(identities) && psk != nil
ensures [C13] first-known: ok ==> knownId(psks, identities[i]) && forall(k, 0, i, !knownId(psks, identities[k]))
ensures [C13] none-known: !ok && err == nil ==> forall(k, 0, len(identities), !knownId(psks, identities[k]))
ensures [C13] looked-up: ok ==> gotPsk(1) == hexEncode(content(identities[i].Identity))
ensures [C13] its-key: ok ==> content(psk.Key) == content(gotPsk(2).Key) && psk.IsResumption == gotPsk(2).IsResumption && psk.CipherSuite == gotPsk(2).CipherSuite
ensures [C13] its-suite: ok ==> has(cipherSuiteMap, psk.CipherSuite) && params == cipherSuiteMap[psk.CipherSuite]
ensures [C13] binder: ok ==> content(binders[i].Binder) == finishedMac(params.Hash, binderKey(params.Hash, psk), hash(params.Hash, content(context)))
spec ageDiff(a, b) = ite(a < b, b - a, a - b)
spec knownAge(psk) = ((lastEvent("now", 0) - psk.ReceivedAt) / 1000000) % 4294967296
spec saidAge(id, psk) = (id.ObfuscatedTicketAge - psk.TicketAgeAdd) % 4294967296
ensures [C13] its-age: ok ==> psk.TicketAgeAdd == gotPsk(2).TicketAgeAdd && psk.ReceivedAt == gotPsk(2).ReceivedAt
ensures [C13] fresh: ok && psk.IsResumption ==> imp(lastEvent("now", 0) >= psk.ReceivedAt, ageDiff(knownAge(psk), saidAge(identities[i], psk)) <= ticketAgeTolerance)
