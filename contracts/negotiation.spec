# ---- negotiation (C14) ----
spec nowhere(x, s) = forall(m, 0, len(s), s[m] != x)
spec firstCommon(v, offered, supported) = exists(i, 0, len(offered), offered[i] == v && !nowhere(v, supported) && forall(k, 0, i, nowhere(offered[k], supported)))
spec noneCommon(offered, supported) = forall(i, 0, len(offered), nowhere(offered[i], supported))

func VersionNegotiation(offered, supported) (ok, v)
ensures [C14] first-common: ok ==> firstCommon(v, offered, supported)
ensures [C14] fails-only-if-none: !ok ==> noneCommon(offered, supported)

func CipherSuiteNegotiation(psk, offered, supported) (v, err)
nilable psk
ensures [C14] first-common: psk == nil && err == nil ==> firstCommon(v, offered, supported)
ensures [C14] fails-only-if-none: psk == nil && err != nil ==> noneCommon(offered, supported)
ensures [C14] psk-suite: psk != nil && err == nil ==> v == psk.CipherSuite && !nowhere(v, offered)
ensures [C14] psk-fails-only-if-not-offered: psk != nil && err != nil ==> nowhere(psk.CipherSuite, offered)


func PSKModeNegotiation(canDoDH, canDoPSK, modes) (dh, psk)
ensures [C14] psk-needs-offer: psk ==> canDoPSK && len(modes) > 0
ensures [C14] dh-needs-share: dh ==> canDoDH
ensures [C14] psk-only-needs-permission: psk && !dh ==> !nowhere(PSKModeKE, modes)
inv dhAllowed == !nowhere(PSKModeDHEKE, modes[:it])
inv dhRequired == nowhere(PSKModeKE, modes[:it])

spec acceptable(x, psk, supported) = (psk == nil || x == psk.NextProto) && !nowhere(x, supported)
func ALPNNegotiation(psk, offered, supported) (v, err)
nilable psk
ensures [C14] member: v != "" ==> !nowhere(v, offered) && !nowhere(v, supported)
ensures [C14] psk-protocol: v != "" && psk != nil ==> v == psk.NextProto
ensures [C14] first: v != "" ==> exists(i, 0, len(offered), offered[i] == v && forall(k, 0, i, !acceptable(offered[k], psk, supported)))
ensures [C14] none-only-if-none: v == "" && nowhere("", offered) ==> forall(i, 0, len(offered), !acceptable(offered[i], psk, supported))
ensures [C14] resumption-must-match: err != nil ==> psk != nil && psk.IsResumption && len(offered) > 0 && v == ""
ensures [C14] resumption-refused: psk != nil && psk.IsResumption && len(offered) > 0 && forall(i, 0, len(offered), !acceptable(offered[i], psk, supported)) ==> err != nil

func EarlyDataNegotiation(usingPSK, gotEarlyData, allowEarlyData) (using, rejected)
ensures [C14] using: using == (usingPSK && gotEarlyData && allowEarlyData)
ensures [C14] rejected: rejected == (gotEarlyData && !using)

func CertificateSelection(serverName, signatureSchemes, certs) (cert, scheme, err)
nilable serverName
pre forall(i, 0, len(certs), certs[i] != nil && len(certs[i].Chain) > 0 && certs[i].Chain[0] != nil)
ensures [C14] scheme-offered: err == nil ==> !nowhere(scheme, signatureSchemes)
ensures [C14] fits-key: err == nil ==> fits(scheme, cert.PrivateKey)
ensures [C14] configured: err == nil ==> exists(i, 0, len(certs), certs[i] == cert)
spec named(cert, name) = !nowhere(name, cert.Chain[0].DNSNames)
ensures [C14] named: err == nil && serverName != nil ==> named(cert, *serverName)
ensures [C14] first-scheme: err == nil ==> exists(i, 0, len(signatureSchemes), signatureSchemes[i] == scheme && forall(k, 0, i, signatureSchemes[k] == RSA_PKCS1_SHA1 || !fits(signatureSchemes[k], cert.PrivateKey)))
ensures [C14] fails-only-if-none: err != nil && serverName == nil ==> forall(i, 0, len(certs), forall(k, 0, len(signatureSchemes), signatureSchemes[k] == RSA_PKCS1_SHA1 || !fits(signatureSchemes[k], certs[i].PrivateKey)))
inv forall(i, 0, len(candidatesByName), named(candidatesByName[i], *serverName) && exists(j, 0, len(certs), certs[j] == candidatesByName[i]))

uf keyUsable(int, bytes) bool
uf keyGen(int) bool
func newKeyShare@neg(group) (pub, priv, err)
cut
opt trusted=whether a key share can be generated depends only on the group
ensures [X] ok: iff(err == nil, keyGen(group))
func keyAgreement@neg(group, pub, priv) (z, err)
cut
opt trusted=whether key agreement succeeds depends only on the group and the peer's share
ensures [X] ok: iff(err == nil, keyUsable(group, content(pub)))
func DHNegotiation(keyShares, groups) (ok, g, pub, secret)
opt use=newKeyShare@neg; keyAgreement@neg
spec dhAcceptable(s, groups) = !nowhere(s.Group, groups) && keyGen(s.Group) && keyUsable(s.Group, content(s.KeyExchange))
ensures [C14] first: ok ==> exists(i, 0, len(keyShares), keyShares[i].Group == g && dhAcceptable(keyShares[i], groups) && forall(k, 0, i, !dhAcceptable(keyShares[k], groups)))
ensures [C14] fails-only-if-none: !ok ==> forall(i, 0, len(keyShares), !dhAcceptable(keyShares[i], groups))
ensures [C14] nothing-on-failure: !ok ==> isnil(secret) && isnil(pub)
