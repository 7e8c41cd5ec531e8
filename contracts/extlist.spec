# ---- extension lists (C07) ----
spec hasType(L, n, t) = exists(j, 0, n, L[j].ExtensionType == t)

func (*ExtensionList).Add(el, src) (err)
pre el != nil && src != nil
let L = old(content(*el))
let n = old(len(*el))
let t = bodyType(src)
spec enc(k) = event("ExtensionBody.Marshal", 0, k)
ensures [C07] error: iff(isnil(enc(2)), err == nil)
ensures [C07] unchanged-on-error: err != nil ==> content(*el) == L
ensures [C07] appended: err == nil && !hasType(L, n, t) ==> len(*el) == n + 1 && (*el)[n].ExtensionType == t && content((*el)[n].ExtensionData) == content(enc(1)) && content(*el)[:n] == L
ensures [C07] replaced-length: err == nil && hasType(L, n, t) ==> len(*el) == n
ensures [C07] replaced-first: err == nil ==> forall(k, 0, n, imp(L[k].ExtensionType == t && !hasType(L, k, t), (*el)[k].ExtensionType == t && content((*el)[k].ExtensionData) == content(enc(1))))
ensures [C07] others-type: err == nil ==> forall(k, 0, n, imp(L[k].ExtensionType != t || hasType(L, k, t), (*el)[k].ExtensionType == L[k].ExtensionType))
ensures [C07] others-data: err == nil ==> forall(k, 0, n, imp(L[k].ExtensionType != t || hasType(L, k, t), content((*el)[k].ExtensionData) == content(L[k].ExtensionData)))

spec dec1(k) = event("marshalledPDU.Unmarshal", 0, k)
func (ExtensionList).Find(el, dst) (found, err)
pre dst != nil
let L = content(el)
let n = len(el)
let t = bodyType(dst)
ensures [C07] found: found == hasType(L, n, t)
ensures [C07] none: !hasType(L, n, t) ==> err == nil && events("marshalledPDU.Unmarshal") == 0
ensures [C07] decoded-once: hasType(L, n, t) ==> events("marshalledPDU.Unmarshal") == 1
ensures [C07] decoded-into: events("marshalledPDU.Unmarshal") == 1 ==> same(dec1(0), dst)
ensures [C07] decoded-first: events("marshalledPDU.Unmarshal") == 1 ==> forall(k, 0, n, imp(L[k].ExtensionType == t && !hasType(L, k, t), content(dec1(1)) == content(L[k].ExtensionData)))
ensures [C07] whole: events("marshalledPDU.Unmarshal") == 1 ==> iff(err == nil, isnil(dec1(3)) && dec1(2) == len(dec1(1)))

func (ExtensionList).Parse(el, dsts) (found, err)
pre forall(i, 0, len(dsts), dsts[i] != nil)
let L = content(el)
let n = len(el)
inv found != nil
inv it <= len(dsts)
inv ito < len(dsts)
spec asked(ds, m, u) = exists(i, 0, m, bodyType(ds[i]) == u)
inv forall(u, 0, 65536, iff(found[u], asked(dsts, it, u) && hasType(el, len(el), u)))
inv forall(i, 0, it, forall(a, 0, len(el), imp(el[a].ExtensionType == bodyType(dsts[i]), !hasType(el, a, bodyType(dsts[i])))))
inv dst == dsts[ito]
inv forall(u, 0, 65536, iff(found[u], asked(dsts, ito, u) && hasType(el, len(el), u) || u == bodyType(dsts[ito]) && hasType(el, it, u)))
inv forall(i, 0, ito, forall(a, 0, len(el), imp(el[a].ExtensionType == bodyType(dsts[i]), !hasType(el, a, bodyType(dsts[i])))))
inv forall(a, 0, it, imp(el[a].ExtensionType == bodyType(dsts[ito]), !hasType(el, a, bodyType(dsts[ito])) && !asked(dsts, ito, bodyType(dsts[ito]))))
ensures [C07] nil-on-error: iff(err != nil, found == nil)
ensures [C07] found: err == nil ==> forall(i, 0, len(dsts), found[bodyType(dsts[i])] == hasType(L, n, bodyType(dsts[i])))
ensures [C07] no-duplicate: err == nil ==> forall(i, 0, len(dsts), forall(a, 0, n, imp(L[a].ExtensionType == bodyType(dsts[i]), !hasType(L, a, bodyType(dsts[i])))))
ensures [C07] only-asked: err == nil ==> forall(u, 0, 65536, imp(found[u], exists(i, 0, len(dsts), bodyType(dsts[i]) == u)))
