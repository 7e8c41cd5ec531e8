package main

// Hash-consed first-order terms with an eager simplifier.

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

type Sort struct {
	name   string
	elem   *Sort // sequences
	fields []SField
	ctor   string
}
type SField struct {
	name string
	sort *Sort
}

var sortTab = map[string]*Sort{}
var SInt = &Sort{name: "Int"}
var SBool = &Sort{name: "Bool"}

func SSeq(e *Sort) *Sort {
	n := "Seq_" + e.name
	if s := sortTab[n]; s != nil {
		return s
	}
	s := &Sort{name: n, elem: e}
	sortTab[n] = s
	return s
}

// SByte is the element sort of byte sequences; its terms are Int terms in 0..255.
var SBytes = func() *Sort { s := &Sort{name: "SeqByte", elem: SInt}; sortTab["SeqByte"] = s; return s }()

type Op uint8

const (
	OConst Op = iota
	OTrue
	OFalse
	OApp // uninterpreted function / variable (no args)
	OBVar
	OLin
	OMul
	ODiv
	OMod
	OIte
	ONot
	OAnd
	OOr
	OEq  // non-int equality (args sorted by id)
	OEq0 // lin == 0
	OLe0 // lin <= 0
	OForall
	OCat // binary-flattened concatenation
	OUnit
	OExt
	ORep
	OUpd
	OLit
	OLen
	ONth
	OMk
	OSel
)

type Term struct {
	op    Op
	sort  *Sort
	name  string
	k     *big.Int
	args  []*Term
	coef  []*big.Int // OLin
	idx   int        // OSel
	id    int
	free  []*Term // free bound variables
	lo    *big.Int
	hi    *big.Int
	bdone bool
}

var termTab = map[string]*Term{}
var termSeq int

func mkTerm(op Op, srt *Sort, name string, k *big.Int, coef []*big.Int, idx int, args []*Term) *Term {
	var sb strings.Builder
	sb.WriteByte(byte('a' + op))
	sb.WriteString(name)
	if k != nil {
		sb.WriteByte('#')
		sb.WriteString(k.Text(36))
	}
	for i, a := range args {
		fmt.Fprintf(&sb, ",%d", a.id)
		if coef != nil {
			sb.WriteByte('*')
			sb.WriteString(coef[i].Text(36))
		}
	}
	if op == OSel {
		fmt.Fprintf(&sb, ".%d", idx)
	}
	if op == OApp || op == OBVar || op == ORep || op == OMk || op == OLit || op == OCat {
		sb.WriteByte(':')
		sb.WriteString(srt.name)
	}
	key := sb.String()
	if t, ok := termTab[key]; ok {
		return t
	}
	termSeq++
	t := &Term{op: op, sort: srt, name: name, k: k, coef: coef, idx: idx, args: args, id: termSeq}
	if op == OBVar {
		t.free = []*Term{t}
	} else {
		for _, a := range args {
			for _, f := range a.free {
				dupf := false
				for _, g := range t.free {
					if g == f {
						dupf = true
					}
				}
				if !dupf {
					t.free = append(t.free, f)
				}
			}
		}
		if op == OForall {
			var nf []*Term
			for _, f := range t.free {
				if f.name != name {
					nf = append(nf, f)
				}
			}
			t.free = nf
		}
	}
	termTab[key] = t
	return t
}

var bigZero = big.NewInt(0)
var bigOne = big.NewInt(1)

func bi(x int64) *big.Int { return big.NewInt(x) }

var True = mkTerm(OTrue, SBool, "", nil, nil, 0, nil)
var False = mkTerm(OFalse, SBool, "", nil, nil, 0, nil)

func Int(x int64) *Term     { return mkTerm(OConst, SInt, "", bi(x), nil, 0, nil) }
func IntB(x *big.Int) *Term { return mkTerm(OConst, SInt, "", new(big.Int).Set(x), nil, 0, nil) }
func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}

// declared bounds of uninterpreted functions/variables by name
type bnd struct{ lo, hi *big.Int }

var appBounds = map[string]bnd{}

func App(name string, s *Sort, args ...*Term) *Term {
	if r := rewriteApp(name, s, args); r != nil {
		return r
	}
	return mkTerm(OApp, s, name, nil, nil, 0, args)
}

// Sym makes an uninterpreted symbol with declared integer bounds.
func Sym(name string, s *Sort, lo, hi *big.Int, args ...*Term) *Term {
	if lo != nil || hi != nil {
		if _, ok := appBounds[name]; !ok {
			appBounds[name] = bnd{lo, hi}
		}
	}
	return mkTerm(OApp, s, name, nil, nil, 0, args)
}

var bvSeq int

func BVar(s *Sort) *Term {
	bvSeq++
	return mkTerm(OBVar, s, fmt.Sprintf("k!%d", bvSeq), nil, nil, 0, nil)
}

func (t *Term) isConst() bool { return t.op == OConst }
func (t *Term) constInt() (int, bool) {
	if t.op == OConst && t.k.IsInt64() {
		return int(t.k.Int64()), true
	}
	return 0, false
}

var maxLen = new(big.Int).Lsh(bigOne, 48)

// bounds: context-free interval
func (t *Term) bounds() (lo, hi *big.Int) {
	if t.sort != SInt {
		return nil, nil
	}
	if t.bdone {
		return t.lo, t.hi
	}
	t.lo, t.hi = t.bounds1()
	t.bdone = true
	return t.lo, t.hi
}
func (t *Term) bounds1() (lo, hi *big.Int) {
	switch t.op {
	case OConst:
		return t.k, t.k
	case OApp:
		b := appBounds[t.name]
		return b.lo, b.hi
	case OBVar:
		return nil, nil
	case OLen:
		return bigZero, maxLen
	case ONth:
		if t.args[0].sort == SBytes {
			return bigZero, bi(255)
		}
		if b, ok := seqElemBounds[t.args[0].sort.name]; ok {
			return b.lo, b.hi
		}
	case OSel:
		b := appBounds["sel "+t.args[0].sort.name+"."+t.args[0].sort.fields[t.idx].name]
		return b.lo, b.hi
	case OMod:
		lo, hi := t.args[0].bounds()
		m := new(big.Int).Sub(t.args[1].k, bigOne)
		if lo != nil && lo.Sign() >= 0 && hi != nil && hi.Cmp(m) < 0 {
			return lo, hi
		}
		return bigZero, m
	case ODiv:
		lo, hi := t.args[0].bounds()
		if lo != nil {
			lo = floorDiv(lo, t.args[1].k)
		}
		if hi != nil {
			hi = floorDiv(hi, t.args[1].k)
		}
		return lo, hi
	case OIte:
		l1, h1 := t.args[1].bounds()
		l2, h2 := t.args[2].bounds()
		return minB(l1, l2), maxB(h1, h2)
	case OMul:
		l1, h1 := t.args[0].bounds()
		l2, h2 := t.args[1].bounds()
		if l1 != nil && l2 != nil && l1.Sign() >= 0 && l2.Sign() >= 0 {
			lo = new(big.Int).Mul(l1, l2)
			if h1 != nil && h2 != nil {
				hi = new(big.Int).Mul(h1, h2)
			}
		}
		return
	case OLin:
		lo, hi = new(big.Int).Set(t.k), new(big.Int).Set(t.k)
		for i, a := range t.args {
			al, ah := a.bounds()
			c := t.coef[i]
			if c.Sign() < 0 {
				al, ah = ah, al
			}
			if lo != nil && al != nil {
				lo.Add(lo, new(big.Int).Mul(c, al))
			} else {
				lo = nil
			}
			if hi != nil && ah != nil {
				hi.Add(hi, new(big.Int).Mul(c, ah))
			} else {
				hi = nil
			}
		}
		return
	}
	return nil, nil
}

var seqElemBounds = map[string]bnd{}

func minB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) < 0 {
		return a
	}
	return b
}
func maxB(a, b *big.Int) *big.Int {
	if a == nil || b == nil {
		return nil
	}
	if a.Cmp(b) > 0 {
		return a
	}
	return b
}
func floorDiv(a, b *big.Int) *big.Int {
	q, m := new(big.Int), new(big.Int)
	q.DivMod(a, b, m) // Euclidean; b>0
	return q
}

// ---- linear arithmetic ----
type lin struct {
	k  *big.Int
	at []*Term
	co []*big.Int
}

func toLin(t *Term) lin {
	switch t.op {
	case OConst:
		return lin{k: t.k}
	case OLin:
		return lin{t.k, t.args, t.coef}
	}
	return lin{bigZero, []*Term{t}, []*big.Int{bigOne}}
}
func (a lin) add(b lin, c *big.Int) lin {
	r := lin{k: new(big.Int).Add(a.k, new(big.Int).Mul(c, b.k))}
	i, j := 0, 0
	for i < len(a.at) || j < len(b.at) {
		switch {
		case j == len(b.at) || (i < len(a.at) && a.at[i].id < b.at[j].id):
			r.at = append(r.at, a.at[i])
			r.co = append(r.co, a.co[i])
			i++
		case i == len(a.at) || b.at[j].id < a.at[i].id:
			m := new(big.Int).Mul(c, b.co[j])
			if m.Sign() != 0 {
				r.at = append(r.at, b.at[j])
				r.co = append(r.co, m)
			}
			j++
		default:
			s := new(big.Int).Add(a.co[i], new(big.Int).Mul(c, b.co[j]))
			if s.Sign() != 0 {
				r.at = append(r.at, a.at[i])
				r.co = append(r.co, s)
			}
			i++
			j++
		}
	}
	return r
}
func (l lin) term() *Term {
	if len(l.at) == 0 {
		return IntB(l.k)
	}
	if len(l.at) > 1 {
		if r, ok := recombine(l); ok {
			return r
		}
	}
	if len(l.at) == 1 && l.k.Sign() == 0 && l.co[0].Cmp(bigOne) == 0 {
		return l.at[0]
	}
	return mkTerm(OLin, SInt, "", l.k, l.co, 0, l.at)
}

// recombine big-endian pieces: c*(x div a mod b) + c*b*(x div ab ...) => c*(x div a ...)
func recombine(l lin) (*Term, bool) {
	type dec struct {
		x    *Term
		a, b *big.Int // x div a mod b ; b nil = no mod
	}
	get := func(t *Term) (dec, bool) {
		d := dec{a: bigOne}
		if t.op == OMod {
			d.b = t.args[1].k
			t = t.args[0]
		}
		if t.op == ODiv {
			d.a = t.args[1].k
			t = t.args[0]
		} else if d.b == nil {
			return d, false
		}
		d.x = t
		return d, true
	}
	for i, t := range l.at {
		d1, ok := get(t)
		if !ok || d1.b == nil {
			continue
		}
		for j, u := range l.at {
			if i == j {
				continue
			}
			d2, ok := get(u)
			if !ok || d2.x != d1.x {
				continue
			}
			if new(big.Int).Mul(d1.a, d1.b).Cmp(d2.a) != 0 || new(big.Int).Mul(l.co[i], d1.b).Cmp(l.co[j]) != 0 {
				continue
			}
			var nt *Term
			base := Div(d1.x, d1.a)
			if d2.b == nil {
				nt = base
			} else {
				nt = Mod(base, new(big.Int).Mul(d1.b, d2.b))
			}
			r := lin{k: l.k}
			for q := range l.at {
				if q != i && q != j {
					r.at = append(r.at, l.at[q])
					r.co = append(r.co, l.co[q])
				}
			}
			return r.add(toLin(nt), l.co[i]).term(), true
		}
	}
	return nil, false
}

func Add(a, b *Term) *Term { return toLin(a).add(toLin(b), bigOne).term() }
func Sub(a, b *Term) *Term { return toLin(a).add(toLin(b), bi(-1)).term() }
func AddI(a *Term, k int64) *Term {
	return Add(a, Int(k))
}
func MulK(a *Term, k *big.Int) *Term {
	return lin{k: bigZero}.add(toLin(a), k).term()
}
func Mul(a, b *Term) *Term {
	if a.op == OConst {
		return MulK(b, a.k)
	}
	if b.op == OConst {
		return MulK(a, b.k)
	}
	// distribute over sums to keep normal form
	if a.op == OLin || b.op == OLin {
		la, lb := toLin(a), toLin(b)
		r := lin{k: new(big.Int).Mul(la.k, lb.k)}
		for i, t := range la.at {
			r = r.add(toLin(t), new(big.Int).Mul(la.co[i], lb.k))
		}
		for j, u := range lb.at {
			r = r.add(toLin(u), new(big.Int).Mul(lb.co[j], la.k))
		}
		for i, t := range la.at {
			for j, u := range lb.at {
				r = r.add(toLin(Mul(t, u)), new(big.Int).Mul(la.co[i], lb.co[j]))
			}
		}
		return r.term()
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkTerm(OMul, SInt, "", nil, nil, 0, []*Term{a, b})
}

// Div is floor division by a positive constant.
func Div(a *Term, m *big.Int) *Term {
	if m.Cmp(bigOne) == 0 {
		return a
	}
	if a.op == OConst {
		return IntB(floorDiv(a.k, m))
	}
	if a.op == ODiv {
		return Div(a.args[0], new(big.Int).Mul(a.args[1].k, m))
	}
	lo, hi := a.bounds()
	if lo != nil && hi != nil {
		q := floorDiv(lo, m)
		if q.Cmp(floorDiv(hi, m)) == 0 {
			return IntB(q)
		}
	}
	l := toLin(a)
	var q, r lin
	q.k, r.k = new(big.Int), new(big.Int)
	q.k.DivMod(l.k, m, r.k)
	for i, t := range l.at {
		d, md := new(big.Int), new(big.Int)
		d.DivMod(l.co[i], m, md)
		if md.Sign() == 0 {
			q.at, q.co = append(q.at, t), append(q.co, d)
		} else {
			r.at, r.co = append(r.at, t), append(r.co, l.co[i])
		}
	}
	if len(q.at) > 0 || q.k.Sign() != 0 {
		return Add(q.term(), Div(r.term(), m))
	}
	// (x mod b) div m  with m | b  => (x div m) mod (b/m)
	if a.op == OMod {
		d, md := new(big.Int), new(big.Int)
		d.DivMod(a.args[1].k, m, md)
		if md.Sign() == 0 {
			return Mod(Div(a.args[0], m), d)
		}
	}
	return mkTerm(ODiv, SInt, "", nil, nil, 0, []*Term{a, IntB(m)})
}

func Mod(a *Term, m *big.Int) *Term {
	if m.Cmp(bigOne) == 0 {
		return Int(0)
	}
	lo, hi := a.bounds()
	if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(m) < 0 {
		return a
	}
	if lo != nil && hi != nil {
		q := floorDiv(lo, m)
		if q.Cmp(floorDiv(hi, m)) == 0 {
			return Sub(a, IntB(new(big.Int).Mul(q, m)))
		}
	}
	l := toLin(a)
	r := lin{k: new(big.Int).Mod(l.k, m)}
	changed := r.k.Cmp(l.k) != 0
	for i, t := range l.at {
		md := new(big.Int).Mod(l.co[i], m)
		if md.Sign() == 0 {
			changed = true
			continue
		}
		// mod inside mod: t = mod(x, m') with m | m'
		if t.op == OMod && new(big.Int).Mod(t.args[1].k, m).Sign() == 0 {
			changed = true
			r = r.add(toLin(t.args[0]), l.co[i])
			continue
		}
		r = r.add(lin{bigZero, []*Term{t}, []*big.Int{bigOne}}, l.co[i])
	}
	if changed {
		return Mod(r.term(), m)
	}
	return mkTerm(OMod, SInt, "", nil, nil, 0, []*Term{a, IntB(m)})
}

// ---- booleans ----
func Not(a *Term) *Term {
	switch a.op {
	case OTrue:
		return False
	case OFalse:
		return True
	case ONot:
		return a.args[0]
	case OLe0:
		// not (l<=0)  <=> l >= 1 <=> 1-l <= 0
		return Le0(Sub(Int(1), a.args[0]))
	}
	return mkTerm(ONot, SBool, "", nil, nil, 0, []*Term{a})
}
func And(xs ...*Term) *Term { return nary(OAnd, xs) }
func Or(xs ...*Term) *Term  { return nary(OOr, xs) }
func nary(op Op, xs []*Term) *Term {
	unit, zero := True, False
	if op == OOr {
		unit, zero = False, True
	}
	var out []*Term
	seen := map[*Term]bool{}
	var add func(x *Term) bool
	add = func(x *Term) bool {
		if x == unit || seen[x] {
			return true
		}
		if x == zero || seen[Not(x)] {
			return false
		}
		if x.op == op {
			for _, y := range x.args {
				if !add(y) {
					return false
				}
			}
			return true
		}
		seen[x] = true
		out = append(out, x)
		return true
	}
	for _, x := range xs {
		if !add(x) {
			return zero
		}
	}
	if len(out) == 0 {
		return unit
	}
	if len(out) == 1 {
		return out[0]
	}
	return mkTerm(op, SBool, "", nil, nil, 0, out)
}
func Imp(a, b *Term) *Term { return Or(Not(a), b) }
func Iff(a, b *Term) *Term { return Eq(a, b) }

func Le0(l *Term) *Term {
	lo, hi := l.bounds()
	if hi != nil && hi.Sign() <= 0 {
		return True
	}
	if lo != nil && lo.Sign() > 0 {
		return False
	}
	if l.op == OIte {
		return Ite(l.args[0], Le0(l.args[1]), Le0(l.args[2]))
	}
	// normalise by gcd
	if l.op == OLin {
		g := new(big.Int)
		for _, c := range l.coef {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if g.Cmp(bigOne) > 0 {
			n := lin{k: new(big.Int).Neg(floorDiv(new(big.Int).Neg(l.k), g))} // ceil(k/g)
			for i, t := range l.args {
				n.at = append(n.at, t)
				n.co = append(n.co, new(big.Int).Quo(l.coef[i], g))
			}
			return Le0(n.term())
		}
	}
	return mkTerm(OLe0, SBool, "", nil, nil, 0, []*Term{l})
}
func Le(a, b *Term) *Term { return Le0(Sub(a, b)) }
func Lt(a, b *Term) *Term { return Le0(AddI(Sub(a, b), 1)) }

func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.sort == SInt {
		return Eq0(Sub(a, b))
	}
	if a.sort == SBool {
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if a == Not(b) {
			return False
		}
		return Or(And(a, b), And(Not(a), Not(b)))
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sorts %s %s: %s / %s", a.sort.name, b.sort.name, a, b))
	}
	if a.op == OLit && b.op == OLit {
		return False
	}
	if a.sort.elem != nil {
		return seqEq(a, b)
	}
	if a.sort.fields != nil && (a.op == OMk || b.op == OMk) {
		var cs []*Term
		for i := range a.sort.fields {
			cs = append(cs, Eq(Sel(a, i), Sel(b, i)))
		}
		return And(cs...)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkTerm(OEq, SBool, "", nil, nil, 0, []*Term{a, b})
}

// seqEq normalises an equality of sequences structurally.
func seqEq(a, b *Term) *Term {
	// different provable lengths
	d := Sub(Len(a), Len(b))
	if Eq0(d) == False {
		return False
	}
	if e := seqMatch(a, b); e != nil {
		return e
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mkTerm(OEq, SBool, "", nil, nil, 0, []*Term{a, b})
}

// strip common prefix/suffix of concatenations; nil when nothing to do
func seqMatch(a, b *Term) *Term {
	pa, pb := catParts(a), catParts(b)
	if len(pa) == 1 && len(pb) == 1 {
		if Len(a).isConst() && Len(a) == Len(b) {
			n, _ := Len(a).constInt()
			if n == 0 {
				return True
			}
			if n <= 8 && (expandable(a) || expandable(b)) {
				var cs []*Term
				for i := 0; i < n; i++ {
					cs = append(cs, Eq(Nth(a, Int(int64(i))), Nth(b, Int(int64(i)))))
				}
				return And(cs...)
			}
		}
		if a.op == OUnit && b.op == OUnit {
			return Eq(a.args[0], b.args[0])
		}
		return nil
	}
	var cs []*Term
	changed := false
	for len(pa) > 0 && len(pb) > 0 {
		if pa[0] == pb[0] {
			pa, pb = pa[1:], pb[1:]
			changed = true
			continue
		}
		if Len(pa[0]) == Len(pb[0]) {
			cs = append(cs, Eq(pa[0], pb[0]))
			pa, pb = pa[1:], pb[1:]
			changed = true
			continue
		}
		// both known constant lengths (literals / units)
		la, oka := Len(pa[0]).constInt()
		lb, okb := Len(pb[0]).constInt()
		if oka && okb && la > 0 && lb > 0 {
			m := la
			if lb < m {
				m = lb
			}
			cut := func(p []*Term, l int) (*Term, []*Term) {
				h := Ext(p[0], Int(0), Int(int64(m)))
				if l == m {
					return h, p[1:]
				}
				return h, append([]*Term{Ext(p[0], Int(int64(m)), Int(int64(l-m)))}, p[1:]...)
			}
			var ha, hb *Term
			ha, pa = cut(pa, la)
			hb, pb = cut(pb, lb)
			cs = append(cs, Eq(ha, hb))
			changed = true
			continue
		}
		break
	}
	for len(pa) > 0 && len(pb) > 0 {
		x, y := pa[len(pa)-1], pb[len(pb)-1]
		if x == y || Len(x) == Len(y) {
			if x != y {
				cs = append(cs, Eq(x, y))
			}
			pa, pb = pa[:len(pa)-1], pb[:len(pb)-1]
			changed = true
			continue
		}
		break
	}
	if !changed {
		return nil
	}
	if len(pa) == 0 && len(pb) == 0 {
		return And(cs...)
	}
	ra, rb := Cat(a.sort, pa...), Cat(b.sort, pb...)
	if len(pa) == 0 {
		cs = append(cs, Eq(Len(rb), Int(0)))
	} else if len(pb) == 0 {
		cs = append(cs, Eq(Len(ra), Int(0)))
	} else {
		cs = append(cs, Eq(ra, rb))
	}
	return And(cs...)
}
func expandable(t *Term) bool {
	switch t.op {
	case OUnit, OLit, ORep, OUpd:
		return true
	}
	return false
}
func catParts(t *Term) []*Term {
	if t.op == OCat {
		return t.args
	}
	if n, ok := Len(t).constInt(); ok && n == 0 {
		return nil
	}
	return []*Term{t}
}

func Eq0(l *Term) *Term {
	lo, hi := l.bounds()
	if lo != nil && lo.Sign() > 0 || hi != nil && hi.Sign() < 0 {
		return False
	}
	if l.op == OConst {
		return Bool(l.k.Sign() == 0)
	}
	if l.op == OIte {
		return Ite(l.args[0], Eq0(l.args[1]), Eq0(l.args[2]))
	}
	if l.op == OLin {
		g := new(big.Int)
		for _, c := range l.coef {
			g.GCD(nil, nil, g, new(big.Int).Abs(c))
		}
		if new(big.Int).Mod(l.k, g).Sign() != 0 {
			return False
		}
		neg := l.coef[0].Sign() < 0
		if g.Cmp(bigOne) > 0 || neg {
			if neg {
				g = new(big.Int).Neg(g)
			}
			n := lin{k: new(big.Int).Quo(l.k, g)}
			for i, t := range l.args {
				n.at = append(n.at, t)
				n.co = append(n.co, new(big.Int).Quo(l.coef[i], g))
			}
			return Eq0(n.term())
		}
		// positional split: v0*c0 + rest where all other coefs divisible... (bytes comparison)
		if s := splitPositional(l); s != nil {
			return s
		}
	}
	return mkTerm(OEq0, SBool, "", nil, nil, 0, []*Term{l})
}

// if l = (small part, |.|<m) + m*(big part) then l==0 <=> both zero
func splitPositional(l *Term) *Term {
	if len(l.args) < 2 {
		return nil
	}
	for i := range l.coef {
		m := new(big.Int).Abs(l.coef[i])
		if m.Cmp(bigOne) <= 0 {
			continue
		}
		var small, bigp lin
		small.k, bigp.k = new(big.Int), new(big.Int)
		bigp.k.QuoRem(l.k, m, small.k)
		for j, t := range l.args {
			q, r := new(big.Int).QuoRem(l.coef[j], m, new(big.Int))
			if r.Sign() == 0 {
				bigp.at, bigp.co = append(bigp.at, t), append(bigp.co, q)
			} else {
				small.at, small.co = append(small.at, t), append(small.co, l.coef[j])
			}
		}
		if len(small.at) == 0 {
			continue
		}
		s := small.term()
		lo, hi := s.bounds()
		if lo == nil || hi == nil || new(big.Int).Abs(lo).Cmp(m) >= 0 || new(big.Int).Abs(hi).Cmp(m) >= 0 {
			continue
		}
		return And(Eq0(s), Eq0(bigp.term()))
	}
	return nil
}

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.sort == SBool {
		return Or(And(c, a), And(Not(c), b))
	}
	if c.op == ONot {
		return Ite(c.args[0], b, a)
	}
	return mkTerm(OIte, a.sort, "", nil, nil, 0, []*Term{c, a, b})
}

func Forall(v *Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	has := false
	for _, f := range body.free {
		if f == v {
			has = true
		}
	}
	if !has {
		return body
	}
	return mkTerm(OForall, SBool, v.name, nil, nil, 0, []*Term{v, body})
}
func ForallRange(v, lo, hi, body *Term) *Term {
	return Forall(v, Imp(And(Le(lo, v), Lt(v, hi)), body))
}

// ---- sequences ----
func Lit(s string) *Term {
	if s == "" {
		return Empty(SBytes)
	}
	return mkTerm(OLit, SBytes, s, nil, nil, 0, nil)
}
func Empty(s *Sort) *Term { return mkTerm(OLit, s, "", nil, nil, 0, nil) }
func Unit(s *Sort, x *Term) *Term {
	if s == SBytes && x.op == OConst {
		return Lit(string([]byte{byte(x.k.Int64())}))
	}
	return mkTerm(OUnit, s, "", nil, nil, 0, []*Term{x})
}
func Rep(s *Sort, x, n *Term) *Term {
	if n.op == OConst && n.k.Sign() <= 0 {
		return Empty(s)
	}
	if c, ok := n.constInt(); ok && c == 1 {
		return Unit(s, x)
	}
	if c, ok := n.constInt(); ok && s == SBytes && x.op == OConst && c <= 256 {
		return Lit(strings.Repeat(string([]byte{byte(x.k.Int64())}), c))
	}
	return mkTerm(ORep, s, "", nil, nil, 0, []*Term{x, n})
}
func Len(s *Term) *Term {
	switch s.op {
	case OLit:
		return Int(int64(len(s.name)))
	case OUnit:
		return Int(1)
	case OCat:
		r := Int(0)
		for _, p := range s.args {
			r = Add(r, Len(p))
		}
		return r
	case OExt:
		return s.args[2]
	case ORep:
		return s.args[1]
	case OUpd:
		return Len(s.args[0])
	case OIte:
		return Ite(s.args[0], Len(s.args[1]), Len(s.args[2]))
	case OApp:
		if f := appLen[s.name]; f != nil {
			if r := f(s.args); r != nil {
				return r
			}
		}
	}
	return mkTerm(OLen, SInt, "", nil, nil, 0, []*Term{s})
}

// appLen gives the length of some uninterpreted sequence functions.
var appLen = map[string]func(args []*Term) *Term{}

func Cat(s *Sort, parts ...*Term) *Term {
	var out []*Term
	var push func(p *Term)
	push = func(p *Term) {
		if p.op == OCat {
			for _, q := range p.args {
				push(q)
			}
			return
		}
		if p.op == OLit && p.name == "" {
			return
		}
		if n, ok := Len(p).constInt(); ok && n == 0 {
			return
		}
		if len(out) > 0 {
			l := out[len(out)-1]
			if l.op == OLit && p.op == OLit {
				out[len(out)-1] = Lit(l.name + p.name)
				return
			}
			// adjacent extracts
			if p.op == OExt {
				if l.op == OExt && l.args[0] == p.args[0] && Add(l.args[1], l.args[2]) == p.args[1] {
					out = out[:len(out)-1]
					push(Ext(p.args[0], l.args[1], Add(l.args[2], p.args[2])))
					return
				}
				// unit(nth s i) ++ ext(s,i+1,..)
				if l.op == OUnit && l.args[0].op == ONth && l.args[0].args[0] == p.args[0] && AddI(l.args[0].args[1], 1) == p.args[1] {
					out = out[:len(out)-1]
					push(Ext(p.args[0], l.args[0].args[1], AddI(p.args[2], 1)))
					return
				}
			}
			if p.op == OUnit && p.args[0].op == ONth {
				base, i := p.args[0].args[0], p.args[0].args[1]
				if l.op == OExt && l.args[0] == base && Add(l.args[1], l.args[2]) == i {
					out = out[:len(out)-1]
					push(Ext(base, l.args[1], AddI(l.args[2], 1)))
					return
				}
				if l.op == OUnit && l.args[0].op == ONth && l.args[0].args[0] == base && AddI(l.args[0].args[1], 1) == i {
					out = out[:len(out)-1]
					push(Ext(base, l.args[0].args[1], Int(2)))
					return
				}
			}
		}
		out = append(out, p)
	}
	for _, p := range parts {
		push(p)
	}
	if len(out) == 0 {
		return Empty(s)
	}
	if len(out) == 1 {
		return out[0]
	}
	return mkTerm(OCat, s, "", nil, nil, 0, out)
}

// Ext(s, off, n): context-free simplification; off,n assumed in range
func Ext(s, off, n *Term) *Term { return extCtx(s, off, n, nil) }

// decide is a context decision procedure: 1 true, -1 false, 0 unknown
type decideFn func(*Term) int

func dec(d decideFn, c *Term) int {
	if c == True {
		return 1
	}
	if c == False {
		return -1
	}
	if d == nil {
		return 0
	}
	return d(c)
}

func extCtx(s, off, n *Term, d decideFn) *Term {
	if c, ok := n.constInt(); ok && c <= 0 {
		return Empty(s.sort)
	}
	if dec(d, Eq(off, Int(0))) == 1 && dec(d, Eq(n, Len(s))) == 1 {
		return s
	}
	if d != nil && dec(d, Le(n, Int(0))) == 1 {
		return Empty(s.sort)
	}
	switch s.op {
	case OLit:
		o, ok1 := off.constInt()
		l, ok2 := n.constInt()
		if ok1 && ok2 && o >= 0 && o+l <= len(s.name) {
			return Lit(s.name[o : o+l])
		}
	case OExt:
		return extCtx(s.args[0], Add(s.args[1], off), n, d)
	case ORep:
		return Rep(s.sort, s.args[0], n)
	case OIte:
		return Ite(s.args[0], extCtx(s.args[1], off, n, d), extCtx(s.args[2], off, n, d))
	case OUpd:
		i := s.args[1]
		if dec(d, Or(Lt(i, off), Le(Add(off, n), i))) == 1 {
			return extCtx(s.args[0], off, n, d)
		}
		if dec(d, And(Le(off, i), Lt(i, Add(off, n)))) == 1 {
			return Upd(extCtx(s.args[0], off, n, d), Sub(i, off), s.args[2])
		}
	case OCat:
		// walk parts
		pos := Int(0)
		end := Add(off, n)
		var out []*Term
		started := false
		for _, p := range s.args {
			pl := Len(p)
			pend := Add(pos, pl)
			if !started {
				if dec(d, Le(pend, off)) == 1 { // wholly before
					pos = pend
					continue
				}
				// starts within p?
				if !(dec(d, And(Le(pos, off), Lt(off, pend))) == 1 || dec(d, Eq(off, pos)) == 1) {
					goto fail
				}
				started = true
				if dec(d, Le(end, pend)) == 1 {
					return extCtx(p, Sub(off, pos), n, d)
				}
				if dec(d, Le(pend, end)) != 1 {
					goto fail
				}
				out = append(out, extCtx(p, Sub(off, pos), Sub(pend, off), d))
				pos = pend
				continue
			}
			if dec(d, Eq(end, pos)) == 1 {
				break
			}
			if dec(d, Le(pend, end)) == 1 {
				out = append(out, p)
				pos = pend
				continue
			}
			if dec(d, Le(end, pend)) == 1 {
				out = append(out, extCtx(p, Int(0), Sub(end, pos), d))
				pos = end
				break
			}
			goto fail
		}
		if started {
			return Cat(s.sort, out...)
		}
	}
fail:
	if d != nil && n.op != OConst {
		// constant lengths known from the context are used
	}
	if c, ok := n.constInt(); ok && c == 1 && s.op != OApp {
		return Unit(s.sort, nthCtx(s, off, d))
	}
	return mkTerm(OExt, s.sort, "", nil, nil, 0, []*Term{s, off, n})
}

func Nth(s, i *Term) *Term { return nthCtx(s, i, nil) }
func nthCtx(s, i *Term, d decideFn) *Term {
	switch s.op {
	case OLit:
		if c, ok := i.constInt(); ok && c >= 0 && c < len(s.name) {
			return Int(int64(s.name[c]))
		}
		if s.sort == SBytes && s.name != "" {
			same := true
			for j := range s.name {
				if s.name[j] != s.name[0] {
					same = false
				}
			}
			if same {
				return Int(int64(s.name[0]))
			}
		}
	case OUnit:
		return s.args[0]
	case ORep:
		return s.args[0]
	case OExt:
		return nthCtx(s.args[0], Add(s.args[1], i), d)
	case OIte:
		return Ite(s.args[0], nthCtx(s.args[1], i, d), nthCtx(s.args[2], i, d))
	case OUpd:
		switch dec(d, Eq(s.args[1], i)) {
		case 1:
			return s.args[2]
		case -1:
			return nthCtx(s.args[0], i, d)
		}
		return Ite(Eq(s.args[1], i), s.args[2], nthCtx(s.args[0], i, d))
	case OCat:
		pos := Int(0)
		for _, p := range s.args {
			pend := Add(pos, Len(p))
			switch dec(d, Lt(i, pend)) {
			case 1:
				return nthCtx(p, Sub(i, pos), d)
			case -1:
				pos = pend
				continue
			}
			break
		}
	}
	es := s.sort.elem
	return mkTerm(ONth, es, "", nil, nil, 0, []*Term{s, i})
}

func Upd(s, i, v *Term) *Term {
	if c, ok := i.constInt(); ok {
		switch s.op {
		case OLit:
			if c >= 0 && c < len(s.name) {
				return Cat(s.sort, Ext(s, Int(0), i), Unit(s.sort, v), Ext(s, AddI(i, 1), Int(int64(len(s.name)-c-1))))
			}
		case OUnit:
			return Unit(s.sort, v)
		case OCat:
			pos := 0
			for j, p := range s.args {
				pl, ok := Len(p).constInt()
				if !ok {
					if lo, _ := Len(p).bounds(); lo == nil || lo.Cmp(bi(int64(c-pos))) <= 0 {
						break
					}
				}
				if !ok || c < pos+pl {
					np := append([]*Term{}, s.args[:j]...)
					np = append(np, Upd(p, Int(int64(c-pos)), v))
					np = append(np, s.args[j+1:]...)
					return Cat(s.sort, np...)
				}
				pos += pl
			}
		case OUpd:
			if s.args[1] == i {
				return Upd(s.args[0], i, v)
			}
		default:
			if n, ok := Len(s).constInt(); ok && n <= 64 && c < n {
				return Cat(s.sort, Ext(s, Int(0), i), Unit(s.sort, v), Ext(s, AddI(i, 1), Int(int64(n-c-1))))
			}
		}
	}
	if s.op == OUpd && s.args[1] == i {
		return Upd(s.args[0], i, v)
	}
	if v.op == ONth && v.args[0] == s && v.args[1] == i {
		return s
	}
	return mkTerm(OUpd, s.sort, "", nil, nil, 0, []*Term{s, i, v})
}

// updCtx: update with case analysis of the position under a context
func updCtx(s, i, v *Term, d decideFn) *Term {
	switch s.op {
	case ORep:
		if s.args[0] == v {
			return s
		}
		n := s.args[1]
		if dec(d, And(Le(Int(0), i), Lt(i, n))) == 1 {
			return Cat(s.sort, Rep(s.sort, s.args[0], i), Unit(s.sort, v), Rep(s.sort, s.args[0], AddI(Sub(n, i), -1)))
		}
	case OUnit:
		if dec(d, Eq(i, Int(0))) == 1 {
			return Unit(s.sort, v)
		}
	case OCat:
		pos := Int(0)
		for j, p := range s.args {
			pend := Add(pos, Len(p))
			if dec(d, And(Le(pos, i), Lt(i, pend))) == 1 {
				np := append([]*Term{}, s.args[:j]...)
				np = append(np, updCtx(p, Sub(i, pos), v, d))
				np = append(np, s.args[j+1:]...)
				return Cat(s.sort, np...)
			}
			if dec(d, Le(pend, i)) != 1 {
				break
			}
			pos = pend
		}
	case OApp, OExt:
		// a position at a constant distance from an end becomes a concatenation
		r := Sub(Len(s), i)
		if (r.isConst() || i.isConst()) && dec(d, And(Le(Int(0), i), Lt(i, Len(s)))) == 1 {
			return Cat(s.sort, extCtx(s, Int(0), i, d), Unit(s.sort, v), extCtx(s, AddI(i, 1), AddI(r, -1), d))
		}
	}
	return Upd(s, i, v)
}

// ---- datatypes ----
func Mk(s *Sort, args ...*Term) *Term {
	// eta
	if len(args) > 0 && args[0].op == OSel && args[0].idx == 0 && args[0].args[0].sort == s {
		x := args[0].args[0]
		ok := true
		for i, a := range args {
			if a != Sel(x, i) {
				ok = false
			}
		}
		if ok {
			return x
		}
	}
	return mkTerm(OMk, s, "", nil, nil, 0, args)
}
func Sel(t *Term, i int) *Term {
	if t.op == OMk {
		return t.args[i]
	}
	if t.op == OIte {
		return Ite(t.args[0], Sel(t.args[1], i), Sel(t.args[2], i))
	}
	return mkTerm(OSel, t.sort.fields[i].sort, "", nil, nil, i, []*Term{t})
}

// ---- substitution ----
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := m[t]; ok {
			return r
		}
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		na := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = f(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, na)
		}
		memo[t] = r
		return r
	}
	return f(t)
}
func rebuild(t *Term, a []*Term) *Term {
	switch t.op {
	case OApp:
		return App(t.name, t.sort, a...)
	case OLin:
		r := lin{k: t.k}
		for i, x := range a {
			r = r.add(toLin(x), t.coef[i])
		}
		return r.term()
	case OMul:
		return Mul(a[0], a[1])
	case ODiv:
		return Div(a[0], a[1].k)
	case OMod:
		return Mod(a[0], a[1].k)
	case OIte:
		return Ite(a[0], a[1], a[2])
	case ONot:
		return Not(a[0])
	case OAnd:
		return And(a...)
	case OOr:
		return Or(a...)
	case OEq:
		return Eq(a[0], a[1])
	case OEq0:
		return Eq0(a[0])
	case OLe0:
		return Le0(a[0])
	case OForall:
		return Forall(a[0], a[1])
	case OCat:
		return Cat(t.sort, a...)
	case OUnit:
		return Unit(t.sort, a[0])
	case OExt:
		return Ext(a[0], a[1], a[2])
	case ORep:
		return Rep(t.sort, a[0], a[1])
	case OUpd:
		return Upd(a[0], a[1], a[2])
	case OLen:
		return Len(a[0])
	case ONth:
		return Nth(a[0], a[1])
	case OMk:
		return Mk(t.sort, a...)
	case OSel:
		return Sel(a[0], t.idx)
	}
	panic("rebuild")
}

// rewriteApp: algebraic identities of known uninterpreted functions.
var appRewrites = map[string]func(args []*Term) *Term{}

func rewriteApp(name string, s *Sort, args []*Term) *Term {
	if f := appRewrites[name]; f != nil {
		return f(args)
	}
	return nil
}

func init() {
	b := bnd{bigZero, bi(255)}
	appBounds["xor8"] = b
	appRewrites["xor8"] = func(a []*Term) *Term {
		x, y := a[0], a[1]
		if x.isConst() && y.isConst() {
			return IntB(new(big.Int).Xor(x.k, y.k))
		}
		if x == y {
			return Int(0)
		}
		if x == Int(0) {
			return y
		}
		if y == Int(0) {
			return x
		}
		for q := 0; q < 2; q++ {
			if x.op == OApp && x.name == "xor8" {
				if x.args[0] == y {
					return x.args[1]
				}
				if x.args[1] == y {
					return x.args[0]
				}
			}
			x, y = y, x
		}
		if x.id > y.id {
			return mkTerm(OApp, SInt, "xor8", nil, nil, 0, []*Term{y, x})
		}
		return nil
	}
}

// ---- printing (debug) ----
func (t *Term) String() string {
	var sb strings.Builder
	t.str(&sb, 0)
	return sb.String()
}
func (t *Term) str(sb *strings.Builder, d int) {
	if d > 40 || sb.Len() > 20000 {
		sb.WriteString("...")
		return
	}
	list := func(n string) {
		sb.WriteString(n + "(")
		for i, a := range t.args {
			if i > 0 {
				sb.WriteString(", ")
			}
			a.str(sb, d+1)
		}
		sb.WriteString(")")
	}
	switch t.op {
	case OConst:
		sb.WriteString(t.k.String())
	case OTrue:
		sb.WriteString("true")
	case OFalse:
		sb.WriteString("false")
	case OApp, OBVar:
		if len(t.args) == 0 {
			sb.WriteString(t.name)
		} else {
			list(t.name)
		}
	case OLin:
		sb.WriteString("(")
		first := true
		for i, a := range t.args {
			c := t.coef[i]
			if c.Cmp(bigOne) == 0 {
				if !first {
					sb.WriteString(" + ")
				}
			} else if c.Cmp(bi(-1)) == 0 {
				sb.WriteString(" - ")
			} else {
				if !first {
					sb.WriteString(" + ")
				}
				sb.WriteString(c.String() + "*")
			}
			first = false
			a.str(sb, d+1)
		}
		if t.k.Sign() != 0 {
			fmt.Fprintf(sb, " + %s", t.k)
		}
		sb.WriteString(")")
	case OEq0:
		t.args[0].str(sb, d+1)
		sb.WriteString(" == 0")
	case OLe0:
		t.args[0].str(sb, d+1)
		sb.WriteString(" <= 0")
	case OEq:
		t.args[0].str(sb, d+1)
		sb.WriteString(" == ")
		t.args[1].str(sb, d+1)
	case ONot:
		sb.WriteString("!(")
		t.args[0].str(sb, d+1)
		sb.WriteString(")")
	case OLit:
		fmt.Fprintf(sb, "%q", t.name)
	case OSel:
		t.args[0].str(sb, d+1)
		sb.WriteString("." + t.args[0].sort.fields[t.idx].name)
	case ONth:
		t.args[0].str(sb, d+1)
		sb.WriteString("[")
		t.args[1].str(sb, d+1)
		sb.WriteString("]")
	case OForall:
		sb.WriteString("forall " + t.name + ". (")
		t.args[1].str(sb, d+1)
		sb.WriteString(")")
	default:
		n := map[Op]string{OMul: "mul", ODiv: "div", OMod: "mod", OIte: "ite", OAnd: "and", OOr: "or", OCat: "cat", OUnit: "unit", OExt: "ext", ORep: "rep", OUpd: "upd", OLen: "len", OMk: "mk"}[t.op]
		list(n)
	}
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
