package main

// Runtime values, heap objects and symbolic states.

import (
	"fmt"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Value interface{}

type VT struct{ t *Term } // integers, booleans, strings
type PE struct {
	f   int
	idx *Term
}
type VPtr struct {
	nilT *Term
	obj  *Obj
	path []PE
}
type VSlice struct {
	nilT          *Term
	obj           *Obj // holds (at path) an *ArrVal
	path          []PE
	off, len, cap *Term
}
type VStruct struct {
	typ  types.Type
	f    []Value
	base base
}
type ArrVal struct { // array value: seq or explicit cells
	elem  types.Type
	seq   *Term
	cells []Value
}
type VIface struct {
	nilT *Term
	dyn  types.Type
	val  Value
	id   *Term // symbolic identity when dyn == nil
}
type VFunc struct {
	nilT *Term
	fn   *ssa.Function
	bind []Value
	bi   *ssa.Builtin
	id   *Term
	typ  types.Type
}
type VMap struct {
	nilT *Term
	obj  *Obj
}
type VTuple []Value
type VOpaque struct{ what string }

type MapVal struct {
	typ    *types.Map
	base   *symBase // nil: empty
	writes []mapWrite
}
type mapWrite struct {
	key Value
	val Value // nil: deleted
}

type base interface {
	field(st *types.Struct, i int) Value
}
type symBase struct {
	name string
	args []*Term
}
type thawBase struct{ t *Term }

func (b *symBase) field(s *types.Struct, i int) Value {
	return symValue(s.Field(i).Type(), b.name+"."+s.Field(i).Name(), b.args)
}
func (b *thawBase) field(s *types.Struct, i int) Value {
	return thaw(Sel(b.t, i), s.Field(i).Type())
}

type Obj struct {
	id     int
	name   string
	typ    types.Type
	init   func() Value
	initV  Value
	frozen bool
	local  bool // allocated during execution
	depth  int
	args   []*Term // of a symbolic object
	ref    *Term
	refd   bool // a first-order reference to it exists
	dirty  bool // written after such a reference was made
	heap   *Obj // heap mode: the array this object is an element of (at ref)
}

var objSeq int
var symObjs = map[string]*Obj{}

func newObj(name string, typ types.Type) *Obj {
	objSeq++
	return &Obj{id: objSeq, name: name, typ: typ}
}
func argKey(args []*Term) string {
	s := ""
	for _, a := range args {
		s += fmt.Sprintf("@%d", a.id)
	}
	return s
}

// symObj: the object a symbolic pointer/slice designates (memoised by name)
func symObj(name string, args []*Term, typ types.Type, init func() Value) *Obj {
	key := name + argKey(args)
	if o, ok := symObjs[key]; ok {
		return o
	}
	o := newObj(name, typ)
	o.init = init
	o.args = append([]*Term{}, args...)
	symObjs[key] = o
	return o
}

func (s *VStruct) get(i int) Value {
	if s.f[i] == nil {
		s.f[i] = s.base.field(s.typ.Underlying().(*types.Struct), i)
	}
	return s.f[i]
}
func (s *VStruct) with(i int, v Value) *VStruct {
	n := &VStruct{typ: s.typ, base: s.base, f: append([]Value{}, s.f...)}
	n.f[i] = v
	return n
}

// ---- types ----
func isNamed(t types.Type, full string) bool {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		return n.Obj().Pkg() != nil && n.Obj().Pkg().Path()+"."+n.Obj().Name() == full || n.Obj().Pkg() == nil && n.Obj().Name() == full
	}
	return false
}
func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string {
		if p.Path() == "github.com/bifurcation/mint" {
			return ""
		}
		return p.Name()
	})
}

// scalarInt: types represented by a single Int term
func scalarType(t types.Type) *Sort {
	if isNamed(t, "time.Time") || isNamed(t, "math/big.Int") || isNamed(t, "sync.Mutex") || isNamed(t, "sync.RWMutex") || isNamed(t, "reflect.Value") {
		return SInt
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SBytes
		case u.Kind() == types.UntypedNil:
			return nil
		}
		return SInt
	case *types.Chan:
		return SInt
	}
	return nil
}

func intBounds(t types.Type) (lo, hi *big.Int) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, nil
	}
	u := func(n uint) (*big.Int, *big.Int) {
		return bigZero, new(big.Int).Sub(new(big.Int).Lsh(bigOne, n), bigOne)
	}
	s := func(n uint) (*big.Int, *big.Int) {
		h := new(big.Int).Lsh(bigOne, n-1)
		return new(big.Int).Neg(h), new(big.Int).Sub(h, bigOne)
	}
	switch b.Kind() {
	case types.Uint8:
		return u(8)
	case types.Uint16:
		return u(16)
	case types.Uint32:
		return u(32)
	case types.Uint64, types.Uint, types.Uintptr:
		return u(64)
	case types.Int8:
		return s(8)
	case types.Int16:
		return s(16)
	case types.Int32:
		return s(32)
	case types.Int, types.Int64, types.UntypedInt:
		return s(64)
	}
	return nil, nil
}
func intBits(t types.Type) (n uint, signed, ok bool) {
	b, k := t.Underlying().(*types.Basic)
	if !k {
		return
	}
	switch b.Kind() {
	case types.Uint8:
		return 8, false, true
	case types.Uint16:
		return 16, false, true
	case types.Uint32:
		return 32, false, true
	case types.Uint64, types.Uint, types.Uintptr:
		return 64, false, true
	case types.Int8:
		return 8, true, true
	case types.Int16:
		return 16, true, true
	case types.Int32:
		return 32, true, true
	}
	return
}

var dataSorts = map[string]*Sort{}

// sortOf: SMT sort of a frozen value of Go type t
func sortOf(t types.Type) *Sort {
	if s := scalarType(t); s != nil {
		return s
	}
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return seqSortOf(u.Elem())
	case *types.Array:
		return seqSortOf(u.Elem())
	case *types.Struct:
		n := typeName(t)
		if s, ok := dataSorts[n]; ok {
			return s
		}
		s := &Sort{name: "D_" + n}
		dataSorts[n] = s
		for i := 0; i < u.NumFields(); i++ {
			f := u.Field(i)
			fs := sortOf(f.Type())
			s.fields = append(s.fields, SField{f.Name(), fs})
			if fs == SInt {
				lo, hi := intBounds(f.Type())
				if lo != nil {
					appBounds["sel "+s.name+"."+f.Name()] = bnd{lo, hi}
				}
			}
		}
		if u.NumFields() == 0 {
			s.fields = append(s.fields, SField{"_", SInt})
		}
		return s
	}
	return SInt // pointers, interfaces, maps, functions: references
}
func seqSortOf(elem types.Type) *Sort {
	if b, ok := elem.Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
		return SBytes
	}
	if scalarType(elem) == SInt {
		lo, hi := intBounds(elem)
		if lo != nil {
			b := elem.Underlying().(*types.Basic)
			n := "Seq_" + types.Typ[b.Kind()].Name()
			s := sortTab[n]
			if s == nil {
				s = &Sort{name: n, elem: SInt}
				sortTab[n] = s
				seqElemBounds[n] = bnd{lo, hi}
			}
			return s
		}
	}
	return SSeq(sortOf(elem))
}

// refs: frozen references to values that have no first-order form
var refTab = map[*Term]Value{}
var refSeq int
var refByPtr = map[string]*Term{}

// A reference frozen inside a loop is a function of the iterations its object depends on.
func refTerm(key string, v Value, args ...*Term) *Term {
	if t, ok := refByPtr[key]; ok {
		return t
	}
	refSeq++
	t := Sym(fmt.Sprintf("ref#%d", refSeq), SInt, bigOne, nil, args...)
	refTab[t] = v
	refByPtr[key] = t
	return t
}

func objRef(st *State, o *Obj, key, path string, v Value) *Term {
	if !o.local && o.args != nil {
		k := "sym:" + o.name + path + argKey(o.args)
		if t, ok := refByPtr[k]; ok {
			return t
		}
		t := Sym("ref:"+o.name+path, SInt, bigOne, nil, o.args...)
		refTab[t] = v
		refByPtr[k] = t
		return t
	}
	var args []*Term
	if o.local {
		args = st.loopCtx[:min(o.depth, len(st.loopCtx))]
		o.refd = true
		if o.typ != nil && heapObj(o.typ) != nil {
			panic(unsupported("heap mode: reference to a new " + typeName(o.typ)))
		}
	}
	return refTerm(key, v, args...)
}

func freeze(st *State, v Value, t types.Type) *Term {
	switch v := v.(type) {
	case VT:
		return v.t
	case *VStruct:
		s := sortOf(v.typ)
		if tb, ok := v.base.(*thawBase); ok {
			clean := true
			for _, f := range v.f {
				if f != nil {
					clean = false
				}
			}
			if clean {
				return tb.t
			}
		}
		us := v.typ.Underlying().(*types.Struct)
		var as []*Term
		for i := 0; i < us.NumFields(); i++ {
			as = append(as, freeze(st, v.get(i), us.Field(i).Type()))
		}
		if len(as) == 0 {
			as = append(as, Int(0))
		}
		return Mk(s, as...)
	case *ArrVal:
		return arrSeq(st, v)
	case VSlice:
		return sliceSeq(st, v, t)
	case VPtr:
		if v.nilT == True {
			return Int(0)
		}
		if v.obj.ref != nil && len(v.path) == 0 {
			return v.obj.ref
		}
		r := objRef(st, v.obj, fmt.Sprintf("ptr%d%v", v.obj.id, pathKey(v.path)), pathKey(v.path), VPtr{False, v.obj, v.path})
		return Ite(v.nilT, Int(0), r)
	case *VIface:
		if v.nilT == True {
			return Int(0)
		}
		if v.dyn == nil {
			return Ite(v.nilT, Int(0), v.id)
		}
		// concrete dynamic type: tag/payload pairs
		var key string
		switch w := v.val.(type) {
		case VT:
			key = fmt.Sprintf("if:%s:%d", typeName(v.dyn), w.t.id)
		case VPtr:
			if w.obj != nil {
				key = fmt.Sprintf("if:%s:p%d%s", typeName(v.dyn), w.obj.id, pathKey(w.path))
				return refTerm(key, v, objRef(st, w.obj, fmt.Sprintf("ptr%d%v", w.obj.id, pathKey(w.path)), pathKey(w.path), VPtr{False, w.obj, w.path}))
			} else {
				key = "if:" + typeName(v.dyn) + ":nil"
			}
		default:
			refSeq++
			key = fmt.Sprintf("if:anon%d", refSeq)
		}
		if w, ok := v.val.(VT); ok {
			return refTerm(key, v, w.t)
		}
		return refTerm(key, v, st.loopCtx...)
	case VFunc:
		if v.nilT == True {
			return Int(0)
		}
		if v.id != nil {
			return Ite(v.nilT, Int(0), v.id)
		}
		if len(v.bind) == 0 {
			return refTerm(fmt.Sprintf("fn:%p:%d", v.fn, len(v.bind)), v)
		}
		return refTerm(fmt.Sprintf("fn:%p:%d", v.fn, len(v.bind)), v, st.loopCtx...)
	case VMap:
		if v.nilT == True {
			return Int(0)
		}
		return Ite(v.nilT, Int(0), objRef(st, v.obj, fmt.Sprintf("map%d", v.obj.id), "", v))
	}
	panic(unsupported(fmt.Sprintf("freeze %T", v)))
}

func pathKey(p []PE) string {
	s := ""
	for _, e := range p {
		if e.idx != nil {
			s += fmt.Sprintf("[%d]", e.idx.id)
		} else {
			s += fmt.Sprintf(".%d", e.f)
		}
	}
	return s
}

func thaw(t *Term, typ types.Type) Value {
	if s := scalarType(typ); s != nil {
		return VT{t}
	}
	switch u := typ.Underlying().(type) {
	case *types.Slice:
		o := symObj(fmt.Sprintf("thaw%d", t.id), nil, nil, func() Value { return &ArrVal{elem: u.Elem(), seq: t} })
		o.frozen = true
		l := Len(t)
		return VSlice{Eq(l, Int(0)), o, nil, Int(0), l, l}
	case *types.Array:
		return &ArrVal{elem: u.Elem(), seq: t}
	case *types.Struct:
		return &VStruct{typ: typ, f: make([]Value, u.NumFields()), base: &thawBase{t}}
	}
	// reference
	if v, ok := refTab[t]; ok {
		return v
	}
	if t == Int(0) {
		return zero(typ)
	}
	return refValue(t, typ)
}

// refValue: the value of reference type typ designated by integer term t
func refValue(t *Term, typ types.Type) Value {
	nilT := Eq(t, Int(0))
	switch u := typ.Underlying().(type) {
	case *types.Pointer:
		nm := "H." + typeName(u.Elem())
		o := symObj(nm, []*Term{t}, u.Elem(), func() Value { return symValue(u.Elem(), nm, []*Term{t}) })
		o.ref = t
		o.heap = heapObj(u.Elem())
		return VPtr{nilT, o, nil}
	case *types.Interface:
		return ifaceValue(t, nilT, typ)
	case *types.Signature:
		return VFunc{nilT: nilT, id: t, typ: typ}
	case *types.Map:
		o := symObj("HM."+typeName(typ), []*Term{t}, typ, func() Value { return &MapVal{typ: u, base: &symBase{"HM." + typeName(typ), []*Term{t}}} })
		return VMap{nilT, o}
	}
	panic(unsupported("refValue " + typ.String()))
}

// devirt maps interface types to the dynamic type symbolic values of it are assumed to have
var devirt = map[string]types.Type{}

func ifaceValue(id, nilT *Term, typ types.Type) Value {
	if d, ok := devirt[typeName(typ)]; ok {
		return &VIface{nilT: nilT, dyn: d, val: symValue(d, "pay:"+typeName(d), []*Term{id})}
	}
	return &VIface{nilT: nilT, id: id}
}

var noNil = map[string]bool{} // symbolic names known non-nil

func symValue(typ types.Type, name string, args []*Term) Value {
	if s := scalarType(typ); s != nil {
		lo, hi := intBounds(typ)
		return VT{Sym(name, s, lo, hi, args...)}
	}
	nilOf := func() *Term {
		return Sym(name+"=nil", SBool, nil, nil, args...)
	}
	switch u := typ.Underlying().(type) {
	case *types.Slice:
		c := Sym(name, seqSortOf(u.Elem()), nil, nil, args...)
		o := symObj(name+"[]", args, nil, func() Value { return &ArrVal{elem: u.Elem(), seq: c} })
		l := Len(c)
		return VSlice{And(nilOf(), Eq(l, Int(0))), o, nil, Int(0), l, l}
	case *types.Array:
		if u.Len() <= 64 && scalarType(u.Elem()) == nil {
			var cs []Value
			for i := int64(0); i < u.Len(); i++ {
				cs = append(cs, symValue(u.Elem(), fmt.Sprintf("%s[%d]", name, i), args))
			}
			return &ArrVal{elem: u.Elem(), cells: cs}
		}
		n := u.Len()
		appLen[name] = func([]*Term) *Term { return Int(n) }
		return &ArrVal{elem: u.Elem(), seq: Sym(name, seqSortOf(u.Elem()), nil, nil, args...)}
	case *types.Struct:
		return &VStruct{typ: typ, f: make([]Value, u.NumFields()), base: &symBase{name, args}}
	case *types.Pointer:
		if heapObj(u.Elem()) != nil {
			return refValue(Sym(name, SInt, bigZero, nil, args...), typ)
		}
		o := symObj("*"+name, args, u.Elem(), func() Value { return symValue(u.Elem(), name, args) })
		return VPtr{nilOf(), o, nil}
	case *types.Interface:
		return ifaceValue(Sym(name, SInt, bigOne, nil, args...), nilOf(), typ)
	case *types.Signature:
		return VFunc{nilT: nilOf(), id: Sym(name, SInt, bigOne, nil, args...), typ: typ}
	case *types.Map:
		o := symObj("map:"+name, args, typ, func() Value { return &MapVal{typ: u, base: &symBase{name, args}} })
		return VMap{nilOf(), o}
	case *types.Tuple:
		var r VTuple
		for i := 0; i < u.Len(); i++ {
			r = append(r, symValue(u.At(i).Type(), fmt.Sprintf("%s.%d", name, i), args))
		}
		return r
	}
	panic(unsupported("symValue " + typ.String()))
}

func zero(typ types.Type) Value {
	if s := scalarType(typ); s != nil {
		switch s {
		case SInt:
			return VT{Int(0)}
		case SBool:
			return VT{False}
		}
		return VT{Empty(SBytes)}
	}
	switch u := typ.Underlying().(type) {
	case *types.Basic: // untyped nil
		return VPtr{nilT: True}
	case *types.Slice:
		return VSlice{nilT: True, off: Int(0), len: Int(0), cap: Int(0)}
	case *types.Array:
		return zeroArr(u.Elem(), Int(u.Len()))
	case *types.Struct:
		v := &VStruct{typ: typ, f: make([]Value, u.NumFields())}
		for i := range v.f {
			v.f[i] = zero(u.Field(i).Type())
		}
		return v
	case *types.Pointer:
		return VPtr{nilT: True}
	case *types.Interface:
		return &VIface{nilT: True}
	case *types.Signature:
		return VFunc{nilT: True, typ: typ}
	case *types.Map:
		return VMap{nilT: True}
	case *types.Tuple:
		var r VTuple
		for i := 0; i < u.Len(); i++ {
			r = append(r, zero(u.At(i).Type()))
		}
		return r
	}
	panic(unsupported("zero " + typ.String()))
}

func zeroArr(elem types.Type, n *Term) *ArrVal {
	if scalarType(elem) == nil {
		if c, ok := n.constInt(); ok && c <= 64 {
			a := &ArrVal{elem: elem, cells: []Value{}}
			for i := 0; i < c; i++ {
				a.cells = append(a.cells, zero(elem))
			}
			return a
		}
	}
	z := freeze(nil, zero(elem), elem)
	return &ArrVal{elem: elem, seq: Rep(seqSortOf(elem), z, n)}
}

type unsup struct{ msg string }

func unsupported(s string) unsup { return unsup{s} }

// ---- state ----
type State struct {
	heap    map[*Obj]Value
	pc      []*Term
	facts   []*Term // linear <=0 facts (terms), derived from pc
	rb      map[*Term]bnd
	splits  int
	loopCtx []*Term
	events  []Event
	trace   []string
	bad     bool
	panicV  Value
	recov   bool
}
type Event struct {
	name string
	args []Value
}

func newState() *State {
	return &State{heap: map[*Obj]Value{}, rb: map[*Term]bnd{}}
}
func (s *State) clone() *State {
	n := &State{heap: make(map[*Obj]Value, len(s.heap)+4), pc: s.pc[:len(s.pc):len(s.pc)], facts: s.facts[:len(s.facts):len(s.facts)],
		rb: make(map[*Term]bnd, len(s.rb)), splits: s.splits, loopCtx: s.loopCtx, events: s.events[:len(s.events):len(s.events)], trace: s.trace[:len(s.trace):len(s.trace)], bad: s.bad, panicV: s.panicV, recov: s.recov}
	for k, v := range s.heap {
		n.heap[k] = v
	}
	for k, v := range s.rb {
		n.rb[k] = v
	}
	return n
}

func (s *State) read(o *Obj) Value {
	if o.heap != nil {
		return s.heapRead(o)
	}
	if v, ok := s.heap[o]; ok {
		return v
	}
	if o.initV == nil {
		if o.init == nil {
			panic(unsupported("object without initial value " + o.name))
		}
		o.initV = o.init()
	}
	return o.initV
}

func (s *State) assume(c *Term) {
	if c == True {
		return
	}
	if c == False {
		s.bad = true
	}
	if c.op == OAnd {
		for _, a := range c.args {
			s.assume(a)
		}
		return
	}
	for _, p := range s.pc {
		if p == c {
			return
		}
	}
	if c.op == OOr {
		if r := s.reduceOr(c, false); r != c {
			s.assume(r)
			return
		}
	}
	s.pc = append(s.pc, c)
	if c.op != OOr && c.op != OForall {
		// unit propagation
		nc := Not(c)
		for i := 0; i < len(s.pc); i++ {
			p := s.pc[i]
			if p.op != OOr {
				continue
			}
			hit, sat := false, false
			for _, a := range p.args {
				if a == nc {
					hit = true
				}
				if a == c {
					sat = true
				}
			}
			if !hit || sat {
				continue
			}
			var rest []*Term
			for _, a := range p.args {
				if a != nc {
					rest = append(rest, a)
				}
			}
			r := Or(rest...)
			if r.op != OOr {
				s.assume(r)
			}
		}
	}
	switch c.op {
	case OLe0:
		s.addFact(c.args[0])
	case OEq0:
		s.addFact(c.args[0])
		s.addFact(MulK(c.args[0], bi(-1)))
	}
}

// reduceOr drops the disjuncts the path condition refutes
func (s *State) reduceOr(c *Term, deep bool) *Term {
	var rest []*Term
	for _, a := range c.args {
		r := 0
		if deep {
			r = s.light(a)
		} else {
			na := Not(a)
			for _, p := range s.pc {
				if p == na {
					r = -1
					break
				}
			}
		}
		if r == 1 {
			return True
		}
		if r != -1 {
			rest = append(rest, a)
		}
	}
	if len(rest) == len(c.args) {
		return c
	}
	return Or(rest...)
}

// saturate: clauses that the rest of the path condition makes unit
func (s *State) saturate() {
	for round := 0; round < 4; round++ {
		n := len(s.pc)
		for i := 0; i < n; i++ {
			p := s.pc[i]
			if p.op == OOr {
				if r := s.reduceOr(p, true); r != p && r.op != OOr {
					s.assume(r)
				}
			}
		}
		if len(s.pc) == n || s.bad {
			return
		}
	}
}
func (s *State) addFact(l *Term) {
	n := toLin(l)
	if len(n.at) == 1 {
		// c*x + k <= 0
		b, ok := s.rb[n.at[0]]
		if !ok {
			b.lo, b.hi = n.at[0].bounds()
		}
		c := n.co[0]
		if c.Sign() > 0 {
			h := floorDiv(new(big.Int).Neg(n.k), c)
			if b.hi == nil || h.Cmp(b.hi) < 0 {
				b.hi = h
			}
		} else {
			cc := new(big.Int).Neg(c)
			// x >= k/cc (ceil)
			h := new(big.Int).Neg(floorDiv(new(big.Int).Neg(n.k), cc))
			if b.lo == nil || h.Cmp(b.lo) > 0 {
				b.lo = h
			}
		}
		s.rb[n.at[0]] = b
		return
	}
	s.facts = append(s.facts, l)
}

// lbounds: interval of a linear form under the path's refined bounds
func (s *State) lbounds(l lin) (lo, hi *big.Int) {
	lo, hi = new(big.Int).Set(l.k), new(big.Int).Set(l.k)
	for i, a := range l.at {
		var al, ah *big.Int
		if b, ok := s.rb[a]; ok {
			al, ah = b.lo, b.hi
		} else {
			al, ah = a.bounds()
			if a.op == OMod || a.op == ODiv {
				il, ih := s.lbounds(toLin(a.args[0]))
				m := a.args[1].k
				if a.op == ODiv {
					if il != nil {
						al = floorDiv(il, m)
					}
					if ih != nil {
						ah = floorDiv(ih, m)
					}
				} else if il != nil && ih != nil && il.Sign() >= 0 && ih.Cmp(m) < 0 {
					al, ah = il, ih
				}
			}
		}
		c := l.co[i]
		if c.Sign() < 0 {
			al, ah = ah, al
		}
		if lo != nil && al != nil {
			lo.Add(lo, new(big.Int).Mul(c, al))
		} else {
			lo = nil
		}
		if hi != nil && ah != nil {
			hi.Add(hi, new(big.Int).Mul(c, ah))
		} else {
			hi = nil
		}
	}
	return
}

func (s *State) le0(l *Term) bool {
	n := toLin(l)
	if _, hi := s.lbounds(n); hi != nil && hi.Sign() <= 0 {
		return true
	}
	share := func(a, b lin) bool {
		i, j := 0, 0
		for i < len(a.at) && j < len(b.at) {
			if a.at[i] == b.at[j] {
				if a.co[i].Sign() == b.co[j].Sign() {
					return true
				}
				i++
				j++
			} else if a.at[i].id < b.at[j].id {
				i++
			} else {
				j++
			}
		}
		return false
	}
	var second []lin
	for _, f := range s.facts {
		lf := toLin(f)
		if !share(n, lf) {
			continue
		}
		d := n.add(lf, bi(-1))
		if _, hi := s.lbounds(d); hi != nil && hi.Sign() <= 0 {
			return true
		}
		if len(second) < 12 {
			second = append(second, d)
		}
	}
	for _, d := range second {
		for _, f := range s.facts {
			lf := toLin(f)
			if !share(d, lf) {
				continue
			}
			if _, hi := s.lbounds(d.add(lf, bi(-1))); hi != nil && hi.Sign() <= 0 {
				return true
			}
		}
	}
	return false
}

// light decision procedure
func (s *State) light(c *Term) int {
	switch c {
	case True:
		return 1
	case False:
		return -1
	}
	nc := Not(c)
	for _, p := range s.pc {
		if p == c {
			return 1
		}
		if p == nc {
			return -1
		}
	}
	switch c.op {
	case OAnd:
		all := true
		for _, a := range c.args {
			switch s.light(a) {
			case -1:
				return -1
			case 0:
				all = false
			}
		}
		if all {
			return 1
		}
	case OOr:
		all := true
		for _, a := range c.args {
			switch s.light(a) {
			case 1:
				return 1
			case 0:
				all = false
			}
		}
		if all {
			return -1
		}
	case ONot:
		return -s.light(c.args[0])
	case OLe0:
		if s.le0(c.args[0]) {
			return 1
		}
		if s.le0(Sub(Int(1), c.args[0])) {
			return -1
		}
	case OEq0:
		l := c.args[0]
		m := MulK(l, bi(-1))
		if s.le0(l) && s.le0(m) {
			return 1
		}
		if s.le0(AddI(l, 1)) || s.le0(AddI(m, 1)) {
			return -1
		}
	case OEq:
		a, b := c.args[0], c.args[1]
		if a.sort.elem != nil {
			if s.light(Eq(Len(a), Len(b))) == -1 {
				return -1
			}
		}
	}
	return 0
}

var feasCache = map[string]bool{}

// decide: 1 / -1 / 0 using the light procedure then ground SMT
func (s *State) decide(c *Term) int {
	if r := s.light(c); r != 0 {
		return r
	}
	if hasForall(c) {
		return 0
	}
	key := func(x *Term) string {
		l := 0
		if len(s.pc) > 0 {
			l = s.pc[len(s.pc)-1].id
		}
		return fmt.Sprintf("%d/%d/%d/%d", len(s.pc), l, pcHash(s.pc), x.id)
	}
	unsat := func(x *Term) bool {
		k := key(x)
		if r, ok := feasCache[k]; ok {
			return r
		}
		r := quickUnsat(append(relevant(s.pc, x), x))
		feasCache[k] = r
		return r
	}
	if unsat(c) {
		return -1
	}
	if unsat(Not(c)) {
		return 1
	}
	return 0
}

func pcHash(pc []*Term) uint64 {
	h := uint64(1469598103934665603)
	for _, p := range pc {
		h = (h ^ uint64(p.id)) * 1099511628211
	}
	return h
}

func hasForall(t *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.op == OForall {
			return true
		}
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

// atoms of a term used for relevance
var atomMemo = map[*Term][]*Term{}

func atomsOf(t *Term) []*Term {
	if r, ok := atomMemo[t]; ok {
		return r
	}
	set := map[*Term]bool{}
	var f func(t *Term)
	seen := map[*Term]bool{}
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp && (len(t.args) == 0 || t.sort != SInt && t.sort != SBool) {
			set[t] = true
		}
		for _, a := range t.args {
			f(a)
		}
	}
	f(t)
	var out []*Term
	for a := range set {
		out = append(out, a)
	}
	sortTerms(out)
	atomMemo[t] = out
	return out
}

// relevant: path facts connected to x by shared symbols
func relevant(pc []*Term, x *Term) []*Term {
	have := map[*Term]bool{}
	for _, a := range atomsOf(x) {
		have[a] = true
	}
	used := make([]bool, len(pc))
	var out []*Term
	for ch := true; ch; {
		ch = false
		for i, p := range pc {
			if used[i] {
				continue
			}
			as := atomsOf(p)
			hit := len(as) == 0
			for _, a := range as {
				if have[a] {
					hit = true
					break
				}
			}
			if hit {
				used[i] = true
				ch = true
				for _, a := range as {
					have[a] = true
				}
			}
		}
	}
	for i, p := range pc {
		if used[i] {
			out = append(out, p)
		}
	}
	return out
}

// ---- arrays and slices ----
func arrSeq(st *State, a *ArrVal) *Term {
	if a.seq != nil {
		return a.seq
	}
	s := seqSortOf(a.elem)
	var ps []*Term
	for _, c := range a.cells {
		ps = append(ps, Unit(s, freeze(st, c, a.elem)))
	}
	return Cat(s, ps...)
}
func arrLen(a *ArrVal) *Term {
	if a.seq != nil {
		return Len(a.seq)
	}
	return Int(int64(len(a.cells)))
}

func (s *State) arr(v VSlice) *ArrVal {
	if v.obj == nil {
		return nil
	}
	x := s.walk(s.read(v.obj), v.path)
	a, ok := x.(*ArrVal)
	if !ok {
		panic(unsupported(fmt.Sprintf("slice backing %T", x)))
	}
	return a
}

func sliceSeq(st *State, v VSlice, typ types.Type) *Term {
	if v.obj == nil {
		if typ == nil {
			return Empty(SBytes)
		}
		return Empty(seqSortOf(typ.Underlying().(*types.Slice).Elem()))
	}
	var a *ArrVal
	if st == nil {
		a = v.obj.initV.(*ArrVal)
	} else {
		a = st.arr(v)
	}
	if a.cells != nil {
		o, ok1 := v.off.constInt()
		n, ok2 := v.len.constInt()
		if ok1 && ok2 {
			return arrSeq(st, &ArrVal{elem: a.elem, cells: a.cells[o : o+n : o+n]})
		}
	}
	var d decideFn
	if st != nil {
		d = st.light
	}
	return extCtx(arrSeq(st, a), v.off, v.len, d)
}

// cellsOf: explicit elements of a slice, if known
func cellsOf(st *State, v VSlice) ([]Value, bool) {
	if v.obj == nil {
		return nil, true
	}
	a := st.arr(v)
	o, ok1 := v.off.constInt()
	n, ok2 := v.len.constInt()
	if !ok1 || !ok2 {
		return nil, false
	}
	if a.cells != nil {
		return a.cells[o : o+n], true
	}
	if n <= 64 {
		var r []Value
		for i := 0; i < n; i++ {
			r = append(r, thaw(nthCtx(a.seq, Int(int64(o+i)), st.light), a.elem))
		}
		return r, true
	}
	return nil, false
}

// walk into a value along a path
func (s *State) walk(v Value, path []PE) Value {
	for _, e := range path {
		switch x := v.(type) {
		case *VStruct:
			v = x.get(e.f)
		case *ArrVal:
			if x.cells != nil {
				if c, ok := e.idx.constInt(); ok {
					v = x.cells[c]
					continue
				}
				v = thaw(nthCtx(arrSeq(s, x), e.idx, s.light), x.elem)
				continue
			}
			v = thaw(nthCtx(x.seq, e.idx, s.light), x.elem)
		default:
			panic(unsupported(fmt.Sprintf("walk %T", v)))
		}
	}
	return v
}
func (s *State) update(v Value, path []PE, nv Value) Value {
	if len(path) == 0 {
		return nv
	}
	e := path[0]
	switch x := v.(type) {
	case *VStruct:
		return x.with(e.f, s.update(x.get(e.f), path[1:], nv))
	case *ArrVal:
		if x.cells != nil {
			if c, ok := e.idx.constInt(); ok {
				n := &ArrVal{elem: x.elem, cells: append([]Value{}, x.cells...)}
				n.cells[c] = s.update(x.cells[c], path[1:], nv)
				return n
			}
		}
		seq := arrSeq(s, x)
		old := thaw(nthCtx(seq, e.idx, s.light), x.elem)
		return &ArrVal{elem: x.elem, seq: updCtx(seq, e.idx, freeze(s, s.update(old, path[1:], nv), x.elem), s.light)}
	}
	panic(unsupported(fmt.Sprintf("update %T", v)))
}

func (s *State) load(p VPtr) Value {
	if p.obj == nil {
		panic(infeasible{})
	}
	return s.walk(s.read(p.obj), p.path)
}

type infeasible struct{}

func (s *State) store(p VPtr, v Value) {
	if p.obj == nil {
		panic(infeasible{})
	}
	if p.obj.frozen {
		panic(unsupported("write to frozen object " + p.obj.name))
	}
	if p.obj.heap != nil {
		s.heapStore(p.obj, p.path, v)
		return
	}
	if p.obj.refd {
		p.obj.dirty = true
	}
	s.heap[p.obj] = s.update(s.read(p.obj), p.path, v)
}

func (s *State) alloc(name string, typ types.Type, v Value) *Obj {
	o := newObj(name, typ)
	o.local = true
	o.depth = len(s.loopCtx)
	o.initV = v
	s.heap[o] = v
	return o
}

// equality of values as a term
func (s *State) eq(a, b Value, typ types.Type) *Term {
	switch x := a.(type) {
	case VT:
		if y, ok := b.(VT); ok {
			return Eq(x.t, y.t)
		}
	case *VStruct:
		y, ok := b.(*VStruct)
		if !ok {
			break
		}
		if x == y {
			return True
		}
		us := x.typ.Underlying().(*types.Struct)
		if xb, ok := x.base.(*thawBase); ok {
			if yb, ok := y.base.(*thawBase); ok && xb.t == yb.t && allNil(x.f) && allNil(y.f) {
				return True
			}
		}
		var cs []*Term
		for i := 0; i < us.NumFields(); i++ {
			if us.Field(i).Name() == "_" {
				continue
			}
			cs = append(cs, s.eq(x.get(i), y.get(i), us.Field(i).Type()))
		}
		return And(cs...)
	case *ArrVal:
		y, ok := b.(*ArrVal)
		if ok {
			return Eq(arrSeq(s, x), arrSeq(s, y))
		}
	case VSlice: // content equality (specifications) or comparison with nil
		y, ok := b.(VSlice)
		if ok {
			if y.nilT == True && y.obj == nil {
				return x.nilT
			}
			if x.nilT == True && x.obj == nil {
				return y.nilT
			}
			if x.obj == y.obj && pathKey(x.path) == pathKey(y.path) && x.off == y.off && x.len == y.len {
				return True
			}
			ax, ay := s.arr(x), s.arr(y)
			if ax.cells != nil || ay.cells != nil {
				cx, ok1 := cellsOf(s, x)
				cy, ok2 := cellsOf(s, y)
				if ok1 && ok2 {
					if len(cx) != len(cy) {
						return False
					}
					var cs []*Term
					for i := range cx {
						cs = append(cs, s.eq(cx[i], cy[i], ax.elem))
					}
					return And(cs...)
				}
			}
			return Eq(sliceSeq(s, x, typ), sliceSeq(s, y, typ))
		}
	case VPtr:
		y, ok := b.(VPtr)
		if ok {
			if y.nilT == True {
				return x.nilT
			}
			if x.nilT == True {
				return y.nilT
			}
			var same *Term
			switch {
			case x.obj == y.obj && pathKey(x.path) == pathKey(y.path):
				same = True
			case x.obj.ref != nil && y.obj.ref != nil && len(x.path) == 0 && len(y.path) == 0:
				same = Eq(x.obj.ref, y.obj.ref)
			case x.obj.ref != nil || y.obj.ref != nil || len(x.obj.args) > 0 || len(y.obj.args) > 0:
				same = Eq(freeze(s, VPtr{False, x.obj, x.path}, nil), freeze(s, VPtr{False, y.obj, y.path}, nil))
			default:
				same = False // distinct objects (non-aliasing assumption for symbolic ones)
			}
			return Or(And(x.nilT, y.nilT), And(Not(x.nilT), Not(y.nilT), same))
		}
	case *VIface:
		y, ok := b.(*VIface)
		if ok {
			return s.ifaceEq(x, y)
		}
	case VFunc:
		if y, ok := b.(VFunc); ok {
			if y.nilT == True {
				return x.nilT
			}
			if x.nilT == True {
				return y.nilT
			}
			if x.id != nil && y.id != nil {
				return Eq(Ite(x.nilT, Int(0), x.id), Ite(y.nilT, Int(0), y.id))
			}
			return Bool(x.fn == y.fn)
		}
	case VMap:
		if y, ok := b.(VMap); ok {
			if y.nilT == True {
				return x.nilT
			}
			if x.nilT == True {
				return y.nilT
			}
			return Or(And(x.nilT, y.nilT), And(Not(x.nilT), Not(y.nilT), Bool(x.obj == y.obj)))
		}
	}
	panic(unsupported(fmt.Sprintf("equality %T %T", a, b)))
}
func allNil(vs []Value) bool {
	for _, v := range vs {
		if v != nil {
			return false
		}
	}
	return true
}

func typeTag(t types.Type) *Term {
	n := typeName(t)
	if x, ok := tagTab[n]; ok {
		return x
	}
	x := Int(int64(1000 + len(tagTab)))
	tagTab[n] = x
	tagType[x] = t
	return x
}

var tagTab = map[string]*Term{}
var tagType = map[*Term]types.Type{}

func dynTag(v *VIface) *Term {
	if v.dyn != nil {
		return typeTag(v.dyn)
	}
	return App("dyn", SInt, v.id)
}
func (s *State) payload(v *VIface, t types.Type) Value {
	if v.dyn != nil {
		return v.val
	}
	return symValue(t, "pay:"+typeName(t), []*Term{v.id})
}

func (s *State) ifaceEq(x, y *VIface) *Term {
	if y.nilT == True {
		return x.nilT
	}
	if x.nilT == True {
		return y.nilT
	}
	var same *Term
	switch {
	case x == y:
		same = True
	case x.dyn == nil && y.dyn == nil:
		same = Eq(x.id, y.id)
	case x.dyn != nil && y.dyn != nil:
		if !types.Identical(x.dyn, y.dyn) {
			same = False
		} else {
			same = s.eq(x.val, y.val, x.dyn)
		}
	default:
		if x.dyn == nil {
			x, y = y, x
		}
		t := x.dyn
		if _, isPtr := t.Underlying().(*types.Pointer); isPtr {
			same = False // a symbolic interface never holds a locally known pointer (assumption)
		} else {
			same = And(Eq(App("dyn", SInt, y.id), typeTag(t)), s.eq(x.val, s.payload(y, t), t))
		}
	}
	return Or(And(x.nilT, y.nilT), And(Not(x.nilT), Not(y.nilT), same))
}

func valStr(st *State, v Value) string {
	switch x := v.(type) {
	case VT:
		return x.t.String()
	case *VStruct:
		var p []string
		us := x.typ.Underlying().(*types.Struct)
		for i, f := range x.f {
			if f != nil {
				p = append(p, us.Field(i).Name()+":"+valStr(st, f))
			}
		}
		return "{" + strings.Join(p, " ") + "}"
	case VSlice:
		if x.obj == nil {
			return "nil[]"
		}
		a := st.arr(x)
		if a.cells != nil {
			cs, _ := cellsOf(st, x)
			var p []string
			for _, c := range cs {
				p = append(p, valStr(st, c))
			}
			return "[" + strings.Join(p, ", ") + "]"
		}
		return "slice(" + sliceSeq(st, x, nil).String() + ")"
	case VPtr:
		if x.nilT == True {
			return "nil"
		}
		return fmt.Sprintf("&%s%s", x.obj.name, pathKey(x.path))
	case *VIface:
		if x.nilT == True {
			return "nil"
		}
		if x.dyn != nil {
			return typeName(x.dyn) + "(" + valStr(st, x.val) + ")"
		}
		return "iface:" + x.id.String()
	case *ArrVal:
		return "arr(" + arrSeq(st, x).String() + ")"
	case VTuple:
		var p []string
		for _, c := range x {
			p = append(p, valStr(st, c))
		}
		return "(" + strings.Join(p, ", ") + ")"
	}
	return fmt.Sprintf("%T", v)
}
