package main

// Assumed contracts of the wire codecs: package syntax's Marshal/Unmarshal, extension lists, and the
// handshake message source. Used by the state-machine proofs; the codecs themselves have their own contracts.

import (
	"math/big"
	"go/token"
	"go/types"
	"reflect"
	"strconv"
	"strings"
)

var ghostReaderT types.Type

// a record layer seen from above: what was written (payloads, whether a record was neither application data nor
// small enough), what was read (all application data, and that of the last record), the write epoch
var ghostRecordsT types.Type

// tagInts reads a tls:"head=h,min=m,max=x" tag
func tagInts(tag string) (head, min, max int64, ok bool) {
	t := reflect.StructTag(tag).Get("tls")
	if t == "" {
		return
	}
	max = -1
	for _, p := range strings.Split(t, ",") {
		k, v, has := strings.Cut(p, "=")
		if !has {
			continue
		}
		n, err := strconv.ParseInt(v, 10, 64)
		if err != nil {
			continue
		}
		switch k {
		case "head":
			head, ok = n, true
		case "min":
			min = n
		case "max":
			max = n
		}
	}
	return
}

// encSize: the encoded size of one element of type t, 0 when it varies
func encSize(t types.Type) int64 {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if nb, _, ok := intBits(t); ok {
			return int64(nb / 8)
		}
	case *types.Array:
		return u.Len() * encSize(u.Elem())
	}
	return 0
}

// decodeFacts: what a successful decode says about the lengths of the vectors in v
func decodeFacts(st *State, v Value, t types.Type) {
	s, ok := v.(*VStruct)
	us, ok2 := t.Underlying().(*types.Struct)
	if !ok || !ok2 {
		return
	}
	for i := 0; i < us.NumFields(); i++ {
		f := us.Field(i)
		if sl, ok := s.get(i).(VSlice); ok {
			head, min, max, has := tagInts(us.Tag(i))
			if !has {
				continue
			}
			if lim := int64(1)<<(8*uint(head)) - 1; max < 0 || max > lim {
				max = lim
			}
			el := f.Type().Underlying().(*types.Slice).Elem()
			if n := encSize(el); n > 0 {
				st.assume(And(Le(Int(min), MulK(sl.len, bi(n))), Le(MulK(sl.len, bi(n)), Int(max))))
			} else if min > 0 {
				st.assume(Lt(Int(0), sl.len))
			}
			continue
		}
		decodeFacts(st, s.get(i), f.Type())
	}
}

// roundTrip: decoding e, the encoding of s, gives back the integers, byte strings, arrays and lists of s
func roundTrip(st *State, s *VStruct, el types.Type, e *Term) {
	us, ok := el.Underlying().(*types.Struct)
	if !ok {
		return
	}
	st.assume(App("decOk:"+typeName(el), SBool, e))
	st.assume(Eq(App("decLen:"+typeName(el), SInt, e), Len(e)))
	d, ok := symValue(el, decName(el), []*Term{e}).(*VStruct)
	if !ok {
		return
	}
	for i := 0; i < us.NumFields(); i++ {
		ft := us.Field(i).Type()
		switch u := ft.Underlying().(type) {
		case *types.Basic:
			st.assume(st.eq(d.get(i), s.get(i), ft))
		case *types.Slice:
			if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
				st.assume(Eq(bytesOf(st, d.get(i)), bytesOf(st, s.get(i))))
			} else {
				st.assume(Eq(freeze(st, d.get(i), ft), freeze(st, s.get(i), ft)))
			}
		case *types.Array:
			st.assume(Eq(freeze(st, d.get(i), ft), freeze(st, s.get(i), ft)))
		}
	}
}

// wire: the presentation-language encoding of v as its type's tags in the source describe it. Lists of anything
// but bytes are encs:T of the list. Nil when a field is of a kind not covered.
func wire(st *State, v Value, t types.Type, tag string) *Term {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		if nb, signed, ok := intBits(t); ok && !signed {
			return beBytes(T(v), int(nb)/8)
		}
	case *types.Array:
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			return freeze(st, v, t)
		}
	case *types.Slice:
		var e *Term
		if b, ok := u.Elem().Underlying().(*types.Basic); ok && b.Kind() == types.Uint8 {
			e = bytesOf(st, v)
		} else {
			e = encs(st, u.Elem(), sliceSeq(st, v.(VSlice), t))
			if cells, ok := cellsOf(st, v.(VSlice)); ok && len(cells) <= 4 {
				w := Empty(SBytes)
				for _, c := range cells {
					f := wire(st, c, u.Elem(), "")
					if f == nil {
						return nil
					}
					w = Cat(SBytes, w, f)
				}
				st.assume(Eq(e, w))
				e = w
			}
		}
		head, _, _, has := tagInts(tag)
		switch {
		case has && head > 0:
			return Cat(SBytes, beBytes(Len(e), int(head)), e)
		case strings.Contains(reflect.StructTag(tag).Get("tls"), "head=none"):
			return e
		}
	case *types.Struct:
		s, ok := v.(*VStruct)
		if !ok {
			return nil
		}
		out := Empty(SBytes)
		for i := 0; i < u.NumFields(); i++ {
			opts := strings.Split(reflect.StructTag(u.Tag(i)).Get("tls"), ",")
			skip := false
			for _, o := range opts {
				skip = skip || o == "omit"
				if o == "varint" || o == "optional" {
					return nil
				}
			}
			if skip {
				continue
			}
			f := wire(st, s.get(i), u.Field(i).Type(), u.Tag(i))
			if f == nil {
				return nil
			}
			out = Cat(SBytes, out, f)
		}
		return out
	}
	return nil
}

// encs: the concatenated encodings of a list of T
func encs(st *State, el types.Type, seq *Term) *Term {
	e := App("encs:"+typeName(el), SBytes, seq)
	if n := encSize(el); n > 0 {
		st.assume(Eq(Len(e), MulK(Len(seq), bi(n))))
	}
	return e
}

// wireOk: v has an encoding: every vector lies within its declared bounds and fits its length field
func wireOk(st *State, v Value, t types.Type, tag string) *Term {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		var n *Term
		ok := True
		if b, isB := u.Elem().Underlying().(*types.Basic); isB && b.Kind() == types.Uint8 {
			n = v.(VSlice).len
		} else {
			seq := sliceSeq(st, v.(VSlice), t)
			n = Len(encs(st, u.Elem(), seq))
			if encSize(u.Elem()) == 0 {
				if cells, known := cellsOf(st, v.(VSlice)); known && len(cells) <= 4 {
					w := Empty(SBytes)
					for _, c := range cells {
						ok = And(ok, wireOk(st, c, u.Elem(), ""))
						w = Cat(SBytes, w, wire(st, c, u.Elem(), ""))
					}
					n = Len(w)
				} else {
					ok = App("encsOk:"+typeName(u.Elem()), SBool, seq)
				}
			}
		}
		head, min, max, _ := tagInts(tag)
		if head > 0 {
			if lim := int64(1)<<(8*uint(head)) - 1; max <= 0 || max > lim {
				max = lim
			}
			ok = And(ok, Le(n, Int(max)))
		}
		return And(ok, Le(Int(min), n))
	case *types.Struct:
		s, ok := v.(*VStruct)
		if !ok {
			return True
		}
		out := True
		for i := 0; i < u.NumFields(); i++ {
			out = And(out, wireOk(st, s.get(i), u.Field(i).Type(), u.Tag(i)))
		}
		return out
	}
	return True
}

// wireOn: this contract is about the bytes of encodings, so syntax.Marshal and Unmarshal are given them
func (x *Exec) wireOn() bool { return x.rootCon != nil && x.rootCon.opts["wire"] != "" }

func decName(t types.Type) string { return "dec:" + typeName(t) }

func extHas(list *Term, t *Term) *Term { return App("extHas", SBool, list, t) }

func (x *Exec) mintFn(recv types.Type, name string) string {
	ms := types.NewMethodSet(recv)
	sel := ms.Lookup(x.mint.Pkg, name)
	if sel == nil {
		return ""
	}
	return x.prog.MethodValue(sel).String()
}

func (x *Exec) registerCodec() {
	hmT := x.lookupType("*HandshakeMessage")
	alertT := x.lookupType("Alert")
	ghostReaderT = ghostType("Reader", gf("msg", hmT), gf("alert", alertT))
	ghostPtrs[ghostReaderT] = types.NewPointer(ghostReaderT)
	devirt["handshakeMessageReader"] = ghostPtr(ghostReaderT)
	ghostModels["*ghost.Reader.ReadMessage"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		m, al := getF(st, a[0], 0), getF(st, a[0], 1)
		st.events = append(st.events, Event{"ReadMessage", []Value{m, al}})
		return ret(st, m, al)
	}

	ptT := x.lookupType("*TLSPlaintext")
	epochT := x.lookupType("Epoch")
	ghostRecordsT = ghostType("Records", gf("sent", tStr), gf("bad", tBool), gf("got", tStr), gf("last", tStr), gf("epoch", epochT), gf("peek", tInt))
	ghostPtrs[ghostRecordsT] = types.NewPointer(ghostRecordsT)
	rp := "*ghost.Records."
	for _, m := range []string{"Lock", "Unlock", "SetVersion", "SetLabel", "ResetClear", "DiscardReadKey"} {
		ghostModels[rp+m] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome { return ret(st) }
	}
	ghostModels[rp+"Epoch"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		return ret(st, getF(st, a[0], 4))
	}
	ghostModels[rp+"Rekey"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		st.events = append(st.events, Event{"RecordLayer.Rekey", a})
		return x.fork(st, x.freshT(st, "rekeyOk", SBool), func(st *State) []Outcome {
			setF(st, a[0], 4, a[1])
			return ret(st, nilIface)
		}, func(st *State) []Outcome { return ret(st, x.newError(st)) })
	}
	ghostModels[rp+"WriteRecord"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		pt := st.load(a[1].(VPtr)).(*VStruct)
		us := ptT.Underlying().(*types.Pointer).Elem().Underlying().(*types.Struct)
		var ct, frag Value
		for i := 0; i < us.NumFields(); i++ {
			switch us.Field(i).Name() {
			case "contentType":
				ct = pt.get(i)
			case "fragment":
				frag = pt.get(i)
			}
		}
		d := bytesOf(st, frag)
		bad := Or(Not(Eq(T(ct), Int(23))), Lt(Int(16384), Len(d)))
		return x.fork(st, x.freshT(st, "writeOk", SBool), func(st *State) []Outcome {
			setF(st, a[0], 0, VT{Cat(SBytes, T(getF(st, a[0], 0)), d)})
			setF(st, a[0], 1, VT{Or(T(getF(st, a[0], 1)), bad)})
			return ret(st, nilIface)
		}, func(st *State) []Outcome { return ret(st, x.newError(st)) })
	}
	ghostModels[rp+"ReadRecord"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		pte := ptT.Underlying().(*types.Pointer).Elem()
		return x.fork(st, x.freshT(st, "readOk", SBool), func(st *State) []Outcome {
			v := x.fresh(st, "record", pte)
			us := pte.Underlying().(*types.Struct)
			var ct, frag Value
			for i := 0; i < us.NumFields(); i++ {
				switch us.Field(i).Name() {
				case "contentType":
					ct = v.(*VStruct).get(i)
				case "fragment":
					frag = v.(*VStruct).get(i)
				}
			}
			pk := T(getF(st, a[0], 5)) // a record peeked at is the one read next (256: none)
			st.assume(Or(Eq(pk, Int(256)), Eq(T(ct), pk)))
			setF(st, a[0], 5, VT{Int(256)})
			d := Ite(Eq(T(ct), Int(23)), bytesOf(st, frag), Empty(SBytes))
			setF(st, a[0], 2, VT{Cat(SBytes, T(getF(st, a[0], 2)), d)})
			setF(st, a[0], 3, VT{d})
			return ret(st, VPtr{False, st.alloc("record", pte, v), nil}, nilIface)
		}, func(st *State) []Outcome {
			setF(st, a[0], 3, VT{Empty(SBytes)})
			return ret(st, VPtr{nilT: True}, x.newError(st))
		})
	}

	ghostModels[rp+"PeekRecordType"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		rt := x.lookupType("RecordType")
		return x.fork(st, x.freshT(st, "peekOk", SBool), func(st *State) []Outcome {
			v := x.fresh(st, "peeked", rt)
			setF(st, a[0], 5, v)
			return ret(st, v, nilIface)
		}, func(st *State) []Outcome { return ret(st, x.fresh(st, "peeked", rt), x.newError(st)) })
	}

	models[mintPath+"/syntax.Unmarshal"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		d := bytesOf(st, a[0])
		dst := a[1].(*VIface)
		pt, ok := dst.dyn.(*types.Pointer)
		if !ok {
			panic(unsupported("syntax.Unmarshal into an unknown type"))
		}
		p, el := dst.val.(VPtr), pt.Elem()
		inner, indirect := el.Underlying().(*types.Pointer) // a pointer to a pointer is decoded into a new object
		if indirect {
			el = inner.Elem()
		}
		put := func(st *State, v Value) {
			if indirect {
				v = VPtr{False, st.alloc("decoded", el, v), nil}
			}
			st.store(p, v)
		}
		return x.fork(st, App("decOk:"+typeName(el), SBool, d), func(st *State) []Outcome {
			v := symValue(el, decName(el), []*Term{d})
			decodeFacts(st, v, el)
			put(st, v)
			n := App("decLen:"+typeName(el), SInt, d)
			st.assume(And(Le(Int(0), n), Le(n, Len(d))))
			if x.wireOn() {
				w := wire(st, v, el, "")
				if w == nil {
					panic(unsupported("wire format of " + typeName(el)))
				}
				st.assume(wireOk(st, v, el, ""))
				st.assume(Eq(Len(w), n))
				st.assume(Eq(w, Ext(d, Int(0), n)))
			}
			return ret(st, VT{n}, nilIface)
		}, func(st *State) []Outcome {
			put(st, x.fresh(st, "undecoded", el))
			n := x.freshT(st, "ndec", SInt)
			return ret(st, VT{n}, x.newError(st))
		})
	}
	models[mintPath+"/syntax.Marshal"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		src := a[0].(*VIface)
		if src.dyn == nil {
			panic(unsupported("syntax.Marshal of an unknown type"))
		}
		el, v := src.dyn, src.val
		if pt, ok := el.(*types.Pointer); ok {
			el, v = pt.Elem(), st.load(v.(VPtr))
		}
		if pt, ok := el.Underlying().(*types.Pointer); ok {
			if q, ok := v.(VPtr); ok && q.nilT == False {
				el, v = pt.Elem(), st.load(q)
			}
		}
		f := freeze(st, v, el)
		if x.wireOn() {
			if w := wireOk(st, v, el, ""); w == True {
				st.assume(App("encOk:"+typeName(el), SBool, f))
			} else {
				st.assume(Eq(App("encOk:"+typeName(el), SBool, f), w))
			}
		}
		return x.fork(st, App("encOk:"+typeName(el), SBool, f), func(st *State) []Outcome {
			e := App("enc:"+typeName(el), SBytes, f)
			if s, ok := v.(*VStruct); ok {
				decodeFacts(st, s, el)
				if x.wireOn() {
					w := wire(st, v, el, "")
					if w == nil {
						panic(unsupported("wire format of " + typeName(el)))
					}
					st.assume(Eq(e, w))
					e = w
				}
				roundTrip(st, s, el, e)
			}
			return ret(st, x.newBytes(st, e), nilIface)
		}, func(st *State) []Outcome { return ret(st, zero(types.NewSlice(tByte)), x.newError(st)) })
	}

	// extension lists
	elT := x.lookupType("ExtensionList")
	dstOf := func(v Value) (VPtr, types.Type, bool) {
		i, ok := v.(*VIface)
		if !ok || i.dyn == nil {
			return VPtr{}, nil, false
		}
		pt, ok := i.dyn.(*types.Pointer)
		if !ok {
			return VPtr{}, nil, false
		}
		return i.val.(VPtr), pt.Elem(), true
	}
	typeOf := func(x *Exec, st *State, fr *Frame, v Value) *Term {
		i := v.(*VIface)
		outs := x.callStatic(st, fr, x.prog.LookupMethod(i.dyn, x.mint.Pkg, "Type"), []Value{i.val}, nil, token.NoPos)
		if len(outs) != 1 {
			panic(unsupported("extension type of a destination"))
		}
		return T(outs[0].vals[0])
	}
	// extract: if the list has an extension of this type the destination holds its decoding, else it is untouched
	extract := func(x *Exec, st *State, p VPtr, el types.Type, list, has *Term) {
		old := st.load(p)
		v := symValue(el, "ext:"+typeName(el), []*Term{list})
		if s, ok := v.(*VStruct); ok {
			us := el.Underlying().(*types.Struct)
			for i := 0; i < us.NumFields(); i++ {
				if us.Field(i).Name() == "HandshakeType" { // set by the caller, not decoded
					s = s.with(i, old.(*VStruct).get(i))
				}
			}
			v = s
		}
		if eq := st.eq(v, old, el); eq != True {
			st.assume(Or(has, eq))
		}
		st.store(p, v)
		for _, f := range extFacts(st, v, el) {
			st.assume(Imp(has, f))
		}
	}
	listTerm := func(st *State, v Value) *Term { return sliceSeq(st, v.(VSlice), elT) }
	models["("+mintPath+".ExtensionList).Parse"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		list := listTerm(st, a[0])
		ds, ok := cellsOf(st, a[1].(VSlice))
		if !ok {
			panic(unsupported("ExtensionList.Parse with unknown destinations"))
		}
		mt := types.NewMap(x.lookupType("ExtensionType"), tBool)
		return x.fork(st, x.freshT(st, "parseOk", SBool), func(st *State) []Outcome {
			mv := &MapVal{typ: mt}
			for _, d := range ds {
				p, el, ok := dstOf(d)
				if !ok {
					panic(unsupported("ExtensionList.Parse with unknown destinations"))
				}
				t := typeOf(x, st, fr, d)
				has := extHas(list, t)
				extract(x, st, p, el, list, has)
				mv = mapSet(st, mv, VT{t}, VT{has})
			}
			o := st.alloc("found", mt, mv)
			return ret(st, VMap{False, o}, nilIface)
		}, func(st *State) []Outcome {
			for _, d := range ds {
				if p, el, ok := dstOf(d); ok {
					st.store(p, x.fresh(st, "unparsed", el))
				}
			}
			return ret(st, VMap{nilT: True}, x.newError(st))
		})
	}
	models["("+mintPath+".ExtensionList).Find"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		list := listTerm(st, a[0])
		p, el, ok := dstOf(a[1])
		if !ok {
			panic(unsupported("ExtensionList.Find with unknown destination"))
		}
		has := extHas(list, typeOf(x, st, fr, a[1]))
		return x.fork(st, x.freshT(st, "findOk", SBool), func(st *State) []Outcome {
			extract(x, st, p, el, list, has)
			return ret(st, VT{has}, nilIface)
		}, func(st *State) []Outcome {
			st.store(p, x.fresh(st, "unparsed", el))
			return ret(st, VT{True}, x.newError(st))
		})
	}
	// whether a cache knows an identity is a function of the two as long as nothing is put into a cache
	ifacePost["PreSharedKeyCache.Get"] = func(st *State, a, r []Value) {
		for _, e := range st.events {
			if e.name == "PreSharedKeyCache.Put" {
				return
			}
		}
		st.assume(Iff(T(r[1]), App("pskKnown", SBool, freeze(st, a[0], nil), T(a[1]))))
	}
	// the type of an extension whatever it is: a function of the value
	ifaceModels["ExtensionBody.Type"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		t := bodyType(freeze(st, a[0], nil))
		st.assume(And(Le(Int(0), t), Lt(t, Int(65536))))
		return ret(st, VT{t})
	}
	// the application's extension handler may change the list
	for _, m := range []string{"Send", "Receive"} {
		m := m
		ifaceModels["AppExtensionHandler."+m] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
			p := a[2].(VPtr)
			st.store(p, x.fresh(st, "handled", elT))
			e := x.fresh(st, "herr", errorT)
			st.events = append(st.events, Event{"AppExtensionHandler." + m, []Value{a[0], a[1], a[2], e}})
			return ret(st, e)
		}
	}
}

// extFacts: what a decoded extension body guarantees
func extFacts(st *State, v Value, t types.Type) []*Term {
	s, ok := v.(*VStruct)
	if !ok {
		return nil
	}
	us := t.Underlying().(*types.Struct)
	fld := func(n string) Value {
		for i := 0; i < us.NumFields(); i++ {
			if us.Field(i).Name() == n {
				return s.get(i)
			}
		}
		return nil
	}
	isServer := func() *Term { return Eq(T(fld("HandshakeType")), Int(2)) }
	var fs []*Term
	switch typeName(t) {
	case "SupportedVersionsExtension":
		fs = append(fs, Lt(Int(0), fld("Versions").(VSlice).len))
	case "KeyShareExtension":
		fs = append(fs, Imp(isServer(), Eq(fld("Shares").(VSlice).len, Int(1))))
	case "PreSharedKeyExtension":
		fs = append(fs, Imp(Not(isServer()), Eq(fld("Identities").(VSlice).len, fld("Binders").(VSlice).len)))
	case "CookieExtension":
		fs = append(fs, Lt(Int(0), fld("Cookie").(VSlice).len))
	}
	return fs
}

// bodyType is the 16-bit type an extension body reports.
func bodyType(body *Term) *Term {
	return Sym("bodyType", SInt, bigZero, big.NewInt(65535), body)
}
