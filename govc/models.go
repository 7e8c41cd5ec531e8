package main

// Assumed contracts of the standard library and x/crypto (all listed as trusted in the evidence).

import (
	"crypto/elliptic"
	"encoding/hex"
	"go/token"
	"go/types"
	"math/big"
	"strconv"
)

type model func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome

var ghostPkg = types.NewPackage("govc/ghost", "ghost")

func ghostType(name string, fields ...*types.Var) types.Type {
	s := types.NewStruct(fields, nil)
	return types.NewNamed(types.NewTypeName(token.NoPos, ghostPkg, name, nil), s, nil)
}
func gf(name string, t types.Type) *types.Var {
	return types.NewField(token.NoPos, ghostPkg, name, t, false)
}

var tInt, tStr, tBool = types.Typ[types.Int], types.Typ[types.String], types.Typ[types.Bool]
var ghostErrT = ghostType("Error", gf("id", tInt))
var ghostHashT = ghostType("Hash", gf("alg", tInt), gf("keyed", tBool), gf("key", tStr), gf("content", tStr))
var ghostAEADT = ghostType("AEAD", gf("id", tInt))
var ghostConnT = ghostType("Conn", gf("out", tStr), gf("in", tStr))
var ghostHkdfT = ghostType("Hkdf", gf("alg", tInt), gf("secret", tStr), gf("salt", tStr), gf("info", tStr), gf("pos", tInt))
var ghostBlockT = ghostType("Block", gf("key", tStr))
var ghostCurveT = ghostType("Curve", gf("id", tInt))

func ghostPtr(t types.Type) types.Type { return ghostPtrs[t] }

var ghostPtrs = map[types.Type]types.Type{}

var models = map[string]model{}
var ghostModels = map[string]model{}
var ifaceModels = map[string]model{}
var funcTypeModels = map[string]func(x *Exec, st *State, f VFunc, a []Value) []Outcome{}

func T(v Value) *Term { return v.(VT).t }

func (x *Exec) newGhost(st *State, t types.Type, fields ...Value) Value {
	v := &VStruct{typ: t, f: fields}
	o := st.alloc("ghost", t, v)
	return &VIface{nilT: False, dyn: ghostPtr(t), val: VPtr{False, o, nil}}
}
func bytesOf(st *State, v Value) *Term { return sliceSeq(st, v.(VSlice), nil) }

func (x *Exec) freshBytes(st *State, name string, n *Term) *Term {
	t := x.freshT(st, name, SBytes)
	st.assume(Eq(Len(t), n))
	return t
}

// symbolic error: nil iff ok
func errIf(x *Exec, st *State, ok *Term, yes func(*State) []Outcome, no func(*State) []Outcome) []Outcome {
	return x.fork(st, ok, yes, no)
}

func getF(st *State, p Value, i int) Value { return st.load(p.(VPtr)).(*VStruct).get(i) }
func setF(st *State, p Value, i int, v Value) {
	pp := p.(VPtr)
	st.store(VPtr{False, pp.obj, append(pp.path[:len(pp.path):len(pp.path)], PE{f: i})}, v)
}

var hashSizes = map[int64]int64{3: 20, 4: 28, 5: 32, 6: 48, 7: 64}

func registerModels() {
	for _, t := range []types.Type{ghostErrT, ghostHashT, ghostAEADT, ghostConnT, ghostBlockT, ghostCurveT, ghostHkdfT} {
		ghostPtrs[t] = types.NewPointer(t)
	}
	devirt["hash.Hash"] = ghostPtr(ghostHashT)
	devirt["cipher.AEAD"] = ghostPtr(ghostAEADT)
	devirt["io.ReadWriter"] = ghostPtr(ghostConnT)
	devirt["io.Writer"] = ghostPtr(ghostConnT)
	devirt["cipher.Block"] = ghostPtr(ghostBlockT)
	devirt["elliptic.Curve"] = ghostPtr(ghostCurveT)

	// ---- hashes ----
	appBounds["hashSize"] = bnd{bi(16), bi(64)}
	appRewrites["hashSize"] = func(a []*Term) *Term {
		if a[0].op == OConst && a[0].k.IsInt64() {
			if n, ok := hashSizes[a[0].k.Int64()]; ok {
				return Int(n)
			}
		}
		return nil
	}
	appLen["hash"] = func(a []*Term) *Term { return App("hashSize", SInt, a[0]) }
	appLen["hmac"] = func(a []*Term) *Term { return App("hashSize", SInt, a[0]) }
	models["(crypto.Hash).Size"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		return ret(st, VT{App("hashSize", SInt, T(a[0]))})
	}
	models["(crypto.Hash).New"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		return ret(st, x.newGhost(st, ghostHashT, a[0], VT{False}, VT{Empty(SBytes)}, VT{Empty(SBytes)}))
	}
	models["(crypto.Hash).Available"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		return ret(st, VT{True})
	}
	models["(crypto.Hash).HashFunc"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		return ret(st, a[0])
	}
	models["crypto/hmac.New"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		var out []Outcome
		for _, o := range x.callValue(st, fr, a[0], nil, pos, nil) {
			h := o.vals[0].(*VIface)
			alg := getF(o.st, h.val, 0)
			out = append(out, Outcome{st: o.st, vals: []Value{x.newGhost(o.st, ghostHashT, alg, VT{True}, VT{bytesOf(o.st, a[1])}, VT{Empty(SBytes)})}})
		}
		return out
	}
	digest := func(st *State, p Value) *Term {
		alg, keyed, key, content := T(getF(st, p, 0)), T(getF(st, p, 1)), T(getF(st, p, 2)), T(getF(st, p, 3))
		h := App("hash", SBytes, alg, content)
		m := App("hmac", SBytes, alg, key, content)
		switch st.light(keyed) {
		case 1:
			return m
		case -1:
			return h
		}
		return Ite(keyed, m, h)
	}
	hp := "*ghost.Hash."
	ghostModels[hp+"Write"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		c := T(getF(st, a[0], 3))
		d := bytesOf(st, a[1])
		setF(st, a[0], 3, VT{Cat(SBytes, c, d)})
		return ret(st, VT{Len(d)}, nilIface)
	}
	ghostModels[hp+"Sum"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		d := digest(st, a[0])
		b := a[1].(VSlice)
		return x.appendB(st, b, VT{d}, types.NewSlice(tByte))
	}
	ghostModels[hp+"Size"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		return ret(st, VT{App("hashSize", SInt, T(getF(st, a[0], 0)))})
	}
	ghostModels[hp+"Reset"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		setF(st, a[0], 3, VT{Empty(SBytes)})
		return ret(st)
	}
	sumN := func(alg int64, n int64) model {
		return func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
			return ret(st, &ArrVal{elem: tByte, seq: App("hash", SBytes, Int(alg), bytesOf(st, a[0]))})
		}
	}
	models["crypto/sha256.Sum256"] = sumN(5, 32)
	models["crypto/sha512.Sum512"] = sumN(7, 64)
	models["crypto/sha512.Sum384"] = sumN(6, 48)
	models["crypto/sha1.Sum"] = sumN(3, 20)
	models["crypto/hmac.Equal"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		return ret(st, VT{Eq(bytesOf(st, a[0]), bytesOf(st, a[1]))})
	}

	// ---- HKDF as a stream (golang.org/x/crypto/hkdf) ----
	for n, alg := range map[string]int64{"crypto/sha256.New": 5, "crypto/sha512.New": 7, "crypto/sha512.New384": 6, "crypto/sha1.New": 3} {
		alg := alg
		models[n] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
			return ret(st, x.newGhost(st, ghostHashT, VT{Int(alg)}, VT{False}, VT{Empty(SBytes)}, VT{Empty(SBytes)}))
		}
	}
	appLen["hkdfOut"] = func(a []*Term) *Term { return a[5] }
	models["golang.org/x/crypto/hkdf.New"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		var out []Outcome
		for _, o := range x.callValue(st, fr, a[0], nil, pos, nil) {
			alg := getF(o.st, o.vals[0].(*VIface).val, 0)
			out = append(out, Outcome{st: o.st, vals: []Value{x.newGhost(o.st, ghostHkdfT, alg, VT{bytesOf(o.st, a[1])}, VT{bytesOf(o.st, a[2])}, VT{bytesOf(o.st, a[3])}, VT{Int(0)})}})
		}
		return out
	}
	// reading n bytes at position p of the stream; it ends after 255 blocks
	models["io.ReadFull"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		r, ok := a[0].(*VIface)
		if !ok || r.dyn != ghostPtr(ghostHkdfT) {
			panic(unsupported("io.ReadFull of a reader that is not the modelled HKDF stream"))
		}
		p, n := T(getF(st, r.val, 4)), a[1].(VSlice).len
		alg := T(getF(st, r.val, 0))
		return x.fork(st, Le(Add(p, n), MulK(App("hashSize", SInt, alg), bi(255))), func(st *State) []Outcome {
			d := App("hkdfOut", SBytes, alg, T(getF(st, r.val, 1)), T(getF(st, r.val, 2)), T(getF(st, r.val, 3)), p, n)
			setF(st, r.val, 4, VT{Add(p, n)})
			x.copyB(st, a[1].(VSlice), VT{d}, types.NewSlice(tByte))
			return ret(st, VT{n}, nilIface)
		}, func(st *State) []Outcome {
			n := T(x.fresh(st, "nread", tInt))
			return ret(st, VT{n}, x.newError(st))
		})
	}

	// ---- AEAD ----
	appBounds["aeadOverhead"] = bnd{bigZero, bi(255)}
	appLen["aeadSeal"] = func(a []*Term) *Term { return Add(Len(a[3]), App("aeadOverhead", SInt, a[0])) }
	appLen["aeadOpen"] = func(a []*Term) *Term { return Sub(Len(a[3]), App("aeadOverhead", SInt, a[0])) }
	appRewrites["aeadOpen"] = func(a []*Term) *Term {
		if c := a[3]; c.op == OApp && c.name == "aeadSeal" && c.args[0] == a[0] && c.args[1] == a[1] && c.args[2] == a[2] {
			return c.args[3]
		}
		return nil
	}
	appRewrites["aeadOk"] = func(a []*Term) *Term {
		if c := a[3]; c.op == OApp && c.name == "aeadSeal" && c.args[0] == a[0] && c.args[1] == a[1] && c.args[2] == a[2] {
			return True
		}
		return nil
	}
	appRewrites["aeadOverhead"] = func(a []*Term) *Term {
		if a[0].op == OApp && a[0].name == "gcm" {
			return Int(16)
		}
		return nil
	}
	ap := "*ghost.AEAD."
	ghostModels[ap+"Overhead"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		return ret(st, VT{App("aeadOverhead", SInt, T(getF(st, a[0], 0)))})
	}
	ghostModels[ap+"NonceSize"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		t := App("aeadNonceSize", SInt, T(getF(st, a[0], 0)))
		st.assume(Le(Int(0), t))
		return ret(st, VT{t})
	}
	ghostModels[ap+"Seal"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		id := T(getF(st, a[0], 0))
		s := App("aeadSeal", SBytes, id, bytesOf(st, a[2]), bytesOf(st, a[4]), bytesOf(st, a[3]))
		return x.appendB(st, a[1].(VSlice), VT{s}, types.NewSlice(tByte))
	}
	ghostModels[ap+"Open"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		id := T(getF(st, a[0], 0))
		n, ad, ct := bytesOf(st, a[2]), bytesOf(st, a[4]), bytesOf(st, a[3])
		ok := App("aeadOk", SBool, id, n, ad, ct)
		pt := App("aeadOpen", SBytes, id, n, ad, ct)
		return x.fork(st, ok, func(st *State) []Outcome {
			st.assume(Le(App("aeadOverhead", SInt, id), Len(ct)))
			var out []Outcome
			for _, o := range x.appendB(st, a[1].(VSlice), VT{pt}, types.NewSlice(tByte)) {
				out = append(out, Outcome{st: o.st, vals: []Value{o.vals[0], nilIface}})
			}
			return out
		}, func(st *State) []Outcome {
			return ret(st, VSlice{nilT: True, off: Int(0), len: Int(0), cap: Int(0)}, x.newError(st))
		})
	}
	funcTypeModels["AEADFactory"] = func(x *Exec, st *State, f VFunc, a []Value) []Outcome {
		k := bytesOf(st, a[0])
		return x.fork(st, App("factoryOk", SBool, f.id, k), func(st *State) []Outcome {
			return ret(st, x.newGhost(st, ghostAEADT, VT{App("factoryAEAD", SInt, f.id, k)}), nilIface)
		}, func(st *State) []Outcome { return ret(st, nilIface, x.newError(st)) })
	}
	models["crypto/aes.NewCipher"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		k := bytesOf(st, a[0])
		ok := Or(Eq(Len(k), Int(16)), Eq(Len(k), Int(24)), Eq(Len(k), Int(32)))
		return x.fork(st, ok, func(st *State) []Outcome {
			return ret(st, x.newGhost(st, ghostBlockT, VT{k}), nilIface)
		}, func(st *State) []Outcome { return ret(st, nilIface, x.newError(st)) })
	}
	gcm := func(x *Exec, st *State, a []Value, n *Term) []Outcome {
		b := a[0].(*VIface)
		k := T(getF(st, b.val, 0))
		return ret(st, x.newGhost(st, ghostAEADT, VT{App("gcm", SInt, k, n)}), nilIface)
	}
	models["crypto/cipher.NewGCM"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome { return gcm(x, st, a, Int(12)) }
	models["crypto/cipher.NewGCMWithNonceSize"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		return gcm(x, st, a, T(a[1]))
	}

	// ---- transport ----
	cp := "*ghost.Conn."
	ghostModels[cp+"Write"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		setF(st, a[0], 0, VT{Cat(SBytes, T(getF(st, a[0], 0)), bytesOf(st, a[1]))})
		n := x.fresh(st, "written", tInt)
		st.assume(And(Le(Int(0), T(n)), Le(T(n), a[1].(VSlice).len)))
		return ret(st, n, x.fresh(st, "werr", errorT))
	}
	ghostModels[cp+"Read"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		b := a[1].(VSlice)
		// in: everything the peer will have sent (prophecy); Read takes a prefix of it, or fails and takes nothing
		in := T(getF(st, a[0], 1))
		n := T(x.fresh(st, "nread", tInt))
		st.assume(And(Le(Int(0), n), Le(n, b.len), Le(n, Len(in))))
		e := x.fresh(st, "rerr", errorT)
		st.assume(Or(e.(*VIface).nilT, Eq(n, Int(0))))
		d := extCtx(in, Int(0), n, st.light)
		setF(st, a[0], 1, VT{extCtx(in, n, Sub(Len(in), n), st.light)})
		arr := st.arr(b)
		cur := arrSeq(st, arr)
		ns := Cat(SBytes, extCtx(cur, Int(0), b.off, st.light), d, extCtx(cur, Add(b.off, n), Sub(Len(cur), Add(b.off, n)), st.light))
		st.store(VPtr{False, b.obj, b.path}, &ArrVal{elem: tByte, seq: ns})
		return ret(st, VT{n}, e)
	}

	// ---- errors, fmt ----
	models["errors.New"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		return ret(st, x.newError(st))
	}
	models["fmt.Errorf"] = models["errors.New"]
	models["fmt.Sprintf"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		return ret(st, VT{x.freshT(st, "sprintf", SBytes)})
	}
	nop := func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome { return ret(st) }
	for _, n := range []string{"(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock", "fmt.Printf", "fmt.Println", "log.Printf"} {
		models[n] = nop
	}

	// ---- bytes ----
	models["bytes.Equal"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		return ret(st, VT{Eq(bytesOf(st, a[0]), bytesOf(st, a[1]))})
	}
	models["crypto/subtle.ConstantTimeCompare"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		return ret(st, VT{Ite(Eq(bytesOf(st, a[0]), bytesOf(st, a[1])), Int(1), Int(0))})
	}
	models["bytes.Compare"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		p, q := bytesOf(st, a[0]), bytesOf(st, a[1])
		r := App("bytesCompare", SInt, p, q)
		st.assume(Iff(Eq(r, Int(0)), Eq(p, q)))
		return ret(st, VT{r})
	}
	models["bytes.Repeat"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		b := bytesOf(st, a[0])
		n := T(a[1])
		x.safe(st, "bytes.Repeat: negative count", Le(Int(0), n), pos)
		if l, ok := Len(b).constInt(); ok && l == 1 {
			return ret(st, x.newBytes(st, Rep(SBytes, Nth(b, Int(0)), n)))
		}
		t := App("bytesRepeat", SBytes, b, n)
		st.assume(Eq(Len(t), Mul(Len(b), n)))
		return ret(st, x.newBytes(st, t))
	}
	// bytes.Buffer: the field buf holds the unread bytes
	bb := func(p Value) VPtr {
		q := p.(VPtr)
		return VPtr{False, q.obj, append(q.path[:len(q.path):len(q.path)], PE{f: 0})}
	}
	bufc := func(st *State, p Value) VSlice { return st.load(bb(p)).(VSlice) }
	models["(*bytes.Buffer).Write"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		var out []Outcome
		c := bufc(st, a[0])
		c.cap = c.len
		for _, o := range x.appendB(st, c, a[1], types.NewSlice(tByte)) {
			o.st.store(bb(a[0]), o.vals[0])
			out = append(out, Outcome{st: o.st, vals: []Value{VT{a[1].(VSlice).len}, nilIface}})
		}
		return out
	}
	models["(*bytes.Buffer).WriteByte"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		c := bufc(st, a[0])
		c.cap = c.len
		for _, o := range x.appendB(st, c, VT{Unit(SBytes, T(a[1]))}, types.NewSlice(tByte)) {
			o.st.store(bb(a[0]), o.vals[0])
		}
		return ret(st, nilIface)
	}
	models["(*bytes.Buffer).Bytes"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		return ret(st, bufc(st, a[0]))
	}
	models["(*bytes.Buffer).Len"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		return ret(st, VT{bufc(st, a[0]).len})
	}
	models["(*bytes.Buffer).Truncate"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		c := bufc(st, a[0])
		n := T(a[1])
		x.safe(st, "bytes.Buffer: truncation out of range", And(Le(Int(0), n), Le(n, c.len)), pos)
		st.store(bb(a[0]), VSlice{c.nilT, c.obj, c.path, c.off, n, n})
		return ret(st)
	}
	models["(*bytes.Buffer).Next"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		c := bufc(st, a[0])
		n := T(a[1])
		x.safe(st, "bytes.Buffer.Next: negative count", Le(Int(0), n), pos)
		do := func(st *State, n *Term) []Outcome {
			st.store(bb(a[0]), VSlice{c.nilT, c.obj, c.path, Add(c.off, n), Sub(c.len, n), Sub(c.cap, n)})
			return ret(st, VSlice{c.nilT, c.obj, c.path, c.off, n, n})
		}
		return x.fork(st, Le(n, c.len), func(st *State) []Outcome { return do(st, n) }, func(st *State) []Outcome { return do(st, c.len) })
	}
	models["(*bytes.Buffer).Read"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		c := bufc(st, a[0])
		d := a[1].(VSlice)
		var out []Outcome
		for _, o := range x.copyB(st, d, c, types.NewSlice(tByte)) {
			n := T(o.vals[0])
			o.st.store(bb(a[0]), VSlice{c.nilT, c.obj, c.path, Add(c.off, n), Sub(c.len, n), Sub(c.cap, n)})
			if n == Int(0) {
				out = append(out, Outcome{st: o.st, vals: []Value{VT{n}, x.fresh(o.st, "rerr", errorT)}})
			} else {
				out = append(out, Outcome{st: o.st, vals: []Value{VT{n}, nilIface}})
			}
		}
		return out
	}
	models["bytes.NewBuffer"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		z := zero(bufferT).(*VStruct).with(0, a[0])
		return ret(st, VPtr{False, st.alloc("buffer", bufferT, z), nil})
	}
	models["bytes.NewReader"] = nil
	delete(models, "bytes.NewReader")

	// ---- encoding/binary ----
	for _, w := range []struct {
		n string
		k int
	}{{"Uint16", 2}, {"Uint32", 4}, {"Uint64", 8}} {
		k := w.k
		models["(encoding/binary.bigEndian)."+w.n] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
			b := a[1].(VSlice)
			x.safe(st, "index out of range", Le(Int(int64(k)), b.len), pos)
			if st.bad {
				return nil
			}
			s := sliceSeq(st, b, nil)
			r := Int(0)
			for i := 0; i < k; i++ {
				r = Add(MulK(r, bi(256)), nthCtx(s, Int(int64(i)), st.light))
			}
			return ret(st, VT{r})
		}
		models["(encoding/binary.bigEndian).Put"+w.n] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
			b := a[1].(VSlice)
			x.safe(st, "index out of range", Le(Int(int64(k)), b.len), pos)
			if st.bad {
				return nil
			}
			b.len = Int(int64(k))
			return dropVals(x.copyB(st, b, VT{beBytes(T(a[2]), k)}, types.NewSlice(tByte)))
		}
	}

	// ---- randomness ----
	models["crypto/rand.Read"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		b := a[0].(VSlice)
		ok := x.freshT(st, "randOk", SBool)
		return x.fork(st, ok, func(st *State) []Outcome {
			if b.obj != nil {
				d := x.freshBytes(st, "random", b.len)
				st.events = append(st.events, Event{"rand", []Value{VT{d}}})
				b2 := b
				x.copyB(st, b2, VT{d}, types.NewSlice(tByte))
			}
			return ret(st, VT{b.len}, nilIface)
		}, func(st *State) []Outcome {
			n := T(x.fresh(st, "nrand", tInt))
			return ret(st, VT{n}, x.newError(st))
		})
	}
	models["crypto/rand.Int"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		ok := x.freshT(st, "randOk", SBool)
		mx := T(st.load(a[1].(VPtr)))
		return x.fork(st, ok, func(st *State) []Outcome {
			r := x.freshT(st, "randInt", SInt)
			st.assume(And(Le(Int(0), r), Lt(r, mx)))
			return ret(st, VPtr{False, st.alloc("bigint", bigIntT, VT{r}), nil}, nilIface)
		}, func(st *State) []Outcome { return ret(st, VPtr{nilT: True}, x.newError(st)) })
	}

	// ---- time: an instant is an integer (nanoseconds), the zero Time is 0 ----
	t1 := func(f func(x *Exec, st *State, a []Value) *Term) model {
		return func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
			return ret(st, VT{f(x, st, a)})
		}
	}
	now := func(x *Exec, st *State, a []Value) *Term {
		t := x.freshT(st, "now", SInt)
		st.assume(Lt(Int(0), t))
		st.events = append(st.events, Event{"now", []Value{VT{t}}})
		return t
	}
	models["time.Now"] = t1(now)
	models["time.Since"] = t1(func(x *Exec, st *State, a []Value) *Term { return Sub(now(x, st, nil), T(a[0])) })
	models["time.Until"] = t1(func(x *Exec, st *State, a []Value) *Term { return Sub(T(a[0]), now(x, st, nil)) })
	models["(time.Time).Add"] = t1(func(x *Exec, st *State, a []Value) *Term { return Add(T(a[0]), T(a[1])) })
	models["(time.Time).Sub"] = t1(func(x *Exec, st *State, a []Value) *Term { return Sub(T(a[0]), T(a[1])) })
	models["(time.Time).Before"] = t1(func(x *Exec, st *State, a []Value) *Term { return Lt(T(a[0]), T(a[1])) })
	models["(time.Time).After"] = t1(func(x *Exec, st *State, a []Value) *Term { return Lt(T(a[1]), T(a[0])) })
	models["(time.Time).Equal"] = t1(func(x *Exec, st *State, a []Value) *Term { return Eq(T(a[0]), T(a[1])) })
	models["(time.Time).IsZero"] = t1(func(x *Exec, st *State, a []Value) *Term { return Eq(T(a[0]), Int(0)) })
	models["(time.Time).AddDate"] = t1(func(x *Exec, st *State, a []Value) *Term {
		return App("addDate", SInt, T(a[0]), T(a[1]), T(a[2]), T(a[3]))
	})

	// ---- big integers: *big.Int points to a mathematical integer ----
	big1 := func(f func(st *State, a []Value) *Term) model {
		return func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
			p := a[0].(VPtr)
			x.safe(st, "nil *big.Int", Not(p.nilT), pos)
			if st.bad {
				return nil
			}
			st.store(p, VT{f(st, a)})
			return ret(st, p)
		}
	}
	bv := func(st *State, v Value) *Term { return T(st.load(v.(VPtr))) }
	appRewrites["os2ip"] = func(a []*Term) *Term {
		if a[0].op == OLit {
			return IntB(new(big.Int).SetBytes([]byte(a[0].name)))
		}
		return nil
	}
	appRewrites["i2osp"] = func(a []*Term) *Term {
		if a[0].isConst() && a[0].k.Sign() >= 0 {
			return Lit(string(a[0].k.Bytes()))
		}
		return nil
	}
	models["encoding/hex.EncodeToString"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		s := bytesOf(st, a[0])
		if s.op == OLit {
			return ret(st, VT{Lit(hex.EncodeToString([]byte(s.name)))})
		}
		return ret(st, VT{App("hexEncode", SBytes, s)})
	}
	models["encoding/hex.DecodeString"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		s := T(a[0])
		if s.op == OLit {
			if b, err := hex.DecodeString(s.name); err == nil {
				return ret(st, x.newBytes(st, Lit(string(b))), nilIface)
			}
		}
		return errIf(x, st, App("hexOk", SBool, s), func(st *State) []Outcome { return ret(st, x.newBytes(st, App("hexDecode", SBytes, s)), nilIface) },
			func(st *State) []Outcome { return ret(st, zero(types.NewSlice(tByte)), x.newError(st)) })
	}
	models["math/big.NewInt"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		return ret(st, VPtr{False, st.alloc("bigint", bigIntT, a[0]), nil})
	}
	models["(*math/big.Int).SetBytes"] = big1(func(st *State, a []Value) *Term {
		t := App("os2ip", SInt, bytesOf(st, a[1]))
		st.assume(Le(Int(0), t))
		return t
	})
	models["(*math/big.Int).Exp"] = big1(func(st *State, a []Value) *Term {
		t := App("modexp", SInt, bv(st, a[1]), bv(st, a[2]), bv(st, a[3]))
		st.assume(And(Le(Int(0), t), Imp(Lt(Int(0), bv(st, a[3])), Lt(t, bv(st, a[3])))))
		return t
	})
	models["(*math/big.Int).Sub"] = big1(func(st *State, a []Value) *Term { return Sub(bv(st, a[1]), bv(st, a[2])) })
	models["(*math/big.Int).Add"] = big1(func(st *State, a []Value) *Term { return Add(bv(st, a[1]), bv(st, a[2])) })
	models["(*math/big.Int).Bytes"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		p := a[0].(VPtr)
		x.safe(st, "nil *big.Int", Not(p.nilT), pos)
		if st.bad {
			return nil
		}
		v := bv(st, p)
		s := App("i2osp", SBytes, v)
		if v.op == OApp && v.name == "modexp" { // a residue is no longer than the modulus
			st.assume(Imp(Lt(Int(0), v.args[2]), Le(Len(s), Len(App("i2osp", SBytes, v.args[2])))))
		}
		st.assume(Iff(Eq(v, Int(0)), Eq(Len(s), Int(0))))
		st.assume(Imp(Le(Int(0), v), Eq(App("os2ip", SInt, s), v)))
		return ret(st, x.newBytes(st, s))
	}
	cmp := func(a, b *Term) *Term { return Ite(Lt(a, b), Int(-1), Ite(Eq(a, b), Int(0), Int(1))) }
	models["(*math/big.Int).Cmp"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		return ret(st, VT{cmp(bv(st, a[0]), bv(st, a[1]))})
	}
	models["(*math/big.Int).Sign"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		p := a[0].(VPtr)
		x.safe(st, "nil *big.Int", Not(p.nilT), pos)
		if st.bad {
			return nil
		}
		return ret(st, VT{cmp(bv(st, p), Int(0))})
	}

	// ---- elliptic curves ----
	for i, n := range []string{"P256", "P384", "P521", "P224"} {
		id := Int([]int64{256, 384, 521, 224}[i])
		models["crypto/elliptic."+n] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
			return ret(st, curveIface(id))
		}
	}
	ghostModels["*ghost.Curve.Params"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		id := T(getF(st, a[0], 0))
		return ret(st, curveParams(x, st, id))
	}
	curveLen := func(id *Term) *Term { return Add(Int(1), MulK(Div(AddI(id, 7), bi(8)), bi(2))) }
	appLen["ecMarshal"] = func(a []*Term) *Term { return curveLen(a[0]) }
	appRewrites["curveName"] = func(a []*Term) *Term {
		if k, ok := a[0].constInt(); ok {
			return Lit("P-" + strconv.Itoa(k))
		}
		return nil
	}
	newBig := func(st *State, t *Term) Value { return VPtr{False, st.alloc("bigint", bigIntT, VT{t}), nil} }
	cid := func(st *State, v Value) *Term { return T(getF(st, v.(*VIface).val, 0)) }
	models["crypto/elliptic.GenerateKey"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		id := cid(st, a[0])
		return x.fork(st, x.freshT(st, "ecgenOk", SBool), func(st *State) []Outcome {
			priv := x.freshT(st, "ecpriv", SBytes)
			st.assume(Eq(Len(priv), Div(AddI(id, 7), bi(8))))
			return ret(st, x.newBytes(st, priv), newBig(st, App("ecBaseX", SInt, id, priv)), newBig(st, App("ecBaseY", SInt, id, priv)), nilIface)
		}, func(st *State) []Outcome {
			return ret(st, zero(types.NewSlice(tByte)), VPtr{nilT: True}, VPtr{nilT: True}, x.newError(st))
		})
	}
	models["crypto/elliptic.Marshal"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		p, q := a[1].(VPtr), a[2].(VPtr)
		x.safe(st, "nil *big.Int", And(Not(p.nilT), Not(q.nilT)), pos)
		if st.bad {
			return nil
		}
		return ret(st, x.newBytes(st, App("ecMarshal", SBytes, cid(st, a[0]), bv(st, p), bv(st, q))))
	}
	models["crypto/elliptic.Unmarshal"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		id, d := cid(st, a[0]), bytesOf(st, a[1])
		return x.fork(st, App("ecValid", SBool, id, d), func(st *State) []Outcome {
			st.assume(Eq(Len(d), curveLen(id)))
			return ret(st, newBig(st, App("ecX", SInt, id, d)), newBig(st, App("ecY", SInt, id, d)))
		}, func(st *State) []Outcome { return ret(st, VPtr{nilT: True}, VPtr{nilT: True}) })
	}
	appBounds["ecMulX"] = bnd{bigZero, nil}
	scalarMult := func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		var id *Term
		switch r := a[0].(type) {
		case VPtr:
			if t, ok := curveOfParams[r.obj]; ok {
				id = t
			} else {
				id = x.freshT(st, "curve", SInt)
			}
		default:
			id = T(getF(st, r, 0))
		}
		p, q := a[1].(VPtr), a[2].(VPtr)
		x.safe(st, "nil *big.Int", And(Not(p.nilT), Not(q.nilT)), pos)
		if st.bad {
			return nil
		}
		k := bytesOf(st, a[3])
		mx := App("ecMulX", SInt, id, bv(st, p), bv(st, q), k)
		// the coordinate fits the field
		st.assume(Le(Len(App("i2osp", SBytes, mx)), Div(AddI(id, 7), bi(8))))
		return ret(st, newBig(st, mx), newBig(st, App("ecMulY", SInt, id, bv(st, p), bv(st, q), k)))
	}
	models["(*crypto/elliptic.CurveParams).ScalarMult"] = scalarMult
	ghostModels["*ghost.Curve.ScalarMult"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		return scalarMult(x, st, fr, a, pos)
	}
	ghostModels["*ghost.Curve.IsOnCurve"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		return ret(st, VT{App("ecOn", SBool, T(getF(st, a[0], 0)), bv(st, a[1]), bv(st, a[2]))})
	}
	appLen["x25519"] = func(a []*Term) *Term { return Int(32) }
	x25519base := App("x25519basepoint", SBytes)
	models["golang.org/x/crypto/curve25519.ScalarBaseMult"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		s := arrSeq(st, st.load(a[1].(VPtr)).(*ArrVal))
		st.store(a[0].(VPtr), &ArrVal{elem: tByte, seq: App("x25519", SBytes, s, x25519base)})
		return ret(st)
	}
	models["golang.org/x/crypto/curve25519.ScalarMult"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		s := arrSeq(st, st.load(a[1].(VPtr)).(*ArrVal))
		p := arrSeq(st, st.load(a[2].(VPtr)).(*ArrVal))
		st.store(a[0].(VPtr), &ArrVal{elem: tByte, seq: App("x25519", SBytes, s, p)})
		return ret(st)
	}
	models["golang.org/x/crypto/curve25519.X25519"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		r := App("x25519", SBytes, bytesOf(st, a[0]), bytesOf(st, a[1]))
		ok := And(Eq(a[0].(VSlice).len, Int(32)), Eq(a[1].(VSlice).len, Int(32)), Not(Eq(r, Lit(string(make([]byte, 32))))))
		return x.fork(st, ok, func(st *State) []Outcome { return ret(st, x.newBytes(st, r), nilIface) },
			func(st *State) []Outcome { return ret(st, zero(types.NewSlice(tByte)), x.newError(st)) })
	}

	// ---- signatures and certificates ----
	ref := func(st *State, v Value) *Term { return freeze(st, v, nil) }
	errUnless := func(x *Exec, st *State, ok *Term) []Outcome {
		return x.fork(st, ok, func(st *State) []Outcome { return ret(st, nilIface) }, func(st *State) []Outcome { return ret(st, x.newError(st)) })
	}
	models["crypto/rsa.VerifyPKCS1v15"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		return errUnless(x, st, App("rsaPKCS1ok", SBool, ref(st, a[0]), T(a[1]), bytesOf(st, a[2]), bytesOf(st, a[3])))
	}
	models["crypto/rsa.VerifyPSS"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		o := a[4].(VPtr)
		if o.nilT != False {
			panic(unsupported("VerifyPSS without options"))
		}
		os := st.load(o).(*VStruct) // SaltLength, Hash
		return errUnless(x, st, App("rsaPSSok", SBool, ref(st, a[0]), T(a[1]), bytesOf(st, a[2]), bytesOf(st, a[3]), T(os.get(0)), T(os.get(1))))
	}
	models["crypto/ecdsa.Verify"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		return ret(st, VT{App("ecdsaOk", SBool, ref(st, a[0]), bytesOf(st, a[1]), bv(st, a[2]), bv(st, a[3]))})
	}
	models["(*crypto/ecdsa.PrivateKey).Public"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		p := a[0].(VPtr)
		x.safe(st, "nil dereference", Not(p.nilT), pos)
		if st.bad {
			return nil
		}
		pk := x.lookupType("*ecdsa.PublicKey")
		us := x.lookupType("ecdsa.PrivateKey").Underlying().(*types.Struct)
		for i := 0; i < us.NumFields(); i++ {
			if us.Field(i).Name() == "PublicKey" {
				return ret(st, &VIface{nilT: False, dyn: pk, val: VPtr{False, p.obj, append(append([]PE{}, p.path...), PE{f: i})}})
			}
		}
		panic(unsupported("ecdsa.PrivateKey has no PublicKey"))
	}
	models["crypto/x509.ParseCertificate"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		d := bytesOf(st, a[0])
		return x.fork(st, App("x509ok", SBool, d), func(st *State) []Outcome {
			v := symValue(x509CertT, "x509cert", []*Term{d}).(VPtr)
			st.assume(Not(v.nilT))
			return ret(st, v, nilIface)
		}, func(st *State) []Outcome { return ret(st, VPtr{nilT: True}, x.newError(st)) })
	}
	models["(*crypto/x509.Certificate).Verify"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		p := a[0].(VPtr)
		x.safe(st, "nil dereference", Not(p.nilT), pos)
		opts := a[1].(*VStruct)
		var o *Term = freeze(st, opts, opts.typ)
		c := ref(st, p)
		return x.fork(st, App("x509chain", SBool, c, o), func(st *State) []Outcome {
			ch := symValue(types.NewSlice(types.NewSlice(x509CertT)), "x509chains", []*Term{c, o})
			st.events = append(st.events, Event{"x509.Verify", []Value{p, opts, ch, nilIface}})
			return ret(st, ch, nilIface)
		}, func(st *State) []Outcome {
			ch, e := zero(types.NewSlice(types.NewSlice(x509CertT))), x.newError(st)
			st.events = append(st.events, Event{"x509.Verify", []Value{p, opts, ch, e}})
			return ret(st, ch, e)
		})
	}
	models["(*crypto/x509.CertPool).AddCert"] = nop
	ifaceModels["crypto.Signer.Public"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		v := a[0].(*VIface)
		id := ref(st, v)
		ek := x.lookupType("*ecdsa.PrivateKey")
		if v.dyn == nil && st.decide(And(Not(v.nilT), Eq(App("dyn", SInt, v.id), typeTag(ek)))) == 1 {
			return models["(*crypto/ecdsa.PrivateKey).Public"](x, st, fr, []Value{st.payload(v, ek)}, pos)
		}
		return ret(st, &VIface{nilT: False, id: App("signerPublic", SInt, id)})
	}
	ifaceModels["crypto.Signer.Sign"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		v := a[0].(*VIface)
		id := ref(st, v)
		x.cntSym++
		opts := ref(st, a[3])
		if oi, ok := a[3].(*VIface); ok && oi.dyn != nil {
			switch ov := oi.val.(type) {
			case VT:
				opts = App("optsHash", SInt, ov.t)
			case VPtr:
				if s, ok := st.load(ov).(*VStruct); ok {
					opts = App("optsPSS", SInt, T(s.get(0)), T(s.get(1)))
				}
			}
		}
		d := bytesOf(st, a[2])
		return x.fork(st, x.freshT(st, "signOk", SBool), func(st *State) []Outcome {
			sig := x.freshT(st, "signature", SBytes)
			st.assume(App("signedBy", SBool, id, d, opts, sig))
			return ret(st, x.newBytes(st, sig), nilIface)
		}, func(st *State) []Outcome { return ret(st, zero(types.NewSlice(tByte)), x.newError(st)) })
	}
	models["encoding/asn1.Unmarshal"] = func(x *Exec, st *State, fr *Frame, a []Value, pos token.Pos) []Outcome {
		d := bytesOf(st, a[0])
		dst := a[1].(*VIface)
		p := dst.val.(VPtr)
		el := dst.dyn.(*types.Pointer).Elem()
		return x.fork(st, App("asn1ok", SBool, d), func(st *State) []Outcome {
			v := symValue(el, "asn1."+typeName(el), []*Term{d})
			if s, ok := v.(*VStruct); ok { // decoded integers are present
				us := el.Underlying().(*types.Struct)
				for i := 0; i < us.NumFields(); i++ {
					if f, ok := s.get(i).(VPtr); ok {
						f.nilT = False
						if f.obj != nil && types.Identical(f.obj.typ, bigIntT) {
							f = newBig(st, App("asn1int", SInt, d, Int(int64(i)))).(VPtr)
						}
						s = s.with(i, f)
					}
				}
				v = s
			}
			st.store(p, v)
			rest := App("asn1rest", SBytes, d)
			st.assume(Le(Len(rest), Len(d)))
			return ret(st, x.newBytes(st, rest), nilIface)
		}, func(st *State) []Outcome { return ret(st, zero(types.NewSlice(tByte)), x.newError(st)) })
	}
	registerReflect()
}

func dropVals(os []Outcome) []Outcome {
	for i := range os {
		os[i].vals = nil
	}
	return os
}

func curveIface(id *Term) Value {
	o := symObj("curve", []*Term{id}, ghostCurveT, func() Value { return &VStruct{typ: ghostCurveT, f: []Value{VT{id}}} })
	return &VIface{nilT: False, dyn: ghostPtr(ghostCurveT), val: VPtr{False, o, nil}}
}

var nistP = map[int]*big.Int{224: elliptic.P224().Params().P, 256: elliptic.P256().Params().P, 384: elliptic.P384().Params().P, 521: elliptic.P521().Params().P}

var curveOfParams = map[*Obj]*Term{}

func curveParams(x *Exec, st *State, id *Term) Value {
	v := symValue(types.NewPointer(curveParamsT), "curveParams", []*Term{id}).(VPtr)
	v.nilT = False
	curveOfParams[v.obj] = id
	s := st.load(v).(*VStruct)
	us := curveParamsT.Underlying().(*types.Struct)
	for i := 0; i < us.NumFields(); i++ {
		if us.Field(i).Name() == "BitSize" {
			if T(s.get(i)) != id {
				s = s.with(i, VT{id})
				st.heap[v.obj] = s
			}
		}
		if us.Field(i).Name() == "P" {
			// the published prime of a curve that is known here
			if k, ok := id.constInt(); ok && nistP[k] != nil {
				pp := s.get(i).(VPtr)
				if pp.nilT != False || T(st.load(pp)) != IntB(nistP[k]) {
					o := symObj("curveP", []*Term{id}, bigIntT, func() Value { return VT{IntB(nistP[k])} })
					s = s.with(i, VPtr{False, o, nil})
					st.heap[v.obj] = s
				}
			}
		}
		if us.Field(i).Name() == "Name" {
			n := App("curveName", SBytes, id)
			if T(s.get(i)) != n {
				s = s.with(i, VT{n})
				st.heap[v.obj] = s
			}
			for _, c := range []int64{224, 256, 384, 521} {
				if id != Int(c) {
					st.assume(Iff(Eq(n, App("curveName", SBytes, Int(c))), Eq(id, Int(c))))
				}
			}
		}
	}
	return v
}

var errorT = types.Universe.Lookup("error").Type()
var bufferT, bigIntT, x509CertT, curveParamsT types.Type
var _ = big.NewInt
