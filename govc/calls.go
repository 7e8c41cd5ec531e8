package main

// Calls: builtins, contracts of callees, in-place execution, havoc.

import (
	"fmt"
	"go/ast"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

func ret(st *State, vals ...Value) []Outcome { return []Outcome{{st: st, vals: vals}} }

func (x *Exec) call(st *State, fr *Frame, c *ssa.CallCommon, pos token.Pos, typ types.Type) []Outcome {
	var args []Value
	for _, a := range c.Args {
		args = append(args, x.val(fr, a))
	}
	if c.IsInvoke() {
		recv := x.val(fr, c.Value).(*VIface)
		x.safe(st, "nil interface method call", Not(recv.nilT), pos)
		if st.bad {
			return nil
		}
		return x.invoke(st, fr, recv, c.Method, args, pos, c.Value.Type())
	}
	if b, ok := c.Value.(*ssa.Builtin); ok {
		return x.builtin(st, fr, b.Name(), args, c, pos, typ)
	}
	if f := c.StaticCallee(); f != nil {
		var bind []Value
		if mc, ok := c.Value.(*ssa.MakeClosure); ok {
			for _, b := range mc.Bindings {
				bind = append(bind, x.val(fr, b))
			}
		}
		return x.callStatic(st, fr, f, args, bind, pos)
	}
	f := x.val(fr, c.Value)
	if vf, ok := f.(VFunc); ok {
		x.safe(st, "nil function call", Not(vf.nilT), pos)
	}
	if st.bad {
		return nil
	}
	return x.callValue(st, fr, f, args, pos, c.Signature())
}

func (x *Exec) callValue(st *State, fr *Frame, f Value, args []Value, pos token.Pos, sig *types.Signature) []Outcome {
	vf, ok := f.(VFunc)
	if !ok {
		panic(unsupported("call of " + fmt.Sprintf("%T", f)))
	}
	if vf.fn != nil {
		return x.callStatic(st, fr, vf.fn, args, vf.bind, pos)
	}
	if vf.bi != nil {
		panic(unsupported("builtin value"))
	}
	if vf.nilT == True {
		st.bad = true
		return nil
	}
	if m, ok := funcTypeModels[typeName(vf.typ)]; ok {
		x.trusted["function value of type "+typeName(vf.typ)]++
		return m(x, st, vf, args)
	}
	return x.havocCall(st, "func value "+typeName(vf.typ), sig, append([]Value{vf}, args...))
}

func (x *Exec) callStatic(st *State, fr *Frame, f *ssa.Function, args, bind []Value, pos token.Pos) []Outcome {
	full := f.String()
	if m, ok := models[full]; ok {
		x.trusted[full]++
		return m(x, st, fr, args, pos)
	}
	inRepo := f.Pkg == x.mint || f.Pkg == x.syntax || f.Pkg == nil && len(f.Blocks) > 0
	if f.Pkg != nil && (f.Pkg == x.mint || f.Pkg == x.syntax) {
		if con := x.useVariant(x.shortName(f)); con != nil {
			return x.callContract(st, fr, con, f, args, pos)
		}
		if con := x.con.byName[x.shortName(f)]; con != nil && con.cut && x.useCut(con, fr) {
			return x.callContract(st, fr, con, f, args, pos)
		}
	}
	if inRepo && len(f.Blocks) > 0 {
		x.inlined[x.shortName(f)]++
		save := x.curFn
		outs := x.callFn(st, f, args, bind, fr, pos)
		x.curFn = save
		return outs
	}
	return x.havocCall(st, full, f.Signature, args)
}

// useVariant: the contract the root contract asks to use for calls of a function (opt use=F@variant;...)
func (x *Exec) useVariant(fn string) *Contract {
	if x.rootCon == nil || x.rootCon.opts["use"] == "" {
		return nil
	}
	for _, n := range strings.Split(x.rootCon.opts["use"], ";") {
		n = strings.TrimSpace(n)
		b, _, _ := strings.Cut(n, "@")
		if b == fn {
			c := x.con.byName[n]
			if c == nil {
				panic(unsupported("opt use: no contract " + n))
			}
			if !c.cut {
				panic(unsupported("opt use: " + n + " is not marked cut"))
			}
			return c
		}
	}
	return nil
}

func (x *Exec) useCut(con *Contract, fr *Frame) bool {
	if x.rootCon != nil && x.rootCon.opts["inline"] != "" {
		for _, n := range strings.Split(x.rootCon.opts["inline"], ";") {
			if strings.TrimSpace(n) == con.name {
				return false
			}
		}
	}
	return true
}

// callContract: assert the callee's precondition, havoc its frame, assume its postconditions
func (x *Exec) callContract(st *State, fr *Frame, con *Contract, f *ssa.Function, args []Value, pos token.Pos) []Outcome {
	if t := con.opts["trusted"]; t != "" {
		x.trusted["assumed contract of "+con.name+": "+t]++
	} else {
		x.cuts[con.name]++
	}
	ctx := &specCtx{x: x, st: st, old: st, env: map[string]Value{}}
	for i, p := range con.params {
		if i < len(args) {
			ctx.env[p] = args[i]
		}
	}
	for i, p := range con.params {
		if i >= len(args) || con.nilable[p] {
			continue
		}
		if pt, ok := args[i].(VPtr); ok && pt.nilT != False { // verified for non-nil pointers only
			x.oblige(st, "pre", x.fnName()+": precondition of "+con.name+": "+p+" != nil", Not(pt.nilT), pos)
			st.assume(Not(pt.nilT))
		}
	}
	for _, l := range con.lets {
		if v, err := ctx.safeSx(l.expr); err == nil {
			ctx.env[l.name] = v
		}
	}
	for _, p := range con.pres {
		t, err := ctx.prop(p.expr)
		if err != nil {
			panic(unsupported(fmt.Sprintf("precondition of %s: %v", con.name, err)))
		}
		x.oblige(st, "pre", x.fnName()+": precondition of "+con.name+": "+p.src, t, pos)
		st.assume(t)
	}
	if st.bad {
		return nil
	}
	old := st.clone()
	// frame
	mctx := *ctx
	mctx.st = st
	for _, m := range con.mods {
		x.havocPath(&mctx, m)
	}
	var vals []Value
	res := f.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		vals = append(vals, x.fresh(st, "ret."+f.Name(), res.At(i).Type()))
	}
	pctx := &specCtx{x: x, st: st, old: old, env: ctx.env, atCall: true}
	for i, r := range con.results {
		if i < len(vals) {
			pctx = pctx.bind(r, vals[i])
		}
	}
	// definitional postconditions "r == e" replace the fresh value
	defined := map[*Clause]bool{}
	for _, p := range con.posts {
		i, v := x.definition(pctx, con, p, vals)
		if v == nil {
			continue
		}
		vals[i] = v
		pctx = pctx.bind(con.results[i], v)
		defined[p] = true
	}
	for _, p := range con.posts {
		if p.has("nocall") || defined[p] {
			continue
		}
		t, err := pctx.prop(p.expr)
		if err != nil {
			continue // a postcondition that cannot be read here is simply not used
		}
		// a conclusion that is false by construction (two symbolic objects said to be one) would silently cut the
		// path off: the proof would be vacuous
		if p.expr.ante != nil {
			a, ea := pctx.prop(p.expr.ante)
			k, ek := pctx.prop(p.expr.cons)
			if ea == nil && ek == nil && k == False && a != False && mentions(p.expr.cons, con.results) {
				panic(unsupported("postcondition " + p.label + " of " + con.name + " contradicts its fresh results"))
			}
		} else if t == False {
			panic(unsupported("postcondition " + p.label + " of " + con.name + " contradicts its fresh results"))
		}
		st.assume(t)
	}
	en, _, _ := strings.Cut(con.name, "@")
	st.events = append(st.events, Event{en, append(append([]Value{}, args...), vals...)})
	return ret(st, vals...)
}

// definition: the value a postcondition "r == e" gives result r, when e speaks of no result
func (x *Exec) definition(c *specCtx, con *Contract, p *Clause, vals []Value) (int, Value) {
	if p.expr == nil || p.expr.ante != nil || p.has("nocall") {
		return 0, nil
	}
	b, ok := p.expr.e.(*ast.BinaryExpr)
	if !ok || b.Op != token.EQL {
		return 0, nil
	}
	id, ok := b.X.(*ast.Ident)
	if !ok {
		return 0, nil
	}
	at := -1
	for i, r := range con.results {
		if r == id.Name {
			at = i
		}
	}
	if at < 0 || at >= len(vals) {
		return 0, nil
	}
	own := false
	ast.Inspect(b.Y, func(n ast.Node) bool {
		if k, ok := n.(*ast.Ident); ok {
			for _, r := range con.results {
				if r == k.Name {
					own = true
				}
			}
		}
		return true
	})
	if own {
		return 0, nil
	}
	v, err := c.safeSx(&sexpr{e: b.Y})
	if err != nil {
		return 0, nil
	}
	switch r := vals[at].(type) {
	case VT:
		if w, ok := plain(v).(VT); ok && w.t.sort == r.t.sort {
			return at, w
		}
	case VSlice:
		if r.obj == nil {
			return 0, nil
		}
		var t *Term
		switch w := plain(v).(type) {
		case VT:
			t = w.t
		default:
			return 0, nil
		}
		a := c.st.arr(r)
		if t.sort != seqSortOf(a.elem) {
			return 0, nil
		}
		o := c.st.alloc("def", nil, &ArrVal{elem: a.elem, seq: t})
		l := Len(t)
		return at, VSlice{And(r.nilT, Eq(l, Int(0))), o, nil, Int(0), l, l}
	}
	return 0, nil
}

func (x *Exec) havocPath(c *specCtx, e interface{}) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				panic(unsupported("modifies: " + s.msg))
			}
			panic(r)
		}
	}()
	p, typ := c.lval(e)
	old := c.st.load(p)
	c.st.store(p, x.havocLike(c.st, "mod", old, typ, c.st.loopCtx, false))
}

func (x *Exec) havocCall(st *State, name string, sig *types.Signature, args []Value) []Outcome {
	x.trusted["havoc: "+name]++
	var vals []Value
	for i := 0; i < sig.Results().Len(); i++ {
		vals = append(vals, x.fresh(st, "havoc."+name, sig.Results().At(i).Type()))
	}
	en := strings.TrimPrefix(name, "interface method ")
	if strings.HasPrefix(name, "func value ") {
		en = "call"
	}
	st.events = append(st.events, Event{en, append(append([]Value{}, args...), vals...)})
	return ret(st, vals...)
}

func (x *Exec) invoke(st *State, fr *Frame, recv *VIface, m *types.Func, args []Value, pos token.Pos, it types.Type) []Outcome {
	if recv.nilT == True {
		st.bad = true
		return nil
	}
	if recv.dyn != nil {
		key := typeName(recv.dyn) + "." + m.Name()
		if g, ok := ghostModels[key]; ok {
			x.trusted["interface method "+key]++
			return g(x, st, fr, append([]Value{recv.val}, args...), pos)
		}
		if r, ok := recv.val.(*VRType); ok {
			return x.rtypeCall(st, r, m.Name(), args)
		}
		f := x.prog.LookupMethod(recv.dyn, m.Pkg(), m.Name())
		if f != nil {
			// promoted-method wrappers have bodies
			return x.callStatic(st, fr, f, append([]Value{recv.val}, args...), nil, pos)
		}
	}
	key := typeName(it) + "." + m.Name()
	if g, ok := ifaceModels[key]; ok {
		x.trusted["interface method "+key]++
		return g(x, st, fr, append([]Value{recv}, args...), pos)
	}
	outs := x.havocCall(st, "interface method "+key, m.Type().(*types.Signature), append([]Value{recv}, args...))
	if f := ifacePost[key]; f != nil {
		for _, o := range outs {
			f(o.st, append([]Value{recv}, args...), o.vals)
		}
	}
	return outs
}

// ifacePost: what is assumed about the results of an interface method beyond their types
var ifacePost = map[string]func(st *State, args, results []Value){}

// ---- language builtins ----
func (x *Exec) builtin(st *State, fr *Frame, name string, args []Value, c *ssa.CallCommon, pos token.Pos, typ types.Type) []Outcome {
	switch name {
	case "len":
		switch v := args[0].(type) {
		case VSlice:
			return ret(st, VT{v.len})
		case VT:
			return ret(st, VT{Len(v.t)})
		case *ArrVal:
			return ret(st, VT{arrLen(v)})
		case VMap:
			if v.obj == nil {
				return ret(st, VT{Int(0)})
			}
			mv := st.read(v.obj).(*MapVal)
			if mv.base == nil {
				// distinct constant keys only
				return ret(st, VT{Int(int64(len(mv.writes)))})
			}
			l := x.freshT(st, "maplen", SInt)
			st.assume(Le(Int(0), l))
			return ret(st, VT{l})
		case VPtr:
			return ret(st, VT{arrLen(st.load(v).(*ArrVal))})
		}
	case "cap":
		if v, ok := args[0].(VSlice); ok {
			return ret(st, VT{v.cap})
		}
	case "append":
		return x.appendB(st, args[0].(VSlice), args[1], typ)
	case "copy":
		return x.copyB(st, args[0].(VSlice), args[1], c.Args[0].Type())
	case "delete":
		m := args[0].(VMap)
		if m.obj == nil {
			return ret(st)
		}
		mv := st.read(m.obj).(*MapVal)
		st.heap[m.obj] = mapSet(st, mv, args[1], nil)
		return ret(st)
	case "recover":
		if st.panicV != nil {
			v := st.panicV
			st.recov = true
			return ret(st, v)
		}
		return ret(st, &VIface{nilT: True})
	case "print", "println":
		return ret(st)
	case "min", "max":
		r := args[0].(VT).t
		for _, a := range args[1:] {
			t := a.(VT).t
			c := Le(r, t)
			if name == "max" {
				c = Le(t, r)
			}
			switch st.light(c) {
			case 1:
			case -1:
				r = t
			default:
				r = Ite(c, r, t)
			}
		}
		return ret(st, VT{r})
	case "ssa:wrapnilchk":
		p := args[0].(VPtr)
		x.safe(st, "nil dereference", Not(p.nilT), pos)
		return ret(st, p)
	case "close":
		return ret(st)
	}
	panic(unsupported("builtin " + name))
}

func (x *Exec) appendB(st *State, s VSlice, t Value, typ types.Type) []Outcome {
	elem := typ.Underlying().(*types.Slice).Elem()
	srt := seqSortOf(elem)
	var tl *Term
	var tcells []Value
	tcellsOK := false
	var tseq func() *Term
	switch v := t.(type) {
	case VSlice:
		tl = v.len
		if v.obj == nil {
			tcellsOK = true
		} else if a := st.arr(v); a.cells != nil {
			if cs, ok := cellsOf(st, v); ok {
				tcells, tcellsOK = cs, true
			}
		}
		tseq = func() *Term { return sliceSeq(st, v, typ) }
	case VT:
		tl = Len(v.t)
		tseq = func() *Term { return v.t }
	}
	if tl == Int(0) {
		return ret(st, s)
	}
	nl := Add(s.len, tl)
	nilT := And(s.nilT, Eq(tl, Int(0)))
	realloc := func(st *State) Outcome {
		var a *ArrVal
		if s.obj == nil {
			if tcellsOK {
				a = &ArrVal{elem: elem, cells: append([]Value{}, tcells...)}
			} else {
				a = &ArrVal{elem: elem, seq: tseq()}
			}
		} else {
			sa := st.arr(s)
			if sa.cells != nil && tcellsOK {
				if cs, ok := cellsOf(st, s); ok {
					a = &ArrVal{elem: elem, cells: append(append([]Value{}, cs...), tcells...)}
				}
			}
			if a == nil {
				a = &ArrVal{elem: elem, seq: Cat(srt, sliceSeq(st, s, typ), tseq())}
			}
		}
		o := st.alloc("append", nil, a)
		return Outcome{st: st, vals: []Value{VSlice{nilT, o, nil, Int(0), nl, nl}}}
	}
	inplace := func(st *State) Outcome {
		sa := st.arr(s)
		seq := arrSeq(st, sa)
		total := Len(seq)
		at := Add(s.off, s.len)
		ns := Cat(srt, extCtx(seq, Int(0), at, st.light), tseq(), extCtx(seq, Add(at, tl), Sub(total, Add(at, tl)), st.light))
		st.store(VPtr{False, s.obj, s.path}, &ArrVal{elem: elem, seq: ns})
		return Outcome{st: st, vals: []Value{VSlice{s.nilT, s.obj, s.path, s.off, nl, s.cap}}}
	}
	if s.obj == nil || s.cap == s.len || !s.obj.local {
		return []Outcome{realloc(st)}
	}
	switch st.decide(Le(nl, s.cap)) {
	case 1:
		return []Outcome{inplace(st)}
	case -1:
		return []Outcome{realloc(st)}
	}
	s2 := st.clone()
	s2.assume(Le(nl, s.cap))
	st.assume(Lt(s.cap, nl))
	return []Outcome{inplace(s2), realloc(st)}
}

func (x *Exec) copyB(st *State, d VSlice, s Value, dt types.Type) []Outcome {
	var sl *Term
	var seq *Term
	switch v := s.(type) {
	case VSlice:
		sl = v.len
		if v.obj != nil {
			seq = sliceSeq(st, v, dt)
		}
	case VT:
		sl, seq = Len(v.t), v.t
	}
	do := func(st *State, n *Term) Outcome {
		if n == Int(0) || seq == nil || d.obj == nil {
			return Outcome{st: st, vals: []Value{VT{Int(0)}}}
		}
		a := st.arr(d)
		cur := arrSeq(st, a)
		total := Len(cur)
		ns := Cat(cur.sort, extCtx(cur, Int(0), d.off, st.light), extCtx(seq, Int(0), n, st.light), extCtx(cur, Add(d.off, n), Sub(total, Add(d.off, n)), st.light))
		st.store(VPtr{False, d.obj, d.path}, &ArrVal{elem: a.elem, seq: ns})
		return Outcome{st: st, vals: []Value{VT{n}}}
	}
	c := Le(sl, d.len)
	switch st.decide(c) {
	case 1:
		return []Outcome{do(st, sl)}
	case -1:
		return []Outcome{do(st, d.len)}
	}
	s2 := st.clone()
	s2.assume(c)
	st.assume(Not(c))
	return []Outcome{do(s2, sl), do(st, d.len)}
}

// fork on a boolean condition; the callbacks build the outcomes
func (x *Exec) fork(st *State, c *Term, yes, no func(*State) []Outcome) []Outcome {
	switch st.decide(c) {
	case 1:
		st.assume(c)
		return yes(st)
	case -1:
		st.assume(Not(c))
		return no(st)
	}
	s2 := st.clone()
	s2.assume(c)
	st.assume(Not(c))
	return append(yes(s2), no(st)...)
}

func (x *Exec) newError(st *State) Value {
	o := st.alloc("error", ghostErrT, zero(ghostErrT))
	return &VIface{nilT: False, dyn: types.NewPointer(ghostErrT), val: VPtr{False, o, nil}}
}

var nilIface = &VIface{nilT: True}

// mentions: does a clause read one of the names?
func mentions(e *sexpr, names []string) bool {
	if e == nil {
		return false
	}
	found := false
	if e.e != nil {
		ast.Inspect(e.e, func(n ast.Node) bool {
			if id, ok := n.(*ast.Ident); ok {
				for _, m := range names {
					found = found || id.Name == m
				}
			}
			return true
		})
	}
	return found || mentions(e.ante, names) || mentions(e.cons, names)
}
