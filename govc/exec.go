package main

// Symbolic execution of go/ssa functions, path by path.

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Outcome struct {
	st   *State
	vals []Value
	pan  bool
	pv   Value
}

type deferred struct {
	fn   Value
	args []Value
	call *ssa.CallCommon
}

type Frame struct {
	fn     *ssa.Function
	env    map[ssa.Value]Value
	names  map[string]Value
	defers []deferred
	parent *Frame
	depth  int
	named  map[string]ssa.Value
}

func (f *Frame) clone() *Frame {
	n := *f
	n.env = make(map[ssa.Value]Value, len(f.env)+8)
	for k, v := range f.env {
		n.env[k] = v
	}
	n.names = make(map[string]Value, len(f.names))
	for k, v := range f.names {
		n.names[k] = v
	}
	n.defers = f.defers[:len(f.defers):len(f.defers)]
	return &n
}

type item struct {
	st   *State
	fr   *Frame
	blk  *ssa.BasicBlock
	prev *ssa.BasicBlock
	ip   int
}

func (it *item) clone() *item {
	return &item{it.st.clone(), it.fr.clone(), it.blk, it.prev, it.ip}
}

type Exec struct {
	reached   map[*Clause]*reachInfo
	prog      *ssa.Program
	mint      *ssa.Package
	syntax    *ssa.Package
	con       *Contracts
	safety    bool
	mute      int
	target    string
	prop      string
	obs       []*Obligation
	obKey     map[string]bool
	trusted   map[string]int
	inlined   map[string]int
	cuts      map[string]int
	paths     int
	loops     map[*ssa.Function]*loopInfo
	cntSym    int
	invProved int
	invTried  int
	loopNotes map[string]bool
	steps     int
	curFn     *ssa.Function
	rootCon   *Contract
	globals   map[*ssa.Global]*Obj
	dropped   map[string]int
	maxSteps  int
	entry     *State
	initing   bool
	initVals  map[*ssa.Global]Value
	mutGlob   map[*ssa.Global]bool
	allFns    map[string]*ssa.Function
}

type Obligation struct {
	Name   string
	Kind   string
	Script string
	full   string // Script with every fact of the path instead of those sharing a symbol with the goal
	Goal   string
	Pos    string
	Trace  []string
	Status string // discharged, failed
	Solver string
	Ms     int64
	pcTxt  string
	Sub    []*Obligation // sufficient subgoals
}

func (x *Exec) pos(p token.Pos) string {
	if !p.IsValid() {
		return ""
	}
	q := x.prog.Fset.Position(p)
	return fmt.Sprintf("%s:%d", q.Filename[strings.LastIndex(q.Filename, "/")+1:], q.Line)
}

// oblige records a proof obligation; the goal is assumed afterwards by the caller if appropriate
func (x *Exec) oblige(st *State, kind, name string, goal *Term, pos token.Pos) {
	if x.mute > 0 || st.bad {
		return
	}
	if goal == True {
		x.obDone(kind, name)
		return
	}
	st = st.clone()
	st.saturate()
	if st.bad {
		x.obDone(kind, name)
		return
	}
	if os.Getenv("GOVC_G") != "" && strings.Contains(name, os.Getenv("GOVC_G")) {
		fmt.Println("GOAL", goal)
		fmt.Println("  ->", st.goal(goal))
	}
	goal = st.goal(goal)
	if goal != True && goal.op != OAnd {
		st.enrich()
		if st.bad {
			x.obDone(kind, name)
			return
		}
		goal = st.goal(goal)
	}
	x.oblige1(st, kind, name, goal, pos)
}
func hasSeqEq(g *Term) bool { return g.op == OEq && g.args[0].sort.elem != nil && congr(g) != nil }

func (x *Exec) oblige1(st *State, kind, name string, goal *Term, pos token.Pos) {
	if goal == True {
		x.obDone(kind, name)
		return
	}
	switch goal.op {
	case OAnd:
		for i, g := range goal.args {
			x.oblige(st, kind, fmt.Sprintf("%s/%d", name, i+1), g, pos)
		}
		return
	case OForall:
		// skolemise
		x.cntSym++
		v := goal.args[0]
		sk := Sym(fmt.Sprintf("sk#%d", x.cntSym), v.sort, nil, nil)
		x.oblige(st, kind, name, Subst(goal.args[1], map[*Term]*Term{v: sk}), pos)
		return
	case OOr:
		// a \/ b: assume the negation of simple disjuncts
		s2 := st.clone()
		var rest []*Term
		for _, g := range goal.args {
			if g.op == OAnd || hasForall(g) || hasSeqEq(g) {
				rest = append(rest, g)
			} else {
				s2.assume(Not(g))
			}
		}
		if len(rest) < len(goal.args) {
			if s2.bad {
				x.obDone(kind, name)
				return
			}
			if len(rest) == 0 {
				x.obligeAtom(s2, kind, name, False, pos)
				return
			}
			if len(rest) == 1 {
				x.oblige(s2, kind, name, rest[0], pos)
				return
			}
			x.obligeAtom(s2, kind, name, Or(rest...), pos)
			return
		}
	}
	x.obligeAtom(st, kind, name, goal, pos)
}
func (x *Exec) obDone(kind, name string) {
	x.obs = append(x.obs, &Obligation{Name: name, Kind: kind, Status: "discharged", Solver: "simplifier"})
}
func (x *Exec) obligeAtom(st *State, kind, name string, goal *Term, pos token.Pos) {
	if goal == True || st.light(goal) == 1 {
		x.obDone(kind, name)
		return
	}
	asserts := append(append([]*Term{}, st.pc...), Not(goal))
	if goal.op != OFalse {
		asserts = append(relevant(st.pc, goal), Not(goal))
	}
	asserts = append(witnesses(goal, asserts), asserts...)
	if x.rootCon != nil && x.rootCon.opts["split"] != "" && st.splits < 8 {
		asserts = append(linkRefs(st, asserts), asserts...)
		if c := catRegion(st, asserts); c != nil {
			for _, g := range []*Term{c, Not(c)} {
				s2 := st.clone()
				s2.splits++
				s2.assume(g)
				x.oblige(s2, kind, name, goal, pos)
			}
			return
		}
	}
	h := ""
	{
		k := pcHash(asserts)
		h = fmt.Sprintf("%s|%d", name, k)
	}
	if x.obKey[h] {
		return
	}
	x.obKey[h] = true
	var subs []*Obligation
	if sg := congr(goal); sg != nil {
		saveO, saveK := x.obs, x.obKey
		x.obs, x.obKey = nil, map[string]bool{}
		for _, g := range sg {
			x.oblige(st, kind, name, g, pos)
		}
		subs = x.obs
		x.obs, x.obKey = saveO, saveK
		all := true
		for _, s := range subs {
			all = all && s.Status == "discharged"
		}
		if all {
			x.obDone(kind, name)
			return
		}
	}
	o := &Obligation{Name: name, Kind: kind, Goal: trunc(goal.String(), 2000), Pos: x.pos(pos), Trace: append([]string{}, st.trace...)}
	o.Sub = subs
	o.Script = smtScript(asserts, false)
	if goal.op != OFalse && len(asserts) < len(st.pc)+1 {
		full := append(append([]*Term{}, st.pc...), Not(goal))
		o.full = smtScript(append(witnesses(goal, full), full...), false)
	}
	if os.Getenv("GOVC_PC") != "" {
		for _, a := range asserts {
			o.pcTxt += "    " + trunc(a.String(), 1600) + "\n"
		}
	}
	x.obs = append(x.obs, o)
}

// linkRefs: fields of objects made during execution and never written after a reference to them was stored, where
// they are read through that reference
func linkRefs(st *State, ts []*Term) (out []*Term) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp && len(t.args) == 1 && strings.HasPrefix(t.name, "H.") {
			if p, ok := refTab[t.args[0]].(VPtr); ok && p.obj != nil && p.obj.local && !p.obj.dirty && len(p.path) == 0 {
				if v, ok := st.read(p.obj).(*VStruct); ok {
					us := v.typ.Underlying().(*types.Struct)
					for i := 0; i < us.NumFields(); i++ {
						if t.name == "H."+typeName(v.typ)+"."+us.Field(i).Name() {
							if f, ok := v.get(i).(VT); ok {
								out = append(out, Eq(t, f.t))
							}
						}
					}
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, t := range ts {
		walk(t)
	}
	return
}

// catRegion: a condition that decides which part of a concatenation an element is read from
func catRegion(st *State, ts []*Term) (found *Term) {
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if found != nil || seen[t] || t.op == OForall {
			return
		}
		seen[t] = true
		if t.op == ONth && t.args[0].op == OCat {
			end := Int(0)
			for _, p := range t.args[0].args {
				end = Add(end, Len(p))
				c := Lt(t.args[1], end)
				if d := st.light(c); d == 1 {
					break
				} else if d == 0 {
					found = c
					return
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for i := len(ts) - 1; i >= 0; i-- {
		walk(ts[i])
	}
	return
}
func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

func (x *Exec) fresh(st *State, name string, typ types.Type) Value {
	x.cntSym++
	return symValue(typ, fmt.Sprintf("%s#%d", name, x.cntSym), st.loopCtx)
}
func (x *Exec) freshT(st *State, name string, s *Sort) *Term {
	x.cntSym++
	return Sym(fmt.Sprintf("%s#%d", name, x.cntSym), s, nil, nil, st.loopCtx...)
}

// check a runtime-safety condition; then assume it
func (x *Exec) safe(st *State, what string, c *Term, pos token.Pos) {
	if c == True {
		return
	}
	if x.safety && st.light(c) != 1 {
		x.oblige(st, "safety", x.fnName()+": "+what+" at "+x.pos(pos), c, pos)
	} else if x.safety {
		if x.mute == 0 {
			x.obDone("safety", what)
		}
	}
	st.assume(c)
}
func (x *Exec) fnName() string {
	if x.curFn != nil {
		return x.curFn.RelString(nil)
	}
	return x.target
}

// ---- function execution ----
func (x *Exec) callFn(st *State, fn *ssa.Function, args []Value, bind []Value, parent *Frame, pos token.Pos) []Outcome {
	if len(fn.Blocks) == 0 {
		return x.havocCall(st, fn.String(), fn.Signature, args)
	}
	depth := 0
	if parent != nil {
		depth = parent.depth + 1
	}
	if depth > 60 {
		panic(unsupported("call depth " + fn.String()))
	}
	fr := &Frame{fn: fn, env: map[ssa.Value]Value{}, names: map[string]Value{}, parent: parent, depth: depth}
	for i, p := range fn.Params {
		fr.env[p] = args[i]
		fr.names[p.Name()] = args[i]
	}
	for i, b := range fn.FreeVars {
		fr.env[b] = bind[i]
	}
	save := x.curFn
	x.curFn = fn
	_, _, outs := x.run([]*item{{st, fr, fn.Blocks[0], nil, 0}}, nil)
	x.curFn = save
	return outs
}

// run executes items until they leave the region (loop), return or panic
func (x *Exec) run(work []*item, region *Loop) (exits, backs []*item, outs []Outcome) {
	for len(work) > 0 {
		it := work[len(work)-1]
		work = work[:len(work)-1]
		if it.st.bad {
			continue
		}
		x.curFn = it.fr.fn
		// block entry
		if it.ip == 0 && it.prev != nil || it.ip == 0 && region == nil {
			if region != nil && it.prev != nil {
				if it.blk == region.header {
					backs = append(backs, it)
					continue
				}
				if !region.blocks[it.blk] {
					exits = append(exits, it)
					continue
				}
			}
			if L := x.loopAt(it.fr.fn, it.blk); L != nil && L != region {
				ex, os := x.handleLoop(it, L, 0)
				outs = append(outs, os...)
				work = append(work, ex...)
				continue
			}
		}
		next, os := x.step(it)
		work = append(work, next...)
		outs = append(outs, os...)
	}
	return
}

// enter runs the phi nodes of a block for an item arriving from it.prev
func (x *Exec) phis(it *item) {
	var vals []Value
	var ps []*ssa.Phi
	for _, in := range it.blk.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		for i, pr := range it.blk.Preds {
			if pr == it.prev {
				vals = append(vals, x.val(it.fr, p.Edges[i]))
				break
			}
		}
		ps = append(ps, p)
	}
	for i, p := range ps {
		it.fr.env[p] = vals[i]
		if p.Comment != "" {
			it.fr.names[p.Comment] = vals[i]
		}
	}
	it.ip = len(ps)
}

// step executes from it.ip to the end of the block (or a fork)
func (x *Exec) step(it *item) (next []*item, outs []Outcome) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(infeasible); ok {
				return
			}
			panic(r)
		}
	}()
	if it.ip == 0 {
		x.phis(it)
	}
	for it.ip < len(it.blk.Instrs) {
		in := it.blk.Instrs[it.ip]
		it.ip++
		x.steps++
		if x.steps > x.maxSteps {
			panic(unsupported(fmt.Sprintf("step budget exceeded (%d)", x.maxSteps)))
		}
		if it.st.bad {
			return
		}
		switch i := in.(type) {
		case *ssa.DebugRef:
			if id := debugName(i); id != "" && !i.IsAddr {
				if v, ok := it.fr.env[i.X]; ok {
					it.fr.names[id] = v
				} else if c, ok := i.X.(*ssa.Const); ok {
					it.fr.names[id] = x.constVal(c)
				}
			} else if id != "" {
				if v, ok := it.fr.env[i.X]; ok {
					it.fr.names["&"+id] = v
				}
			}
		case *ssa.If:
			c := x.val(it.fr, i.Cond).(VT).t
			var d int
			if c == True {
				d = 1
			} else if c == False {
				d = -1
			} else {
				d = it.st.decide(c)
			}
			if d >= 0 {
				n := it
				if d == 0 {
					n = it.clone()
				}
				n.st.assume(c)
				n.prev, n.blk, n.ip = it.blk, it.blk.Succs[0], 0
				n.st.trace = append(n.st.trace, x.tr(i, true, d))
				next = append(next, n)
				if d == 1 {
					return
				}
			}
			it.st.assume(Not(c))
			it.st.trace = append(it.st.trace, x.tr(i, false, d))
			b := it.blk
			if d == 0 {
				b = next[0].prev
			}
			it.prev, it.blk, it.ip = b, b.Succs[1], 0
			next = append(next, it)
			return
		case *ssa.Jump:
			it.prev, it.blk, it.ip = it.blk, it.blk.Succs[0], 0
			return []*item{it}, nil
		case *ssa.Return:
			var vs []Value
			for _, r := range i.Results {
				vs = append(vs, x.val(it.fr, r))
			}
			return nil, []Outcome{{st: it.st, vals: vs}}
		case *ssa.Panic:
			return x.doPanic(it, x.val(it.fr, i.X), i.Pos())
		case *ssa.RunDefers:
			if len(it.fr.defers) == 0 {
				continue
			}
			d := it.fr.defers[len(it.fr.defers)-1]
			it.fr.defers = it.fr.defers[:len(it.fr.defers)-1]
			it.ip-- // come back for the remaining ones
			for _, o := range x.callDeferred(it.st, it.fr, d) {
				n := &item{o.st, it.fr.clone(), it.blk, it.prev, it.ip}
				if o.pan {
					nn, oo := x.doPanic(n, o.pv, i.Pos())
					next, outs = append(next, nn...), append(outs, oo...)
					continue
				}
				next = append(next, n)
			}
			return
		case *ssa.Defer:
			it.fr.defers = append(it.fr.defers, x.prepDefer(it.fr, &i.Call))
		case *ssa.Go:
			x.trusted["goroutine not executed: "+x.pos(i.Pos())]++
		case *ssa.Call:
			if x.skipCall(&i.Call) {
				it.fr.env[i] = VTuple{}
				continue
			}
			if x.logOnly(i) {
				it.fr.env[i] = x.fresh(it.st, "logarg", i.Type())
				continue
			}
			os := x.call(it.st, it.fr, &i.Call, i.Pos(), i.Type())
			for k, o := range os {
				if o.st.bad {
					continue
				}
				n := it
				if k < len(os)-1 || o.pan {
					n = &item{o.st, it.fr.clone(), it.blk, it.prev, it.ip}
				}
				n.st = o.st
				if o.pan {
					nn, oo := x.doPanic(n, o.pv, i.Pos())
					next, outs = append(next, nn...), append(outs, oo...)
					continue
				}
				var v Value
				switch len(o.vals) {
				case 0:
					v = VTuple{}
				case 1:
					v = o.vals[0]
					if _, isT := i.Type().(*types.Tuple); isT {
						v = VTuple(o.vals)
					}
				default:
					v = VTuple(o.vals)
				}
				n.fr.env[i] = v
				if n == it && len(os) == 1 {
					goto cont
				}
				next = append(next, n)
			}
			return
		default:
			x.curFn = it.fr.fn
			forks := x.instr(it, in)
			if forks != nil {
				return forks, nil
			}
		}
	cont:
		x.curFn = it.fr.fn
	}
	return
}

func (x *Exec) tr(i *ssa.If, b bool, d int) string {
	if d != 0 {
		return ""
	}
	p := i.Cond.Pos()
	return fmt.Sprintf("%s %s=%v", x.pos(p), i.Cond.Name(), b)
}

func debugName(d *ssa.DebugRef) string {
	if v, ok := d.Object().(*types.Var); ok && v.IsField() {
		return ""
	}
	if id, ok := d.Expr.(interface{ String() string }); ok {
		s := id.String()
		if strings.ContainsAny(s, ".([ ") {
			return ""
		}
		return s
	}
	return ""
}

// skipCall: logging only; its arguments are still evaluated
func (x *Exec) skipCall(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	if f == nil {
		return false
	}
	switch f.Name() {
	case "logf":
		if f.Pkg == x.mint {
			x.dropped["logf"]++
			return true
		}
	}
	return false
}

// logOnly: a call without arguments to check whose result only feeds logf
func (x *Exec) logOnly(c *ssa.Call) bool {
	f := c.Call.StaticCallee()
	if f == nil || f.Pkg != x.mint || c.Referrers() == nil {
		return false
	}
	if b, ok := c.Type().Underlying().(*types.Basic); !ok || b.Info()&types.IsString == 0 {
		return false
	}
	n := 0
	for _, r := range *c.Referrers() {
		switch m := r.(type) {
		case *ssa.DebugRef:
		case *ssa.MakeInterface:
			for _, r2 := range *m.Referrers() {
				s, ok := r2.(*ssa.Store)
				if !ok {
					return false
				}
				ia, ok := s.Addr.(*ssa.IndexAddr)
				if !ok {
					return false
				}
				al, ok := ia.X.(*ssa.Alloc)
				if !ok {
					return false
				}
				for _, r3 := range *al.Referrers() {
					if sl, ok := r3.(*ssa.Slice); ok {
						for _, r4 := range *sl.Referrers() {
							cc, ok := r4.(*ssa.Call)
							if !ok || !x.isLogf(&cc.Call) {
								return false
							}
							n++
						}
					}
				}
			}
		default:
			return false
		}
	}
	if n > 0 {
		x.dropped["logf argument "+x.shortName(f)]++
	}
	return n > 0
}
func (x *Exec) isLogf(c *ssa.CallCommon) bool {
	f := c.StaticCallee()
	return f != nil && f.Name() == "logf" && f.Pkg == x.mint
}

func (x *Exec) prepDefer(fr *Frame, c *ssa.CallCommon) deferred {
	d := deferred{call: c}
	if !c.IsInvoke() {
		if _, ok := c.Value.(*ssa.Builtin); !ok {
			d.fn = x.val(fr, c.Value)
		}
	} else {
		d.fn = x.val(fr, c.Value)
	}
	for _, a := range c.Args {
		d.args = append(d.args, x.val(fr, a))
	}
	return d
}
func (x *Exec) callDeferred(st *State, fr *Frame, d deferred) []Outcome {
	if d.call.IsInvoke() {
		return x.invoke(st, fr, d.fn.(*VIface), d.call.Method, d.args, d.call.Pos(), d.call.Value.Type())
	}
	return x.callValue(st, fr, d.fn, d.args, d.call.Pos(), d.call.Signature())
}

func (x *Exec) doPanic(it *item, v Value, pos token.Pos) (next []*item, outs []Outcome) {
	// run deferred calls, which may recover
	if len(it.fr.defers) == 0 {
		return nil, []Outcome{{st: it.st, pan: true, pv: v}}
	}
	d := it.fr.defers[len(it.fr.defers)-1]
	fr := it.fr.clone()
	fr.defers = fr.defers[:len(fr.defers)-1]
	it.st.panicV, it.st.recov = v, false
	for _, o := range x.callDeferred(it.st, fr, d) {
		n := &item{o.st, fr.clone(), it.blk, it.prev, it.ip}
		if o.pan {
			nn, oo := x.doPanic(n, o.pv, pos)
			next, outs = append(next, nn...), append(outs, oo...)
			continue
		}
		if o.st.recov {
			o.st.recov, o.st.panicV = false, nil
			if rb := it.fr.fn.Recover; rb != nil {
				n.blk, n.prev, n.ip = rb, nil, 0
				next = append(next, n)
			} else {
				var vs []Value
				res := it.fr.fn.Signature.Results()
				for k := 0; k < res.Len(); k++ {
					vs = append(vs, zero(res.At(k).Type()))
				}
				outs = append(outs, Outcome{st: o.st, vals: vs})
			}
			continue
		}
		nn, oo := x.doPanic(n, v, pos)
		next, outs = append(next, nn...), append(outs, oo...)
	}
	return
}

func (x *Exec) constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return VT{Bool(constant.BoolVal(c.Value))}
	case constant.String:
		return VT{Lit(constant.StringVal(c.Value))}
	case constant.Int:
		b, _ := new(big.Int).SetString(c.Value.ExactString(), 10)
		return VT{IntB(b)}
	}
	return VOpaque{"const"}
}

func (x *Exec) val(fr *Frame, v ssa.Value) Value {
	switch c := v.(type) {
	case *ssa.Const:
		return x.constVal(c)
	case *ssa.Function:
		return VFunc{nilT: False, fn: c}
	case *ssa.Builtin:
		return VFunc{nilT: False, bi: c}
	case *ssa.Global:
		return VPtr{False, x.global(c), nil}
	}
	r, ok := fr.env[v]
	if !ok {
		panic(unsupported("undefined SSA value " + v.Name() + " in " + fr.fn.String()))
	}
	return r
}

func (x *Exec) global(g *ssa.Global) *Obj {
	if o, ok := x.globals[g]; ok {
		return o
	}
	typ := g.Type().(*types.Pointer).Elem()
	o := newObj("global "+g.String(), typ)
	o.init = func() Value { return x.globalInit(g, typ) }
	x.globals[g] = o
	return o
}

func (x *Exec) boolVT(t *Term) Value { return VT{t} }

// instr executes a non-control instruction; returns non-nil to fork
func (x *Exec) instr(it *item, in ssa.Instruction) []*item {
	st, fr := it.st, it.fr
	set := func(v ssa.Value, r Value) { fr.env[v] = r }
	switch i := in.(type) {
	case *ssa.Alloc:
		typ := i.Type().(*types.Pointer).Elem()
		o := st.alloc(i.Comment, typ, zero(typ))
		set(i, VPtr{False, o, nil})
		if i.Comment != "" {
			fr.names["&"+i.Comment] = VPtr{False, o, nil}
		}
	case *ssa.BinOp:
		set(i, x.binop(st, i.Op, x.val(fr, i.X), x.val(fr, i.Y), i.X.Type(), i.Type(), i.Pos()))
	case *ssa.UnOp:
		switch i.Op {
		case token.MUL:
			p, ok := x.val(fr, i.X).(VPtr)
			if !ok {
				panic(unsupported("deref"))
			}
			x.safe(st, "nil dereference", Not(p.nilT), i.Pos())
			if st.bad {
				return []*item{}
			}
			set(i, st.load(p))
		case token.NOT:
			set(i, VT{Not(x.val(fr, i.X).(VT).t)})
		case token.SUB:
			set(i, VT{x.wrap(st, Sub(Int(0), x.val(fr, i.X).(VT).t), i.Type())})
		case token.XOR:
			n, signed, ok := intBits(i.Type())
			t := x.val(fr, i.X).(VT).t
			if ok && !signed {
				set(i, VT{Sub(IntB(new(big.Int).Sub(new(big.Int).Lsh(bigOne, n), bigOne)), t)})
			} else {
				set(i, VT{Sub(Int(-1), t)})
			}
		default:
			panic(unsupported("unop " + i.Op.String()))
		}
	case *ssa.FieldAddr:
		p := x.val(fr, i.X).(VPtr)
		x.safe(st, "nil dereference", Not(p.nilT), i.Pos())
		if st.bad || p.obj == nil {
			return []*item{}
		}
		set(i, VPtr{False, p.obj, append(p.path[:len(p.path):len(p.path)], PE{f: i.Field})})
	case *ssa.Field:
		set(i, x.val(fr, i.X).(*VStruct).get(i.Field))
	case *ssa.IndexAddr:
		idx := x.val(fr, i.Index).(VT).t
		switch v := x.val(fr, i.X).(type) {
		case VSlice:
			x.safe(st, "index out of range", And(Le(Int(0), idx), Lt(idx, v.len)), i.Pos())
			if st.bad || v.obj == nil {
				return []*item{}
			}
			set(i, VPtr{False, v.obj, append(v.path[:len(v.path):len(v.path)], PE{idx: Add(v.off, idx)})})
		case VPtr: // pointer to array
			x.safe(st, "nil dereference", Not(v.nilT), i.Pos())
			n := i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len()
			x.safe(st, "index out of range", And(Le(Int(0), idx), Lt(idx, Int(n))), i.Pos())
			if st.bad {
				return []*item{}
			}
			set(i, VPtr{False, v.obj, append(v.path[:len(v.path):len(v.path)], PE{idx: idx})})
		}
	case *ssa.Index:
		idx := x.val(fr, i.Index).(VT).t
		switch v := x.val(fr, i.X).(type) {
		case *ArrVal:
			x.safe(st, "index out of range", And(Le(Int(0), idx), Lt(idx, arrLen(v))), i.Pos())
			set(i, st.walk(v, []PE{{idx: idx}}))
		case VT:
			x.safe(st, "index out of range", And(Le(Int(0), idx), Lt(idx, Len(v.t))), i.Pos())
			set(i, VT{nthCtx(v.t, idx, st.light)})
		}
	case *ssa.Lookup:
		switch m := x.val(fr, i.X).(type) {
		case VT:
			idx := x.val(fr, i.Index).(VT).t
			x.safe(st, "index out of range", And(Le(Int(0), idx), Lt(idx, Len(m.t))), i.Pos())
			set(i, VT{nthCtx(m.t, idx, st.light)})
		case VMap:
			mt := i.X.Type().Underlying().(*types.Map)
			res := x.mapLookup(st, m, x.val(fr, i.Index), mt)
			var out []*item
			for k, r := range res {
				n := it
				if k < len(res)-1 {
					n = &item{r.st, fr.clone(), it.blk, it.prev, it.ip}
				}
				n.st = r.st
				if i.CommaOk {
					n.fr.env[i] = VTuple{r.val, VT{r.ok}}
				} else {
					n.fr.env[i] = r.val
				}
				out = append(out, n)
			}
			if len(out) == 1 {
				return nil
			}
			return append([]*item{}, out...)
		}
	case *ssa.MapUpdate:
		m := x.val(fr, i.Map).(VMap)
		x.safe(st, "assignment to nil map", Not(m.nilT), i.Pos())
		if st.bad || m.obj == nil {
			return []*item{}
		}
		mv := st.read(m.obj).(*MapVal)
		st.heap[m.obj] = mapSet(st, mv, x.val(fr, i.Key), x.val(fr, i.Value))
	case *ssa.MakeMap:
		o := st.alloc("map", i.Type(), &MapVal{typ: i.Type().Underlying().(*types.Map)})
		set(i, VMap{False, o})
	case *ssa.MakeSlice:
		n := x.val(fr, i.Len).(VT).t
		c := x.val(fr, i.Cap).(VT).t
		x.safe(st, "makeslice: len out of range", And(Le(Int(0), n), Le(n, c)), i.Pos())
		if st.bad {
			return []*item{}
		}
		el := i.Type().Underlying().(*types.Slice).Elem()
		o := st.alloc("make", nil, zeroArr(el, c))
		set(i, VSlice{False, o, nil, Int(0), n, c})
	case *ssa.Slice:
		set(i, x.slice(st, fr, i))
		if st.bad {
			return []*item{}
		}
	case *ssa.Store:
		p := x.val(fr, i.Addr).(VPtr)
		x.safe(st, "nil dereference", Not(p.nilT), i.Pos())
		if st.bad {
			return []*item{}
		}
		st.store(p, x.val(fr, i.Val))
	case *ssa.Extract:
		set(i, x.val(fr, i.Tuple).(VTuple)[i.Index])
	case *ssa.MakeInterface:
		set(i, &VIface{nilT: False, dyn: i.X.Type(), val: x.val(fr, i.X)})
	case *ssa.ChangeInterface:
		set(i, x.val(fr, i.X))
	case *ssa.ChangeType:
		v := x.val(fr, i.X)
		if s, ok := v.(*VStruct); ok {
			n := &VStruct{typ: i.Type(), base: s.base, f: make([]Value, len(s.f))}
			for k := range s.f {
				n.f[k] = s.get(k)
			}
			v = n
		}
		set(i, v)
	case *ssa.Convert:
		set(i, x.convert(st, x.val(fr, i.X), i.X.Type(), i.Type()))
	case *ssa.MakeClosure:
		f := VFunc{nilT: False, fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			f.bind = append(f.bind, x.val(fr, b))
		}
		set(i, f)
	case *ssa.TypeAssert:
		return x.typeAssert(it, i)
	case *ssa.SliceToArrayPointer:
		panic(unsupported("slice to array pointer"))
	case *ssa.Range:
		set(i, x.val(fr, i.X))
		if m, ok := x.val(fr, i.X).(VMap); ok {
			// a map with known entries: every order of them is explored
			if m.obj == nil {
				set(i, VTuple{m, VPtr{False, st.alloc("mapiter", tInt, VT{Int(0)}), nil}})
			} else if mv := st.read(m.obj).(*MapVal); mv.base == nil {
				ents, known := liveEntries(st, mv)
				if known && len(ents) <= 4 {
					set(i, VTuple{m, VPtr{False, st.alloc("mapiter", tInt, VT{Int(int64(1)<<uint(len(ents)) - 1)}), nil}})
				}
			}
		}
	case *ssa.Next:
		m := x.val(fr, i.Iter)
		if t, ok := m.(VTuple); ok {
			m = t[0]
			mt := i.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
			if mask, isC := T(st.load(t[1].(VPtr))).constInt(); isC {
				if mask == 0 {
					set(i, VTuple{VT{False}, zero(mt.Key()), zero(mt.Elem())})
					return nil
				}
				ents, _ := liveEntries(st, st.read(m.(VMap).obj).(*MapVal))
				var out []*item
				for j := range ents {
					if mask>>uint(j)&1 == 0 {
						continue
					}
					n := it.clone()
					n.st.store(t[1].(VPtr), VT{Int(int64(mask &^ (1 << uint(j))))})
					n.fr.env[i] = VTuple{VT{True}, ents[j].key, ents[j].val}
					out = append(out, n)
				}
				if len(out) == 1 {
					it.st, it.fr = out[0].st, out[0].fr
					return nil
				}
				return out
			}
		}
		if mp, ok := m.(VMap); ok && !i.IsString {
			mt := i.Iter.(*ssa.Range).X.Type().Underlying().(*types.Map)
			ok := x.freshT(st, "next.ok", SBool)
			k := x.fresh(st, "next.k", mt.Elem())
			_ = k
			key := x.fresh(st, "next.key", mt.Key())
			var v Value = x.fresh(st, "next.val", mt.Elem())
			_ = mp
			set(i, VTuple{VT{ok}, key, v})
			return nil
		}
		panic(unsupported("range over string"))
	case *ssa.Send, *ssa.Select, *ssa.MakeChan:
		panic(unsupported("channel operation"))
	default:
		panic(unsupported(fmt.Sprintf("instruction %T", in)))
	}
	if st.bad {
		return []*item{}
	}
	return nil
}

// liveEntries: the entries of a map whose keys are all known and distinct
func liveEntries(st *State, mv *MapVal) (out []mapWrite, known bool) {
	for _, w := range mv.writes {
		for j := range out {
			switch st.decide(st.eq(out[j].key, w.key, mv.typ.Key())) {
			case 1:
				out = append(out[:j:j], out[j+1:]...)
			case -1:
				continue
			default:
				return nil, false
			}
			break
		}
		if w.val != nil {
			out = append(out, w)
		}
	}
	return out, true
}

func (x *Exec) wrap(st *State, t *Term, typ types.Type) *Term {
	n, signed, ok := intBits(typ)
	if !ok {
		return t
	}
	m := new(big.Int).Lsh(bigOne, n)
	if signed {
		h := new(big.Int).Rsh(m, 1)
		lo, hi := t.bounds()
		if lo != nil && hi != nil && lo.Cmp(new(big.Int).Neg(h)) >= 0 && hi.Cmp(h) < 0 {
			return t
		}
		return Sub(Mod(Add(t, IntB(h)), m), IntB(h))
	}
	r := Mod(t, m)
	if r.op == OMod {
		lo, hi := st.lbounds(toLin(t))
		if lo != nil && hi != nil && lo.Sign() >= 0 && hi.Cmp(m) < 0 {
			return t
		}
		if st.light(And(Le(Int(0), t), Lt(t, IntB(m)))) == 1 {
			return t
		}
	}
	return r
}

func isConstPow2m1(k *big.Int) (uint, bool) { // 2^n - 1
	p := new(big.Int).Add(k, bigOne)
	if p.Sign() > 0 && new(big.Int).And(p, k).Sign() == 0 {
		return uint(p.BitLen() - 1), true
	}
	return 0, false
}

func maskTerm(t *Term, k *big.Int) *Term { // t & k for constant k >= 0
	r := Int(0)
	bit := uint(0)
	n := uint(k.BitLen())
	for bit < n {
		if k.Bit(int(bit)) == 0 {
			bit++
			continue
		}
		e := bit
		for e < n && k.Bit(int(e)) == 1 {
			e++
		}
		p := new(big.Int).Lsh(bigOne, bit)
		r = Add(r, MulK(Mod(Div(t, p), new(big.Int).Lsh(bigOne, e-bit)), p))
		bit = e
	}
	return r
}

// trailing zero bits guaranteed
func tzBits(t *Term) uint {
	l := toLin(t)
	if t.op == OConst {
		if t.k.Sign() == 0 {
			return 1000
		}
		return t.k.TrailingZeroBits()
	}
	r := uint(1000)
	if l.k.Sign() != 0 {
		r = l.k.TrailingZeroBits()
	}
	for i, a := range l.at {
		z := l.co[i].TrailingZeroBits()
		if a.op == OMul {
			z += tzBits(a.args[0]) + tzBits(a.args[1])
		} else if a.op == OMod {
			if m := a.args[1].k; m.TrailingZeroBits() > 0 {
				y := tzBits(a.args[0])
				if mz := m.TrailingZeroBits(); y > mz {
					y = mz
				}
				z += y
			}
		}
		if z < r {
			r = z
		}
	}
	return r
}

func (x *Exec) binop(st *State, op token.Token, a, b Value, xt, rt types.Type, pos token.Pos) Value {
	switch op {
	case token.EQL:
		return VT{st.eq(a, b, xt)}
	case token.NEQ:
		return VT{Not(st.eq(a, b, xt))}
	}
	ta, ok1 := a.(VT)
	tb, ok2 := b.(VT)
	if !ok1 || !ok2 {
		panic(unsupported(fmt.Sprintf("binop %s on %T", op, a)))
	}
	p, q := ta.t, tb.t
	if p.sort == SBytes {
		switch op {
		case token.ADD:
			return VT{Cat(SBytes, p, q)}
		}
		panic(unsupported("string op " + op.String()))
	}
	switch op {
	case token.ADD:
		return VT{x.wrap(st, Add(p, q), rt)}
	case token.SUB:
		return VT{x.wrap(st, Sub(p, q), rt)}
	case token.MUL:
		return VT{x.wrap(st, Mul(p, q), rt)}
	case token.LSS:
		return VT{Lt(p, q)}
	case token.LEQ:
		return VT{Le(p, q)}
	case token.GTR:
		return VT{Lt(q, p)}
	case token.GEQ:
		return VT{Le(q, p)}
	case token.QUO, token.REM:
		if q.op == OConst && q.k.Sign() > 0 {
			if st.light(Le(Int(0), p)) == 1 {
				if op == token.QUO {
					return VT{Div(p, q.k)}
				}
				return VT{Mod(p, q.k)}
			}
			// truncated division
			ab := Ite(Le(Int(0), p), p, Sub(Int(0), p))
			if op == token.QUO {
				d := Div(ab, q.k)
				return VT{Ite(Le(Int(0), p), d, Sub(Int(0), d))}
			}
			d := Mod(ab, q.k)
			return VT{Ite(Le(Int(0), p), d, Sub(Int(0), d))}
		}
		x.safe(st, "division by zero", Not(Eq(q, Int(0))), pos)
		if op == token.REM {
			// quotient/remainder characterised for non-negative operands
			r := App("rem", SInt, p, q)
			qu := App("quo", SInt, p, q)
			st.assume(Imp(And(Le(Int(0), p), Lt(Int(0), q)), And(Eq(p, Add(Mul(qu, q), r)), Le(Int(0), r), Lt(r, q), Le(Int(0), qu))))
			return VT{r}
		}
		r := App("rem", SInt, p, q)
		qu := App("quo", SInt, p, q)
		st.assume(Imp(And(Le(Int(0), p), Lt(Int(0), q)), And(Eq(p, Add(Mul(qu, q), r)), Le(Int(0), r), Lt(r, q), Le(Int(0), qu))))
		return VT{qu}
	case token.SHL:
		if c, ok := q.constInt(); ok {
			if n, _, k := intBits(rt); k && uint(c) >= n {
				return VT{Int(0)}
			}
			return VT{x.wrap(st, MulK(p, new(big.Int).Lsh(bigOne, uint(c))), rt)}
		}
		if c, ok := st.smallConst(q); ok {
			return VT{x.wrap(st, MulK(p, new(big.Int).Lsh(bigOne, uint(c))), rt)}
		}
		return VT{x.wrap(st, Mul(p, App("pow2", SInt, q)), rt)}
	case token.SHR:
		if c, ok := q.constInt(); ok {
			return VT{Div(p, new(big.Int).Lsh(bigOne, uint(c)))}
		}
		r := App("shr", SInt, p, q)
		if lo, _ := p.bounds(); lo != nil && lo.Sign() >= 0 {
			st.assume(And(Le(Int(0), r), Le(r, p)))
		}
		return VT{r}
	case token.AND:
		if p.sort == SBool {
			return VT{And(p, q)}
		}
		if p.op == OConst && q.op != OConst {
			p, q = q, p
		}
		if q.op == OConst && q.k.Sign() >= 0 {
			return VT{maskTerm(p, q.k)}
		}
		r := App("band", SInt, p, q)
		st.assume(And(Le(Int(0), r), Imp(Le(Int(0), p), Le(r, p))))
		return VT{r}
	case token.OR:
		if p.sort == SBool {
			return VT{Or(p, q)}
		}
		for k := 0; k < 2; k++ {
			_, hi := st.lbounds(toLin(q))
			lo, _ := st.lbounds(toLin(q))
			z := tzBits(p)
			if hi != nil && lo != nil && lo.Sign() >= 0 && uint(hi.BitLen()) <= z {
				return VT{Add(p, q)}
			}
			p, q = q, p
		}
		if q.op == OConst {
			return VT{Sub(Add(p, q), maskTerm(p, q.k))}
		}
		if p.op == OConst {
			return VT{Sub(Add(p, q), maskTerm(q, p.k))}
		}
		r := App("bor", SInt, p, q)
		lo, hi := intBounds(rt)
		_ = hi
		st.assume(And(Imp(And(Le(Int(0), p), Le(Int(0), q)), And(Le(p, r), Le(q, r), Le(r, Add(p, q)))), Eq(Eq(r, Int(0)), And(Eq(p, Int(0)), Eq(q, Int(0))))))
		_ = lo
		return VT{r}
	case token.XOR:
		lo1, hi1 := st.lbounds(toLin(p))
		lo2, hi2 := st.lbounds(toLin(q))
		if hi1 != nil && hi2 != nil && lo1 != nil && lo2 != nil && lo1.Sign() >= 0 && lo2.Sign() >= 0 && hi1.Cmp(bi(255)) <= 0 && hi2.Cmp(bi(255)) <= 0 {
			return VT{App("xor8", SInt, p, q)}
		}
		return VT{x.wrap(st, App("bxor", SInt, p, q), rt)}
	case token.AND_NOT:
		if q.op == OConst {
			return VT{Sub(p, maskTerm(p, q.k))}
		}
	}
	panic(unsupported("binop " + op.String()))
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	if fb, ok := fu.(*types.Basic); ok && fb.Info()&types.IsInteger != 0 {
		if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsInteger != 0 {
			t := v.(VT).t
			if tb.Kind() == types.Int || tb.Kind() == types.Int64 {
				lo, hi := intBounds(to)
				l, h := st.lbounds(toLin(t))
				if l != nil && h != nil && l.Cmp(lo) >= 0 && h.Cmp(hi) <= 0 {
					return VT{t}
				}
				if fb.Info()&types.IsUnsigned != 0 { // uint64 -> int64 wraps
					m := new(big.Int).Lsh(bigOne, 64)
					hh := new(big.Int).Lsh(bigOne, 63)
					return VT{Sub(Mod(Add(t, IntB(hh)), m), IntB(hh))}
				}
				return VT{t}
			}
			return VT{x.wrap(st, t, to)}
		}
		if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			return VT{App("runeString", SBytes, v.(VT).t)}
		}
		if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsFloat != 0 {
			return VOpaque{"float"}
		}
	}
	if sl, ok := v.(VSlice); ok {
		if tb, ok := tu.(*types.Basic); ok && tb.Info()&types.IsString != 0 {
			return VT{sliceSeq(st, sl, from)}
		}
		if _, ok := tu.(*types.Slice); ok {
			return v
		}
	}
	if t, ok := v.(VT); ok && t.t.sort == SBytes {
		if _, ok := tu.(*types.Slice); ok { // []byte(string)
			return x.newBytes(st, t.t)
		}
		return v
	}
	if _, ok := v.(VPtr); ok {
		return v
	}
	panic(unsupported("convert " + from.String() + " to " + to.String()))
}

var tByte = types.Typ[types.Uint8]

func (x *Exec) newBytes(st *State, seq *Term) VSlice {
	o := st.alloc("bytes", nil, &ArrVal{elem: tByte, seq: seq})
	l := Len(seq)
	return VSlice{False, o, nil, Int(0), l, l}
}
func (x *Exec) newSlice(st *State, a *ArrVal) VSlice {
	o := st.alloc("slice", nil, a)
	l := arrLen(a)
	return VSlice{False, o, nil, Int(0), l, l}
}

func (x *Exec) slice(st *State, fr *Frame, i *ssa.Slice) Value {
	get := func(v ssa.Value, d *Term) *Term {
		if v == nil {
			return d
		}
		return x.val(fr, v).(VT).t
	}
	switch v := x.val(fr, i.X).(type) {
	case VT:
		lo := get(i.Low, Int(0))
		hi := get(i.High, Len(v.t))
		x.safe(st, "slice bounds out of range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, Len(v.t))), i.Pos())
		return VT{extCtx(v.t, lo, Sub(hi, lo), st.light)}
	case VSlice:
		lo := get(i.Low, Int(0))
		hi := get(i.High, v.len)
		mx := get(i.Max, v.cap)
		x.safe(st, "slice bounds out of range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, v.cap)), i.Pos())
		return VSlice{v.nilT, v.obj, v.path, Add(v.off, lo), Sub(hi, lo), Sub(mx, lo)}
	case VPtr: // pointer to array
		x.safe(st, "nil dereference", Not(v.nilT), i.Pos())
		n := Int(i.X.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		lo := get(i.Low, Int(0))
		hi := get(i.High, n)
		mx := get(i.Max, n)
		x.safe(st, "slice bounds out of range", And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, n)), i.Pos())
		return VSlice{False, v.obj, v.path, lo, Sub(hi, lo), Sub(mx, lo)}
	}
	panic(unsupported("slice"))
}

func (x *Exec) typeAssert(it *item, i *ssa.TypeAssert) []*item {
	st, fr := it.st, it.fr
	v := x.val(fr, i.X).(*VIface)
	_, toIface := i.AssertedType.Underlying().(*types.Interface)
	// yes/no condition
	var c *Term
	var res Value
	if v.nilT == True {
		c = False
	} else if toIface {
		switch {
		case v.dyn != nil:
			c = And(Not(v.nilT), Bool(types.Implements(v.dyn, i.AssertedType.Underlying().(*types.Interface))))
		case types.AssignableTo(i.X.Type(), i.AssertedType):
			c = Not(v.nilT)
		default:
			c = And(Not(v.nilT), App("implements:"+typeName(i.AssertedType), SBool, App("dyn", SInt, v.id)))
		}
		res = v
	} else {
		if v.dyn != nil {
			c = And(Not(v.nilT), Bool(types.Identical(v.dyn, i.AssertedType)))
			res = v.val
		} else {
			c = And(Not(v.nilT), Eq(App("dyn", SInt, v.id), typeTag(i.AssertedType)))
		}
	}
	yes := func(n *item) {
		n.st.assume(c)
		r := res
		if r == nil {
			r = n.st.payload(v, i.AssertedType)
		}
		if i.CommaOk {
			n.fr.env[i] = VTuple{r, VT{True}}
		} else {
			n.fr.env[i] = r
		}
	}
	if !i.CommaOk {
		x.safe(st, "failed type assertion to "+typeName(i.AssertedType), c, i.Pos())
		if st.bad || c == False {
			return []*item{}
		}
		yes(it)
		return nil
	}
	no := func(n *item) {
		n.st.assume(Not(c))
		n.fr.env[i] = VTuple{zero(i.AssertedType), VT{False}}
	}
	switch st.decide(c) {
	case 1:
		yes(it)
		return nil
	case -1:
		no(it)
		return nil
	}
	n := it.clone()
	yes(n)
	no(it)
	return []*item{it, n}
}

// ---- maps ----
type lookupRes struct {
	st  *State
	val Value
	ok  *Term
}

func mapSet(st *State, m *MapVal, k, v Value) *MapVal {
	n := &MapVal{typ: m.typ, base: m.base}
	for _, w := range m.writes {
		if st.eq(w.key, k, m.typ.Key()) != True {
			n.writes = append(n.writes, w)
		}
	}
	n.writes = append(n.writes, mapWrite{k, v})
	return n
}

func (x *Exec) mapLookup(st *State, m VMap, k Value, mt *types.Map) []lookupRes {
	z := zero(mt.Elem())
	if m.obj == nil {
		return []lookupRes{{st, z, False}}
	}
	var out []lookupRes
	if m.nilT != False {
		switch st.decide(m.nilT) {
		case 1:
			return []lookupRes{{st, z, False}}
		case 0:
			s2 := st.clone()
			s2.assume(m.nilT)
			out = append(out, lookupRes{s2, z, False})
			st.assume(Not(m.nilT))
		}
	}
	mv := st.read(m.obj).(*MapVal)
	for j := len(mv.writes) - 1; j >= 0; j-- {
		w := mv.writes[j]
		c := st.eq(w.key, k, mt.Key())
		hit := func(s *State) {
			if w.val == nil {
				out = append(out, lookupRes{s, z, False})
			} else {
				out = append(out, lookupRes{s, w.val, True})
			}
		}
		switch st.decide(c) {
		case 1:
			hit(st)
			return out
		case -1:
			continue
		}
		s2 := st.clone()
		s2.assume(c)
		hit(s2)
		st.assume(Not(c))
	}
	if mv.base == nil {
		return append(out, lookupRes{st, z, False})
	}
	kt := freeze(st, k, mt.Key())
	args := append(append([]*Term{}, mv.base.args...), kt)
	has := Sym(mv.base.name+".has", SBool, nil, nil, args...)
	switch st.decide(has) {
	case 1:
	case -1:
		return append(out, lookupRes{st, z, False})
	default:
		s2 := st.clone()
		s2.assume(Not(has))
		out = append(out, lookupRes{s2, z, False})
		st.assume(has)
	}
	v := symValue(mt.Elem(), mv.base.name+".get", args)
	return append(out, lookupRes{st, v, True})
}

// witnesses: instances of the negated existential goal at the loop variables in scope, when the quantified variable
// is never an index (so that the solver has no pattern to instantiate it by)
func witnesses(goal *Term, asserts []*Term) (out []*Term) {
	if goal.op != ONot || goal.args[0].op != OForall {
		return nil
	}
	v, body := goal.args[0].args[0], goal.args[0].args[1]
	if v.sort != SInt {
		return nil
	}
	indexed := false
	seen := map[*Term]bool{}
	var cands []*Term
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == ONth && t.args[1] == v {
			indexed = true
		}
		if t.op == OApp && t.sort == SInt && strings.HasPrefix(t.name, "ph#") && len(t.free) == 0 {
			cands = append(cands, t)
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	if indexed {
		return nil
	}
	for _, a := range asserts {
		walk(a)
	}
	if len(cands) > 4 {
		cands = cands[:4]
	}
	n := 0
	for _, a := range asserts { // existential facts: their witnesses, as constants
		ds := []*Term{a}
		if a.op == OOr {
			ds = a.args
		}
		for i, d := range ds {
			if d.op != ONot || d.args[0].op != OForall || d.args[0].args[0].sort != SInt || n == 3 || d == goal {
				continue
			}
			n++
			sk := Sym(fmt.Sprintf("wit#%d", a.id), SInt, nil, nil)
			ds2 := append([]*Term{}, ds...)
			ds2[i] = Not(Subst(d.args[0].args[1], map[*Term]*Term{d.args[0].args[0]: sk}))
			out = append(out, Or(ds2...))
			cands = append(cands, sk)
			break
		}
	}
	for _, c := range cands {
		out = append(out, Subst(body, map[*Term]*Term{v: c}))
	}
	return out
}

// smallConst: the path condition pins t to one value in 0..8
func (st *State) smallConst(t *Term) (int, bool) {
	for k := 0; k <= 8; k++ {
		if st.decide(Eq(t, Int(int64(k)))) == 1 {
			return k, true
		}
	}
	return 0, false
}
