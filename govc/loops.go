package main

// Loops: concrete unrolling when every exit test is decided, otherwise invariants (derived and declared).

import (
	"fmt"
	"go/types"
	"math/big"
	"os"

	"golang.org/x/tools/go/ssa"
)

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}
type loopInfo struct {
	byHeader map[*ssa.BasicBlock]*Loop
}

func (x *Exec) loopAt(fn *ssa.Function, b *ssa.BasicBlock) *Loop {
	li := x.loops[fn]
	if li == nil {
		li = &loopInfo{map[*ssa.BasicBlock]*Loop{}}
		for _, blk := range fn.Blocks {
			for _, s := range blk.Succs {
				if s.Dominates(blk) {
					L := li.byHeader[s]
					if L == nil {
						L = &Loop{s, map[*ssa.BasicBlock]bool{s: true}}
						li.byHeader[s] = L
					}
					st := []*ssa.BasicBlock{blk}
					for len(st) > 0 {
						y := st[len(st)-1]
						st = st[:len(st)-1]
						if L.blocks[y] {
							continue
						}
						L.blocks[y] = true
						st = append(st, y.Preds...)
					}
				}
			}
		}
		x.loops[fn] = li
	}
	return li.byHeader[b]
}

const maxUnroll = 300

// changes: the loop changes the named local variable
func changes(L *Loop, name string) bool {
	for _, i := range L.header.Instrs {
		if p, ok := i.(*ssa.Phi); ok && p.Comment == name {
			return true
		}
	}
	return false
}

// handleLoop: it stands at the header (phis not yet executed)
func (x *Exec) handleLoop(it *item, L *Loop, count int) (exits []*item, outs []Outcome) {
	declared := false
	if c := x.con.byName[x.shortName(it.fr.fn)]; c != nil && len(c.invs) > 0 {
		declared = true
	}
	if c := x.rootCon; c != nil && c.fn == it.fr.fn && len(c.invs) > 0 { // a variant
		declared = true
	}
	if count < maxUnroll && !declared && x.decidedIter(it, L) {
		ex, backs, os := x.iterate(it, L)
		exits, outs = ex, os
		for _, b := range backs {
			e2, o2 := x.handleLoop(b, L, count+1)
			exits = append(exits, e2...)
			outs = append(outs, o2...)
		}
		return
	}
	if count == 0 && len(L.header.Instrs) > 0 {
		if _, phi := L.header.Instrs[0].(*ssa.Phi); !phi && x.fewIterations(it, L, 3) {
			return x.unrollAll(it, L)
		}
	}
	return x.summarise(it, L)
}

// fewIterations: no path goes round the loop n times (probed without recording obligations)
func (x *Exec) fewIterations(it *item, L *Loop, n int) bool {
	x.mute++
	defer func() { x.mute-- }()
	work := []*item{it.clone()}
	for k := 0; k < n; k++ {
		var nw []*item
		for _, w := range work {
			_, backs, _ := x.iterate(w, L)
			nw = append(nw, backs...)
		}
		if len(nw) == 0 {
			return true
		}
		if len(nw) > 8 {
			return false
		}
		work = nw
	}
	return false
}
func (x *Exec) unrollAll(it *item, L *Loop) (exits []*item, outs []Outcome) {
	exits, backs, outs := x.iterate(it, L)
	for _, b := range backs {
		e2, o2 := x.unrollAll(b, L)
		exits = append(exits, e2...)
		outs = append(outs, o2...)
	}
	return
}

// iterate runs one iteration from the header
func (x *Exec) iterate(it *item, L *Loop) (exits, backs []*item, outs []Outcome) {
	x.phis(it)
	return x.runHead(it, L)
}

// runHead runs one iteration of an item standing at the header behind its phis
func (x *Exec) runHead(it *item, L *Loop) (exits, backs []*item, outs []Outcome) {
	if it.st.bad {
		return
	}
	x.curFn = it.fr.fn
	first, os := x.step(it)
	exits, backs, outs = x.run(first, L)
	return exits, backs, append(os, outs...)
}

// decidedIter: the header's exit test has a single outcome in this state
func (x *Exec) decidedIter(it *item, L *Loop) bool {
	h := L.header
	iff, ok := h.Instrs[len(h.Instrs)-1].(*ssa.If)
	if !ok {
		return false
	}
	in0, in1 := L.blocks[h.Succs[0]], L.blocks[h.Succs[1]]
	if in0 == in1 {
		return false
	}
	probe := it.clone()
	x.mute++
	defer func() { x.mute-- }()
	x.phis(probe)
	stay, leave := false, false
	work := []*item{probe}
	for len(work) > 0 {
		p := work[0]
		work = work[1:]
		next, _ := x.step(p)
		for _, n := range next {
			if n.blk == h && n.ip > 0 {
				work = append(work, n)
				continue
			}
			if n.st.bad {
				continue
			}
			if L.blocks[n.blk] {
				stay = true
			} else {
				leave = true
			}
		}
	}
	_ = iff
	return !(stay && leave)
}

type modLoc struct {
	obj  *Obj
	path []PE
	typ  types.Type
}

// differing locations between two values of an object
func (x *Exec) diff(st *State, obj *Obj, path []PE, a, b Value, typ types.Type, out *[]modLoc) {
	switch a.(type) {
	case *VStruct, *VIface, *ArrVal, *MapVal, *HeapField:
		if a == b {
			return
		}
	}
	p := append([]PE{}, path...)
	switch va := a.(type) {
	case *VStruct:
		vb, ok := b.(*VStruct)
		if !ok {
			break
		}
		us := va.typ.Underlying().(*types.Struct)
		for i := 0; i < us.NumFields(); i++ {
			if va.f[i] == nil && vb.f[i] == nil {
				continue
			}
			x.diff(st, obj, append(p[:len(p):len(p)], PE{f: i}), va.get(i), vb.get(i), us.Field(i).Type(), out)
		}
		return
	case VT:
		if vb, ok := b.(VT); ok && va.t == vb.t {
			return
		}
	case VSlice:
		if vb, ok := b.(VSlice); ok && va.obj == vb.obj && va.off == vb.off && va.len == vb.len && va.nilT == vb.nilT {
			return
		}
	case VPtr:
		if vb, ok := b.(VPtr); ok && va.obj == vb.obj && va.nilT == vb.nilT && pathKey(va.path) == pathKey(vb.path) {
			return
		}
	case *VIface:
		if vb, ok := b.(*VIface); ok && va.dyn == vb.dyn && va.id == vb.id && va.nilT == vb.nilT && va.dyn == nil {
			return
		}
		if vb, ok := b.(*VIface); ok && va.nilT == True && vb.nilT == True {
			return
		}
	case VMap:
		if vb, ok := b.(VMap); ok && va.obj == vb.obj && va.nilT == vb.nilT {
			return
		}
	case VFunc:
		if vb, ok := b.(VFunc); ok && va.id == vb.id && va.fn == vb.fn && va.nilT == vb.nilT {
			return
		}
	case *ArrVal:
		if vb, ok := b.(*ArrVal); ok && va.seq != nil && va.seq == vb.seq {
			return
		}
	case *MapVal:
	}
	*out = append(*out, modLoc{obj, p, typ})
}

// generalise a havocked value at a loop head. old is the entry value.
func (x *Exec) havocLike(st *State, name string, old Value, typ types.Type, args []*Term, sameObj bool) Value {
	x.cntSym++
	nm := fmt.Sprintf("%s#%d", name, x.cntSym)
	switch o := old.(type) {
	case *ArrVal:
		n := arrLen(o)
		seq := Sym(nm, seqSortOf(o.elem), nil, nil, args...)
		st.assume(Eq(Len(seq), n))
		return &ArrVal{elem: o.elem, seq: seq}
	case VSlice:
		if sameObj && o.obj != nil {
			off := Sym(nm+".off", SInt, bigZero, maxLen, args...)
			ln := Sym(nm+".len", SInt, bigZero, maxLen, args...)
			cp := Sym(nm+".cap", SInt, bigZero, maxLen, args...)
			st.assume(And(Le(o.off, off), Le(ln, cp), Le(Add(off, cp), Add(o.off, o.cap))))
			return VSlice{o.nilT, o.obj, o.path, off, ln, cp}
		}
	case *MapVal:
		return &MapVal{typ: o.typ, base: &symBase{nm, args}}
	case *HeapField:
		return &HeapField{typ: o.typ, base: symBase{nm, args}}
	case *VIface:
		// keep the dynamic type of ghost/devirtualised interfaces
	}
	return symValue(typ, nm, args)
}

type phiPlan struct {
	phi  *ssa.Phi
	mode int // 0 unknown/havoc, 1 linear, 2 invariant, 3 same object, 4 append
	step *big.Int
	init Value
	el   *Term
}

func (x *Exec) summarise(it0 *item, L *Loop) (exits []*item, outs []Outcome) {
	// entry values of the phis
	entry := it0.clone()
	x.phis(entry)
	outerN, nested := entry.fr.names["$n"] // the enclosing loop's count, "ito" in invariants
	setOuter := func(f *Frame) {
		if nested {
			f.names["$o"] = outerN
		} else {
			delete(f.names, "$o")
		}
	}
	var plans []*phiPlan
	for _, in := range L.header.Instrs {
		p, ok := in.(*ssa.Phi)
		if !ok {
			break
		}
		plans = append(plans, &phiPlan{phi: p, init: entry.fr.env[p], mode: -1})
	}
	x.cntSym++
	n := Sym(fmt.Sprintf("it#%d", x.cntSym), SInt, bigZero, nil, it0.st.loopCtx...)
	var mods []modLoc
	modKey := map[string]bool{}
	type slot struct{ appendEl *Term }
	appendMods := map[string]bool{} // locations whose change is an append of one element per iteration
	noAppend := map[string]bool{}
	ctx := append(append([]*Term{}, it0.st.loopCtx...), n)
	noPhiAppend := map[*ssa.Phi]bool{}
	stable := map[string]bool{} // locations proved to keep their entry value

	type headInfo struct {
		it    *item
		grown map[string]*Term // mod key -> g(n) sequences
		pgrow map[*ssa.Phi]*Term
		base  map[string]*Term
	}
	mk := func() *headInfo {
		h := entry.clone()
		h.st.loopCtx = ctx
		hi := &headInfo{it: h, grown: map[string]*Term{}, pgrow: map[*ssa.Phi]*Term{}, base: map[string]*Term{}}
		for _, m := range mods {
			old := h.st.walk(h.st.read(m.obj), m.path)
			var nv Value
			k := modName(m)
			if stable[k] {
				continue
			}
			if sl, ok := old.(VSlice); ok && appendMods[k] && !noAppend[k] {
				c0 := sliceSeq(h.st, sl, m.typ)
				el := m.typ.Underlying().(*types.Slice).Elem()
				x.cntSym++
				g := Sym(fmt.Sprintf("grow#%d", x.cntSym), seqSortOf(el), nil, nil, ctx...)
				h.st.assume(Eq(Len(g), n))
				hi.grown[k] = g
				hi.base[k] = c0
				o := h.st.alloc("grown", nil, &ArrVal{elem: el, seq: Cat(g.sort, c0, g)})
				o.local = false
				l := Add(Len(c0), n)
				nv = VSlice{And(sl.nilT, Eq(n, Int(0))), o, nil, Int(0), l, l}
			} else if _, ok := old.(VSlice); ok && modKey["same:"+k] {
				nv = x.havocLike(h.st, "lh", old, m.typ, ctx, true)
			} else {
				nv = x.havocLike(h.st, "lh", old, m.typ, ctx, false)
			}
			h.st.heap[m.obj] = h.st.update(h.st.read(m.obj), m.path, nv)
		}
		for _, p := range plans {
			var v Value
			switch p.mode {
			case 1:
				v = VT{Add(p.init.(VT).t, MulK(n, p.step))}
			case 2:
				v = p.init
			case 3:
				v = x.havocLike(h.st, "ph", p.init, p.phi.Type(), ctx, true)
			case 4:
				sl := p.init.(VSlice)
				el := p.phi.Type().Underlying().(*types.Slice).Elem()
				c0 := sliceSeq(h.st, sl, p.phi.Type())
				x.cntSym++
				g := Sym(fmt.Sprintf("grow#%d", x.cntSym), seqSortOf(el), nil, nil, ctx...)
				h.st.assume(Eq(Len(g), n))
				hi.pgrow[p.phi] = g
				o := h.st.alloc("grown", nil, &ArrVal{elem: el, seq: Cat(g.sort, c0, g)})
				l := Add(Len(c0), n)
				v = VSlice{And(sl.nilT, Eq(n, Int(0))), o, nil, Int(0), l, l}
			default:
				v = x.havocLike(h.st, "ph", p.init, p.phi.Type(), ctx, p.mode == -1)
			}
			h.fr.env[p.phi] = v
			if p.phi.Comment != "" {
				h.fr.names[p.phi.Comment] = v
			}
		}
		h.fr.names["$n"] = VT{n}
		setOuter(h.fr)
		return hi
	}
	phiEdge := func(b *item, p *ssa.Phi) Value {
		for i, pr := range L.header.Preds {
			if pr == b.prev {
				return x.val(b.fr, p.Edges[i])
			}
		}
		return nil
	}
	// fixpoint on the set of modified locations and the shape of the phis
	var backs []*item
	var hd *headInfo
	for round := 0; round < 8; round++ {
		mark := x.cntSym
		hd = mk()
		start := hd.it.st.clone()
		x.mute++
		var run *item = hd.it.clone()
		_, backs, _ = x.runHead(run, L)
		x.mute--
		changed := false
		for _, b := range backs {
			for o, v := range b.st.heap {
				if _, existed := start.heap[o]; !existed && (o.local || bornAfter(o.name, mark)) {
					continue // created by, or reached only through values made up in, this iteration
				}
				var ms []modLoc
				x.diff(b.st, o, nil, start.read(o), v, o.typ, &ms)
				for _, m := range ms {
					k := modName(m)
					sl, isSl := b.st.walk(v, m.path).(VSlice)
					if !modKey[k] {
						modKey[k] = true
						mods = append(mods, m)
						changed = true
						if isSl {
							old := start.walk(start.read(o), m.path).(VSlice)
							if sl.obj == old.obj && sl.obj != nil {
								modKey["same:"+k] = true
							} else {
								appendMods[k] = true
							}
						}
						continue
					}
					if isSl {
						old := start.walk(start.read(o), m.path).(VSlice)
						if modKey["same:"+k] && sl.obj != old.obj {
							delete(modKey, "same:"+k)
							changed = true
						}
						if g := hd.grown[k]; g != nil {
							c := sliceSeq(b.st, sl, m.typ)
							want := Add(Len(hd.base[k]), AddI(n, 1))
							ok := b.st.light(Eq(Len(c), want)) == 1 && grownBy(c, Cat(g.sort, hd.base[k], g))
							if !ok {
								noAppend[k] = true
								changed = true
							}
						}
					}
				}
			}
			// an append location that some iteration leaves unchanged is not an append
			for _, m := range mods {
				k := modName(m)
				if g := hd.grown[k]; g != nil && !noAppend[k] {
					if sl, ok := b.st.walk(b.st.read(m.obj), m.path).(VSlice); ok {
						if b.st.light(Eq(sl.len, Add(Len(hd.base[k]), AddI(n, 1)))) != 1 {
							noAppend[k] = true
							changed = true
						}
					}
				}
			}
		}
		for _, p := range plans {
			cur := hd.it.fr.env[p.phi]
			nm := p.mode
			switch p.mode {
			case -1: // first guess from the havocked iteration
				nm = 2
				if vt, ok := p.init.(VT); ok && vt.t.sort == SInt {
					nm = 1
					var step *big.Int
					for _, b := range backs {
						e, ok := phiEdge(b, p.phi).(VT)
						d := Sub(e.t, cur.(VT).t)
						if !ok || !d.isConst() || step != nil && step.Cmp(d.k) != 0 {
							nm = 0
							break
						}
						step = d.k
					}
					if nm == 1 {
						if step == nil {
							nm = 2
						} else if step.Sign() == 0 {
							nm = 2
						} else {
							p.step = step
							if _, _, sized := intBits(p.phi.Type()); sized {
								nm = 1 // wrap-around checked below
							}
						}
					}
				} else if _, ok := p.init.(VSlice); ok {
					nm = 3
					for _, b := range backs {
						e := phiEdge(b, p.phi).(VSlice)
						if i := p.init.(VSlice); e.obj != i.obj || e.obj == nil {
							nm = 4
							if noPhiAppend[p.phi] {
								nm = 0
							}
						}
					}
					if len(backs) == 0 {
						nm = 2
					}
				} else {
					for _, b := range backs {
						if !sameVal(phiEdge(b, p.phi), cur) && !sameVal(phiEdge(b, p.phi), p.init) {
							nm = 0
						}
					}
					if nm == 2 {
						for _, b := range backs {
							if !sameVal(phiEdge(b, p.phi), p.init) && !sameVal(phiEdge(b, p.phi), cur) {
								nm = 0
							}
						}
					}
				}
			case 1:
				for _, b := range backs {
					e := phiEdge(b, p.phi).(VT)
					if Sub(e.t, Add(cur.(VT).t, IntB(p.step))) != Int(0) {
						if b.st.light(Eq(e.t, Add(cur.(VT).t, IntB(p.step)))) != 1 {
							nm = 0
						}
					}
				}
			case 2:
				for _, b := range backs {
					if !sameVal(phiEdge(b, p.phi), p.init) {
						nm = 0
					}
				}
			case 3:
				for _, b := range backs {
					if e, ok := phiEdge(b, p.phi).(VSlice); !ok || e.obj != p.init.(VSlice).obj {
						nm = 0
					}
				}
			case 4:
				g := hd.pgrow[p.phi]
				c0 := sliceSeq(hd.it.st, p.init.(VSlice), p.phi.Type())
				for _, b := range backs {
					e, ok := phiEdge(b, p.phi).(VSlice)
					if ok {
						c := sliceSeq(b.st, e, p.phi.Type())
						ok = b.st.light(Eq(Len(c), Add(Len(c0), AddI(n, 1)))) == 1 && grownBy(c, Cat(g.sort, c0, g))
					}
					if !ok {
						nm = 0
						noPhiAppend[p.phi] = true
					}
				}
			}
			if nm != p.mode {
				p.mode = nm
				changed = true
			}
		}
		if os.Getenv("GOVC_LOOP") != "" {
			fmt.Fprintf(os.Stderr, "loop %s round %d: %d mods, %d backs, steps %d\n", L.header.Parent(), round, len(mods), len(backs), x.steps)
			for _, m := range mods {
				fmt.Fprintf(os.Stderr, "   %s %s\n", m.obj.name, pathKey(m.path))
			}
		}
		if !changed {
			break
		}
		if round == 7 {
			panic(unsupported("loop shape does not stabilise in " + L.header.Parent().String()))
		}
	}
	// declared candidate invariants (Houdini)
	cands := append([]*candInv{}, x.loopCandidates(it0.fr)...)
	for _, m := range mods { // automatic candidates: an array the loop writes keeps its value
		m := m
		if a, ok := entry.st.walk(entry.st.read(m.obj), m.path).(*ArrVal); ok && scalarType(a.elem) == SInt {
			s0 := arrSeq(entry.st, a)
			cands = append(cands, &candInv{src: "auto: array unchanged", ms: 1500, loc: modName(m), fn: func(st *State) (*Term, bool) {
				b, ok := st.walk(st.read(m.obj), m.path).(*ArrVal)
				if !ok {
					return nil, false
				}
				return Eq(arrSeq(st, b), s0), true
			}})
		}
	}
	var kept []*candInv
	if len(cands) > 0 {
		// initiation
		e := entry.clone()
		e.fr.names["$n"] = VT{Int(0)}
		setOuter(e.fr)
		for _, c := range cands {
			if c.phi != "" && !changes(L, c.phi) {
				continue
			}
			t, ok := x.evalCand(c, e.st, e.fr)
			if !ok {
				continue
			}
			x.invTried++
			if x.proveNow(e.st, t, c.ms) {
				kept = append(kept, c)
			} else if debugInv {
				fmt.Printf("inv %s: initiation fails in %s: %s\n", c.src, L.header.Parent(), trunc(t.String(), 300))
			}
		}
		for len(kept) > 0 {
			hd = mk()
			for _, c := range kept {
				if t, ok := x.evalCand(c, hd.it.st, hd.it.fr); ok {
					hd.it.st.assume(t)
				}
			}
			x.mute++
			_, backs, _ = x.runHead(hd.it.clone(), L)
			x.mute--
			var nk []*candInv
			for _, c := range kept {
				ok := true
				for _, b := range backs {
					for _, p := range plans {
						v := phiEdge(b, p.phi)
						if p.phi.Comment != "" {
							b.fr.names[p.phi.Comment] = v
						}
					}
					b.fr.names["$n"] = VT{AddI(n, 1)}
					setOuter(b.fr)
					t, good := x.evalCand(c, b.st, b.fr)
					if !good || !x.proveNow(b.st, t, c.ms) {
						ok = false
						if debugInv {
							fmt.Printf("inv %s: not preserved in %s: %s\n   trace %v\n", c.src, L.header.Parent(), trunc(t.String(), 600), b.st.trace)
							if os.Getenv("GOVC_PC") != "" {
								for _, a := range b.st.pc {
									fmt.Println("      pc", trunc(a.String(), 700))
								}
							}
						}
						break
					}
				}
				if ok {
					nk = append(nk, c)
				}
			}
			if len(nk) == len(kept) {
				break
			}
			kept = nk
		}
	}
	for _, c := range kept {
		if c.loc != "" {
			stable[c.loc] = true
		}
	}
	hd = mk()
	for _, c := range kept {
		if t, ok := x.evalCand(c, hd.it.st, hd.it.fr); ok {
			hd.it.st.assume(t)
			if x.mute == 0 {
				x.invProved += 2
			}
		}
	}
	// wrap-around of linear phis of sized types: they stay in range or the plan is unsound
	for _, p := range plans {
		if p.mode == 1 {
			lo, hi := intBounds(p.phi.Type())
			if _, _, sized := intBits(p.phi.Type()); sized {
				v := hd.it.fr.env[p.phi].(VT).t
				hd.it.st.assume(And(Le(IntB(lo), v), Le(v, IntB(hi))))
			}
		}
	}
	// derived invariant: every earlier iteration took a continuing path
	x.mute++
	preLen := len(hd.it.st.pc)
	probe := hd.it.clone()
	_, backs, _ = x.runHead(probe, L)
	x.mute--
	var disj []*Term
	// arrays of which every iteration k writes at most element k
	type mapped struct{ g, init, ph, off *Term }
	var maps []mapped
	var off *Term
	mapEl := func(b *item, m modLoc, g *Term) *Term {
		a, ok := b.st.walk(b.st.read(m.obj), m.path).(*ArrVal)
		if !ok {
			return nil
		}
		t := arrSeq(b.st, a)
		var el *Term
		for t.op == OUpd {
			o := Sub(t.args[1], n)
			if _, ok := o.constInt(); !ok || off != nil && off != o {
				return nil
			}
			off = o
			if el == nil {
				el = t.args[2]
			}
			t = t.args[0]
		}
		if t != g {
			return nil
		}
		if el == nil {
			return g // unchanged
		}
		return el
	}
	mapEls := map[*item][]*Term{}
	for _, m := range mods {
		if _, ok := entry.st.heap[m.obj]; !ok {
			continue
		}
		a0, ok := entry.st.walk(entry.st.read(m.obj), m.path).(*ArrVal)
		if !ok {
			continue
		}
		a, ok := hd.it.st.walk(hd.it.st.read(m.obj), m.path).(*ArrVal)
		if !ok {
			continue
		}
		g, init := arrSeq(hd.it.st, a), arrSeq(entry.st, a0)
		if g.op != OApp || len(backs) == 0 || g == init {
			continue
		}
		var els []*Term
		off = nil
		for _, b := range backs {
			if el := mapEl(b, m, g); el != nil {
				els = append(els, el)
			}
		}
		if len(els) != len(backs) || off == nil {
			continue
		}
		ph := App("elem!"+g.name, g.sort.elem, n)
		maps = append(maps, mapped{g, init, ph, off})
		for i, b := range backs {
			el := els[i]
			if el == g {
				el = Nth(init, Add(n, off))
			}
			el = Subst(el, map[*Term]*Term{Nth(g, Add(n, off)): Nth(init, Add(n, off))})
			mapEls[b] = append(mapEls[b], Eq(ph, el))
		}
	}
	for _, b := range backs {
		var cs []*Term
		cs = append(cs, b.st.pc[preLen:]...)
		cs = append(cs, mapEls[b]...)
		for k, g := range hd.grown {
			for _, m := range mods {
				if modName(m) == k {
					sl := b.st.walk(b.st.read(m.obj), m.path).(VSlice)
					if el := lastUnit(sliceSeq(b.st, sl, m.typ), b.st, Add(Len(hd.base[k]), n)); el != nil {
						cs = append(cs, Eq(Nth(growSym(g), n), el))
					}
				}
			}
		}
		for p, g := range hd.pgrow {
			e := phiEdge(b, p).(VSlice)
			var c0 *Term
			for _, pl := range plans {
				if pl.phi == p {
					c0 = sliceSeq(hd.it.st, pl.init.(VSlice), p.Type())
				}
			}
			if el := lastUnit(sliceSeq(b.st, e, p.Type()), b.st, Add(Len(c0), n)); el != nil {
				cs = append(cs, Eq(Nth(growSym(g), n), el))
			}
		}
		// values carried to the next iteration
		for _, p := range plans {
			if p.mode == 0 {
				if cur, ok := hd.it.fr.env[p.phi].(VT); ok {
					if e, ok := phiEdge(b, p.phi).(VT); ok {
						nxt := Subst(cur.t, map[*Term]*Term{n: AddI(n, 1)})
						cs = append(cs, Eq(nxt, e.t))
					}
				}
			}
		}
		disj = append(disj, And(cs...))
	}
	var all *Term = True
	if len(backs) == 0 {
		all = Eq(n, Int(0))
	} else {
		body := Or(disj...)
		if termSize(body) < 4000 {
			k := BVar(SInt)
			body = stripGrow(Subst(body, map[*Term]*Term{n: k}), hd.grown, hd.pgrow, n)
			for _, mp := range maps {
				body = Subst(body, map[*Term]*Term{Subst(mp.ph, map[*Term]*Term{n: k}): Nth(mp.g, Add(k, mp.off))})
			}
			all = ForallRange(k, Int(0), n, body)
		}
	}
	// values havocked with a known entry value agree with it before the first iteration
	for _, p := range plans {
		if p.mode == 0 {
			if iv, ok := p.init.(VT); ok {
				cur := hd.it.fr.env[p.phi].(VT)
				hd.it.st.assume(Imp(Eq(n, Int(0)), Eq(cur.t, iv.t)))
				// the first value, for reasoning about the chain
				zeroT := Subst(cur.t, map[*Term]*Term{n: Int(0)})
				hd.it.st.assume(Eq(zeroT, iv.t))
			}
		}
	}
	hd.it.st.assume(all)
	for _, mp := range maps {
		k := BVar(SInt)
		hd.it.st.assume(Eq(Len(mp.g), Len(mp.init)))
		hd.it.st.assume(ForallRange(k, Add(n, mp.off), Len(mp.init), Eq(Nth(mp.g, k), Nth(mp.init, k))))
		k = BVar(SInt)
		hd.it.st.assume(ForallRange(k, Int(0), mp.off, Eq(Nth(mp.g, k), Nth(mp.init, k))))
	}
	if x.mute == 0 {
		x.loopNotes[fmt.Sprintf("%s: %d declared invariants, %d locations, derived=%v", L.header.Parent().RelString(nil), len(kept), len(mods), all != True)] = true
	}
	exits, _, outs = x.runHead(hd.it, L)
	for _, e := range exits {
		e.st.loopCtx = it0.st.loopCtx
	}
	for i := range outs {
		outs[i].st.loopCtx = it0.st.loopCtx
	}
	return
}

var debugInv = os.Getenv("GOVC_INV") != ""

// growSym: g(n) as a sequence is prefix-monotone; elements are described by g at the final n.
func growSym(g *Term) *Term { return g }

// stripGrow: in the derived invariant for iteration k, the grown sequence at k is a prefix of the one at n.
func stripGrow(t *Term, grown map[string]*Term, pg map[*ssa.Phi]*Term, n *Term) *Term {
	m := map[string]*Term{}
	for _, g := range grown {
		m[g.name] = g
	}
	for _, g := range pg {
		m[g.name] = g
	}
	if len(m) == 0 {
		return t
	}
	memo := map[*Term]*Term{}
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if r, ok := memo[t]; ok {
			return r
		}
		r := t
		if t.op == OApp {
			if g := m[t.name]; g != nil && t != g {
				// g(k) = prefix of g(n) of length k
				k := t.args[len(t.args)-1]
				r = Ext(g, Int(0), k)
				memo[t] = r
				return r
			}
		}
		if t.op == ONth && t.args[0].op == OApp && m[t.args[0].name] != nil {
			r = Nth(m[t.args[0].name], f(t.args[1]))
			memo[t] = r
			return r
		}
		if len(t.args) > 0 {
			na := make([]*Term, len(t.args))
			ch := false
			for i, a := range t.args {
				na[i] = f(a)
				ch = ch || na[i] != a
			}
			if ch {
				r = rebuild(t, na)
			}
		}
		memo[t] = r
		return r
	}
	return f(t)
}

func lastUnit(c *Term, st *State, at *Term) *Term {
	ps := catParts(c)
	if len(ps) == 0 {
		return nil
	}
	l := ps[len(ps)-1]
	if l.op == OUnit {
		return l.args[0]
	}
	if l.op == OLit && len(l.name) > 0 {
		return Int(int64(l.name[len(l.name)-1]))
	}
	return nthCtx(c, at, st.light)
}

// grownBy: c is pre followed by something
func grownBy(c, pre *Term) bool {
	a, b := catParts(c), catParts(pre)
	if len(a) < len(b) {
		return false
	}
	for i := range b {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func termSize(t *Term) int {
	seen := map[*Term]bool{}
	n := 0
	var f func(t *Term)
	f = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		n++
		for _, a := range t.args {
			f(a)
		}
	}
	f(t)
	return n
}

func modName(m modLoc) string { return fmt.Sprintf("%d%s", m.obj.id, pathKey(m.path)) }

func sameVal(a, b Value) bool {
	switch x := a.(type) {
	case VT:
		y, ok := b.(VT)
		return ok && x.t == y.t
	case VPtr:
		y, ok := b.(VPtr)
		return ok && x.obj == y.obj && x.nilT == y.nilT && pathKey(x.path) == pathKey(y.path)
	case VSlice:
		y, ok := b.(VSlice)
		return ok && x.obj == y.obj && x.off == y.off && x.len == y.len && x.nilT == y.nilT
	case *VIface:
		y, ok := b.(*VIface)
		if !ok {
			return false
		}
		if x == y {
			return true
		}
		if x.nilT == True && y.nilT == True {
			return true
		}
		return x.dyn != nil && y.dyn != nil && types.Identical(x.dyn, y.dyn) && x.nilT == y.nilT && sameVal(x.val, y.val)
	case *VStruct:
		y, ok := b.(*VStruct)
		return ok && x == y
	case VMap:
		y, ok := b.(VMap)
		return ok && x.obj == y.obj && x.nilT == y.nilT
	case VFunc:
		y, ok := b.(VFunc)
		return ok && x.fn == y.fn && x.id == y.id && x.nilT == y.nilT && len(x.bind) == 0 && len(y.bind) == 0
	}
	return false
}

// proveNow: synchronous proof of a goal in a state
func (x *Exec) proveNow(st *State, t *Term, ms int) bool {
	if ms == 0 {
		ms = 4000
	}
	ok := true
	saveObs, saveKey, saveMute := x.obs, x.obKey, x.mute
	x.obs, x.obKey, x.mute = nil, map[string]bool{}, 0
	x.oblige(st, "inv", "inv", t, 0)
	list := x.obs
	x.obs, x.obKey, x.mute = saveObs, saveKey, saveMute
	for _, o := range list {
		if o.Status == "discharged" {
			continue
		}
		if r, seen := invCache[o.Script]; seen {
			if !r {
				ok = false
				break
			}
			continue
		}
		r := proveOb(o, ms).res == "unsat"
		invCache[o.Script] = r
		if !r {
			ok = false
			break
		}
	}
	return ok
}

var invCache = map[string]bool{}

// bornAfter: the object's name derives from a symbol made after the counter had value mark
func bornAfter(name string, mark int) bool {
	for i := 0; i < len(name); i++ {
		if name[i] != '#' {
			continue
		}
		k := 0
		j := i + 1
		for ; j < len(name) && name[j] >= '0' && name[j] <= '9'; j++ {
			k = k*10 + int(name[j]-'0')
		}
		if j > i+1 && k > mark {
			return true
		}
	}
	return false
}
