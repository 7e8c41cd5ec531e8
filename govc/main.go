package main

// govc: deductive verification of Go functions against contracts, by symbolic execution of go/ssa
// with SMT back ends.  Commands:
//   govc target NAME PROP     verify one contract (JSON on stdout)
//   govc check PROP ...       verify a property (all its contracts), write evidence, report violations
//   govc list                 list contracts

import (
	"context"
	"encoding/json"
	"fmt"
	"go/ast"
	"go/types"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

const mintPath = "github.com/bifurcation/mint"

func repoDir() string {
	if d := os.Getenv("GOVC_REPO"); d != "" {
		return d
	}
	return "/repo"
}
func verifDir() string {
	if d := os.Getenv("GOVC_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

func load() (*Exec, error) {
	modf := os.Getenv("GOVC_MOD")
	if modf == "" {
		d, err := os.MkdirTemp("", "govcmod")
		if err != nil {
			return nil, err
		}
		defer os.RemoveAll(d)
		if err := prepMod(d); err != nil {
			return nil, err
		}
		modf = filepath.Join(d, "mint.mod")
	}
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedDeps | packages.NeedTypes | packages.NeedImports,
		Dir: repoDir(), Env: append(os.Environ(), "GOFLAGS="), BuildFlags: []string{"-modfile=" + modf}}
	pkgs, err := packages.Load(cfg, ".", "./syntax")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("loading %s: %v", p.PkgPath, p.Errors[0])
		}
	}
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics|ssa.GlobalDebug)
	prog.Build()
	x := &Exec{prog: prog, obKey: map[string]bool{}, trusted: map[string]int{}, inlined: map[string]int{}, cuts: map[string]int{},
		loops: map[*ssa.Function]*loopInfo{}, loopNotes: map[string]bool{}, globals: map[*ssa.Global]*Obj{}, dropped: map[string]int{}, maxSteps: 20000000}
	for _, p := range sp {
		switch {
		case p == nil:
		case p.Pkg.Path() == mintPath:
			x.mint = p
		case p.Pkg.Path() == mintPath+"/syntax":
			x.syntax = p
		}
	}
	if x.mint == nil || x.syntax == nil {
		return nil, fmt.Errorf("mint packages not loaded")
	}
	find := func(path, name string) types.Type {
		for _, p := range append(append([]*types.Package{}, x.mint.Pkg.Imports()...), x.syntax.Pkg.Imports()...) {
			if p.Path() == path {
				return p.Scope().Lookup(name).Type()
			}
		}
		return nil
	}
	bufferT = find("bytes", "Buffer")
	bigIntT = find("math/big", "Int")
	x509CertT = types.NewPointer(find("crypto/x509", "Certificate"))
	curveParamsT = find("crypto/elliptic", "CurveParams")
	registerModels()
	x.registerCodec()
	if t := x.lookupType("*DefaultRecordLayer"); t != nil {
		devirt["RecordLayer"] = t
	}
	x.con = loadContracts(filepath.Join(verifDir(), "contracts"))
	for _, f := range pendingUF {
		f(x)
	}
	for _, a := range x.con.axSrc {
		c := &specCtx{x: x, st: newState(), env: map[string]Value{}}
		t, err := c.prop(a.expr)
		if err != nil {
			return nil, fmt.Errorf("%s:%d: axiom: %v", a.file, a.line, err)
		}
		ax := &Axiom{name: a.label, term: t}
		seen := map[*Term]bool{}
		var walk func(t *Term)
		walk = func(t *Term) {
			if seen[t] {
				return
			}
			seen[t] = true
			if t.op == OApp && len(t.args) > 0 {
				ax.syms = append(ax.syms, t.name)
			}
			for _, a := range t.args {
				walk(a)
			}
		}
		walk(t)
		axioms = append(axioms, ax)
	}
	x.bindContracts()
	return x, nil
}

func prepMod(d string) error {
	b, err := os.ReadFile(filepath.Join(repoDir(), "go.mod"))
	if err != nil {
		return err
	}
	s, err := os.ReadFile(filepath.Join(verifDir(), "govc", "mint.sum"))
	if err != nil {
		return err
	}
	if err := os.WriteFile(filepath.Join(d, "mint.mod"), b, 0644); err != nil {
		return err
	}
	return os.WriteFile(filepath.Join(d, "mint.sum"), s, 0644)
}

// bindContracts finds the function of each contract
func (x *Exec) bindContracts() {
	idx := map[string]*ssa.Function{}
	for f := range ssautil.AllFunctions(x.prog) {
		if f.Pkg == x.mint || f.Pkg == x.syntax {
			idx[x.shortName(f)] = f
		}
	}
	for _, p := range []*ssa.Package{x.mint, x.syntax} {
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				idx[x.shortName(m)] = m
			case *ssa.Type:
				for _, t := range []types.Type{m.Type(), types.NewPointer(m.Type())} {
					ms := x.prog.MethodSets.MethodSet(t)
					for i := 0; i < ms.Len(); i++ {
						if f := x.prog.MethodValue(ms.At(i)); f != nil && f.Pkg == p {
							idx[x.shortName(f)] = f
						}
					}
				}
			}
		}
	}
	for _, c := range x.con.order {
		c.fn = idx[strings.SplitN(c.name, "@", 2)[0]]
	}
	x.allFns = idx
}

// ---- package-level variables ----
func (x *Exec) mutableGlobals() map[*ssa.Global]bool {
	out := map[*ssa.Global]bool{}
	for f := range ssautil.AllFunctions(x.prog) {
		if f.Pkg != x.mint && f.Pkg != x.syntax {
			continue
		}
		if f.Name() == "init" || strings.HasPrefix(f.Name(), "init#") {
			continue
		}
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				if s, ok := in.(*ssa.Store); ok {
					a := s.Addr
					for {
						switch v := a.(type) {
						case *ssa.FieldAddr:
							a = v.X
							continue
						case *ssa.IndexAddr:
							a = v.X
							continue
						}
						break
					}
					if g, ok := a.(*ssa.Global); ok {
						out[g] = true
					}
				}
			}
		}
	}
	return out
}

// globalInit: the value a package-level variable has after package initialisation (executed symbolically);
// variables that any function other than init assigns are arbitrary
func (x *Exec) globalInit(g *ssa.Global, typ types.Type) Value {
	if x.initing {
		if g.Pkg == x.mint || g.Pkg == x.syntax {
			return zero(typ)
		}
		return symValue(typ, "g:"+g.String(), nil)
	}
	if g.Pkg != x.mint && g.Pkg != x.syntax {
		v := symValue(typ, "g:"+g.String(), nil)
		switch w := v.(type) {
		case *VIface: // library variables of interface or pointer type are non-nil
			w.nilT = False
		case VPtr:
			w.nilT = False
			return w
		}
		return v
	}
	if x.initVals == nil {
		x.runInit()
	}
	if x.mutGlob[g] {
		return symValue(typ, "g:"+g.Name(), nil)
	}
	if v, ok := x.initVals[g]; ok {
		return v
	}
	return symValue(typ, "g:"+g.Name(), nil)
}

func (x *Exec) runInit() {
	x.initVals = map[*ssa.Global]Value{}
	x.mutGlob = x.mutableGlobals()
	for _, p := range []*ssa.Package{x.syntax, x.mint} {
		x.initing = true
		saved := x.globals
		x.globals = map[*ssa.Global]*Obj{}
		st := newState()
		func() {
			defer func() {
				if r := recover(); r != nil {
					x.loopNotes[fmt.Sprintf("package init of %s not executed: %v", p.Pkg.Name(), r)] = true
					if os.Getenv("GOVC_DEBUG") != "" {
						fmt.Fprintln(os.Stderr, "init:", r, string(debug.Stack()))
					}
				}
			}()
			sTr, sIn := x.trusted, x.inlined
			x.trusted, x.inlined = map[string]int{}, map[string]int{}
			sv := x.safety
			x.safety = false
			x.mute++
			outs := x.callFn(st, p.Func("init"), nil, nil, nil, 0)
			x.mute--
			x.safety = sv
			x.trusted, x.inlined = sTr, sIn
			if len(outs) != 1 || outs[0].pan {
				panic(fmt.Sprintf("%d outcomes", len(outs)))
			}
			fin := outs[0].st
			for g, o := range x.globals {
				if g.Pkg == p {
					x.initVals[g] = fin.read(o)
				}
			}
			// objects allocated by init exist from the start
			for o, v := range fin.heap {
				if o.local {
					o.initV = v
					o.local = false
				}
			}
		}()
		x.globals = saved
		x.initing = false
	}
}

// ---- locations in specifications ----
func typeAt(t types.Type, path []PE) types.Type {
	for _, e := range path {
		if t == nil {
			return nil
		}
		switch u := t.Underlying().(type) {
		case *types.Struct:
			t = u.Field(e.f).Type()
		case *types.Array:
			t = u.Elem()
		case *types.Slice:
			t = u.Elem()
		default:
			return nil
		}
	}
	return t
}

func (c *specCtx) lval(ei interface{}) (VPtr, types.Type) {
	e := ei.(ast.Expr)
	switch n := e.(type) {
	case *ast.ParenExpr:
		return c.lval(n.X)
	case *ast.StarExpr:
		return c.asPtr(c.ev(n.X))
	case *ast.CallExpr:
		if id, ok := n.Fun.(*ast.Ident); ok && (id.Name == "ghost" || id.Name == "elems") {
			return c.asPtr(c.ev(n.Args[0]))
		}
		if id, ok := n.Fun.(*ast.Ident); ok {
			if m := c.x.con.macros[id.Name]; m != nil && m.abstract != nil {
				return c.ghostLoc(id.Name, n)
			}
		}
	case *ast.SelectorExpr:
		base := c.ev(n.X)
		var p VPtr
		if _, isStruct := base.(*VStruct); isStruct {
			p, _ = c.lval(n.X)
		} else {
			p, _ = c.asPtr(base)
		}
		s, ok := c.st.load(p).(*VStruct)
		if !ok {
			panic(serr("field of non-struct"))
		}
		q := c.fieldPath(p, s, n.Sel.Name, 0)
		if q == nil {
			panic(serr("no field %s", n.Sel.Name))
		}
		return *q, typeAt(q.obj.typ, q.path)
	case *ast.IndexExpr:
		if sl, ok := c.ev(n.X).(VSlice); ok {
			p := VPtr{False, sl.obj, append(sl.path[:len(sl.path):len(sl.path)], PE{idx: Add(sl.off, c.intv(n.Index))})}
			return p, c.st.arr(sl).elem
		}
	case *ast.Ident:
		return c.asPtr(c.ev(n))
	}
	panic(serr("not a location"))
}

func (c *specCtx) fieldPath(p VPtr, s *VStruct, name string, d int) *VPtr {
	us := s.typ.Underlying().(*types.Struct)
	for i := 0; i < us.NumFields(); i++ {
		if us.Field(i).Name() == name {
			return &VPtr{False, p.obj, append(p.path[:len(p.path):len(p.path)], PE{f: i})}
		}
	}
	if d > 3 {
		return nil
	}
	for i := 0; i < us.NumFields(); i++ {
		if !us.Field(i).Embedded() {
			continue
		}
		switch v := s.get(i).(type) {
		case *VStruct:
			if r := c.fieldPath(VPtr{False, p.obj, append(p.path[:len(p.path):len(p.path)], PE{f: i})}, v, name, d+1); r != nil {
				return r
			}
		case VPtr:
			if v.obj != nil {
				if es, ok := c.st.load(v).(*VStruct); ok {
					if r := c.fieldPath(v, es, name, d+1); r != nil {
						return r
					}
				}
			}
		}
	}
	return nil
}

func (c *specCtx) asPtr(v Value) (VPtr, types.Type) {
	switch w := v.(type) {
	case VPtr:
		if w.obj == nil {
			panic(serr("location through nil"))
		}
		return VPtr{False, w.obj, w.path}, typeAt(w.obj.typ, w.path)
	case *VIface:
		if w.dyn != nil {
			return c.asPtr(w.val)
		}
	case VSlice:
		if w.obj != nil {
			return VPtr{False, w.obj, w.path}, nil
		}
	case VMap:
		if w.obj != nil {
			return VPtr{False, w.obj, nil}, w.obj.typ
		}
	}
	panic(serr("not a location: %T", v))
}

// ---- verifying one contract ----
type TargetResult struct {
	Target   string
	Prop     string
	Obs      []*Obligation
	Trusted  map[string]int
	Inlined  map[string]int
	Cuts     map[string]int
	Dropped  map[string]int
	Notes    []string
	Paths    int
	Steps    int
	InvOK    int
	Err      string
	WallMs   int64
	SolverMs map[string]int64
	File     string
	Posts    int
}

func (x *Exec) verifyContract(con *Contract, prop string) {
	if con.fn == nil {
		panic(fmt.Sprintf("contract %s: no such function in the source", con.name))
	}
	x.rootCon = con
	for _, n := range strings.Split(con.opts["opaque"], ";") { // interface types whose implementation is left open
		delete(devirt, strings.TrimSpace(n))
	}
	for _, n := range strings.Split(con.opts["heap"], ";") { // types of which every struct lives in the heap arrays
		if n = strings.TrimSpace(n); n != "" {
			heapTypes[n] = nil
		}
	}
	if con.opts["records"] != "" { // record layers are the ghost ones
		devirt["RecordLayer"] = ghostPtr(ghostRecordsT)
	}
	x.target = con.name
	x.prop = prop
	x.safety = prop == "C04" || prop != "" && con.opts["safe"] == prop
	cases := con.cases
	if len(cases) == 0 {
		cases = []*Case{nil}
	}
	for _, cs := range cases {
		x.verifyCase(con, cs, prop)
	}
	for _, p := range append(append([]*Clause{}, con.posts...), con.panics...) {
		r, ok := x.reached[p]
		if !ok {
			continue
		}
		o := &Obligation{Name: con.name + ": premise of " + r.name + " reachable", Kind: "vacuity", Status: "discharged", Solver: "not refuted by z3"}
		if !r.live {
			o.Status, o.Goal = "failed", "no returning path satisfies the premise of this clause: it holds vacuously"
		}
		x.obs = append(x.obs, o)
	}
}

type reachInfo struct {
	name string
	live bool
}

// reach: is the premise of a clause A ==> B satisfied on some path?
func (x *Exec) reach(p *Clause, name string, ctx *specCtx, st *State) {
	if p.expr.ante == nil {
		return
	}
	if x.reached == nil {
		x.reached = map[*Clause]*reachInfo{}
	}
	r := x.reached[p]
	if r == nil {
		r = &reachInfo{name: name}
		x.reached[p] = r
	}
	if r.live {
		return
	}
	c := *ctx
	c.st = st.clone()
	t, err := c.prop(p.expr.ante)
	if err != nil || t == False {
		return
	}
	c.st.assume(t)
	if c.st.bad || quickUnsat(c.st.pc) {
		return
	}
	r.live = someSatisfiable([][]*Term{c.st.pc})
}

func (x *Exec) verifyCase(con *Contract, cs *Case, prop string) {
	fn := con.fn
	st := newState()
	lab := con.name
	if cs != nil {
		lab += "{" + cs.name + "}"
	}
	var args []Value
	env := map[string]Value{}
	if len(con.params) > len(fn.Params) {
		panic(fmt.Sprintf("contract %s: parameter count (%d, function has %d)", con.name, len(con.params), len(fn.Params)))
	}
	for i, p := range fn.Params {
		nm := fmt.Sprintf("p%d", i)
		if i < len(con.params) {
			nm = con.params[i]
		}
		v := symValue(p.Type(), nm, nil)
		if pt, ok := v.(VPtr); ok && !con.nilable[nm] {
			if pt.obj != nil && pt.obj.heap != nil {
				st.assume(Not(pt.nilT))
			}
			pt.nilT = False
			v = pt
		}
		args = append(args, v)
		env[nm] = v
	}
	for _, l := range con.logical {
		env[l[0]] = VT{Sym("logical:"+l[0], x.con.sortByName(l[1], x), nil, nil)}
	}
	mk := func(st, old *State) *specCtx { return &specCtx{x: x, st: st, old: old, env: env} }
	must := func(err error, what string) {
		if err != nil {
			panic(fmt.Sprintf("contract %s: %s: %v", con.name, what, err))
		}
	}
	doSets := func(sets []setClause) {
		for _, s := range sets {
			c := mk(st, st)
			if err := func() (err error) {
				defer func() {
					if r := recover(); r != nil {
						if e, ok := r.(specErr); ok {
							err = fmt.Errorf("%s", e.msg)
							return
						}
						panic(r)
					}
				}()
				v := plain(c.ev(s.rhs))
				if id, ok := s.lhs.(*ast.Ident); ok {
					// parameter itself
					_, known := env[id.Name]
					for i, n := range con.params {
						if n == id.Name {
							args[i] = v
						}
					}
					if known {
						env[id.Name] = v
						return nil
					}
				}
				if id, nv := setField(env, s.lhs, v); nv != nil { // field of a struct parameter passed by value
					env[id] = nv
					for i, n := range con.params {
						if n == id {
							args[i] = nv
						}
					}
					return nil
				}
				p, _ := c.lval(s.lhs)
				st.store(p, v)
				return nil
			}(); err != nil {
				must(err, "set "+s.src)
			}
		}
	}
	doPres := func(pres []*Clause) {
		for _, p := range pres {
			t, err := mk(st, st).prop(p.expr)
			must(err, "pre "+p.src)
			st.assume(t)
		}
	}
	doSets(con.sets)
	if cs != nil {
		doSets(cs.sets)
	}
	doPres(con.pres)
	if cs != nil {
		doPres(cs.pres)
	}
	for _, l := range con.lets {
		v, err := mk(st, st).safeSx(l.expr)
		must(err, "let "+l.name)
		env[l.name] = v
	}
	if st.bad || quickUnsat(st.pc) {
		x.obs = append(x.obs, &Obligation{Name: lab + ": precondition satisfiable", Kind: "vacuity", Status: "failed", Goal: "the precondition is contradictory"})
		return
	}
	x.entry = st.clone()
	entry := x.entry
	outs := x.callFn(st, fn, args, nil, nil, fn.Pos())
	normal := 0
	var live [][]*Term
	var rts []types.Type
	for i := 0; i < fn.Signature.Results().Len(); i++ {
		rts = append(rts, fn.Signature.Results().At(i).Type())
	}
	// a postcondition tagged "canary" must fail: used by the self test only
	for _, o := range outs {
		if o.st.bad {
			continue
		}
		x.paths++
		if os.Getenv("GOVC_DEBUG") != "" {
			fmt.Fprintf(os.Stderr, "outcome pan=%v vals=%s\n", o.pan, valStr(o.st, VTuple(o.vals)))
			if os.Getenv("GOVC_DEBUG") == "2" {
				fmt.Fprintf(os.Stderr, "   trace %v\n", strings.Join(o.st.trace, "; "))
				for _, p := range o.st.pc {
					fmt.Fprintf(os.Stderr, "     %s\n", trunc(p.String(), 300))
				}
			}
		}
		if o.pan {
			if len(con.panics) > 0 {
				// an explicit panic is an outcome of this function: judged by the panics clauses
				normal++
				live = append(live, o.st.pc)
				ctx := mk(o.st, entry).bind("panicked", o.pv)
				for _, p := range con.panics {
					if prop != "*" && len(p.tags) > 0 && !p.has(prop) {
						continue
					}
					nm := p.label
					if nm == "" {
						nm = p.src
					}
					x.reach(p, nm, ctx, o.st)
					c2 := *ctx
					c2.st = o.st.clone()
					if t, err := c2.prop(p.expr); err != nil {
						x.obs = append(x.obs, &Obligation{Name: lab + ": panics " + nm, Kind: "post", Status: "pending-false", Goal: "specification cannot be evaluated on this path: " + err.Error(),
							Script: smtScript(o.st.pc, false), Trace: append([]string{}, o.st.trace...)})
					} else {
						x.oblige(c2.st, "post", lab+": panics "+nm, t, fn.Pos())
					}
				}
			} else if x.safety {
				x.oblige(o.st, "safety", lab+": explicit panic reached", False, fn.Pos())
			}
			continue
		}
		normal++
		live = append(live, o.st.pc)
		if os.Getenv("GOVC_TR") != "" {
			fmt.Println("PATH", strings.Join(o.st.trace, "; "))
		}
		if os.Getenv("GOVC_COVER") != "" {
			x.obs = append(x.obs, &Obligation{Name: lab, Kind: "cover", Script: smtScript(o.st.pc, false), Trace: append([]string{}, o.st.trace...)})
			continue
		}
		ctx := mk(o.st, entry)
		for i, r := range con.results {
			if i < len(o.vals) {
				ctx = ctx.bind(r, o.vals[i])
			}
		}
		for _, p := range con.posts {
			if prop != "*" && len(p.tags) > 0 && !p.has(prop) {
				continue
			}
			nm := p.label
			if nm == "" {
				nm = p.src
			}
			name := lab + ": ensures " + nm
			x.reach(p, nm, ctx, o.st)
			c2 := *ctx
			c2.st = o.st.clone() // evaluation may refine the state (nothing may leak between clauses)
			t, err := c2.prop(p.expr)
			if err != nil {
				// maybe the path is infeasible
				x.obs = append(x.obs, &Obligation{Name: name, Kind: "post", Status: "pending-false", Goal: "specification cannot be evaluated on this path: " + err.Error(),
					Script: smtScript(o.st.pc, false), Trace: append([]string{}, o.st.trace...)})
				continue
			}
			x.oblige(c2.st, "post", name, t, fn.Pos())
		}
		if con.cut {
			x.frameCheck(con, mk(entry.clone(), entry), entry, o.st, lab)
		}
	}
	if normal == 0 && con.opts["noreturn"] == "" {
		x.obs = append(x.obs, &Obligation{Name: lab + ": some path returns", Kind: "vacuity", Status: "failed", Goal: "no feasible path returns"})
	} else if !someSatisfiable(live) {
		x.obs = append(x.obs, &Obligation{Name: lab + ": some path returns", Kind: "vacuity", Status: "failed", Goal: "every path that returns is contradictory: the contract holds vacuously"})
	} else {
		x.obs = append(x.obs, &Obligation{Name: lab + ": some path returns", Kind: "vacuity", Status: "discharged", Solver: "not refuted by z3"})
	}
}

// someSatisfiable: the path condition of some path is not refuted in half a second
func someSatisfiable(pcs [][]*Term) bool {
	for _, pc := range pcs {
		if r := runSolver(context.Background(), "z3-5.3-mbqi0", smtScript(pc, false), 500); r.res != "unsat" {
			return true
		}
	}
	return false
}

// frameCheck: everything a cut function changes is covered by its modifies clauses
func (x *Exec) frameCheck(con *Contract, c *specCtx, entry, fin *State, lab string) {
	type pre struct {
		o *Obj
		k []PE
	}
	var allowed []pre
	for _, m := range con.mods {
		func() {
			defer func() {
				if r := recover(); r != nil {
					if _, ok := r.(specErr); ok {
						return
					}
					panic(r)
				}
			}()
			p, _ := c.lval(m)
			allowed = append(allowed, pre{p.obj, p.path})
		}()
	}
	objs := []*Obj{}
	for o := range fin.heap {
		if !o.local {
			objs = append(objs, o)
		}
	}
	sort.Slice(objs, func(i, j int) bool { return objs[i].id < objs[j].id })
	for _, o := range objs {
		if o.init == nil && o.initV == nil || strings.HasPrefix(o.name, "*curveParams") {
			continue
		}
		var ms []modLoc
		x.diff(fin, o, nil, entry.read(o), fin.heap[o], o.typ, &ms)
		for _, m := range ms {
			ok := false
			for _, a := range allowed {
				if a.o == m.obj && len(a.k) <= len(m.path) && pathKey(a.k) == pathKey(m.path[:len(a.k)]) {
					ok = true
				}
			}
			if ok {
				continue
			}
			x.oblige(fin, "frame", lab+": modifies only what its contract allows ("+m.obj.name+pathKey(m.path)+")", x.eqLoc(entry, fin, m), 0)
		}
	}
}
func (x *Exec) eqLoc(a, b *State, m modLoc) (t *Term) {
	defer func() {
		if r := recover(); r != nil {
			t = False
		}
	}()
	return b.eq(a.walk(a.read(m.obj), m.path), b.walk(b.read(m.obj), m.path), m.typ)
}

func runTarget(x *Exec, name, prop string) (res *TargetResult) {
	t0 := time.Now()
	res = &TargetResult{Target: name, Prop: prop}
	con := x.con.byName[name]
	if con == nil {
		res.Err = "no contract " + name
		return
	}
	res.File = filepath.Base(con.file)
	func() {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsup); ok {
					res.Err = "outside the verified subset: " + u.msg
				} else {
					res.Err = fmt.Sprint(r)
				}
				if os.Getenv("GOVC_DEBUG") != "" {
					fmt.Fprintln(os.Stderr, string(debug.Stack()))
				}
			}
		}()
		x.verifyContract(con, prop)
	}()
	x.discharge()
	res.Obs = x.obs
	res.Trusted, res.Inlined, res.Cuts, res.Dropped = x.trusted, x.inlined, x.cuts, x.dropped
	for n := range x.loopNotes {
		res.Notes = append(res.Notes, n)
	}
	sort.Strings(res.Notes)
	res.Paths, res.Steps, res.InvOK = x.paths, x.steps, x.invProved
	res.WallMs = time.Since(t0).Milliseconds()
	res.SolverMs = map[string]int64{}
	solverMu.Lock()
	for k, v := range solverTimes {
		res.SolverMs[k] = v.Milliseconds()
	}
	solverMu.Unlock()
	return
}

var maxFail = 6

func (x *Exec) discharge() {
	var wg sync.WaitGroup
	var mu sync.Mutex
	fails := 0
	sem := make(chan bool, proveWorkers)
	for _, o := range x.obs {
		if o.Status == "failed" {
			fails++
		}
		if o.Status == "discharged" || o.Status == "failed" {
			continue
		}
		mu.Lock()
		stop := fails >= maxFail && o.Kind != "cover"
		mu.Unlock()
		if stop {
			if o.Status == "" || o.Status == "pending-false" {
				o.Status = "not-tried"
			}
			continue
		}
		wg.Add(1)
		sem <- true
		go func(o *Obligation) {
			defer func() { <-sem; wg.Done() }()
			t := time.Now()
			ms := proveMs
			if o.Kind == "cover" {
				ms = 1500
			}
			r := proveOb(o, ms)
			o.Ms = time.Since(t).Milliseconds()
			o.Solver = r.solver
			if r.res == "unsat" {
				o.Status = "discharged"
				if os.Getenv("GOVC_DUMP") == "" {
					o.Script, o.full = "", ""
				}
			} else {
				o.Status = "failed"
				o.pcTxt += "\n[solver: " + r.res + "]"
				mu.Lock()
				fails++
				mu.Unlock()
			}
		}(o)
	}
	wg.Wait()
}

func proveOb(o *Obligation, ms int) solveResult {
	if len(o.Sub) > 0 {
		all := true
		var last solveResult
		for _, s := range o.Sub {
			if s.Status == "discharged" {
				continue
			}
			last = proveOb(s, ms/2)
			if last.res != "unsat" {
				all = false
				break
			}
		}
		if all {
			if last.res == "" {
				last = solveResult{res: "unsat", solver: "simplifier"}
			}
			return last
		}
	}
	r := prove(o.Script, ms)
	if r.res != "unsat" && o.full != "" && o.full != o.Script {
		if r2 := prove(o.full, ms); r2.res == "unsat" {
			return r2
		}
	}
	return r
}

var proveWorkers = 4
var proveMs = 15000

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: govc target|check|list ...")
		os.Exit(2)
	}
	debug.SetMaxStack(1 << 30)
	switch os.Args[1] {
	case "target":
		x, err := load()
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		res := runTarget(x, os.Args[2], os.Args[3])
		if len(os.Args) > 4 && os.Args[4] == "json" {
			json.NewEncoder(os.Stdout).Encode(res)
			return
		}
		printResult(res)
	case "list":
		x, err := load()
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		for _, c := range x.con.order {
			fmt.Println(c.name, c.fn != nil, len(c.posts))
		}
	case "names":
		x, err := load()
		if err != nil {
			fmt.Println(err)
			os.Exit(1)
		}
		var ks []string
		for k := range x.allFns {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		fmt.Println(strings.Join(ks, "\n"))
	case "check":
		os.Exit(checkCmd(os.Args[2:]))
	}
}

func printResult(r *TargetResult) {
	n := 0
	for _, o := range r.Obs {
		if o.Kind == "cover" {
			if o.Status == "discharged" {
				fmt.Println("UNREACHABLE", o.Name, o.Solver, strings.Join(o.Trace, "; "))
			}
			continue
		}
		if o.Status == "discharged" {
			n++
			if d := os.Getenv("GOVC_DUMP"); d != "" && o.Solver != "simplifier" {
				os.WriteFile(d+".ok", []byte(o.Script), 0644)
			}
			if os.Getenv("GOVC_V") != "" {
				fmt.Printf("ok   %-8s %6dms %-12s %s\n", o.Kind, o.Ms, o.Solver, o.Name)
			}
			continue
		}
		fmt.Printf("FAIL %s %s %dms %s\n    goal %s\n", o.Kind, o.Status, o.Ms, o.Name, trunc(o.Goal, goalW()))
		var tr []string
		for _, t := range o.Trace {
			if t != "" {
				tr = append(tr, t)
			}
		}
		fmt.Printf("    trace %s\n", strings.Join(tr, "; "))
		if o.pcTxt != "" {
			fmt.Println(o.pcTxt)
		}
		if os.Getenv("GOVC_DUMP") != "" {
			os.WriteFile(os.Getenv("GOVC_DUMP"), []byte(o.Script), 0644)
		}
	}
	fmt.Printf("%s [%s]: %d/%d obligations, %d paths, %d steps, inv %d, %d ms", r.Target, r.Prop, n, len(r.Obs), r.Paths, r.Steps, r.InvOK, r.WallMs)
	if r.Err != "" {
		fmt.Printf(" ERROR %s", r.Err)
	}
	fmt.Println()
	if os.Getenv("GOVC_V") != "" {
		for _, n := range r.Notes {
			fmt.Println("   note", n)
		}
		fmt.Println("   inlined", r.Inlined)
		fmt.Println("   trusted", r.Trusted)
		fmt.Println("   cuts", r.Cuts, "solver", r.SolverMs)
	}
}

func goalW() int {
	if os.Getenv("GOVC_W") != "" {
		return 100000
	}
	return 260
}

// setField: the struct variable at the root of e, with the selected field replaced by v
func setField(env map[string]Value, e ast.Expr, v Value) (string, Value) {
	var path []string
	for {
		sel, ok := e.(*ast.SelectorExpr)
		if !ok {
			break
		}
		path = append([]string{sel.Sel.Name}, path...)
		e = sel.X
	}
	id, ok := e.(*ast.Ident)
	if !ok || len(path) == 0 {
		return "", nil
	}
	var rec func(cur Value, path []string) Value
	rec = func(cur Value, path []string) Value {
		if len(path) == 0 {
			return v
		}
		sv, ok := cur.(*VStruct)
		if !ok {
			return nil
		}
		us := sv.typ.Underlying().(*types.Struct)
		for k := 0; k < us.NumFields(); k++ {
			if us.Field(k).Name() == path[0] {
				if nv := rec(sv.get(k), path[1:]); nv != nil {
					return sv.with(k, nv)
				}
			}
		}
		return nil
	}
	root, ok := env[id.Name]
	if !ok {
		return "", nil
	}
	return id.Name, rec(root, path)
}
