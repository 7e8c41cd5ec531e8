package main

// Contract files: parsing and evaluation of specification expressions.

import (
	"fmt"
	"go/ast"
	"go/constant"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Clause struct {
	tags  []string
	label string
	src   string
	expr  *sexpr
	file  string
	line  int
}
type sexpr struct { // implication chain over Go expressions
	ante *sexpr
	cons *sexpr
	e    ast.Expr
}
type Case struct {
	name string
	sets []setClause
	pres []*Clause
}
type setClause struct {
	lhs, rhs ast.Expr
	src      string
}
type Contract struct {
	name    string
	params  []string
	results []string
	cut     bool
	pure    bool
	pres    []*Clause
	sets    []setClause
	posts   []*Clause
	panics  []*Clause // what holds whenever the function panics explicitly
	invs    []*candInv
	mods    []ast.Expr
	modsAll bool
	cases   []*Case
	nilable map[string]bool
	safety  bool // C04 target
	only    []string
	fn      *ssa.Function
	logical [][2]string
	lets    []letClause
	split   []string
	opts    map[string]string
	file    string
}
type letClause struct {
	name string
	expr *sexpr
}
type candInv struct {
	phi  string
	src  string
	expr *sexpr
	con  *Contract
	fn   func(st *State) (*Term, bool)
	ms   int
	loc  string
}
type ufDecl struct {
	name string
	args []*Sort
	res  *Sort
	lo   *big.Int
	hi   *big.Int
}
type macro struct {
	params   []string
	body     *sexpr
	pure     bool
	abstract types.Type // abstraction function: a ghost field outside its implementation
}
type Contracts struct {
	byName map[string]*Contract
	ufs    map[string]*ufDecl
	macros map[string]*macro
	order  []*Contract
	errs   []string
	axSrc  []*Clause
}

func (c *Clause) has(prop string) bool {
	for _, t := range c.tags {
		if t == prop {
			return true
		}
	}
	return false
}

func splitImp(s string) (string, string, bool) {
	d := 0
	inStr := false
	for i := 0; i+3 <= len(s); i++ {
		switch s[i] {
		case '"':
			inStr = !inStr
		case '(', '[', '{':
			if !inStr {
				d++
			}
		case ')', ']', '}':
			if !inStr {
				d--
			}
		}
		if d == 0 && !inStr && s[i:i+3] == "==>" {
			return s[:i], s[i+3:], true
		}
	}
	return s, "", false
}

func parseSpec(s string) (*sexpr, error) {
	a, b, ok := splitImp(s)
	if ok {
		x, err := parseSpec(a)
		if err != nil {
			return nil, err
		}
		y, err := parseSpec(b)
		if err != nil {
			return nil, err
		}
		return &sexpr{ante: x, cons: y}, nil
	}
	e, err := parser.ParseExpr(strings.TrimSpace(s))
	if err != nil {
		return nil, fmt.Errorf("%v in %q", err, s)
	}
	return &sexpr{e: e}, nil
}

func (cs *Contracts) sortByName(n string, x *Exec) *Sort {
	switch n {
	case "int":
		return SInt
	case "bool":
		return SBool
	case "bytes":
		return SBytes
	}
	if strings.HasPrefix(n, "[]") {
		t := x.lookupType(n[2:])
		return seqSortOf(t)
	}
	t := x.lookupType(n)
	if t == nil {
		panic("unknown sort " + n)
	}
	return sortOf(t)
}

func (x *Exec) lookupType(n string) types.Type {
	ptr := false
	if strings.HasPrefix(n, "*") {
		ptr = true
		n = n[1:]
	}
	if strings.HasPrefix(n, "[]") {
		t := types.Type(types.NewSlice(x.lookupType(n[2:])))
		if ptr {
			t = types.NewPointer(t)
		}
		return t
	}
	var t types.Type
	for _, b := range types.Typ {
		if b.Name() == n {
			t = b
		}
	}
	if n == "byte" {
		t = tByte
	}
	if t == nil {
		pk := x.mint.Pkg
		nm := n
		if i := strings.Index(n, "."); i >= 0 {
			for _, p := range append(x.mint.Pkg.Imports(), x.syntax.Pkg.Imports()...) {
				if p.Name() == n[:i] {
					pk = p
				}
			}
			if n[:i] == "syntax" {
				pk = x.syntax.Pkg
			}
			nm = n[i+1:]
		}
		o := pk.Scope().Lookup(nm)
		if o == nil {
			return nil
		}
		tn, ok := o.(*types.TypeName)
		if !ok {
			return nil
		}
		t = tn.Type()
	}
	if ptr {
		return types.NewPointer(t)
	}
	return t
}

func loadContracts(dir string) *Contracts {
	cs := &Contracts{byName: map[string]*Contract{}, ufs: map[string]*ufDecl{}, macros: map[string]*macro{}}
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			panic(err)
		}
		cs.parseFile(f, string(b))
	}
	return cs
}

var pendingUF []func(x *Exec)

func (cs *Contracts) parseFile(file, src string) {
	var lines []string
	var nums []int
	for i, l := range strings.Split(src, "\n") {
		t := strings.TrimSpace(l)
		if t == "" || strings.HasPrefix(t, "#") {
			continue
		}
		if strings.HasPrefix(t, "|") && len(lines) > 0 {
			lines[len(lines)-1] += " " + strings.TrimSpace(t[1:])
			continue
		}
		lines = append(lines, t)
		nums = append(nums, i+1)
	}
	var cur *Contract
	var cas *Case
	fail := func(i int, err any) {
		panic(fmt.Sprintf("%s:%d: %v", file, nums[i], err))
	}
	mustE := func(i int, s string) *sexpr {
		e, err := parseSpec(s)
		if err != nil {
			fail(i, err)
		}
		return e
	}
	clause := func(i int, s string) *Clause {
		c := &Clause{file: file, line: nums[i]}
		s = strings.TrimSpace(s)
		if strings.HasPrefix(s, "[") {
			j := strings.Index(s, "]")
			for _, t := range strings.Split(s[1:j], ",") {
				c.tags = append(c.tags, strings.TrimSpace(t))
			}
			s = strings.TrimSpace(s[j+1:])
		}
		if j := strings.Index(s, ": "); j > 0 && !strings.ContainsAny(s[:j], " ()[]=<>") {
			c.label = s[:j]
			s = s[j+2:]
		}
		c.src = strings.TrimSpace(s)
		c.expr = mustE(i, s)
		return c
	}
	for i, l := range lines {
		w, rest, _ := strings.Cut(l, " ")
		rest = strings.TrimSpace(rest)
		switch w {
		case "func":
			cur = &Contract{nilable: map[string]bool{}, opts: map[string]string{}, file: file}
			cas = nil
			// name(params) (results)
			s := rest
			start := 0
			if strings.HasPrefix(s, "(") {
				start = strings.Index(s, ")") + 1
			}
			j := strings.Index(s[start:], "(") + start
			if j < start {
				fail(i, "func header")
			}
			cur.name = strings.TrimSpace(s[:j])
			k := strings.Index(s[j:], ")") + j
			cur.params = splitList(s[j+1 : k])
			r := strings.TrimSpace(s[k+1:])
			if strings.HasPrefix(r, "(") {
				cur.results = splitList(strings.Trim(r, "()"))
			}
			if cs.byName[cur.name] != nil {
				fail(i, "duplicate contract "+cur.name)
			}
			cs.byName[cur.name] = cur
			cs.order = append(cs.order, cur)
		case "cut":
			cur.cut = true
		case "safety":
			cur.safety = true
		case "opt":
			k, v, _ := strings.Cut(rest, "=")
			cur.opts[strings.TrimSpace(k)] = strings.TrimSpace(v)
		case "nilable":
			for _, p := range splitList(rest) {
				cur.nilable[p] = true
			}
		case "pre":
			c := clause(i, rest)
			if cas != nil {
				cas.pres = append(cas.pres, c)
			} else {
				cur.pres = append(cur.pres, c)
			}
		case "set":
			a, b, _ := strings.Cut(rest, ":=")
			ea, eb := mustE(i, a), mustE(i, b)
			s := setClause{ea.e, eb.e, rest}
			if cas != nil {
				cas.sets = append(cas.sets, s)
			} else {
				cur.sets = append(cur.sets, s)
			}
		case "case":
			cas = &Case{name: rest}
			cur.cases = append(cur.cases, cas)
		case "logical": // universally quantified specification variable
			f := strings.Fields(rest)
			cur.logical = append(cur.logical, [2]string{f[0], f[1]})
		case "casesof":
			o := cs.byName[rest]
			if o == nil {
				fail(i, "casesof "+rest)
			}
			cur.cases = append(cur.cases, o.cases...)
			cas = &Case{}
		case "let":
			a, b, _ := strings.Cut(rest, "=")
			cur.lets = append(cur.lets, letClause{strings.TrimSpace(a), mustE(i, b)})
		case "panics":
			cur.panics = append(cur.panics, clause(i, rest))
		case "ensures":
			cur.posts = append(cur.posts, clause(i, rest))
		case "inv":
			ci := &candInv{con: cur}
			if strings.HasPrefix(rest, "@") { // only for loops that change this variable
				ci.phi, rest, _ = strings.Cut(rest[1:], " ")
			}
			ci.src, ci.expr = rest, mustE(i, rest)
			cur.invs = append(cur.invs, ci)
		case "modifies":
			for _, p := range splitList(rest) {
				e := mustE(i, p)
				cur.mods = append(cur.mods, e.e)
			}
		case "uf":
			s := rest
			j := strings.Index(s, "(")
			k := strings.Index(s, ")")
			name := strings.TrimSpace(s[:j])
			args := splitList(s[j+1 : k])
			res := strings.Fields(s[k+1:])
			pendingUF = append(pendingUF, func(x *Exec) {
				u := &ufDecl{name: name}
				for _, a := range args {
					u.args = append(u.args, cs.sortByName(a, x))
				}
				u.res = cs.sortByName(res[0], x)
				if len(res) >= 3 {
					u.lo, _ = new(big.Int).SetString(res[1], 10)
					u.hi, _ = new(big.Int).SetString(res[2], 10)
					appBounds[name] = bnd{u.lo, u.hi}
				}
				cs.ufs[name] = u
			})
		case "spec", "abstract":
			a, b, ok := strings.Cut(rest, "=")
			if !ok {
				fail(i, "spec")
			}
			j := strings.Index(a, "(")
			k := strings.LastIndex(a, ")")
			m := &macro{params: splitList(a[j+1 : k]), body: mustE(i, b)}
			cs.macros[strings.TrimSpace(a[:j])] = m
			if w == "abstract" {
				switch strings.TrimSpace(a[k+1:]) {
				case "bytes":
					m.abstract = tStr
				case "int":
					m.abstract = tInt
				case "bool":
					m.abstract = tBool
				default:
					fail(i, "abstract sort")
				}
			}
		case "pure", "rec": // pure f(a int, b bytes) sort [len E] = E: a function, opaque unless unfolded; rec f(..., n int) sort = E0 ; E1
			j := strings.Index(rest, "(")
			k := strings.Index(rest, ")")
			eq := strings.Index(rest[k:], "=") + k
			name := strings.TrimSpace(rest[:j])
			var ps, ss []string
			for _, q := range splitList(rest[j+1 : k]) {
				f := strings.Fields(q)
				if len(f) != 2 {
					fail(i, "parameter "+q)
				}
				ps, ss = append(ps, f[0]), append(ss, f[1])
			}
			mid := strings.TrimSpace(rest[k+1 : eq])
			sort, lenS, hasLen := strings.Cut(mid, " len ")
			var lenE, e0, e1 *sexpr
			if hasLen {
				lenE = mustE(i, lenS)
			}
			if w == "rec" {
				a, b, ok := strings.Cut(rest[eq+1:], " ; ")
				if !ok {
					fail(i, "rec needs 'base ; step'")
				}
				e0, e1 = mustE(i, a), mustE(i, b)
			} else {
				cs.macros[name] = &macro{params: ps, body: mustE(i, rest[eq+1:]), pure: true}
			}
			pendingUF = append(pendingUF, func(x *Exec) {
				u := &ufDecl{name: name}
				for _, a := range ss {
					u.args = append(u.args, cs.sortByName(a, x))
				}
				u.res = cs.sortByName(strings.TrimSpace(sort), x)
				cs.ufs[name] = u
				eval := func(e *sexpr, as []*Term) *Term {
					c := &specCtx{x: x, st: newState(), env: map[string]Value{}}
					for i, p := range ps {
						c.env[p] = VT{as[i]}
					}
					v := plain(c.sx(e))
					if u.res.elem != nil {
						return c.seq(v, u.res)
					}
					return c.term(v)
				}
				if lenE != nil {
					sv := *u
					_ = sv
					appLen[name] = func(as []*Term) *Term {
						c := &specCtx{x: x, st: newState(), env: map[string]Value{}}
						for i, p := range ps {
							c.env[p] = VT{as[i]}
						}
						return c.term(plain(c.sx(lenE)))
					}
				}
				if e0 != nil {
					appRewrites[name] = func(as []*Term) *Term {
						n := as[len(as)-1]
						l := toLin(n)
						if len(l.at) == 0 && l.k.Sign() == 0 {
							return eval(e0, as)
						}
						if l.k.Sign() <= 0 {
							return nil
						}
						if len(l.at) > 0 { // n = m + k with m >= 0
							lo, _ := Sub(n, IntB(l.k)).bounds()
							if lo == nil || lo.Sign() < 0 {
								return nil
							}
						}
						return eval(e1, as)
					}
				}
			})
		case "axiom":
			cs.axSrc = append(cs.axSrc, clause(i, rest))
		default:
			fail(i, "unknown clause "+w)
		}
	}
}

func splitList(s string) []string {
	var out []string
	d, start := 0, 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(', '[':
			d++
		case ')', ']':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[start:i]))
				start = i + 1
			}
		}
	}
	if t := strings.TrimSpace(s[start:]); t != "" {
		out = append(out, t)
	}
	return out
}

// ---- evaluation ----
type specCtx struct {
	atCall bool
	x      *Exec
	st     *State
	old    *State
	env    map[string]Value
	fr     *Frame // for loop candidates: names of locals
	depth  int
}
type specErr struct{ msg string }

func serr(f string, a ...any) specErr { return specErr{fmt.Sprintf(f, a...)} }

func (c *specCtx) bind(name string, v Value) *specCtx {
	n := *c
	n.env = make(map[string]Value, len(c.env)+1)
	for k, w := range c.env {
		n.env[k] = w
	}
	n.env[name] = v
	return &n
}

func (c *specCtx) sx(e *sexpr) Value {
	if e.ante != nil {
		a := c.term(c.sx(e.ante))
		if c.st.light(a) == -1 {
			return VT{True}
		}
		return VT{Imp(a, c.term(c.sx(e.cons)))}
	}
	return c.ev(e.e)
}

// prop evaluates a clause to a boolean term
func (c *specCtx) prop(e *sexpr) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			if s, ok := r.(specErr); ok {
				err = fmt.Errorf("%s", s.msg)
				return
			}
			if s, ok := r.(unsup); ok {
				err = fmt.Errorf("unsupported: %s", s.msg)
				return
			}
			if _, ok := r.(infeasible); ok {
				err = fmt.Errorf("dereference of nil in specification")
				return
			}
			panic(r)
		}
	}()
	t = c.term(c.sx(e))
	if t.sort != SBool {
		return nil, fmt.Errorf("not boolean")
	}
	return t, nil
}

func (c *specCtx) term(v Value) *Term {
	if f, ok := v.(*frozenV); ok {
		return f.t
	}
	switch w := plain(v).(type) {
	case VT:
		return w.t
	case VSlice:
		return sliceSeq(c.st, w, nil)
	case *ArrVal:
		return arrSeq(c.st, w)
	case *VStruct:
		return freeze(c.st, w, w.typ)
	case *VIface, VPtr, VFunc, VMap:
		return freeze(c.st, w, nil)
	}
	panic(serr("no term for %T", v))
}
func (c *specCtx) seq(v Value, like *Sort) *Term {
	if s, ok := v.(VSlice); ok && s.obj == nil {
		if like == nil {
			like = SBytes
		}
		return Empty(like)
	}
	if p, ok := v.(VPtr); ok && p.obj == nil && p.nilT == True {
		if like == nil {
			like = SBytes
		}
		return Empty(like)
	}
	if w, ok := v.(*VIface); ok && w.nilT == True {
		if like == nil {
			like = SBytes
		}
		return Empty(like)
	}
	t := c.term(v)
	if t.sort.elem == nil {
		panic(serr("not a sequence: %s", t))
	}
	if like != nil && t.sort != like && t == Empty(t.sort) {
		return Empty(like)
	}
	return t
}

func (c *specCtx) boolv(e ast.Expr) *Term {
	t := c.term(c.ev(e))
	if t.sort != SBool {
		panic(serr("boolean expected"))
	}
	return t
}
func (c *specCtx) intv(e ast.Expr) *Term {
	t := c.term(c.ev(e))
	if t.sort != SInt {
		panic(serr("integer expected"))
	}
	return t
}

func (c *specCtx) lookup(name string) (Value, bool) {
	if v, ok := c.env[name]; ok {
		return v, true
	}
	if name == "it" && c.fr != nil { // the number of completed iterations
		if v, ok := c.fr.names["$n"]; ok {
			return v, true
		}
	}
	if name == "ito" && c.fr != nil { // of the enclosing loop
		if v, ok := c.fr.names["$o"]; ok {
			return v, true
		}
	}
	for f := c.fr; f != nil; f = f.parent {
		if v, ok := f.names[name]; ok {
			return v, true
		}
		if v, ok := f.names["&"+name]; ok {
			return c.st.load(v.(VPtr)), true
		}
	}
	switch name {
	case "true":
		return VT{True}, true
	case "false":
		return VT{False}, true
	case "nil":
		return VPtr{nilT: True}, true
	}
	for _, p := range []*ssa.Package{c.x.mint, c.x.syntax} {
		switch o := p.Pkg.Scope().Lookup(name).(type) {
		case *types.Const:
			return c.constObj(o), true
		case *types.Var:
			g := p.Members[name].(*ssa.Global)
			return c.st.load(VPtr{False, c.x.global(g), nil}), true
		}
	}
	return nil, false
}
func (c *specCtx) constObj(o *types.Const) Value {
	switch o.Val().Kind() {
	case constant.Bool:
		return VT{Bool(constant.BoolVal(o.Val()))}
	case constant.String:
		return VT{Lit(constant.StringVal(o.Val()))}
	}
	b, ok := new(big.Int).SetString(constant.ToInt(o.Val()).ExactString(), 10)
	if !ok {
		panic(serr("constant %s", o.Name()))
	}
	t := VT{IntB(b)}
	if _, basic := o.Type().(*types.Basic); !basic {
		return typedConst{t, o.Type()}
	}
	return t
}

// typedConst: constant of a named type; acts as its term but can be compared with interfaces
type typedConst struct {
	VT
	typ types.Type
}

func plain(v Value) Value {
	if t, ok := v.(typedConst); ok {
		return t.VT
	}
	return v
}

func (c *specCtx) ev(e ast.Expr) Value {
	v := c.ev0(e)
	return v
}

func (c *specCtx) deref(v Value) Value {
	if p, ok := v.(VPtr); ok {
		return c.st.load(p)
	}
	if i, ok := v.(*VIface); ok && i.dyn != nil {
		return c.deref(i.val)
	}
	return v
}

func (c *specCtx) ev0(e ast.Expr) Value {
	switch n := e.(type) {
	case *ast.ParenExpr:
		return c.ev0(n.X)
	case *ast.Ident:
		if v, ok := c.lookup(n.Name); ok {
			return v
		}
		panic(serr("unknown identifier %s", n.Name))
	case *ast.BasicLit:
		switch n.Kind {
		case token.INT:
			b, _ := new(big.Int).SetString(n.Value, 0)
			return VT{IntB(b)}
		case token.STRING:
			s, _ := strconv.Unquote(n.Value)
			return VT{Lit(s)}
		case token.CHAR:
			r, _, _, _ := strconv.UnquoteChar(n.Value[1:], '\'')
			return VT{Int(int64(r))}
		}
	case *ast.UnaryExpr:
		switch n.Op {
		case token.NOT:
			return VT{Not(c.boolv(n.X))}
		case token.SUB:
			return VT{Sub(Int(0), c.intv(n.X))}
		}
	case *ast.StarExpr:
		return c.deref(c.ev(n.X))
	case *ast.BinaryExpr:
		return c.binary(n)
	case *ast.SelectorExpr:
		return c.selector(n)
	case *ast.IndexExpr:
		b := plain(c.ev(n.X))
		switch w := b.(type) {
		case VMap:
			return c.mapGet(w, c.ev(n.Index))
		case VSlice:
			i := c.intv(n.Index)
			if w.obj == nil {
				panic(serr("index of nil slice"))
			}
			return c.st.walk(c.st.read(w.obj), append(w.path[:len(w.path):len(w.path)], PE{idx: Add(w.off, i)}))
		case *ArrVal:
			return c.st.walk(w, []PE{{idx: c.intv(n.Index)}})
		case VPtr:
			if a, ok := c.st.load(w).(*ArrVal); ok {
				return c.st.walk(a, []PE{{idx: c.intv(n.Index)}})
			}
		case VT:
			if w.t.sort.elem != nil {
				t := nthCtx(w.t, c.intv(n.Index), c.st.light)
				if t.sort.fields != nil {
					return &frozenV{t}
				}
				return VT{t}
			}
		case VTuple:
			i, _ := c.intv(n.Index).constInt()
			return w[i]
		}
		panic(serr("index of %T", b))
	case *ast.SliceExpr:
		s := c.seq(plain(c.ev(n.X)), nil)
		lo, hi := Int(0), Len(s)
		if n.Low != nil {
			lo = c.intv(n.Low)
		}
		if n.High != nil {
			hi = c.intv(n.High)
		}
		return VT{extCtx(s, lo, Sub(hi, lo), c.st.light)}
	case *ast.CallExpr:
		return c.call(n)
	}
	panic(serr("expression %T", e))
}

// frozenV: a datatype term used as a struct value in specifications
type frozenV struct{ t *Term }

func (c *specCtx) selector(n *ast.SelectorExpr) Value {
	if id, ok := n.X.(*ast.Ident); ok {
		if _, found := c.lookup(id.Name); !found {
			// package qualified constant
			for _, p := range append(append([]*types.Package{c.x.syntax.Pkg}, c.x.mint.Pkg.Imports()...), c.x.syntax.Pkg.Imports()...) {
				if p.Name() == id.Name {
					switch o := p.Scope().Lookup(n.Sel.Name).(type) {
					case *types.Const:
						return c.constObj(o)
					case *types.Var:
						if sp := c.x.prog.Package(p); sp != nil {
							if g, ok := sp.Members[n.Sel.Name].(*ssa.Global); ok {
								return c.st.load(VPtr{False, c.x.global(g), nil})
							}
						}
					}
				}
			}
		}
	}
	v := c.ev(n.X)
	if f, ok := v.(*frozenV); ok {
		for i, fd := range f.t.sort.fields {
			if fd.name == n.Sel.Name {
				t := Sel(f.t, i)
				if t.sort.fields != nil {
					return &frozenV{t}
				}
				return VT{t}
			}
		}
		panic(serr("no field %s in %s", n.Sel.Name, f.t.sort.name))
	}
	v = c.deref(v)
	s, ok := v.(*VStruct)
	if !ok {
		panic(serr("selector .%s on %T", n.Sel.Name, v))
	}
	r := c.field(s, n.Sel.Name, 0)
	if r == nil {
		panic(serr("no field %s in %s", n.Sel.Name, typeName(s.typ)))
	}
	return r
}
func (c *specCtx) field(s *VStruct, name string, d int) Value {
	us := s.typ.Underlying().(*types.Struct)
	for i := 0; i < us.NumFields(); i++ {
		if us.Field(i).Name() == name {
			return s.get(i)
		}
	}
	if d > 3 {
		return nil
	}
	for i := 0; i < us.NumFields(); i++ {
		if us.Field(i).Embedded() {
			if e, ok := c.deref(s.get(i)).(*VStruct); ok {
				if r := c.field(e, name, d+1); r != nil {
					return r
				}
			}
		}
	}
	return nil
}

func (c *specCtx) eqv(a, b Value) *Term {
	// typed constants against interfaces
	wrapc := func(k typedConst) Value { return &VIface{nilT: False, dyn: k.typ, val: k.VT} }
	ka, oka := a.(typedConst)
	kb, okb := b.(typedConst)
	if oka {
		if _, ok := b.(*VIface); ok {
			a = wrapc(ka)
		} else {
			a = ka.VT
		}
	}
	if okb {
		if _, ok := a.(*VIface); ok {
			b = wrapc(kb)
		} else {
			b = kb.VT
		}
	}
	if fa, ok := a.(*frozenV); ok {
		return Eq(fa.t, c.dataTerm(b))
	}
	if fb, ok := b.(*frozenV); ok {
		return Eq(c.dataTerm(a), fb.t)
	}
	isNil := func(v Value) bool { p, ok := v.(VPtr); return ok && p.obj == nil && p.nilT == True }
	nilOf := func(v Value) *Term {
		switch w := v.(type) {
		case VPtr:
			return w.nilT
		case VSlice:
			return w.nilT
		case *VIface:
			return w.nilT
		case VFunc:
			return w.nilT
		case VMap:
			return w.nilT
		}
		panic(serr("nil comparison with %T", v))
	}
	if isNil(b) {
		return nilOf(a)
	}
	if isNil(a) {
		return nilOf(b)
	}
	seqLike := func(v Value) bool {
		switch w := v.(type) {
		case VSlice, *ArrVal:
			return true
		case VT:
			return w.t.sort.elem != nil
		}
		return false
	}
	if seqLike(a) && seqLike(b) {
		if xa, ok := a.(VSlice); ok {
			if xb, ok := b.(VSlice); ok && xa.obj != nil && xb.obj != nil {
				return c.st.eqSlices(xa, xb)
			}
		}
		var sa, sb *Term
		if s, ok := a.(VSlice); ok && s.obj == nil {
			sb = c.seq(b, nil)
			sa = Empty(sb.sort)
		} else {
			sa = c.seq(a, nil)
			sb = c.seq(b, sa.sort)
			if sa.sort != sb.sort && sa == Empty(sa.sort) {
				sa = Empty(sb.sort)
			}
		}
		return Eq(sa, sb)
	}
	if xi, ok := a.(*VIface); ok {
		if _, ok := b.(*VIface); !ok && xi.dyn != nil {
			return And(Not(xi.nilT), c.eqv(xi.val, b))
		}
	}
	if xi, ok := b.(*VIface); ok {
		if _, ok := a.(*VIface); !ok && xi.dyn != nil {
			return And(Not(xi.nilT), c.eqv(a, xi.val))
		}
	}
	return c.st.eq(a, b, nil)
}

func (s *State) eqSlices(a, b VSlice) *Term {
	if a.obj == b.obj && pathKey(a.path) == pathKey(b.path) && a.off == b.off && a.len == b.len {
		return True
	}
	ax, ay := s.arr(a), s.arr(b)
	if ax.cells != nil || ay.cells != nil {
		cx, ok1 := cellsOf(s, a)
		cy, ok2 := cellsOf(s, b)
		if ok1 && ok2 {
			if len(cx) != len(cy) {
				return False
			}
			var cs []*Term
			for i := range cx {
				cs = append(cs, s.eq(cx[i], cy[i], ax.elem))
			}
			return And(cs...)
		}
	}
	return Eq(sliceSeq(s, a, nil), sliceSeq(s, b, nil))
}

func (c *specCtx) dataTerm(v Value) *Term {
	if f, ok := v.(*frozenV); ok {
		return f.t
	}
	return c.term(plain(v))
}

func (c *specCtx) binary(n *ast.BinaryExpr) Value {
	switch n.Op {
	case token.LAND:
		a := c.boolv(n.X)
		if a == False {
			return VT{False}
		}
		return VT{And(a, c.boolv(n.Y))}
	case token.LOR:
		a := c.boolv(n.X)
		if a == True {
			return VT{True}
		}
		return VT{Or(a, c.boolv(n.Y))}
	case token.EQL:
		return VT{c.eqv(c.ev(n.X), c.ev(n.Y))}
	case token.NEQ:
		return VT{Not(c.eqv(c.ev(n.X), c.ev(n.Y)))}
	}
	a, b := c.intv(n.X), c.intv(n.Y)
	switch n.Op {
	case token.ADD:
		return VT{Add(a, b)}
	case token.SUB:
		return VT{Sub(a, b)}
	case token.MUL:
		return VT{Mul(a, b)}
	case token.LSS:
		return VT{Lt(a, b)}
	case token.LEQ:
		return VT{Le(a, b)}
	case token.GTR:
		return VT{Lt(b, a)}
	case token.GEQ:
		return VT{Le(b, a)}
	case token.QUO:
		if b.op == OConst {
			return VT{Div(a, b.k)}
		}
	case token.REM:
		if b.op == OConst {
			return VT{Mod(a, b.k)}
		}
	case token.SHL:
		if k, ok := b.constInt(); ok {
			return VT{MulK(a, new(big.Int).Lsh(bigOne, uint(k)))}
		}
	case token.SHR:
		if k, ok := b.constInt(); ok {
			return VT{Div(a, new(big.Int).Lsh(bigOne, uint(k)))}
		}
	}
	panic(serr("operator %s", n.Op))
}

func (c *specCtx) mapGet(m VMap, k Value) Value {
	if m.obj == nil {
		panic(serr("nil map"))
	}
	k = plain(k)
	mv := c.st.read(m.obj).(*MapVal)
	if z, ok := zero(mv.typ.Elem()).(VT); ok { // scalars: case distinction on the key
		res := z.t
		if mv.base != nil {
			args := append(append([]*Term{}, mv.base.args...), c.term(k))
			g := T(symValue(mv.typ.Elem(), mv.base.name+".get", args))
			res = Ite(Sym(mv.base.name+".has", SBool, nil, nil, args...), g, z.t)
		}
		for _, w := range mv.writes {
			v := z.t
			if w.val != nil {
				v = T(w.val)
			}
			res = Ite(c.eqv(w.key, k), v, res)
		}
		return VT{Ite(m.nilT, z.t, res)}
	}
	for j := len(mv.writes) - 1; j >= 0; j-- {
		w := mv.writes[j]
		e := c.eqv(w.key, k)
		switch c.st.decide(e) {
		case 1:
			if w.val == nil {
				return zero(mv.typ.Elem())
			}
			return w.val
		case -1:
			continue
		}
		panic(serr("undecided map key"))
	}
	if mv.base == nil {
		return zero(mv.typ.Elem())
	}
	args := append(append([]*Term{}, mv.base.args...), c.term(k))
	return symValue(mv.typ.Elem(), mv.base.name+".get", args)
}
func (c *specCtx) mapHas(m VMap, k Value) *Term {
	if m.obj == nil {
		return False
	}
	k = plain(k)
	mv := c.st.read(m.obj).(*MapVal)
	res := False
	guard := True
	for j := len(mv.writes) - 1; j >= 0; j-- {
		w := mv.writes[j]
		e := c.eqv(w.key, k)
		res = Or(res, And(guard, e, Bool(w.val != nil)))
		guard = And(guard, Not(e))
	}
	if mv.base != nil {
		args := append(append([]*Term{}, mv.base.args...), c.term(k))
		res = Or(res, And(guard, Sym(mv.base.name+".has", SBool, nil, nil, args...)))
	}
	return And(Not(m.nilT), res)
}

// be: big-endian encoding of v in n bytes
func beBytes(v *Term, n int) *Term {
	var ps []*Term
	for i := n - 1; i >= 0; i-- {
		ps = append(ps, Unit(SBytes, Mod(Div(v, new(big.Int).Lsh(bigOne, uint(8*i))), bi(256))))
	}
	return Cat(SBytes, ps...)
}

func typeArg(e ast.Expr) string {
	switch n := e.(type) {
	case *ast.Ident:
		return n.Name
	case *ast.StarExpr:
		return "*" + typeArg(n.X)
	case *ast.SelectorExpr:
		return typeArg(n.X) + "." + n.Sel.Name
	case *ast.ParenExpr:
		return typeArg(n.X)
	case *ast.UnaryExpr:
		return "*" + typeArg(n.X)
	}
	return "?"
}

func (c *specCtx) call(n *ast.CallExpr) Value {
	fn := ""
	switch f := n.Fun.(type) {
	case *ast.Ident:
		fn = f.Name
	case *ast.SelectorExpr:
		fn = typeArg(f)
	default:
		panic(serr("call"))
	}
	arg := func(i int) Value { return plain(c.ev(n.Args[i])) }
	if m, ok := c.x.con.macros[fn]; ok && (!m.pure || c.x.unfold(fn)) {
		if len(n.Args) != len(m.params) {
			panic(serr("macro %s arity", fn))
		}
		if c.depth > 40 {
			panic(serr("macro recursion"))
		}
		if m.abstract != nil && !c.x.concrete() {
			p, _ := c.ghostLoc(fn, n)
			return c.st.load(p)
		}
		nc := *c
		nc.env = map[string]Value{}
		for i, p := range m.params {
			nc.env[p] = c.ev(n.Args[i])
		}
		nc.fr = nil
		nc.depth++
		return nc.sx(m.body)
	}
	if u, ok := c.x.con.ufs[fn]; ok {
		if len(n.Args) != len(u.args) {
			panic(serr("uf %s arity", fn))
		}
		var as []*Term
		for i := range n.Args {
			v := arg(i)
			var t *Term
			if u.args[i].elem != nil {
				t = c.seq(v, u.args[i])
			} else {
				t = c.dataTerm(v)
			}
			if t.sort != u.args[i] {
				panic(serr("uf %s argument %d: %s vs %s", fn, i, t.sort.name, u.args[i].name))
			}
			as = append(as, t)
		}
		return VT{App(fn, u.res, as...)}
	}
	switch fn {
	case "len":
		v := arg(0)
		switch w := v.(type) {
		case VSlice:
			return VT{w.len}
		case *ArrVal:
			return VT{arrLen(w)}
		case VT:
			return VT{Len(w.t)}
		}
		panic(serr("len of %T", v))
	case "cap":
		return VT{arg(0).(VSlice).cap}
	case "cat":
		var ps []*Term
		var s *Sort
		for i := range n.Args {
			t := c.seq(arg(i), s)
			if s == nil || len(ps) > 0 && ps[0] == Empty(s) {
				s = t.sort
			}
			ps = append(ps, t)
		}
		for i := range ps {
			if ps[i].sort != s && Len(ps[i]) == Int(0) {
				ps[i] = Empty(s)
			}
		}
		return VT{Cat(s, ps...)}
	case "bytes":
		var ps []*Term
		for i := range n.Args {
			ps = append(ps, Unit(SBytes, c.intv(n.Args[i])))
		}
		return VT{Cat(SBytes, ps...)}
	case "seq1": // one-element sequence of a struct or scalar
		v := c.ev(n.Args[0])
		t := c.dataTerm(v)
		var s *Sort
		if len(n.Args) > 1 {
			s = c.x.con.sortByName("[]"+typeArg(n.Args[1]), c.x)
		} else {
			s = SSeq(t.sort)
		}
		return VT{Unit(s, t)}
	case "be":
		w := c.intv(n.Args[1])
		k, ok := w.constInt()
		if !ok {
			k, ok = c.st.smallConst(w)
		}
		if !ok {
			panic(serr("be width"))
		}
		return VT{beBytes(c.intv(n.Args[0]), k)}
	case "rep":
		return VT{Rep(SBytes, c.intv(n.Args[0]), c.intv(n.Args[1]))}
	case "upd":
		return VT{Upd(c.seq(arg(0), nil), c.intv(n.Args[1]), c.dataTerm(arg(2)))}
	case "xor":
		return VT{App("xor8", SInt, c.intv(n.Args[0]), c.intv(n.Args[1]))}
	case "old":
		nc := *c
		if c.old != nil {
			nc.st = c.old
		}
		return nc.ev(n.Args[0])
	case "now": // evaluate names in the frame (used with shadowed parameters)
		return c.ev(n.Args[0])
	case "imp":
		a := c.boolv(n.Args[0])
		if a == False || c.st.light(a) == -1 {
			return VT{True}
		}
		return VT{Imp(a, c.boolv(n.Args[1]))}
	case "iff":
		return VT{Iff(c.boolv(n.Args[0]), c.boolv(n.Args[1]))}
	case "ite":
		cd := c.boolv(n.Args[0])
		if cd == True {
			return c.ev(n.Args[1])
		}
		if cd == False {
			return c.ev(n.Args[2])
		}
		switch c.st.light(cd) {
		case 1:
			return c.ev(n.Args[1])
		case -1:
			return c.ev(n.Args[2])
		}
		a, b := c.ev(n.Args[1]), c.ev(n.Args[2])
		ta := c.dataTerm(a)
		tb := c.dataTerm(b)
		if ta.sort != tb.sort && ta.sort.elem != nil {
			if ta == Empty(ta.sort) {
				ta = Empty(tb.sort)
			} else {
				tb = c.seq(b, ta.sort)
			}
		}
		return VT{Ite(cd, ta, tb)}
	case "forall", "exists":
		id := n.Args[0].(*ast.Ident).Name
		k := BVar(SInt)
		lo, hi := c.intv(n.Args[1]), c.intv(n.Args[2])
		nc := c.bind(id, VT{k})
		// inside the body the range holds
		s2 := c.st.clone()
		s2.assume(And(Le(lo, k), Lt(k, hi)))
		nc.st = s2
		if c.old == c.st {
			nc.old = s2
		}
		body := nc.boolv(n.Args[3])
		if fn == "exists" {
			return VT{Not(ForallRange(k, lo, hi, Not(body)))}
		}
		return VT{ForallRange(k, lo, hi, body)}
	case "forallv": // forallv(x, sort, body): unrestricted
		id := n.Args[0].(*ast.Ident).Name
		sn := ""
		if b, ok := n.Args[1].(*ast.BasicLit); ok {
			sn, _ = strconv.Unquote(b.Value)
		} else {
			sn = typeArg(n.Args[1])
		}
		s := c.x.con.sortByName(sn, c.x)
		k := BVar(s)
		var kv Value = VT{k}
		if s.fields != nil {
			kv = &frozenV{k}
		}
		return VT{Forall(k, c.bind(id, kv).boolv(n.Args[2]))}
	case "is", "as":
		v := c.ev(n.Args[0])
		i, ok := v.(*VIface)
		if !ok {
			panic(serr("%s on %T", fn, v))
		}
		t := c.x.lookupType(typeArg(n.Args[1]))
		if t == nil {
			panic(serr("unknown type %s", typeArg(n.Args[1])))
		}
		if fn == "is" {
			if i.nilT == True {
				return VT{False}
			}
			if i.dyn != nil {
				return VT{And(Not(i.nilT), Bool(types.Identical(i.dyn, t)))}
			}
			return VT{And(Not(i.nilT), Eq(App("dyn", SInt, i.id), typeTag(t)))}
		}
		if i.dyn != nil && !types.Identical(i.dyn, t) || i.nilT == True {
			return symValue(t, "bad-as:"+typeName(t), nil) // only meaningful under is()
		}
		return c.st.payload(i, t)
	case "count", "the", "theLast", "indexOf":
		t := c.x.lookupType(typeArg(n.Args[0]))
		if t == nil {
			panic(serr("unknown type %s", typeArg(n.Args[0])))
		}
		sl, ok := arg(1).(VSlice)
		if !ok {
			panic(serr("count on %T", arg(1)))
		}
		cells, ok := cellsOf(c.st, sl)
		if !ok {
			panic(serr("elements not known"))
		}
		var hits []Value
		first := -1
		for ci, v := range cells {
			if i, ok := v.(*VIface); ok && i.dyn != nil && types.Identical(i.dyn, t) {
				if first < 0 {
					first = ci
				}
				hits = append(hits, i.val)
			} else if ok && i.dyn == nil {
				panic(serr("element of unknown dynamic type"))
			}
		}
		if fn == "count" {
			return VT{Int(int64(len(hits)))}
		}
		if fn == "indexOf" {
			return VT{Int(int64(first))}
		}
		k := 0
		if len(n.Args) > 2 {
			k, _ = c.intv(n.Args[2]).constInt()
		}
		if fn == "theLast" {
			k = len(hits) - 1
		}
		if k >= len(hits) || k < 0 {
			return symValue(t, fmt.Sprintf("bad-the:%s", typeName(t)), nil)
		}
		return hits[k]
	case "has":
		return VT{c.mapHas(arg(0).(VMap), c.ev(n.Args[1]))}
	case "str", "content":
		return VT{c.seq(arg(0), nil)}
	case "ref":
		return VT{c.term(arg(0))}
	case "bodyType": // the type an extension body reports
		return VT{bodyType(freeze(c.st, arg(0), nil))}
	case "bigval": // the integer a *big.Int holds
		return VT{T(c.st.load(arg(0).(VPtr)))}
	case "isnil":
		return VT{c.eqv(c.ev(n.Args[0]), VPtr{nilT: True})}
	case "same": // identity of slices/pointers
		a, b := arg(0), arg(1)
		if x, ok := a.(VSlice); ok {
			y := b.(VSlice)
			return VT{And(Bool(x.obj == y.obj && pathKey(x.path) == pathKey(y.path)), Eq(x.off, y.off), Eq(x.len, y.len))}
		}
		return VT{c.st.eq(a, b, nil)}
	case "samearr": // same backing array, same offset
		x, y := arg(0).(VSlice), arg(1).(VSlice)
		return VT{And(Bool(x.obj == y.obj && pathKey(x.path) == pathKey(y.path)), Eq(x.off, y.off))}
	case "fresharr": // backing array allocated during the call
		x := arg(0).(VSlice)
		return VT{Bool(x.obj == nil || x.obj.local || c.atCall)} // at a call site the result's array is one of its own by construction
	case "local":
		x := arg(0).(VPtr)
		return VT{Bool(x.obj != nil && x.obj.local)}
	case "events":
		nm, _ := strconv.Unquote(n.Args[0].(*ast.BasicLit).Value)
		k := int64(0)
		for _, e := range c.st.events {
			if e.name == nm {
				k++
			}
		}
		return VT{Int(k)}
	case "event":
		nm, _ := strconv.Unquote(n.Args[0].(*ast.BasicLit).Value)
		i, _ := c.intv(n.Args[1]).constInt()
		j, _ := c.intv(n.Args[2]).constInt()
		k := 0
		for _, e := range c.st.events {
			if e.name == nm {
				if k == i {
					return e.args[j]
				}
				k++
			}
		}
		panic(serr("no event %s %d", nm, i))
	case "lastEvent": // lastEvent("name", argument): of the last such event
		nm, _ := strconv.Unquote(n.Args[0].(*ast.BasicLit).Value)
		j, _ := c.intv(n.Args[1]).constInt()
		for i := len(c.st.events) - 1; i >= 0; i-- {
			if e := c.st.events[i]; e.name == nm {
				return e.args[j]
			}
		}
		panic(serr("no event %s", nm))
	case "dec", "decOk", "decLen": // the assumed codec: decoding of the bytes d as a T
		t := c.x.lookupType(typeArg(n.Args[0]))
		if t == nil {
			panic(serr("unknown type %s", typeArg(n.Args[0])))
		}
		d := c.seq(arg(1), SBytes)
		switch fn {
		case "decOk":
			return VT{App("decOk:"+typeName(t), SBool, d)}
		case "decLen":
			return VT{App("decLen:"+typeName(t), SInt, d)}
		}
		return symValue(t, decName(t), []*Term{d})
	case "encs": // the concatenated encodings of a list of T
		t := c.x.lookupType(typeArg(n.Args[0]))
		if t == nil {
			panic(serr("unknown type %s", typeArg(n.Args[0])))
		}
		return VT{encs(c.st, t, c.seq(arg(1), seqSortOf(t)))}
	case "anyof", "wireof", "wireok": // an arbitrary T; its encoding by the tags in the source; whether it has one
		t := c.x.lookupType(typeArg(n.Args[0]))
		if t == nil {
			panic(serr("unknown type %s", typeArg(n.Args[0])))
		}
		v := symValue(t, "any:"+typeName(t), nil)
		switch fn {
		case "wireof":
			w := wire(c.st, v, t, "")
			if w == nil {
				panic(serr("wire format of %s", typeName(t)))
			}
			return VT{w}
		case "wireok":
			return VT{wireOk(c.st, v, t, "")}
		}
		return v
	case "encsOk":
		t := c.x.lookupType(typeArg(n.Args[0]))
		if t == nil {
			panic(serr("unknown type %s", typeArg(n.Args[0])))
		}
		if encSize(t) > 0 {
			return VT{True}
		}
		return VT{App("encsOk:"+typeName(t), SBool, c.seq(arg(1), seqSortOf(t)))}
	case "ext", "extHas": // the extension of type T of a list
		lt := c.x.lookupType("ExtensionList")
		l := c.seq(arg(1), seqSortOf(lt.Underlying().(*types.Slice).Elem()))
		if fn == "extHas" {
			return VT{extHas(l, c.intv(n.Args[0]))}
		}
		t := c.x.lookupType(typeArg(n.Args[0]))
		return symValue(t, "ext:"+typeName(t), []*Term{l})
	case "x509cert":
		return symValue(x509CertT, "x509cert", []*Term{c.seq(arg(0), SBytes)})
	case "ghost":
		// ghost(iface): the ghost struct behind an interface
		return c.deref(c.ev(n.Args[0]))
	case "mk":
		t := c.x.lookupType(typeArg(n.Args[0]))
		s := sortOf(t)
		if len(s.fields) != len(n.Args)-1 {
			panic(serr("mk %s: %d fields", s.name, len(s.fields)))
		}
		var as []*Term
		for i, f := range s.fields {
			v := arg(i + 1)
			if f.sort.elem != nil {
				as = append(as, c.seq(v, f.sort))
			} else {
				as = append(as, c.dataTerm(v))
			}
		}
		return &frozenV{Mk(s, as...)}
	case "iface": // iface(T, v): interface holding v with dynamic type T (a pointer type allocates v)
		t := c.x.lookupType(typeArg(n.Args[0]))
		if t == nil {
			panic(serr("unknown type %s", typeArg(n.Args[0])))
		}
		v := plain(arg(1))
		et := t
		if p, ok := t.(*types.Pointer); ok {
			et = p.Elem()
		}
		if f, ok := v.(*frozenV); ok {
			v = thaw(f.t, et)
		}
		if _, ok := t.(*types.Pointer); ok {
			if _, isPtr := v.(VPtr); !isPtr {
				o := c.st.alloc("spec", et, v)
				o.local = false
				v = VPtr{False, o, nil}
			}
		}
		return &VIface{nilT: False, dyn: t, val: v}
	case "typeof":
		return VT{dynTag(arg(0).(*VIface))}
	}
	// Go conversions
	if t := c.x.lookupType(fn); t != nil && len(n.Args) == 1 {
		v := arg(0)
		if w, ok := v.(VT); ok && w.t.sort == SInt {
			if nb, signed, sized := intBits(t); sized && !signed {
				r := Mod(w.t, new(big.Int).Lsh(bigOne, nb))
				if _, basic := t.(*types.Basic); !basic {
					return typedConst{VT{r}, t}
				}
				return VT{r}
			}
			return v
		}
		return v
	}
	panic(serr("unknown function %s", fn))
}

func (x *Exec) evalCand(c *candInv, st *State, fr *Frame) (t *Term, ok bool) {
	if c.fn != nil {
		return c.fn(st)
	}
	ctx := &specCtx{x: x, st: st, old: x.entryOf(fr), env: map[string]Value{}, fr: fr}
	for _, l := range c.con.logical {
		ctx.env[l[0]] = VT{Sym("logical:"+l[0], x.con.sortByName(l[1], x), nil, nil)}
	}
	for _, l := range c.con.lets {
		pre := *ctx // as in postconditions: in the state at entry
		pre.st = x.entryOf(fr)
		v, err := pre.safeSx(l.expr)
		if err == nil {
			ctx.env[l.name] = v
		}
	}
	r, err := ctx.prop(c.expr)
	if err != nil {
		if debugInv {
			fmt.Printf("inv %s: %v in %s\n", c.src, err, fr.fn)
		}
		return nil, false
	}
	return r, true
}
func (c *specCtx) safeSx(e *sexpr) (v Value, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch s := r.(type) {
			case specErr:
				err = fmt.Errorf("%s", s.msg)
			case unsup:
				err = fmt.Errorf("%s", s.msg)
			case infeasible:
				err = fmt.Errorf("nil dereference")
			default:
				panic(r)
			}
		}
	}()
	return c.sx(e), nil
}

func (x *Exec) entryOf(fr *Frame) *State { return x.entry }

// loopCandidates: invariants declared for the function of the frame or any function it is inlined into
func (x *Exec) loopCandidates(fr *Frame) []*candInv {
	var out []*candInv
	seen := map[*Contract]bool{}
	for f := fr; f != nil; f = f.parent {
		g := f.fn
		for g.Parent() != nil {
			g = g.Parent()
		}
		if c := x.con.byName[x.shortName(g)]; c != nil && !seen[c] {
			seen[c] = true
			out = append(out, c.invs...)
		}
		if c := x.rootCon; c != nil && c.fn == g && !seen[c] { // a variant
			seen[c] = true
			out = append(out, c.invs...)
		}
	}
	return out
}

func (x *Exec) shortName(fn *ssa.Function) string {
	return strings.ReplaceAll(fn.RelString(x.mint.Pkg), mintPath+"/syntax.", "syntax.")
}

// concrete: the contract being verified is part of the implementation of its abstraction functions
func (x *Exec) concrete() bool { return x.rootCon != nil && x.rootCon.opts["concrete"] != "" }

// unfold: definitions of pure functions that the contract being verified looks into
func (x *Exec) unfold(fn string) bool {
	if x.rootCon == nil {
		return false
	}
	for _, n := range strings.Split(x.rootCon.opts["unfold"], ";") {
		if strings.TrimSpace(n) == fn {
			return true
		}
	}
	return false
}

func (c *specCtx) ghostLoc(fn string, n *ast.CallExpr) (VPtr, types.Type) {
	m := c.x.con.macros[fn]
	p, _ := c.asPtr(plain(c.ev(n.Args[0])))
	key := fmt.Sprintf("ghost:%s:%d%s", fn, p.obj.id, pathKey(p.path))
	o := symObj(key, nil, m.abstract, func() Value { return symValue(m.abstract, key, nil) })
	return VPtr{False, o, nil}, m.abstract
}
