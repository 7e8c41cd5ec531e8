package main

// SMT-LIB printing and the solver portfolio.

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/big"
	"os"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

type printer struct {
	decl   bytes.Buffer
	body   bytes.Buffer
	funs   map[string]string // name/arity -> smt name
	sorts  map[string]bool
	seqOps map[string]bool // "cat SeqByte"
	lits   map[*Term]bool
	ground bool
	okD    map[string]bool
	let    map[*Term]string
	nlet   int
}

func mangle(s string) string {
	r := strings.NewReplacer("|", "!", "\\", "!", "\n", " ")
	return "|" + r.Replace(s) + "|"
}

func (p *printer) sortName(s *Sort) string {
	if s == SInt || s == SBool {
		return s.name
	}
	if !p.sorts[s.name] {
		p.sorts[s.name] = true
		if s.fields != nil {
			var fs []string
			for _, f := range s.fields {
				fs = append(fs, fmt.Sprintf("(%s %s)", mangle("sel "+s.name+"."+f.name), p.sortName(f.sort)))
			}
			fmt.Fprintf(&p.decl, "(declare-datatypes ((%s 0)) (((%s %s))))\n", mangle(s.name), mangle("mk "+s.name), strings.Join(fs, " "))
			// |ok D| x: the integer fields of x are within the range of their Go types
			var conj []string
			for _, f := range s.fields {
				n := "sel " + s.name + "." + f.name
				if c := p.okOf("("+mangle(n)+" x)", f.sort, appBounds[n]); c != "" {
					conj = append(conj, c)
				}
			}
			if len(conj) > 0 {
				p.okD[s.name] = true
				fmt.Fprintf(&p.decl, "(define-fun %s ((x %s)) Bool (and %s))\n", mangle("ok "+s.name), mangle(s.name), strings.Join(conj, " "))
			}
		} else {
			fmt.Fprintf(&p.decl, "(declare-sort %s 0)\n", mangle(s.name))
			if s.elem != nil {
				n := mangle(s.name)
				e := p.sortName(s.elem)
				fmt.Fprintf(&p.decl, "(declare-fun %s (%s) Int)\n", seqFn("len", s), n)
				fmt.Fprintf(&p.decl, "(declare-fun %s (%s Int) %s)\n", seqFn("nth", s), n, e)
				if !p.ground {
					fmt.Fprintf(&p.decl, "(assert (forall ((s %s)) (! (>= (%s s) 0) :pattern ((%s s)))))\n", n, seqFn("len", s), seqFn("len", s))
					b := elemBnd(s)
					x := "(" + seqFn("nth", s) + " s i)"
					if c := p.okOf(x, s.elem, b); c != "" {
						fmt.Fprintf(&p.decl, "(assert (forall ((s %s) (i Int)) (! %s :pattern (%s))))\n", n, c, x)
					}
					fmt.Fprintf(&p.decl, "(declare-fun %s (%s %s) Bool)\n", seqFn("eq", s), n, n)
					fmt.Fprintf(&p.decl, "(declare-fun %s (%s %s) Int)\n", seqFn("diff", s), n, n)
					fmt.Fprintf(&p.decl, `(assert (forall ((a %[1]s) (b %[1]s)) (! (and (= (%[2]s a b) (= a b)) (or (= a b) (not (= (%[3]s a) (%[3]s b))) (and (<= 0 (%[4]s a b)) (< (%[4]s a b) (%[3]s a)) (not (= (%[5]s a (%[4]s a b)) (%[5]s b (%[4]s a b))))))) :pattern ((%[2]s a b)))))
`, n, seqFn("eq", s), seqFn("len", s), seqFn("diff", s), seqFn("nth", s))
					// the empty sequence is unique
				}
			}
		}
	}
	return mangle(s.name)
}
func elemBnd(s *Sort) bnd {
	if s == SBytes {
		return bnd{bigZero, bi(255)}
	}
	return seqElemBounds[s.name]
}

// okOf: the term x of the sort is a value of its Go type ("" if every value of the sort is)
func (p *printer) okOf(x string, s *Sort, b bnd) string {
	if s == SInt && (b.lo != nil || b.hi != nil) {
		return boundStr(x, b.lo, b.hi)
	}
	if s.fields != nil {
		p.sortName(s)
		if p.okD[s.name] {
			return "(" + mangle("ok "+s.name) + " " + x + ")"
		}
	}
	return ""
}
func boundStr(x string, lo, hi *big.Int) string {
	var c []string
	if lo != nil {
		c = append(c, "(<= "+numStr(lo)+" "+x+")")
	}
	if hi != nil {
		c = append(c, "(<= "+x+" "+numStr(hi)+")")
	}
	if len(c) == 1 {
		return c[0]
	}
	return "(and " + strings.Join(c, " ") + ")"
}
func numStr(k *big.Int) string {
	if k.Sign() < 0 {
		return "(- " + new(big.Int).Neg(k).String() + ")"
	}
	return k.String()
}
func seqFn(op string, s *Sort) string { return "|" + op + " " + s.name + "|" }

func (p *printer) useSeq(op string, s *Sort) string {
	p.sortName(s)
	key := op + " " + s.name
	fn := seqFn(op, s)
	if p.seqOps[key] {
		return fn
	}
	p.seqOps[key] = true
	n, e := mangle(s.name), p.sortName(s.elem)
	// the axioms hold for elements that are values of the element type
	ok := p.okOf("x", s.elem, elemBnd(s))
	if ok == "" {
		ok = "true"
	}
	ln, nth := seqFn("len", s), seqFn("nth", s)
	w := func(f string, a ...any) { fmt.Fprintf(&p.decl, f+"\n", a...) }
	switch op {
	case "cat":
		w("(declare-fun %s (%s %s) %s)", fn, n, n, n)
		if p.ground {
			return fn
		}
		w("(assert (forall ((a %s) (b %s)) (! (= (%s (%s a b)) (+ (%s a) (%s b))) :pattern ((%s a b)))))", n, n, ln, fn, ln, ln, fn)
		w("(assert (forall ((a %s) (b %s) (i Int)) (! (=> (and (<= 0 i) (< i (+ (%s a) (%s b)))) (= (%s (%s a b) i) (ite (< i (%s a)) (%s a i) (%s b (- i (%s a)))))) :pattern ((%s (%s a b) i)))))", n, n, ln, ln, nth, fn, ln, nth, nth, ln, nth, fn)
		w("(assert (forall ((a %s) (b %s) (i Int)) (! (=> (and (<= 0 i) (< i (%s a))) (= (%s (%s a b) i) (%s a i))) :pattern ((%s a b) (%s a i)))))", n, n, ln, nth, fn, nth, fn, nth)
		w("(assert (forall ((a %s) (b %s) (i Int)) (! (=> (and (<= 0 i) (< i (%s b))) (= (%s (%s a b) (+ i (%s a))) (%s b i))) :pattern ((%s a b) (%s b i)))))", n, n, ln, nth, fn, ln, nth, fn, nth)
	case "unit":
		w("(declare-fun %s (%s) %s)", fn, e, n)
		if p.ground {
			return fn
		}
		w("(assert (forall ((x %s)) (! (and (= (%s (%s x)) 1) (=> %s (= (%s (%s x) 0) x))) :pattern ((%s x)))))", e, ln, fn, ok, nth, fn, fn)
	case "ext":
		w("(declare-fun %s (%s Int Int) %s)", fn, n, n)
		if p.ground {
			return fn
		}
		w("(assert (forall ((s %s) (o Int) (l Int)) (! (=> (<= 0 l) (= (%s (%s s o l)) l)) :pattern ((%s s o l)))))", n, ln, fn, fn)
		w("(assert (forall ((s %s) (o Int) (l Int) (i Int)) (! (=> (and (<= 0 i) (< i l)) (= (%s (%s s o l) i) (%s s (+ o i)))) :pattern ((%s (%s s o l) i)))))", n, nth, fn, nth, nth, fn)
		w("(assert (forall ((s %s) (o Int) (l Int) (i Int)) (! (=> (and (<= o i) (< i (+ o l))) (= (%s (%s s o l) (- i o)) (%s s i))) :pattern ((%s s o l) (%s s i)))))", n, nth, fn, nth, fn, nth)
	case "rep":
		w("(declare-fun %s (%s Int) %s)", fn, e, n)
		if p.ground {
			return fn
		}
		w("(assert (forall ((x %s) (l Int)) (! (=> (<= 0 l) (= (%s (%s x l)) l)) :pattern ((%s x l)))))", e, ln, fn, fn)
		w("(assert (forall ((x %s) (l Int) (i Int)) (! (=> (and %s (<= 0 i) (< i l)) (= (%s (%s x l) i) x)) :pattern ((%s (%s x l) i)))))", e, ok, nth, fn, nth, fn)
	case "upd":
		w("(declare-fun %s (%s Int %s) %s)", fn, n, e, n)
		if p.ground {
			return fn
		}
		w("(assert (forall ((s %s) (j Int) (x %s)) (! (and (= (%s (%s s j x)) (%s s)) (=> (and %s (<= 0 j) (< j (%s s))) (= (%s (%s s j x) j) x))) :pattern ((%s s j x)))))", n, e, ln, fn, ln, ok, ln, nth, fn, fn)
		w("(assert (forall ((s %s) (j Int) (x %s) (i Int)) (! (=> (and (<= 0 i) (< i (%s s)) (not (= i j))) (= (%s (%s s j x) i) (%s s i))) :pattern ((%s (%s s j x) i)))))", n, e, ln, nth, fn, nth, nth, fn)
		w("(assert (forall ((s %s) (j Int) (x %s) (i Int)) (! (=> (and (<= 0 i) (< i (%s s)) (not (= i j))) (= (%s (%s s j x) i) (%s s i))) :pattern ((%s s j x) (%s s i)))))", n, e, ln, nth, fn, nth, fn, nth)
	}
	return fn
}

func (p *printer) fun(t *Term) string {
	key := fmt.Sprintf("%s/%d/%s", t.name, len(t.args), t.sort.name)
	for _, a := range t.args {
		key += "," + a.sort.name
	}
	if n, ok := p.funs[key]; ok {
		return n
	}
	n := mangle(t.name)
	for _, v := range p.funs {
		if v == n {
			n = mangle(fmt.Sprintf("%s~%d", t.name, len(p.funs)))
			break
		}
	}
	p.funs[key] = n
	var as []string
	for _, a := range t.args {
		as = append(as, p.sortName(a.sort))
	}
	rs := p.sortName(t.sort)
	fmt.Fprintf(&p.decl, "(declare-fun %s (%s) %s)\n", n, strings.Join(as, " "), rs)
	b := appBounds[t.name]
	if p.okOf("x", t.sort, b) != "" {
		if len(t.args) == 0 {
			fmt.Fprintf(&p.decl, "(assert %s)\n", p.okOf(n, t.sort, b))
		} else {
			var vs, xs []string
			for i, a := range as {
				vs = append(vs, fmt.Sprintf("(x%d %s)", i, a))
				xs = append(xs, fmt.Sprintf("x%d", i))
			}
			app := "(" + n + " " + strings.Join(xs, " ") + ")"
			if !p.ground {
				fmt.Fprintf(&p.decl, "(assert (forall (%s) (! %s :pattern (%s))))\n", strings.Join(vs, " "), p.okOf(app, t.sort, b), app)
			}
		}
	}
	return n
}

func (p *printer) str(t *Term) string {
	if n, ok := p.let[t]; ok {
		return n
	}
	s := p.str1(t)
	if len(t.free) == 0 && len(t.args) > 0 && len(s) > 40 && t.op != OForall {
		p.nlet++
		n := fmt.Sprintf("d!%d", p.nlet)
		fmt.Fprintf(&p.body, "(define-fun %s () %s %s)\n", n, p.sortName(t.sort), s)
		p.let[t] = n
		if p.ground {
			p.groundFacts(t, n)
		}
		return n
	}
	if p.ground && len(t.free) == 0 {
		p.groundFacts(t, s)
		p.let[t] = s
	}
	return s
}

// groundFacts emits range facts for ground terms in quantifier-free mode.
func (p *printer) groundFacts(t *Term, s string) {
	if t.sort != SInt {
		return
	}
	switch t.op {
	case OLen, ONth, OSel, OApp:
		if t.op == OApp && len(t.args) == 0 {
			return
		}
		lo, hi := t.bounds()
		if t.op == OLen {
			hi = nil
		}
		if lo != nil || hi != nil {
			fmt.Fprintf(&p.body, "(assert %s)\n", boundStr(s, lo, hi))
		}
	}
}

func (p *printer) list(op string, as []*Term) string {
	var sb strings.Builder
	sb.WriteString("(" + op)
	for _, a := range as {
		sb.WriteByte(' ')
		sb.WriteString(p.str(a))
	}
	sb.WriteString(")")
	return sb.String()
}

func (p *printer) str1(t *Term) string {
	switch t.op {
	case OConst:
		return numStr(t.k)
	case OTrue:
		return "true"
	case OFalse:
		return "false"
	case OBVar:
		return t.name
	case OApp:
		n := p.fun(t)
		if len(t.args) == 0 {
			return n
		}
		return p.list(n, t.args)
	case OLin:
		var sb strings.Builder
		sb.WriteString("(+")
		for i, a := range t.args {
			if t.coef[i].Cmp(bigOne) == 0 {
				sb.WriteString(" " + p.str(a))
			} else {
				sb.WriteString(" (* " + numStr(t.coef[i]) + " " + p.str(a) + ")")
			}
		}
		sb.WriteString(" " + numStr(t.k) + ")")
		return sb.String()
	case OMul:
		return p.list("*", t.args)
	case ODiv:
		return p.list("div", t.args)
	case OMod:
		return p.list("mod", t.args)
	case OIte:
		return p.list("ite", t.args)
	case ONot:
		return p.list("not", t.args)
	case OAnd:
		return p.list("and", t.args)
	case OOr:
		return p.list("or", t.args)
	case OEq:
		if t.args[0].sort.elem != nil && !p.ground {
			p.sortName(t.args[0].sort)
			return p.list(seqFn("eq", t.args[0].sort), t.args)
		}
		return p.list("=", t.args)
	case OEq0, OLe0:
		op := "="
		if t.op == OLe0 {
			op = "<="
		}
		return "(" + op + " " + p.str(t.args[0]) + " 0)"
	case OForall:
		if p.ground {
			// an arbitrary truth value: sound under either polarity
			n := fmt.Sprintf("q!%d", t.id)
			if !p.okD[n] {
				p.okD[n] = true
				fmt.Fprintf(&p.decl, "(declare-const %s Bool)\n", n)
			}
			return n
		}
		v := t.args[0]
		body := p.str(t.args[1])
		pats := p.patterns(v, t.args[1])
		if len(pats) > 0 {
			body = "(! " + body + " " + strings.Join(pats, " ") + ")"
		}
		return fmt.Sprintf("(forall ((%s %s)) %s)", v.name, p.sortName(v.sort), body)
	case OCat:
		f := p.useSeq("cat", t.sort)
		r := p.str(t.args[len(t.args)-1])
		for i := len(t.args) - 2; i >= 0; i-- {
			r = "(" + f + " " + p.str(t.args[i]) + " " + r + ")"
		}
		return r
	case OUnit:
		return p.list(p.useSeq("unit", t.sort), t.args)
	case OExt:
		return p.list(p.useSeq("ext", t.sort), t.args)
	case ORep:
		return p.list(p.useSeq("rep", t.sort), t.args)
	case OUpd:
		return p.list(p.useSeq("upd", t.sort), t.args)
	case OLit:
		p.sortName(t.sort)
		n := mangle(fmt.Sprintf("lit %s %x", t.sort.name, t.name))
		if !p.lits[t] {
			p.lits[t] = true
			fmt.Fprintf(&p.decl, "(declare-fun %s () %s)\n", n, p.sortName(t.sort))
			fmt.Fprintf(&p.decl, "(assert (= (%s %s) %d))\n", seqFn("len", t.sort), n, len(t.name))
			if len(t.name) <= 80 {
				for i := 0; i < len(t.name); i++ {
					fmt.Fprintf(&p.decl, "(assert (= (%s %s %d) %d))\n", seqFn("nth", t.sort), n, i, t.name[i])
				}
			}
			if t.name != "" && strings.Count(t.name, t.name[:1]) == len(t.name) && !p.ground {
				fmt.Fprintf(&p.decl, "(assert (forall ((i Int)) (! (=> (and (<= 0 i) (< i %d)) (= (%s %s i) %d)) :pattern ((%s %s i)))))\n", len(t.name), seqFn("nth", t.sort), n, t.name[0], seqFn("nth", t.sort), n)
			}
		}
		return n
	case OLen:
		p.sortName(t.args[0].sort)
		return p.list(seqFn("len", t.args[0].sort), t.args)
	case ONth:
		p.sortName(t.args[0].sort)
		return p.list(seqFn("nth", t.args[0].sort), t.args)
	case OMk:
		p.sortName(t.sort)
		return p.list(mangle("mk "+t.sort.name), t.args)
	case OSel:
		s := t.args[0].sort
		p.sortName(s)
		return p.list(mangle("sel "+s.name+"."+s.fields[t.idx].name), t.args)
	}
	panic("smt op")
}

func hasFree(t, v *Term) bool {
	for _, f := range t.free {
		if f == v {
			return true
		}
	}
	return false
}

func (p *printer) patterns(v, body *Term) []string {
	var cands []*Term
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] || !hasFree(t, v) {
			return
		}
		seen[t] = true
		if t.op == ONth && t.args[1] == v && len(t.free) == 1 {
			cands = append(cands, t)
		} else if t.op == OApp && len(t.free) == 1 {
			for _, a := range t.args {
				if a == v {
					cands = append(cands, t)
					break
				}
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	walk(body)
	var out []string
	for _, c := range cands {
		out = append(out, ":pattern ("+p.str(c)+")")
		if len(out) == 4 {
			break
		}
	}
	return out
}

func smtScript(asserts []*Term, ground bool) string {
	p := &printer{funs: map[string]string{}, sorts: map[string]bool{}, seqOps: map[string]bool{}, lits: map[*Term]bool{}, okD: map[string]bool{}, ground: ground, let: map[*Term]string{}}
	var tail bytes.Buffer
	for _, a := range asserts {
		s := p.str(a)
		p.body.WriteString("(assert " + s + ")\n")
	}
	if !ground {
		p.argExt(asserts)
	}
	for _, ax := range activeAxioms(asserts) {
		if ground && ax.op == OForall {
			continue
		}
		s := p.str(ax)
		p.body.WriteString("(assert " + s + ")\n")
	}
	return p.decl.String() + p.body.String() + tail.String()
}

// argExt: mention seqeq for argument pairs of applications of the same function, so extensionality applies.
func (p *printer) argExt(asserts []*Term) {
	apps := map[string][]*Term{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp && len(t.args) > 0 && len(t.free) == 0 {
			has := false
			for _, a := range t.args {
				if a.sort.elem != nil {
					has = true
				}
			}
			if has {
				apps[t.name] = append(apps[t.name], t)
			}
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, a := range asserts {
		walk(a)
	}
	done := map[string]bool{}
	n := 0
	for _, k := range sortedKeys(apps) {
		l := apps[k]
		for i := range l {
			for j := i + 1; j < len(l) && n < 150; j++ {
				for q, a := range l[i].args {
					if q >= len(l[j].args) {
						break
					}
					b := l[j].args[q]
					if a == b || a.sort != b.sort || a.sort.elem == nil || Eq(a, b) == False {
						continue
					}
					x, y := a, b
					if x.id > y.id {
						x, y = y, x
					}
					key := fmt.Sprint(x.id, ",", y.id)
					if done[key] {
						continue
					}
					done[key] = true
					n++
					e := "(" + seqFn("eq", a.sort) + " " + p.str(x) + " " + p.str(y) + ")"
					fmt.Fprintf(&p.body, "(assert (or %s (not %s)))\n", e, e)
				}
			}
		}
	}
}

// axioms declared in contracts: active when all the functions they mention occur
type Axiom struct {
	name string
	syms []string
	term *Term
}

var axioms []*Axiom

func activeAxioms(asserts []*Term) []*Term {
	if len(axioms) == 0 {
		return nil
	}
	names := map[string]bool{}
	seen := map[*Term]bool{}
	var walk func(t *Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.op == OApp {
			names[t.name] = true
		}
		for _, a := range t.args {
			walk(a)
		}
	}
	for _, a := range asserts {
		walk(a)
	}
	var out []*Term
	used := map[*Axiom]bool{}
	for ch := true; ch; {
		ch = false
		for _, ax := range axioms {
			if used[ax] {
				continue
			}
			ok := true
			for _, s := range ax.syms {
				if !names[s] {
					ok = false
				}
			}
			if ok {
				used[ax] = true
				out = append(out, ax.term)
				walk(ax.term)
				ch = true
			}
		}
	}
	return out
}

// ---- persistent z3 for quick, quantifier-free feasibility ----
type session struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

var feasSession *session
var feasCount int
var feasTime time.Duration
var solverTimes = map[string]time.Duration{}
var solverMu sync.Mutex

func newSession() *session {
	c := exec.Command("z3-new", "-in", "-smt2")
	in, _ := c.StdinPipe()
	out, _ := c.StdoutPipe()
	if err := c.Start(); err != nil {
		fmt.Fprintln(os.Stderr, "z3:", err)
		os.Exit(3)
	}
	s := &session{c, in, bufio.NewReader(out)}
	io.WriteString(in, "(set-option :print-success false)\n(set-option :rlimit 400000)\n(set-option :timeout 3000)\n")
	return s
}

// quickUnsat: the ground abstraction of the assertions is unsatisfiable
func quickUnsat(asserts []*Term) bool {
	if feasSession == nil || feasCount%2000 == 1999 {
		if feasSession != nil {
			feasSession.in.Close()
			feasSession.cmd.Wait()
		}
		feasSession = newSession()
	}
	feasCount++
	t0 := time.Now()
	s := smtScript(asserts, true)
	io.WriteString(feasSession.in, "(push 1)\n"+s+"(check-sat)\n(pop 1)\n")
	res := ""
	for {
		l, err := feasSession.out.ReadString('\n')
		l = strings.TrimSpace(l)
		if err != nil {
			feasSession = nil
			return false
		}
		if l == "sat" || l == "unsat" || l == "unknown" {
			res = l
			break
		}
		if strings.HasPrefix(l, "(error") {
			fmt.Fprintln(os.Stderr, "feas:", l)
			os.WriteFile("/tmp/feas-error.smt2", []byte(s), 0644)
			if strings.Contains(l, "canceled") || strings.Contains(l, "resource") {
				res = "unknown"
			}
		}
	}
	feasTime += time.Since(t0)
	return res == "unsat"
}

type solveResult struct {
	res    string
	solver string
	dur    time.Duration
}

func runSolver(ctx context.Context, name string, script string, ms int) solveResult {
	t0 := time.Now()
	var cmd *exec.Cmd
	switch name {
	case "z3-5.3":
		cmd = exec.CommandContext(ctx, "z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms))
	case "z3-5.3-mbqi0":
		cmd = exec.CommandContext(ctx, "z3-new", "-in", "-smt2", fmt.Sprintf("-t:%d", ms), "smt.mbqi=false", "smt.auto_config=false", "smt.arith.solver=2")
	case "z3-4.8":
		cmd = exec.CommandContext(ctx, "z3", "-in", "-smt2", fmt.Sprintf("-t:%d", ms), "smt.mbqi=false", "smt.auto_config=false")
	case "cvc5":
		cmd = exec.CommandContext(ctx, "cvc5", "--lang=smt2", fmt.Sprintf("--tlimit=%d", ms), "--enum-inst", "-")
		script = "(set-logic ALL)\n" + script
	}
	cmd.Stdin = strings.NewReader(script + "(check-sat)\n")
	out, _ := cmd.CombinedOutput()
	r := "unknown"
	for _, l := range strings.Split(string(out), "\n") {
		l = strings.TrimSpace(l)
		if l == "sat" || l == "unsat" {
			r = l
		}
		if strings.Contains(l, "error") && !strings.Contains(l, "interrupted") && os.Getenv("GOVC_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, name, l)
		}
	}
	return solveResult{r, name, time.Since(t0)}
}

var solverSem = make(chan bool, 8)
var finalMs = 20000

// prove runs the portfolio; true when the assertions are unsatisfiable
func prove(script string, ms int) solveResult {
	stage := func(names []string, ms int) solveResult {
		ctx, cancel := context.WithCancel(context.Background())
		defer cancel()
		ch := make(chan solveResult, len(names))
		for _, n := range names {
			go func(n string) {
				solverSem <- true
				defer func() { <-solverSem }()
				if ctx.Err() != nil {
					ch <- solveResult{"unknown", n, 0}
					return
				}
				ch <- runSolver(ctx, n, script, ms)
			}(n)
		}
		last := solveResult{"unknown", "portfolio", 0}
		for range names {
			r := <-ch
			solverMu.Lock()
			solverTimes[r.solver] += r.dur
			solverMu.Unlock()
			if r.res == "unsat" {
				return r
			}
			if r.res == "sat" {
				last = r
			}
		}
		return last
	}
	q := ms / 8
	if q > 1500 {
		q = 1500
	}
	r := stage([]string{"z3-5.3-mbqi0"}, q)
	if r.res == "unsat" {
		return r
	}
	return stage([]string{"z3-5.3", "cvc5", "z3-4.8", "z3-5.3-mbqi0"}, ms)
}

func sortTerms(ts []*Term) { sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id }) }
