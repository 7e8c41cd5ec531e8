package main

// Context rewriting of goals: equivalences under the path condition, plus sufficient subgoals by congruence.

func (st *State) norm(t *Term) *Term { return st.normM(t, nil) }
func (st *State) normM(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	light := st.lightM(m)
	var f func(t *Term) *Term
	f = func(t *Term) *Term {
		if len(t.args) == 0 {
			return t
		}
		if r, ok := memo[t]; ok {
			return r
		}
		if t.op == OForall {
			memo[t] = t
			return t
		}
		if t.op == OIte {
			c := f(t.args[0])
			switch light(c) {
			case 1:
				r := f(t.args[1])
				memo[t] = r
				return r
			case -1:
				r := f(t.args[2])
				memo[t] = r
				return r
			}
		}
		na := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			na[i] = f(a)
			if na[i] != a {
				ch = true
			}
		}
		r := t
		if ch {
			r = rebuild(t, na)
		}
		switch r.op {
		case OExt:
			r = extCtx(r.args[0], r.args[1], r.args[2], light)
		case ONth:
			r = nthCtx(r.args[0], r.args[1], light)
		case OUpd:
			r = updCtx(r.args[0], r.args[1], r.args[2], light)
		}
		memo[t] = r
		return r
	}
	return f(t)
}

// lightM: light, also of the condition rewritten by the equations m
func (st *State) lightM(m map[*Term]*Term) func(*Term) int {
	if len(m) == 0 {
		return st.light
	}
	return func(c *Term) int {
		if r := st.light(c); r != 0 {
			return r
		}
		d := substFix(c, m)
		if d == c {
			return 0
		}
		return st.light(d)
	}
}

// splitEq: an equivalent conjunction of simpler equalities (given equal lengths under the path condition)
func (st *State) splitEq(a, b *Term, depth int, light func(*Term) int) *Term {
	e := Eq(a, b)
	if e.op != OEq || depth > 6 || a.sort.elem == nil {
		return e
	}
	if a.op != OCat && a.op != OUnit {
		a, b = b, a
	}
	if b.op == OCat && a.op == OCat && len(b.args) > len(a.args) {
		a, b = b, a
	}
	if a.op == OUnit && light(Eq(Len(b), Int(1))) == 1 {
		return Eq(nthCtx(b, Int(0), light), a.args[0])
	}
	if a.op != OCat {
		return e
	}
	if light(Eq(Len(a), Len(b))) != 1 {
		return e
	}
	pos := Int(0)
	var cs []*Term
	for _, p := range a.args {
		l := Len(p)
		x := extCtx(b, pos, l, light)
		if x.op == OExt && x.args[0] == b && b.op != OApp {
			return e // no progress
		}
		cs = append(cs, st.splitEq(p, x, depth+1, light))
		pos = Add(pos, l)
	}
	return And(cs...)
}

// goal returns an equivalent goal in normal form
func (st *State) goal(g *Term) *Term {
	m := st.eqMap()
	return st.goal1(substFix(g, m), m)
}

func substFix(g *Term, m map[*Term]*Term) *Term {
	if len(m) == 0 {
		return g
	}
	for i := 0; i < 5; i++ {
		n := Subst(g, m)
		if n == g {
			break
		}
		g = n
	}
	return g
}

// enrich adds the path facts rewritten by the path equations
func (st *State) enrich() {
	m := st.eqMap()
	n := len(st.pc)
	for i := 0; i < n && !st.bad; i++ {
		p := st.pc[i]
		q := substFix(p, m)
		if q.op != OForall {
			q = st.normM(q, m)
		}
		if q != p && q != True {
			st.assume(q)
		}
	}
}

// eqMap: symbols and lengths that path equations define
func (st *State) eqMap() map[*Term]*Term {
	m := map[*Term]*Term{}
	add := func(a, b *Term) bool {
		if m[a] != nil || occurs(a, b) {
			return false
		}
		for k, v := range m {
			if occurs(k, b) && occurs(a, v) {
				return false
			}
		}
		m[a] = b
		return true
	}
	for _, p := range st.pc {
		switch {
		case p.op == OEq && p.args[0].sort.elem != nil:
			a, b := p.args[0], p.args[1]
			if !(a.op == OApp && len(a.args) == 0) {
				a, b = b, a
			}
			if a.op == OApp && len(a.args) == 0 {
				if !add(a, b) && b.op == OApp && len(b.args) == 0 {
					add(b, a)
				}
			}
		case p.op == OEq0:
			l := toLin(p.args[0])
			for i, at := range l.at {
				if at.op != OLen || l.co[i].CmpAbs(bigOne) != 0 {
					continue
				}
				rest := lin{k: l.k}
				for j := range l.at {
					if j != i {
						rest = rest.add(toLin(l.at[j]), l.co[j])
					}
				}
				// c*len + rest = 0
				r := rest.term()
				if l.co[i].Sign() > 0 {
					r = MulK(r, bi(-1))
				}
				if add(at, r) {
					break
				}
			}
		}
	}
	return m
}
func occurs(v, t *Term) bool {
	seen := map[*Term]bool{}
	var f func(t *Term) bool
	f = func(t *Term) bool {
		if t == v {
			return true
		}
		if seen[t] {
			return false
		}
		seen[t] = true
		for _, a := range t.args {
			if f(a) {
				return true
			}
		}
		return false
	}
	return f(t)
}

func (st *State) goal1(g *Term, m map[*Term]*Term) *Term {
	switch g.op {
	case OAnd:
		var cs []*Term
		for _, a := range g.args {
			cs = append(cs, st.goal1(a, m))
		}
		return And(cs...)
	case OForall:
		return g
	}
	n := st.normM(g, m)
	switch n.op {
	case OAnd, OOr:
		var cs []*Term
		for _, a := range n.args {
			cs = append(cs, st.goal1(a, m))
		}
		if n.op == OAnd {
			return And(cs...)
		}
		return Or(cs...)
	case OEq:
		n = st.splitEq(n.args[0], n.args[1], 0, st.lightM(m))
	}
	switch st.lightM(m)(n) {
	case 1:
		return True
	case -1:
		return False
	}
	return n
}

// congr: sufficient subgoals of an equality of two applications of one function
func congr(g *Term) (subs []*Term) {
	if g.op != OEq {
		return nil
	}
	a, b := g.args[0], g.args[1]
	if a.op != b.op || len(a.args) != len(b.args) {
		return nil
	}
	switch a.op {
	case OApp:
		if a.name != b.name {
			return nil
		}
	case OExt, OUpd:
	default:
		return nil
	}
	for i := range a.args {
		if a.args[i].sort != b.args[i].sort {
			return nil
		}
		subs = append(subs, Eq(a.args[i], b.args[i]))
	}
	return subs
}
