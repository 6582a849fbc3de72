package main

import "sort"

// Quantifier instantiation by matching: a first, purely ground attempt at a goal.
// Dropping the quantified formulas after instantiating them weakens the assumptions, so "unsat" is sound.

func nnf(t *Term, pos bool, under bool) *Term {
	if !hasQuant(t) {
		if pos {
			return t
		}
		return Not(t)
	}
	switch t.Op {
	case "not":
		return nnf(t.Args[0], !pos, under)
	case "and", "or":
		var as []*Term
		for _, a := range t.Args {
			as = append(as, nnf(a, pos, under))
		}
		if (t.Op == "and") == pos {
			return And(as...)
		}
		return Or(as...)
	case "=":
		a, b := t.Args[0], t.Args[1]
		if a.Sort == SBool {
			if pos {
				return And(Or(nnf(a, false, under), nnf(b, true, under)), Or(nnf(a, true, under), nnf(b, false, under)))
			}
			return And(Or(nnf(a, false, under), nnf(b, false, under)), Or(nnf(a, true, under), nnf(b, true, under)))
		}
	case "ite":
		if t.Sort == SBool {
			c, a, b := t.Args[0], t.Args[1], t.Args[2]
			return And(Or(nnf(c, false, under), nnf(a, pos, under)), Or(nnf(c, true, under), nnf(b, pos, under)))
		}
	case "forall", "exists":
		if (t.Op == "forall") == pos {
			b := nnf(t.Args[0], pos, true)
			return onePoint(t.Vars, b)
		}
		if under {
			return Exists(t.Vars, nnf(t.Args[0], pos, true))
		}
		k := skolemKey{t, pos}
		m := skolems[k]
		if m == nil {
			m = map[*Term]*Term{}
			for _, v := range t.Vars {
				m[v] = Fresh("sk_"+v.S, v.Sort)
			}
			skolems[k] = m
		}
		return nnf(Subst(t.Args[0], m), pos, under)
	}
	if pos {
		return t
	}
	return Not(t)
}

// onePoint drops universally quantified variables the body fixes by an equation.
func onePoint(vars []*Term, b *Term) *Term {
	for i := 0; i < len(vars); i++ {
		v := vars[i]
		var e *Term
		var lits func(t *Term, pos bool)
		lits = func(t *Term, pos bool) {
			switch {
			case t.Op == "not":
				lits(t.Args[0], !pos)
			case t.Op == "or" && pos, t.Op == "and" && !pos:
				for _, a := range t.Args {
					lits(a, pos)
				}
			case t.Op == "=" && !pos && e == nil:
				for k := 0; k < 2; k++ {
					if x := t.Args[1-k]; t.Args[k] == v {
						in := map[*Term]bool{}
						boundVars(x, in)
						if !in[v] {
							e = x
						}
					}
				}
			}
		}
		lits(b, true)
		if e != nil {
			b = Subst(b, map[*Term]*Term{v: e})
			vars = append(append([]*Term{}, vars[:i]...), vars[i+1:]...)
			i = -1
		}
	}
	if len(vars) == 0 {
		return b
	}
	return Forall(vars, b)
}

type skolemKey struct {
	t   *Term
	pos bool
}

var skolems = map[skolemKey]map[*Term]*Term{}

// groundIndex collects ground applications by head symbol.
type groundIndex struct {
	seen map[*Term]bool
	by   map[string][]*Term
}

func headOf(t *Term) string {
	switch t.Op {
	case "app":
		return "f:" + t.S
	case "elem", "seq.nth", "charat", "str.at", "str.substr":
		return t.Op
	}
	return ""
}

func (g *groundIndex) add(t *Term) {
	if g.seen[t] {
		return
	}
	g.seen[t] = true
	if !t.bound {
		if h := headOf(t); h != "" {
			g.by[h] = append(g.by[h], t)
		}
	}
	for _, a := range t.Args {
		g.add(a)
	}
}

// matchTerm matches a pattern with one-level arithmetic against a ground term.
func matchTerm(p, t *Term, vars map[*Term]bool, sub map[*Term]*Term, depth int) bool {
	if vars[p] {
		if o, ok := sub[p]; ok {
			return o == t
		}
		if p.Sort != t.Sort {
			return false
		}
		sub[p] = t
		return true
	}
	if !p.bound {
		return true // equality is left to the solver
	}
	if p.Op == "+" {
		// off + i = t  =>  i = t - off
		var rest []*Term
		var v *Term
		neg := false
		for _, a := range p.Args {
			if vars[a] && v == nil {
				v = a
			} else if a.Op == "*" && len(a.Args) == 2 && vars[a.Args[1]] && a.Args[0].Op == "int" && a.Args[0].I.Int64() == -1 && v == nil {
				v, neg = a.Args[1], true
			} else if a.bound {
				return true
			} else {
				rest = append(rest, a)
			}
		}
		if v == nil {
			return true
		}
		x := offset(t, rest, neg)
		if o, ok := sub[v]; ok {
			return o == x
		}
		sub[v] = x
		return true
	}
	if p.Op == "ite" {
		return true
	}
	if p.Op != t.Op || p.S != t.S || len(p.Args) != len(t.Args) || (p.I != nil && t.I != nil && p.I.Cmp(t.I) != 0) {
		return false
	}
	for i := range p.Args {
		if !matchTerm(p.Args[i], t.Args[i], vars, sub, depth+1) {
			return false
		}
	}
	return true
}

type offsetKey struct {
	t, r *Term
	neg  bool
}

var offsets = map[offsetKey]*Term{}

func offset(t *Term, rest []*Term, neg bool) *Term {
	var r *Term
	switch len(rest) {
	case 0:
	case 1:
		r = rest[0]
	default:
		r = Add(rest...)
	}
	k := offsetKey{t, r, neg}
	x := offsets[k]
	if x == nil {
		x = t
		if r != nil {
			x = Minus(t, r)
		}
		if neg {
			x = Neg(x)
		}
		offsets[k] = x
	}
	return x
}

func patterns(body *Term, vars map[*Term]bool) []*Term {
	var out []*Term
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] || !x.bound {
			return
		}
		seen[x] = true
		if x.Op == "forall" || x.Op == "exists" {
			rec(x.Args[0])
			return
		}
		if headOf(x) != "" {
			out = append(out, x)
		}
		for _, a := range x.Args {
			rec(a)
		}
	}
	rec(body)
	// only patterns whose bound variables are all ours
	var fl []*Term
	for _, p := range out {
		bv := map[*Term]bool{}
		boundVars(p, bv)
		ok := true
		for v := range bv {
			ok = ok && vars[v]
		}
		if ok {
			fl = append(fl, p)
		}
	}
	return fl
}

func boundVars(t *Term, out map[*Term]bool) {
	if !t.bound {
		return
	}
	if t.Op == "bvar" {
		out[t] = true
	}
	for _, a := range t.Args {
		boundVars(a, out)
	}
}

func candidates(q *Term, g *groundIndex, extra map[string][]*Term) []map[*Term]*Term {
	vars := map[*Term]bool{}
	for _, v := range q.Vars {
		vars[v] = true
	}
	per := map[*Term]map[*Term]int{}
	for v := range vars {
		per[v] = map[*Term]int{}
	}
	var full []map[*Term]*Term
	for _, p := range patterns(q.Args[0], vars) {
		for _, t := range g.by[headOf(p)] {
			sub := map[*Term]*Term{}
			if !matchTerm(p, t, vars, sub, 0) {
				continue
			}
			if len(vars) > 1 && len(sub) == len(vars) {
				full = append(full, sub)
			}
			for v, x := range sub {
				per[v][x]++
			}
		}
	}
	for v := range vars {
		for _, x := range extra[v.Sort] {
			if per[v][x] == 0 {
				per[v][x] = 1
			}
		}
	}
	// range bounds of the body
	bnds := func(x *Term) {}
	seenB := map[*Term]bool{}
	bnds = func(x *Term) {
		if seenB[x] || !x.bound || len(seenB) > 60 {
			return
		}
		seenB[x] = true
		if x.Op == "<" {
			for k := 0; k < 2; k++ {
				if vars[x.Args[k]] && !x.Args[1-k].bound {
					b := x.Args[1-k]
					if k == 0 && b.Sort == SInt {
						b = Add(b, Int(-1))
					}
					per[x.Args[k]][b]++
				}
			}
			return
		}
		switch x.Op {
		case "and", "or", "not":
			for _, a := range x.Args {
				bnds(a)
			}
		}
	}
	bnds(q.Args[0])
	if len(vars) > 1 {
		if len(full) > 60 {
			full = full[:60]
		}
		return full
	}
	var out []map[*Term]*Term
	for v := range vars {
		var xs []*Term
		for x := range per[v] {
			xs = append(xs, x)
		}
		sort.Slice(xs, func(i, j int) bool {
			a, b := per[v][xs[i]], per[v][xs[j]]
			if a != b {
				return a > b
			}
			return xs[i].id < xs[j].id
		})
		if len(xs) > 48 {
			xs = xs[:48]
		}
		for _, x := range xs {
			out = append(out, map[*Term]*Term{v: x})
		}
	}
	return out
}

// ground replaces the universal quantifiers of an NNF formula by instances; what stays quantified is dropped.
func ground(t *Term, f func(q *Term) []*Term) *Term {
	if !hasQuant(t) {
		return t
	}
	switch t.Op {
	case "and", "or":
		var as []*Term
		for _, a := range t.Args {
			as = append(as, ground(a, f))
		}
		if t.Op == "and" {
			return And(as...)
		}
		return Or(as...)
	case "forall":
		return And(f(t)...)
	}
	return True
}

// instantiated gives ground consequences of the assertions.
func instantiated(as []*Term, rounds int) []*Term {
	var base []*Term
	for _, a := range as {
		base = append(base, nnf(a, true, false))
	}
	type key struct {
		q *Term
		s string
	}
	insts := map[*Term][]*Term{}
	have := map[*Term]map[*Term]bool{}
	var last []*Term
	for r := 0; r < rounds; r++ {
		g := &groundIndex{seen: map[*Term]bool{}, by: map[string][]*Term{}}
		extra := map[string][]*Term{}
		var src []*Term
		if r == 0 {
			src = base
		} else {
			src = last
		}
		for _, a := range src {
			g.add(a)
		}
		for t := range g.seen {
			if t.Op == "var" && len(t.S) > 3 && t.S[:3] == "sk_" && t.Sort != SBool {
				extra[t.Sort] = append(extra[t.Sort], t)
			}
		}
		for s := range extra {
			l := extra[s]
			sort.Slice(l, func(i, j int) bool { return l[i].id < l[j].id })
		}
		changed := false
		done := map[*Term][]*Term{} // of this round
		var f func(q *Term) []*Term
		f = func(q *Term) []*Term {
			if out, ok := done[q]; ok {
				return out
			}
			if have[q] == nil {
				have[q] = map[*Term]bool{}
			}
			for _, m := range candidates(q, g, extra) {
				x := Subst(q.Args[0], m)
				if !have[q][x] {
					have[q][x] = true
					insts[q] = append(insts[q], x)
					changed = true
				}
			}
			var out []*Term
			for _, x := range insts[q] {
				out = append(out, ground(nnf(x, true, false), f))
			}
			done[q] = out
			return out
		}
		last = nil
		for _, a := range base {
			x := ground(a, f)
			if x != True {
				last = append(last, x)
			}
		}
		last = withAxioms(last)
		if !changed {
			break
		}
	}
	return last
}
