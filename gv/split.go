package main

import "sort"

// split proves a goal about an arbitrary index by comparing the index with one the assumptions talk about:
// below it, equal to it, above it.
func (s *Solver) split(as []*Term) bool {
	var base []*Term
	for _, a := range as {
		base = append(base, nnf(a, true, false))
	}
	base = flatAnd(base)
	unit := map[*Term]bool{}
	for _, a := range base {
		if a.Op == "not" {
			a = a.Args[0]
		}
		if a.Op == "<" {
			for _, x := range a.Args {
				if x.Op == "var" && len(x.S) > 3 && x.S[:3] == "sk_" && x.Sort == SInt {
					unit[x] = true
				}
			}
		}
	}
	if len(unit) == 0 {
		return false
	}
	type pair struct{ sk, t *Term }
	votes := map[pair]int{}
	byArr := map[string][]*Term{}
	seen := map[*Term]bool{}
	var rec func(t *Term)
	rec = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		if t.Op == "elem" {
			byArr[""] = append(byArr[""], t)
		}
		for _, a := range t.Args {
			rec(a)
		}
	}
	for _, a := range base {
		rec(a)
	}
	for _, x := range byArr[""] {
		for sk := range unit {
			vars := map[*Term]bool{sk: true}
			if !mentions(x, sk) {
				continue
			}
			for _, y := range byArr[""] {
				if y.bound || y == x || mentions(y, sk) || len(y.Args) != len(x.Args) {
					continue
				}
				sub := map[*Term]*Term{}
				if unify(x, y, vars, sub) && sub[sk] != nil && sub[sk].Sort == SInt {
					votes[pair{sk, sub[sk]}]++
				}
			}
		}
	}
	var ps []pair
	for p := range votes {
		ps = append(ps, p)
	}
	sort.Slice(ps, func(i, j int) bool {
		if votes[ps[i]] != votes[ps[j]] {
			return votes[ps[i]] > votes[ps[j]]
		}
		if ps[i].sk != ps[j].sk {
			return ps[i].sk.id < ps[j].sk.id
		}
		return ps[i].t.id < ps[j].t.id
	})
	if len(ps) > 3 {
		ps = ps[:3]
	}
	try := func(as []*Term) bool {
		rd := reduced(instantiated(reduced(as), 3))
		if len(rd) == 1 && rd[0] == False {
			return true
		}
		return s.absS.Check(withAxioms(rd)) == "unsat"
	}
	for _, p := range ps {
		var eq []*Term
		for _, a := range base {
			eq = append(eq, Subst(a, map[*Term]*Term{p.sk: p.t}))
		}
		if try(append(append([]*Term{}, base...), Lt(p.sk, p.t))) && try(append(append([]*Term{}, base...), Lt(p.t, p.sk))) && try(eq) {
			return true
		}
	}
	return false
}

// unify matches x against y, with the variables allowed anywhere, alone or in a sum.
func unify(p, t *Term, vars map[*Term]bool, sub map[*Term]*Term) bool {
	if p == t {
		return true
	}
	if vars[p] {
		if o, ok := sub[p]; ok {
			return o == t
		}
		if p.Sort != t.Sort {
			return false
		}
		sub[p] = t
		return true
	}
	if p.Op == "+" {
		for k, a := range p.Args {
			if vars[a] {
				var rest []*Term
				rest = append(append(rest, p.Args[:k]...), p.Args[k+1:]...)
				x := Minus(t, Add(rest...))
				if o, ok := sub[a]; ok {
					return o == x
				}
				sub[a] = x
				return true
			}
		}
	}
	if p.Op != t.Op || p.S != t.S || len(p.Args) != len(t.Args) || (p.I != nil && t.I != nil && p.I.Cmp(t.I) != 0) {
		return false
	}
	if len(p.Args) == 0 {
		return false
	}
	for i := range p.Args {
		if !unify(p.Args[i], t.Args[i], vars, sub) {
			return false
		}
	}
	return true
}
