package main

// termSize is the tree size of a term, capped.
func termSize(t *Term, memo map[*Term]int) int {
	if n, ok := memo[t]; ok {
		return n
	}
	n := 1
	for _, a := range t.Args {
		n += termSize(a, memo)
		if n > 1<<28 {
			n = 1 << 28
		}
	}
	memo[t] = n
	return n
}

func isConstTerm(t *Term) bool {
	switch t.Op {
	case "int", "real", "str", "true", "false", "null", "inil":
		return true
	case "seqlit":
		for _, a := range t.Args {
			if !isConstTerm(a) {
				return false
			}
		}
		return true
	}
	return false
}

var sizeMemo = map[*Term]int{}

// orient gives the rewrite rule of an equation, the larger side to the smaller.
func orient(x, y *Term) (l, r *Term) {
	if isConstTerm(x) {
		x, y = y, x
	}
	if isConstTerm(x) {
		return nil, nil
	}
	if isConstTerm(y) {
		return x, y
	}
	if x.Sort == SBool {
		return nil, nil
	}
	a, b := termSize(x, sizeMemo), termSize(y, sizeMemo)
	if a < b || a == b && x.id < y.id {
		x, y = y, x
	}
	return x, y
}

// reduced rewrites assertions with the literals among them: what is known to hold, not to hold or to equal a
// simpler term is replaced in the other assertions. Every assertion of the result follows from the given ones.
func reduced(as []*Term) []*Term {
	cur := flatAnd(as)
	for round := 0; round < 4; round++ {
		m := map[*Term]*Term{}
		rule := make([]*Term, len(cur)) // the term the unit rewrites
		for i, a := range cur {
			if a.bound {
				continue
			}
			lit, val := a, True
			if a.Op == "not" {
				lit, val = a.Args[0], False
			}
			switch lit.Op {
			case "true", "false", "and", "or", "ite", "forall", "exists", "not":
				continue
			}
			if lit.Op == "=" && val == True {
				if l, r := orient(lit.Args[0], lit.Args[1]); l != nil && !l.bound && !r.bound && m[l] == nil {
					m[l] = r
					rule[i] = l
					continue
				}
			}
			if m[lit] == nil {
				m[lit] = val
				rule[i] = lit
			}
		}
		if len(m) == 0 {
			return cur
		}
		memo := map[*Term]*Term{}
		var next []*Term
		changed := false
		seen := map[*Term]bool{}
		for i, a := range cur {
			var b *Term
			if l := rule[i]; l != nil {
				// keep the rule's own left side, rewrite what is below it
				b = rewriteUnit(a, l, m, memo)
			} else {
				b = substMemo(a, m, memo)
			}
			if b == False {
				return []*Term{False}
			}
			if b != a {
				changed = true
			}
			if b == True || seen[b] {
				continue
			}
			seen[b] = true
			next = append(next, b)
		}
		n := len(next)
		next = flatAnd(next)
		if !changed && n == len(next) {
			return next
		}
		cur = next
	}
	return cur
}

func flatAnd(as []*Term) []*Term {
	var out []*Term
	var rec func(a *Term)
	rec = func(a *Term) {
		if a.Op == "and" {
			for _, x := range a.Args {
				rec(x)
			}
			return
		}
		if a.Op == "not" && a.Args[0].Op == "or" {
			for _, x := range a.Args[0].Args {
				rec(Not(x))
			}
			return
		}
		out = append(out, a)
	}
	for _, a := range as {
		rec(a)
	}
	return out
}

func rewriteUnit(a, l *Term, m, memo map[*Term]*Term) *Term {
	if a == l {
		if len(a.Args) == 0 {
			return a
		}
		args := make([]*Term, len(a.Args))
		ch := false
		for i, x := range a.Args {
			args[i] = substMemo(x, m, memo)
			ch = ch || args[i] != x
		}
		if !ch {
			return a
		}
		return rebuild(a, args)
	}
	switch a.Op {
	case "not":
		return Not(rewriteUnit(a.Args[0], l, m, memo))
	case "=":
		x, y := a.Args[0], a.Args[1]
		if x == l {
			return Eq(rewriteUnit(x, l, m, memo), substMemo(y, m, memo))
		}
		if y == l {
			return Eq(substMemo(x, m, memo), rewriteUnit(y, l, m, memo))
		}
	}
	return a
}

func substMemo(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if len(t.Args) == 0 {
		return t
	}
	if r, ok := memo[t]; ok {
		return r
	}
	args := make([]*Term, len(t.Args))
	ch := false
	for i, a := range t.Args {
		args[i] = substMemo(a, m, memo)
		ch = ch || args[i] != a
	}
	r := t
	if ch {
		r = rebuild(t, args)
	}
	memo[t] = r
	return r
}
