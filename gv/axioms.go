package main

import (
	"sort"
)

// nonnegUF marks uninterpreted functions whose values are never negative.
var nonnegUF = map[string]bool{}

// axiomFns instantiate facts for ground applications of an uninterpreted function.
var axiomFns = map[string]func(app *Term) []*Term{}

// quantified facts, added when the function occurs below a quantifier
var quantAxioms = map[string]func() *Term{}

var axAppsMemo = map[*Term][]*Term{}
var boundAppsMemo = map[*Term][]string{}

func interesting(t *Term) bool {
	if t.bound {
		return false
	}
	switch t.Op {
	case "app":
		return nonnegUF[t.S] || axiomFns[t.S] != nil
	case "seq.nth", "str.to_code", "tagof":
		return true
	}
	return false
}

// axApps lists the ground applications with axioms below t.
func axApps(t *Term) []*Term {
	if r, ok := axAppsMemo[t]; ok {
		return r
	}
	var set map[*Term]bool
	add := func(x *Term) {
		if set == nil {
			set = map[*Term]bool{}
		}
		set[x] = true
	}
	if interesting(t) {
		add(t)
	}
	for _, a := range t.Args {
		for _, x := range axApps(a) {
			add(x)
		}
	}
	var out []*Term
	for x := range set {
		out = append(out, x)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	axAppsMemo[t] = out
	return out
}

func boundApps(t *Term) []string {
	if r, ok := boundAppsMemo[t]; ok {
		return r
	}
	set := map[string]bool{}
	if t.bound && t.Op == "app" && (nonnegUF[t.S] || quantAxioms[t.S] != nil) {
		set[t.S] = true
	}
	for _, a := range t.Args {
		for _, x := range boundApps(a) {
			set[x] = true
		}
	}
	out := sortedKeys(set)
	boundAppsMemo[t] = out
	return out
}

var factMemo = map[*Term][]*Term{}

func factsOf(app *Term) []*Term {
	if f, ok := factMemo[app]; ok {
		return f
	}
	factMemo[app] = nil
	var out []*Term
	if app.Op == "app" {
		if nonnegUF[app.S] {
			out = append(out, mk(&Term{Op: "not", Sort: SBool, Args: []*Term{mk(&Term{Op: "<", Sort: SBool, Args: []*Term{app, Int(0)}})}}))
		}
		if f := axiomFns[app.S]; f != nil {
			out = append(out, f(app)...)
		}
	}
	if app.Op == "tagof" {
		out = append(out, mk(&Term{Op: "not", Sort: SBool, Args: []*Term{mk(&Term{Op: "<", Sort: SBool, Args: []*Term{app, Int(0)}})}}),
			Eq(Eq(app, Int(0)), Eq(app.Args[0], INil)))
	}
	var fl []*Term
	for _, f := range out {
		if f != True {
			fl = append(fl, f)
		}
	}
	factMemo[app] = fl
	return fl
}

var foldEqsMemo = map[*Term][]*Term{}

// constEqs lists the ground equations of a string and a constant below t.
func constEqs(t *Term) []*Term {
	if r, ok := foldEqsMemo[t]; ok {
		return r
	}
	var set map[*Term]bool
	add := func(x *Term) {
		if set == nil {
			set = map[*Term]bool{}
		}
		set[x] = true
	}
	if t.Op == "=" && !t.bound && t.Args[0].Sort == SStr && (t.Args[0].Op == "str") != (t.Args[1].Op == "str") {
		add(t)
	}
	for _, a := range t.Args {
		for _, x := range constEqs(a) {
			add(x)
		}
	}
	var out []*Term
	for x := range set {
		out = append(out, x)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	foldEqsMemo[t] = out
	return out
}

// foldFacts gives the values of the functions known on constants where their argument equals one.
func foldFacts(apps map[*Term]bool, eqs map[*Term]bool) []*Term {
	byArg := map[*Term][]*Term{}
	for a := range apps {
		byArg[a.Args[0]] = append(byArg[a.Args[0]], a)
	}
	var out []*Term
	for e := range eqs {
		x, c := e.Args[0], e.Args[1]
		if x.Op == "str" {
			x, c = c, x
		}
		for _, a := range byArg[x] {
			v := strFnAny(a.S, c)
			out = append(out, Implies(e, Eq(a, v)))
		}
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	return out
}

func strFnAny(name string, c *Term) *Term {
	if name == "canon" {
		return canonOf(c)
	}
	return strFn(name, c)
}

var addrsMemo = map[*Term][]*Term{}

// groundAddrs lists the ground addresses below t.
func groundAddrs(t *Term) []*Term {
	if r, ok := addrsMemo[t]; ok {
		return r
	}
	var set map[*Term]bool
	if t.Sort == SAddr && !t.bound {
		set = map[*Term]bool{t: true}
	}
	for _, a := range t.Args {
		for _, x := range groundAddrs(a) {
			if set == nil {
				set = map[*Term]bool{}
			}
			set[x] = true
		}
	}
	var out []*Term
	for x := range set {
		out = append(out, x)
	}
	sort.Slice(out, func(i, j int) bool { return out[i].id < out[j].id })
	addrsMemo[t] = out
	return out
}

var ageEqMemo = map[*Term]bool{}

// newRoot tells whether the address may be that of an allocated object.
func newRoot(x *Term) bool {
	y := rootOf(x)
	if y.Op == "ite" {
		return newRoot(y.Args[1]) || newRoot(y.Args[2])
	}
	return y.Op == "obj" && y.I.Sign() > 0
}

// comparesNew tells whether an address is compared with an allocated object and the outcome is not known.
func comparesNew(t *Term) bool {
	if r, ok := ageEqMemo[t]; ok {
		return r
	}
	r := t.Op == "isnew"
	if t.Op == "=" && !t.bound && t.Args[0].Sort == SAddr {
		for _, x := range t.Args {
			r = r || newRoot(x)
		}
	}
	for _, a := range t.Args {
		r = r || comparesNew(a)
	}
	ageEqMemo[t] = r
	return r
}

// ageFacts: an address known since some moment is not that of an object allocated later.
func ageFacts(as []*Term) []*Term {
	hit := false
	for _, a := range as {
		hit = hit || comparesNew(a)
	}
	if !hit {
		return nil
	}
	seen := map[*Term]bool{}
	var out []*Term
	rid := func(t *Term) *Term { return App("rootid", SInt, t) }
	for _, a := range as {
		for _, t := range groundAddrs(a) {
			if seen[t] {
				continue
			}
			seen[t] = true
			switch t.Op {
			case "sub", "elem":
				out = append(out, Eq(rid(t), rid(t.Args[0])))
			case "obj":
				out = append(out, Eq(rid(t), IntB(t.I)))
			case "var", "app", "iaddr":
				if t.age < 1<<30 {
					out = append(out, Le(rid(t), Int(int64(t.age))))
				}
			}
		}
	}
	return out
}

// withAxioms closes a set of assertions under the facts of the functions they mention.
func withAxioms(as []*Term) (res []*Term) {
	out := append([]*Term{}, as...)
	seen := map[*Term]bool{}
	seenB := map[string]bool{}
	apps, eqs := map[*Term]bool{}, map[*Term]bool{}
	defer func() {
		res = append(res, ageFacts(res)...)
		if len(apps) > 0 && len(eqs) > 0 {
			res = append(res, foldFacts(apps, eqs)...)
		}
	}()
	for i := 0; i < len(out) && len(out) < 4000; i++ {
		for _, e := range constEqs(out[i]) {
			eqs[e] = true
		}
		for _, app := range axApps(out[i]) {
			if seen[app] {
				continue
			}
			if app.Op == "app" && len(app.Args) == 1 && (app.S == "canon" || ufConst[app.S] != nil) {
				apps[app] = true
			}
			seen[app] = true
			out = append(out, factsOf(app)...)
		}
		for _, n := range boundApps(out[i]) {
			if seenB[n] {
				continue
			}
			seenB[n] = true
			if nonnegUF[n] {
				d := funs[n]
				var vs []*Term
				for _, s := range d.args {
					vs = append(vs, BVarNamed("nn_"+s, s))
				}
				if len(vs) > 0 {
					app := mk(&Term{Op: "app", Sort: d.res, S: n, Args: vs})
					out = append(out, ForallPat(vs, mk(&Term{Op: "not", Sort: SBool, Args: []*Term{mk(&Term{Op: "<", Sort: SBool, Args: []*Term{app, Int(0)}})}}), app))
				}
			}
			if q := quantAxioms[n]; q != nil {
				out = append(out, q())
			}
		}
	}
	return out
}

func BVarNamed(name, sort string) *Term {
	t := mk(&Term{Op: "bvar", Sort: sort, S: name})
	t.bound = true
	t.age = 1 << 30
	return t
}

// ForallPat is a universally quantified formula with an instantiation pattern.
func ForallPat(vars []*Term, body, pat *Term) *Term {
	if body == True {
		return True
	}
	return mk(&Term{Op: "forall", Sort: SBool, Vars: vars, Args: []*Term{body, pat}})
}
