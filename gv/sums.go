package main

import (
	"fmt"
)

// Sums: sum over k in [0,n) of a real or integer term f(k). A sum is an uninterpreted function, one per shape of f, of the
// parts of f that do not depend on k and of n, with the facts sum(n) = 0 for n <= 0 and sum(n) = sum(n-1) + f(n-1) for n >= 1.

type sumDef struct {
	body   *Term   // over sumK and the parameters
	params []*Term // placeholders
}

var sums = map[string]*sumDef{}
var sumDepth = map[*Term]int{}

func sumK() *Term { return BVarNamed("sumk", SInt) }

// SumOf is the sum of body over k in [0,n).
func SumOf(body, k, n *Term) *Term {
	if body.Op == "*" && body.Args[0].Op == "real" && body.Sort == SReal {
		return Mul(body.Args[0], SumOf(body.Args[1], k, n))
	}
	sk := sumK()
	body = Subst(body, map[*Term]*Term{k: sk})
	has := map[*Term]int{}
	var dep func(t *Term) bool
	dep = func(t *Term) bool {
		if t == sk {
			return true
		}
		if v := has[t]; v != 0 {
			return v == 1
		}
		r := false
		for _, a := range t.Args {
			if dep(a) {
				r = true
			}
		}
		has[t] = 2
		if r {
			has[t] = 1
		}
		return r
	}
	var args, params []*Term
	repl := map[*Term]*Term{}
	sym := 0
	var walk func(t *Term)
	walk = func(t *Term) {
		if t == sk || repl[t] != nil {
			return
		}
		if !dep(t) {
			if t.isConst() {
				return
			}
			p := Sym(fmt.Sprintf("sump_%d_%s", len(params), t.Sort), t.Sort)
			repl[t] = p
			params = append(params, p)
			args = append(args, t)
			return
		}
		if t.Op == "app" && ufSym[t.S] > sym {
			sym = ufSym[t.S]
		}
		if t.syms > sym && len(t.Args) > 0 && t.at {
			sym = t.syms
		}
		if t.Op == "forall" || t.Op == "exists" {
			unsupp("quantifier in a sum")
		}
		for _, a := range t.Args {
			walk(a)
		}
	}
	if !dep(body) {
		if body.Sort == SReal {
			return Mul(body, ToReal(Ite(Lt(n, Int(0)), Int(0), n)))
		}
		return Mul(body, Ite(Lt(n, Int(0)), Int(0), n))
	}
	walk(body)
	tmpl := Subst(body, repl)
	name := fmt.Sprintf("sum_%d", tmpl.id)
	if sums[name] == nil {
		sums[name] = &sumDef{body: tmpl, params: params}
		ufSym[name] = sym
		axiomFns[name] = func(app *Term) []*Term { return sumFacts(name, app) }
	}
	t := AppAt(name, body.Sort, 0, sym, append(args, n)...)
	sumDepth[t] = 0
	return t
}

// at is the summand number k.
func (d *sumDef) at(args []*Term, k *Term) *Term {
	m := map[*Term]*Term{sumK(): k}
	for i, p := range d.params {
		m[p] = args[i]
	}
	return Subst(d.body, m)
}

func sumFacts(name string, app *Term) []*Term {
	d := sums[name]
	n := app.Args[len(app.Args)-1]
	args := app.Args[:len(app.Args)-1]
	var zero *Term = Int(0)
	if app.Sort == SReal {
		zero = ToReal(Int(0))
	}
	out := []*Term{Implies(Le(n, Int(0)), Eq(app, zero))}
	if sumDepth[app] < 2 {
		prev := AppAt(name, app.Sort, 0, ufSym[name], append(append([]*Term{}, args...), Minus(n, Int(1)))...)
		if _, ok := sumDepth[prev]; !ok {
			sumDepth[prev] = sumDepth[app] + 1
		}
		out = append(out, Implies(Lt(Int(0), n), Eq(app, Add(prev, d.at(args, Minus(n, Int(1)))))))
	}
	return out
}

// sumForms gives variables that accumulate a value in every iteration their closed form.
func (lr *loopRun) sumForms() {
	if lr.main == nil || lr.step.Sign() <= 0 || !lr.step.IsInt64() || lr.step.Int64() != 1 {
		return
	}
	any := false
	for _, pl := range lr.leafs() {
		if lr.sumLeaf(pl) {
			any = true
		}
	}
	if !any {
		return
	}
	h := lr.head(false, nil)
	rr := lr.body(cloneX(h), true)
	if len(rr.backs) == 0 {
		return
	}
	base := len(h.st.pc)
	c0 := lr.entry(*lr.main)
	sym := lr.counterOf(h.env)
	for _, pl := range lr.leafs() {
		if !lr.sumLeaf(pl) {
			continue
		}
		p := lr.fresh[pl]
		var F *Term
		var deltas []*Term
		ok := true
		for k := len(rr.backs) - 1; k >= 0 && ok; k-- {
			b := rr.backs[k]
			d := deltaOf(b.env.vals[pl.phi].L[pl.i], p)
			if d == nil {
				ok = false
				break
			}
			d = lr.pruneProved(b.st, d)
			d = Subst(d, lr.localEqs(b, base, sym))
			deltas = append(deltas, d)
			if F == nil {
				F = d
			} else if F != d {
				F = Ite(lr.guard(b, base, sym), d, F)
			}
		}
		if !ok || F == nil || !lr.clean(F, sym) {
			if loopDebug && F != nil {
				println("   sum unclean", clip(F.String(), 300))
			}
			continue
		}
		for k := range rr.backs {
			b := rr.backs[len(rr.backs)-1-k]
			if F != deltas[k] && !lr.ex.v.entails(b.st.pc, Eq(F, deltas[k])) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		e0 := lr.entry(pl)
		F0 := F
		lr.phiForm[pl] = func(env *Env) *Term {
			k := sumK()
			f := Subst(F0, map[*Term]*Term{sym: Add(c0, k)})
			return Add(e0, SumOf(f, k, Minus(lr.counterOf(env), c0)))
		}
		if loopDebug {
			println("   sum form", pl.phi.Comment, clip(F.String(), 300))
		}
	}
}

func (lr *loopRun) sumLeaf(pl phiLeaf) bool {
	if lr.keep[pl] || lr.phiForm[pl] != nil || *lr.main == pl || lr.lin[pl] != nil {
		return false
	}
	return lr.fresh[pl].Sort == SReal || lr.fresh[pl].Sort == SInt && isInteger(pl.phi.Type())
}

// deltaOf is v - p if v is a sum that has p as a summand.
func deltaOf(v, p *Term) *Term {
	if v == p {
		if p.Sort == SReal {
			return ToReal(Int(0))
		}
		return Int(0)
	}
	var rest []*Term
	found := false
	var rec func(t *Term)
	rec = func(t *Term) {
		if t.Op == "+" {
			for _, a := range t.Args {
				rec(a)
			}
			return
		}
		if t == p && !found {
			found = true
			return
		}
		rest = append(rest, t)
	}
	rec(v)
	if !found {
		return nil
	}
	if len(rest) == 1 {
		return rest[0]
	}
	return Add(rest...)
}

// pruneProved takes the branches the facts of a state force.
func (lr *loopRun) pruneProved(st *State, t *Term) *Term {
	for n := 0; n < 8 && t.Op == "ite"; n++ {
		switch {
		case lr.ex.v.entails(st.pc, t.Args[0]):
			t = t.Args[1]
		case lr.ex.v.entails(st.pc, Not(t.Args[0])):
			t = t.Args[2]
		default:
			return t
		}
	}
	return t
}
