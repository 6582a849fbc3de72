package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---- control flow structure

type loopT struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopTree struct {
	rpo      []*ssa.BasicBlock
	byHeader map[*ssa.BasicBlock]*loopT
}

func (ex *Exec) loops(fn *ssa.Function) *loopTree {
	if lt, ok := ex.loopInfo[fn]; ok {
		return lt
	}
	lt := &loopTree{byHeader: map[*ssa.BasicBlock]*loopT{}}
	seen := map[*ssa.BasicBlock]bool{}
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		if seen[b] {
			return
		}
		seen[b] = true
		for _, s := range b.Succs {
			dfs(s)
		}
		post = append(post, b)
	}
	dfs(fn.Blocks[0])
	for i := len(post) - 1; i >= 0; i-- {
		lt.rpo = append(lt.rpo, post[i])
	}
	if fn.Recover != nil && !seen[fn.Recover] {
		post = nil
		dfs(fn.Recover)
		for i := len(post) - 1; i >= 0; i-- {
			lt.rpo = append(lt.rpo, post[i])
		}
	}
	for _, b := range lt.rpo {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := lt.byHeader[s]
				if l == nil {
					l = &loopT{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					lt.byHeader[s] = l
				}
				var up func(x *ssa.BasicBlock)
				up = func(x *ssa.BasicBlock) {
					if l.blocks[x] {
						return
					}
					l.blocks[x] = true
					for _, p := range x.Preds {
						up(p)
					}
				}
				up(b)
			}
		}
	}
	if ex.loopInfo == nil {
		ex.loopInfo = map[*ssa.Function]*loopTree{}
	}
	ex.loopInfo[fn] = lt
	return lt
}

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			out = append(out, p)
		} else {
			break
		}
	}
	return out
}

type notConst struct{}

const maxUnroll = 64

// runLoop executes a loop from the states arriving at its header.
func (ex *Exec) runLoop(r *region, l *loopT, in []X) []exitEdge {
	in = r.enter(l.header, in)
	var exits []exitEdge
	hasExitTest := false
	if n := len(l.header.Instrs); n > 0 {
		if _, ok := l.header.Instrs[n-1].(*ssa.If); ok {
			hasExitTest = !l.blocks[l.header.Succs[0]] || !l.blocks[l.header.Succs[1]]
		}
	}
	cur := in
	for n := 0; len(cur) > 0; n++ {
		var next []X
		for _, x := range cur {
			if x.st.dead {
				continue
			}
			if hasExitTest && n < maxUnroll {
				if rr, ok := ex.tryIter(r, l, x); ok {
					exits = append(exits, rr.exits...)
					r.outs = append(r.outs, rr.outs...)
					next = append(next, rr.backs...)
					continue
				}
			}
			exits = append(exits, ex.invLoop(r, l, x)...)
		}
		cur = r.enter(l.header, next)
	}
	return exits
}

func cloneX(x X) X { return X{st: x.st.clone(), env: x.env.clone(), pred: x.pred} }

// tryIter runs one iteration if the header's exit decision is constant.
func (ex *Exec) tryIter(r *region, l *loopT, x X) (res *region, ok bool) {
	for _, i := range l.header.Instrs {
		if _, ok := i.(*ssa.Next); ok {
			return nil, false
		}
	}
	// evaluate the header alone first
	probe := func() (c bool) {
		ex.record++
		defer func() {
			ex.record--
			if e := recover(); e != nil {
				if _, nc := e.(notConst); nc {
					c = false
					return
				}
				panic(e)
			}
		}()
		rr := &region{ex: ex, fr: r.fr, lt: r.lt, blocks: map[*ssa.BasicBlock]bool{l.header: true}, header: l.header}
		rr.decide = func(b *ssa.BasicBlock, c *Term) {
			if b == l.header && !c.isConst() {
				panic(notConst{})
			}
		}
		y := cloneX(x)
		y.pred = nil
		rr.run(l.header, []X{y})
		return true
	}
	if !probe() {
		return nil, false
	}
	rr := &region{ex: ex, fr: r.fr, lt: r.lt, blocks: l.blocks, header: l.header}
	y := cloneX(x)
	y.pred = nil
	rr.run(l.header, []X{y})
	return rr, true
}

// ---- invariant mode

// cell is one havoced memory pattern of a loop with its closed form, if any.
type closed struct {
	key  string
	pat  Pat                                          // cells described
	form func(st *State, env *Env, idx []*Term) *Term // value at the loop head
	subs []int                                        // 'e': field path from the element to the cell
	name string
	bad  bool
}

type cand struct {
	name string
	f    func(st *State, env *Env) *Term
	bad  bool

	declared bool // by the contract
}

type phiLeaf struct {
	phi *ssa.Phi
	i   int
}

type loopRun struct {
	ex      *Exec
	r       *region
	l       *loopT
	x0      X
	phis    []*ssa.Phi
	mark    int
	amark   int
	fresh   map[phiLeaf]*Term // header symbols
	keep    map[phiLeaf]bool  // leaf never changes
	lin     map[phiLeaf]*big.Int
	main    *phiLeaf // primary counter
	step    *big.Int
	mods    map[string][]Pat
	cls     []*closed
	cands   []*cand
	phiForm map[phiLeaf]func(env *Env) *Term
	abstr   map[phiLeaf]bool // array of a slice only ever allocated by the loop
	visit   []string
	final   *Term // value of the counter at the regular exit
}

func (ex *Exec) invLoop(r *region, l *loopT, x X) []exitEdge {
	lr := &loopRun{ex: ex, r: r, l: l, x0: x, phis: headerPhis(l.header), mark: symCount, amark: allocCount,
		fresh: map[phiLeaf]*Term{}, keep: map[phiLeaf]bool{}, lin: map[phiLeaf]*big.Int{}, mods: map[string][]Pat{},
		phiForm: map[phiLeaf]func(*Env) *Term{}, abstr: map[phiLeaf]bool{}}
	for _, p := range lr.phis {
		for i, s := range leafSorts(p.Type()) {
			f := Fresh("h_"+p.Name()+"_"+p.Comment, s)
			lr.fresh[phiLeaf{p, i}] = f
		}
	}
	lr.discover()
	lr.generate()
	lr.houdini()
	return lr.finish()
}

func (lr *loopRun) leafs() []phiLeaf {
	var out []phiLeaf
	for _, p := range lr.phis {
		for i := range leafSorts(p.Type()) {
			out = append(out, phiLeaf{p, i})
		}
	}
	return out
}

func (lr *loopRun) entry(pl phiLeaf) *Term { return lr.x0.env.vals[pl.phi].L[pl.i] }

// head builds the state at an arbitrary arrival at the loop header.
func (lr *loopRun) head(withCands bool, counter *Term) X {
	st := lr.x0.st.clone()
	env := lr.x0.env.clone()
	for _, p := range lr.phis {
		v := Val{T: p.Type()}
		for i := range leafSorts(p.Type()) {
			pl := phiLeaf{p, i}
			switch {
			case lr.keep[pl]:
				v.L = append(v.L, lr.entry(pl))
			case lr.main != nil && *lr.main == pl && counter != nil:
				v.L = append(v.L, counter)
			default:
				v.L = append(v.L, lr.fresh[pl])
			}
		}
		env.vals[p] = v
	}
	// closed forms of phi leaves depend on the counter only
	for _, pl := range lr.leafs() {
		if f := lr.phiForm[pl]; f != nil {
			v := env.vals[pl.phi]
			n := Val{T: v.T, L: append([]*Term{}, v.L...)}
			n.L[pl.i] = f(env)
			env.vals[pl.phi] = n
		}
	}
	for _, p := range lr.phis {
		st.assume(typeFacts(env.vals[p])...)
	}
	for _, k := range sortedKeys(lr.mods) {
		pats := lr.mods[k]
		var plain []Pat
		var cl []*closed
		for _, p := range pats {
			found := false
			for _, c := range lr.cls {
				if c.key == k && !c.bad && samePat(c.pat, p) {
					cl = append(cl, c)
					found = true
				}
			}
			if !found {
				plain = append(plain, p)
			}
		}
		if len(plain) > 0 {
			st.havoc(k, plain...)
		}
		for _, c := range cl {
			c := c
			symCount++
			st.mem[k] = &Upd{kind: 'l', pats: []Pat{c.pat}, age: allocCount, sym: symCount, prev: st.mem[k],
				fn: nil}
			st.mem[k].form = c
			st.mem[k].fenv = env
			st.mem[k].fst = nil
		}
	}
	// closed forms read the visited sets of this very state
	snap := st.clone()
	for _, k := range sortedKeys(lr.mods) {
		for u := st.mem[k]; u != nil && u.kind == 'l' && u.fst == nil && u.form != nil; u = u.prev {
			u.fst = snap
		}
	}
	if withCands {
		for _, c := range lr.cands {
			if !c.bad {
				st.assume(c.f(st, env))
			}
		}
	}
	return X{st: st, env: env}
}

func samePat(a, b Pat) bool {
	if a.kind != b.kind || len(a.args) != len(b.args) {
		return false
	}
	for i := range a.args {
		if a.args[i] != b.args[i] {
			return false
		}
	}
	return true
}

// body runs one iteration.
func (lr *loopRun) body(x X, rec bool) *region {
	if rec {
		lr.ex.record++
		defer func() { lr.ex.record-- }()
	}
	rr := &region{ex: lr.ex, fr: lr.r.fr, lt: lr.r.lt, blocks: lr.l.blocks, header: lr.l.header}
	x.pred = nil
	rr.run(lr.l.header, []X{x})
	// arrival values of the phis
	for i := range rr.backs {
		b := &rr.backs[i]
		vals := make([]Val, len(lr.phis))
		pi := -1
		for k, p := range lr.l.header.Preds {
			if p == b.pred {
				pi = k
			}
		}
		for k, p := range lr.phis {
			vals[k] = lr.ex.val(rr.fr, b, p.Edges[pi])
			vals[k].T = p.Type()
		}
		e := b.env.clone()
		for k, p := range lr.phis {
			e.vals[p] = vals[k]
		}
		b.env = e
	}
	return rr
}

// discover finds the unchanged phi leaves, the counters and the memory the loop changes.
func (lr *loopRun) discover() {
	for _, pl := range lr.leafs() {
		lr.keep[pl] = true
	}
	for round := 0; ; round++ {
		if round > 12 {
			unsupp("loop effects do not stabilise in %s", lr.r.fr.fn)
		}
		h := lr.head(false, nil)
		rr := lr.body(cloneX(h), true)
		changed := false
		for _, b := range rr.backs {
			if len(b.st.pend) != len(lr.x0.st.pend) {
				unsupp("goroutine started in a loop of %s", lr.r.fr.fn)
			}
			for _, pl := range lr.leafs() {
				if lr.keep[pl] && b.env.vals[pl.phi].L[pl.i] != h.env.vals[pl.phi].L[pl.i] {
					delete(lr.keep, pl)
					changed = true
				}
			}
			for _, w := range writesSince(h.st.mem, b.st.mem) {
				for _, p := range lr.patsOf(w) {
					if lr.addMod(w.key, p) {
						changed = true
					}
				}
			}
		}
		if !changed {
			lr.counters(h, rr)
			return
		}
	}
}

func (lr *loopRun) addMod(key string, p Pat) bool {
	for _, q := range lr.mods[key] {
		if q.kind == 'a' || samePat(p, q) {
			return false
		}
		if q.kind == 'm' && p.kind == 'x' && p.args[0] == q.args[0] {
			return false
		}
		if q.kind == 'e' && p.kind == 'x' && inArray(p.args[0], q.args[0]) {
			return false
		}
	}
	if p.kind == 'a' {
		lr.mods[key] = []Pat{p}
		return true
	}
	var keepP []Pat
	for _, q := range lr.mods[key] {
		if p.kind == 'm' && q.kind == 'x' && q.args[0] == p.args[0] {
			continue
		}
		if p.kind == 'e' && q.kind == 'x' && inArray(q.args[0], p.args[0]) {
			continue
		}
		keepP = append(keepP, q)
	}
	if len(keepP) > 24 {
		lr.mods[key] = []Pat{{kind: 'a'}}
		return true
	}
	lr.mods[key] = append(keepP, p)
	return true
}

func (lr *loopRun) inv(t *Term) bool { return !t.bound && t.syms <= lr.mark }

func (lr *loopRun) patsOf(w writeRec) []Pat { return patsOf(w.u, lr.inv, lr.amark) }

// patsOf abstracts one update to patterns over invariant terms; cells of objects newer than amark are skipped.
func patsOf(u *Upd, inv func(*Term) bool, amark int) []Pat {
	newObj := func(t *Term) bool { return rootAge(t) > amark && rootAge(t) > 0 }
	one := func(idx []*Term) []Pat {
		if len(idx) == 0 {
			return []Pat{{kind: 'a'}}
		}
		a := idx[0]
		if a.Sort == SAddr && newObj(a) {
			return nil
		}
		all := true
		for _, t := range idx {
			if !inv(t) {
				all = false
			}
		}
		if all {
			return []Pat{{kind: 'x', args: idx}}
		}
		if len(idx) == 2 && inv(a) {
			return []Pat{{kind: 'm', args: []*Term{a}}}
		}
		if a.Sort == SAddr {
			y := a
			for y.Op == "sub" {
				y = y.Args[0]
			}
			if y.Op == "elem" && inv(y.Args[0]) {
				return []Pat{{kind: 'e', args: []*Term{y.Args[0]}}}
			}
		}
		return []Pat{{kind: 'a'}}
	}
	switch u.kind {
	case 's':
		return one(u.idx)
	case 'h', 'l', 'w':
		var out []Pat
		for _, p := range u.pats {
			switch p.kind {
			case 'x':
				out = append(out, one(p.args)...)
			case 'a':
				out = append(out, p)
			default:
				if newObj(p.args[0]) {
					continue
				}
				if inv(p.args[0]) {
					out = append(out, p)
				} else {
					out = append(out, Pat{kind: 'a'})
				}
			}
		}
		return out
	case 'c':
		return []Pat{{kind: 'a'}}
	case 'p':
		if newObj(u.idx[0]) {
			return nil
		}
		if inv(u.idx[0]) {
			return []Pat{{kind: 'm', args: []*Term{u.idx[0]}}}
		}
		return []Pat{{kind: 'a'}}
	case 'r':
		if newObj(u.rm.dst) {
			return nil
		}
		if inv(u.rm.dst) {
			return []Pat{{kind: 'e', args: []*Term{u.rm.dst}}}
		}
		return []Pat{{kind: 'a'}}
	}
	return nil
}

// counters finds leaves that move by a constant step.
func (lr *loopRun) counters(h X, rr *region) {
	if len(rr.backs) == 0 {
		return
	}
	one := big.NewInt(1)
	for _, pl := range lr.leafs() {
		if lr.keep[pl] || lr.fresh[pl].Sort != SInt {
			continue
		}
		var k *big.Int
		ok := true
		for _, b := range rr.backs {
			d := Minus(b.env.vals[pl.phi].L[pl.i], h.env.vals[pl.phi].L[pl.i])
			if d.Op != "int" || d.I.Sign() == 0 || k != nil && k.Cmp(d.I) != 0 {
				ok = false
				break
			}
			k = d.I
		}
		if ok {
			lr.lin[pl] = k
		}
	}
	better := func(a, b phiLeaf) bool {
		// scalars used in the header test come first
		sa, sb := lr.usedInHeader(a.phi), lr.usedInHeader(b.phi)
		if sa != sb {
			return sa
		}
		ia, ib := isInteger(a.phi.Type()), isInteger(b.phi.Type())
		if ia != ib {
			return ia
		}
		ka, kb := new(big.Int).Abs(lr.lin[a]), new(big.Int).Abs(lr.lin[b])
		return ka.Cmp(kb) < 0
	}
	for _, pl := range lr.leafs() {
		pl := pl
		if lr.lin[pl] == nil {
			continue
		}
		if lr.main == nil || better(pl, *lr.main) {
			lr.main = &pl
			lr.step = lr.lin[pl]
		}
	}
	if lr.main == nil {
		return
	}
	m := *lr.main
	for _, pl := range lr.leafs() {
		pl := pl
		if k := lr.lin[pl]; k != nil && pl != m {
			q, rem := new(big.Int).QuoRem(k, lr.step, new(big.Int))
			if rem.Sign() == 0 {
				e0, c0 := lr.entry(pl), lr.entry(m)
				lr.phiForm[pl] = func(env *Env) *Term {
					c := env.vals[m.phi].L[m.i]
					return Add(e0, Mul(IntB(q), Minus(c, c0)))
				}
			}
		}
	}
	_ = one
}

func (lr *loopRun) usedInHeader(p *ssa.Phi) bool {
	n := len(lr.l.header.Instrs)
	iff, ok := lr.l.header.Instrs[n-1].(*ssa.If)
	if !ok {
		return false
	}
	var uses func(v ssa.Value, d int) bool
	uses = func(v ssa.Value, d int) bool {
		if v == p {
			return true
		}
		if d > 4 {
			return false
		}
		if b, ok := v.(*ssa.BinOp); ok && lr.l.blocks[b.Block()] {
			return uses(b.X, d+1) || uses(b.Y, d+1)
		}
		return false
	}
	return uses(iff.Cond, 0)
}

func (lr *loopRun) counterOf(env *Env) *Term {
	m := *lr.main
	return env.vals[m.phi].L[m.i]
}

// headerBound finds the loop-invariant bound the counter is compared with.
func (lr *loopRun) headerBound(h X) (op token.Token, lhs, rhs *Term, ok bool) {
	n := len(lr.l.header.Instrs)
	iff, isIf := lr.l.header.Instrs[n-1].(*ssa.If)
	if !isIf {
		return
	}
	bo, isB := iff.Cond.(*ssa.BinOp)
	if !isB || bo.Block() != lr.l.header {
		return
	}
	// evaluate the header on a probe
	ex := lr.ex
	ex.record++
	defer func() { ex.record-- }()
	rr := &region{ex: ex, fr: lr.r.fr, lt: lr.r.lt, blocks: map[*ssa.BasicBlock]bool{lr.l.header: true}, header: lr.l.header}
	y := cloneX(h)
	y.pred = nil
	var got *Env
	rr.decide = func(b *ssa.BasicBlock, c *Term) {}
	rr.seen = func(x X) { got = x.env }
	rr.run(lr.l.header, []X{y})
	if got == nil {
		return
	}
	x := &X{st: h.st, env: got}
	defer func() {
		if e := recover(); e != nil {
			ok = false
		}
	}()
	return bo.Op, ex.val(lr.r.fr, x, bo.X).t(), ex.val(lr.r.fr, x, bo.Y).t(), true
}

// ---- candidates

func (lr *loopRun) generate() {
	lr.sumForms()
	h0 := lr.headNoHavoc()
	rr := lr.body(cloneX(h0), true)
	base := len(h0.st.pc)
	lr.abstractSlices(h0, rr)
	if lr.main != nil {
		lr.boundCands(h0)
	}
	// map iteration keys that are visited
	for k := range lr.mods {
		if len(k) > 2 && k[:2] == "V:" {
			lr.visit = append(lr.visit, k)
		}
	}
	lr.latchCands(h0, rr, base)
	lr.closedForms(h0, rr, base)
	lr.nestedCands(h0, rr, base)
	lr.pathCands(h0, rr, base)
	lr.frameCands(h0)
	lr.contractCands()
}

// headNoHavoc is the header of a generic iteration that sees the memory the loop was entered with.
func (lr *loopRun) headNoHavoc() X {
	m := lr.mods
	lr.mods = map[string][]Pat{}
	for k, p := range m {
		if len(k) > 2 && k[:2] == "V:" {
			lr.mods[k] = p
		}
	}
	h := lr.head(false, nil)
	lr.mods = m
	return h
}

func (lr *loopRun) addCand(name string, f func(st *State, env *Env) *Term) {
	lr.cands = append(lr.cands, &cand{name: name, f: f})
}

func (lr *loopRun) boundCands(h0 X) {
	c0 := lr.entry(*lr.main)
	up := lr.step.Sign() > 0
	lr.addCand("counter", func(st *State, env *Env) *Term {
		c := lr.counterOf(env)
		if up {
			return Le(c0, c)
		}
		return Le(c, c0)
	})
	if abs := new(big.Int).Abs(lr.step); abs.Cmp(big.NewInt(1)) != 0 {
		lr.addCand("stride", func(st *State, env *Env) *Term {
			return Eq(Mod(Minus(lr.counterOf(env), c0), IntB(abs)), Int(0))
		})
	}
	op, lhs, rhs, ok := lr.headerBound(h0)
	if !ok {
		return
	}
	ch := lr.counterOf(h0.env)
	// normalise to counter + d  op  bound
	d := Minus(lhs, ch)
	bound := rhs
	if d.Op != "int" {
		d = Minus(rhs, ch)
		bound = lhs
		switch op {
		case token.LSS:
			op = token.GTR
		case token.GTR:
			op = token.LSS
		case token.LEQ:
			op = token.GEQ
		case token.GEQ:
			op = token.LEQ
		}
	}
	if d.Op != "int" || !lr.inv(bound) || bound.Sort != SInt {
		return
	}
	stepT := IntB(lr.step)
	// last admissible counter value at the header
	var lim *Term
	switch {
	case up && (op == token.LSS || op == token.NEQ):
		lim = Minus(bound, d) // c + d < bound  =>  c + step <= lim - 1 + step
		lim = Add(lim, Minus(stepT, Int(1)))
	case up && op == token.LEQ:
		lim = Add(Minus(bound, d), stepT)
	case !up && (op == token.GTR || op == token.NEQ):
		lim = Add(Add(Minus(bound, d), stepT), Int(1))
	case !up && op == token.GEQ:
		lim = Add(Minus(bound, d), stepT)
	default:
		return
	}
	lr.addCand("bound", func(st *State, env *Env) *Term {
		c := lr.counterOf(env)
		if up {
			return Or(Le(c, lim), Eq(c, c0))
		}
		return Or(Le(lim, c), Eq(c, c0))
	})
	lr.addCand("boundstrict", func(st *State, env *Env) *Term {
		c := lr.counterOf(env)
		if up {
			return Le(c, lim)
		}
		return Le(lim, c)
	})
	if lr.step.CmpAbs(big.NewInt(1)) == 0 {
		lr.final = lim
	}
}

// subst evaluates a term of the generic iteration for counter value j / key k.
func (lr *loopRun) generic(t *Term, from, to *Term) (*Term, bool) {
	r := Subst(t, map[*Term]*Term{from: to})
	return r, lr.clean(r, to)
}

// clean: only loop-invariant symbols and bound variables.
func (lr *loopRun) clean(t *Term, allowed ...*Term) bool {
	memo := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		for _, a := range allowed {
			if x == a {
				return true
			}
		}
		if v, ok := memo[x]; ok {
			return v
		}
		memo[x] = true
		ok := true
		if x.Op == "var" && x.syms > lr.mark {
			ok = false
		}
		if x.Op == "app" && ufSym[x.S] > lr.mark {
			ok = false
		}
		if x.Op == "obj" && objId(x) > lr.amark {
			ok = false
		}
		for _, a := range x.Args {
			if !ok {
				break
			}
			ok = rec(a)
		}
		memo[x] = ok
		return ok
	}
	return rec(t)
}

// resolveEqs replaces body-local symbols that the facts define by an equality.
func (lr *loopRun) resolveEqs(fs []*Term, allowed *Term) []*Term {
	m := map[*Term]*Term{}
	for _, f := range fs {
		if f.Op != "=" {
			continue
		}
		a, b := f.Args[0], f.Args[1]
		for k := 0; k < 2; k++ {
			if (a.Op == "var") && !lr.clean(a, allowed) && lr.clean(b, allowed) && m[a] == nil {
				m[a] = b
			}
			a, b = b, a
		}
	}
	if len(m) == 0 {
		return fs
	}
	var out []*Term
	for _, f := range fs {
		g := Subst(f, m)
		if g != True {
			out = append(out, g)
		}
	}
	return out
}

// index describes how iterations are numbered: by a counter or by the visited keys of a map.
type indexing struct {
	sym  *Term                                    // the generic iteration's own index
	done func(st *State, env *Env, j *Term) *Term // iteration j is complete
	sort string
}

func (lr *loopRun) indexings(h0 X, rr *region) []indexing {
	var out []indexing
	if lr.main != nil {
		c0 := lr.entry(*lr.main)
		up := lr.step.Sign() > 0
		abs := new(big.Int).Abs(lr.step)
		out = append(out, indexing{sym: lr.counterOf(h0.env), sort: SInt, done: func(st *State, env *Env, j *Term) *Term {
			c := lr.counterOf(env)
			var r *Term
			if up {
				r = And(Le(c0, j), Lt(j, c))
			} else {
				r = And(Le(j, c0), Lt(c, j))
			}
			if abs.Cmp(big.NewInt(1)) != 0 {
				r = And(r, Eq(Mod(Minus(j, c0), IntB(abs)), Int(0)))
			}
			return r
		}})
	}
	for _, k := range sortedUniq(lr.visit) {
		// the key this iteration visits
		var sym *Term
		bad := false
		for _, b := range rr.backs {
			for _, w := range writesSince(h0.st.mem, b.st.mem) {
				if w.key == k && w.u.kind == 's' {
					if sym != nil && sym != w.u.idx[0] {
						bad = true
					}
					sym = w.u.idx[0]
				}
			}
		}
		if sym == nil || bad {
			continue
		}
		key := k
		out = append(out, indexing{sym: sym, sort: sym.Sort, done: func(st *State, env *Env, j *Term) *Term {
			return st.read(key, j)
		}})
	}
	return out
}

func sortedUniq(xs []string) []string {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return sortedKeys(m)
}

// pathCands: every completed iteration satisfied the condition under which the loop goes round.
func (lr *loopRun) pathCands(h0 X, rr *region, base int) {
	for n, ix := range lr.indexings(h0, rr) {
		ix := ix
		var alts []*Term
		drop := false
		for _, b := range rr.backs {
			var fs []*Term
			for _, f := range lr.resolveEqs(b.st.pc[base:], ix.sym) {
				if lr.clean(f, ix.sym) {
					fs = append(fs, f)
				}
			}
			if len(fs) == 0 {
				drop = true
				break
			}
			alts = append(alts, And(fs...))
		}
		if drop || len(alts) == 0 {
			continue
		}
		P := factor(alts)
		conj := []*Term{P}
		if P.Op == "and" {
			conj = P.Args
		}
		for ci, p := range conj {
			if !mentions(p, ix.sym) {
				continue
			}
			p := p
			lr.addCand(fmt.Sprintf("path%d.%d", n, ci), func(st *State, env *Env) *Term {
				j := BVarNamed(fmt.Sprintf("pj_%s_%d", sanit(ix.sort), lr.mark), ix.sort)
				body := Subst(p, map[*Term]*Term{ix.sym: j})
				return Forall([]*Term{j}, Implies(ix.done(st, env, j), body))
			})
		}
	}
}

// factor pulls common conjuncts out of a disjunction.
func factor(alts []*Term) *Term {
	if len(alts) == 1 {
		return alts[0]
	}
	parts := func(t *Term) []*Term {
		if t.Op == "and" {
			return t.Args
		}
		return []*Term{t}
	}
	var common []*Term
	for _, c := range parts(alts[0]) {
		all := true
		for _, a := range alts[1:] {
			f := false
			for _, d := range parts(a) {
				if c == d {
					f = true
				}
			}
			if !f {
				all = false
			}
		}
		if all {
			common = append(common, c)
		}
	}
	isC := map[*Term]bool{}
	for _, c := range common {
		isC[c] = true
	}
	var rest []*Term
	for _, a := range alts {
		var r []*Term
		for _, d := range parts(a) {
			if !isC[d] {
				r = append(r, d)
			}
		}
		rest = append(rest, And(r...))
	}
	return And(append(common, Or(rest...))...)
}

func mentions(t, s *Term) bool {
	memo := map[*Term]bool{}
	var rec func(x *Term) bool
	rec = func(x *Term) bool {
		if x == s {
			return true
		}
		if memo[x] {
			return false
		}
		memo[x] = true
		for _, a := range x.Args {
			if rec(a) {
				return true
			}
		}
		return false
	}
	return rec(t)
}

// latchCands: variables that keep their value until some iteration sets them.
func (lr *loopRun) latchCands(h0 X, rr *region, base int) {
	ixs := lr.indexings(h0, rr)
	if len(ixs) == 0 || len(rr.backs) == 0 {
		return
	}
	ix := ixs[0]
	for _, pl := range lr.leafs() {
		pl := pl
		if lr.keep[pl] || lr.fresh[pl].Sort != SBool {
			continue
		}
		cur := h0.env.vals[pl.phi].L[pl.i]
		// value after the iteration starting from false, over all paths
		for _, from := range []*Term{False, True} {
			from := from
			var set []*Term // conditions under which the latch flips
			ok := true
			for _, b := range rr.backs {
				var fs []*Term
				for _, f := range lr.resolveEqs(b.st.pc[base:], ix.sym) {
					f = Subst(f, map[*Term]*Term{cur: from})
					if lr.clean(f, ix.sym) {
						fs = append(fs, f)
					}
				}
				v := Subst(b.env.vals[pl.phi].L[pl.i], map[*Term]*Term{cur: from})
				c := And(append(fs, Not(Eq(v, from)))...)
				if !lr.clean(c, ix.sym) {
					ok = false
					break
				}
				if c != False {
					set = append(set, c)
				}
			}
			if !ok || len(set) == 0 {
				continue
			}
			Q := Or(set...)
			e0 := lr.entry(pl)
			val := func(env *Env) *Term { return env.vals[pl.phi].L[pl.i] }
			j := BVarNamed(fmt.Sprintf("lj_%s_%d", sanit(ix.sort), lr.mark), ix.sort)
			body := Subst(Q, map[*Term]*Term{ix.sym: j})
			// still at its initial value: no iteration set it
			lr.addCand("latch0 "+pl.phi.Comment, func(st *State, env *Env) *Term {
				return Implies(And(Eq(val(env), from), Eq(e0, from)), Forall([]*Term{j}, Implies(ix.done(st, env, j), Not(body))))
			})
			lr.addCand("latch1 "+pl.phi.Comment, func(st *State, env *Env) *Term {
				return Implies(And(Not(Eq(val(env), from)), Eq(e0, from)), Exists([]*Term{j}, And(ix.done(st, env, j), body)))
			})
		}
	}
}

// closedForms guesses the memory at the loop head from one generic iteration.
func (lr *loopRun) closedForms(h0 X, rr *region, base int) {
	if len(rr.backs) == 0 {
		return
	}
	entry := lr.x0.st
	ixs := lr.indexings(h0, rr)
	for _, key := range sortedKeys(lr.mods) {
		if strings.HasPrefix(key, "V:") {
			key := key
			_ = key
			continue
		}
		for _, pat := range lr.mods[key] {
			key, pat := key, pat
			if pat.kind == 'x' {
				lr.exactForm(h0, rr, base, key, pat, ixs)
				continue
			}
			if pat.kind != 'e' && pat.kind != 'm' {
				continue
			}
			if pat.kind == 'm' && keys[key].res == SBool && len(keys[key].args) == 2 {
				lr.setCands(h0, rr, base, key, pat, ixs)
			}
			for _, ix := range ixs {
				if lr.indexedForm(h0, rr, base, key, pat, ix, entry) {
					break
				}
			}
		}
	}
}

// setCands: a set that only grows holds what it held at entry and what the iterations added.
func (lr *loopRun) setCands(h0 X, rr *region, base int, key string, pat Pat, ixs []indexing) {
	entry := lr.x0.st
	for _, ix := range ixs {
		ix := ix
		sort := keys[key].args[1]
		xv := Fresh("member", sort)
		old := h0.st.read(key, pat.args[0], xv)
		var gain *Term = False
		for _, b := range rr.backs {
			v := b.st.read(key, pat.args[0], xv)
			for _, w := range writesSince(h0.st.mem, b.st.mem) {
				if w.key == key && (w.u.kind != 's' || w.u.val == False) {
					if loopDebug {
						println("   set written otherwise", key, string(w.u.kind), clip(fmt.Sprint(w.u.val), 3000))
					}
					return
				}
			}
			if old == True {
				return
			}
			if old != False {
				v = Subst(v, map[*Term]*Term{old: False})
			}
			g := Subst(v, lr.localEqs(b, base, ix.sym))
			if g == False {
				continue
			}
			gain = Or(gain, And(lr.decisions(b, base, ix.sym), g))
		}
		if !lr.clean(gain, ix.sym, xv) {
			if loopDebug {
				println("   set gain unclean", key, clip(gain.String(), 400))
			}
			continue
		}
		j := BVarNamed(fmt.Sprintf("sj_%s_%d", sanit(ix.sort), lr.mark), ix.sort)
		m := BVarNamed(fmt.Sprintf("sm_%s_%d", sanit(sort), lr.mark), sort)
		body := Subst(gain, map[*Term]*Term{ix.sym: j, xv: m})
		in := func(st *State) *Term { return st.read(key, pat.args[0], m) }
		lr.addCand("members were added "+key, func(st *State, env *Env) *Term {
			return Forall([]*Term{m}, Implies(in(st), Or(in(entry), Exists([]*Term{j}, And(ix.done(st, env, j), body)))))
		})
		lr.addCand("added are members "+key, func(st *State, env *Env) *Term {
			return Forall([]*Term{j, m}, Implies(And(ix.done(st, env, j), body), in(st)))
		})
		lr.addCand("members stay "+key, func(st *State, env *Env) *Term {
			return Forall([]*Term{m}, Implies(in(entry), in(st)))
		})
		return
	}
}

// guard returns the part of a back edge's path condition expressible over the iteration index.
func (lr *loopRun) guard(b X, base int, sym *Term) *Term {
	var fs []*Term
	for _, f := range lr.resolveEqs(b.st.pc[base:], sym) {
		if lr.clean(f, sym) {
			fs = append(fs, f)
		}
	}
	return And(fs...)
}

// decided holds the conditions branches were taken on, as opposed to facts that hold anyway.
var decided = map[*Term]bool{}

func decide(c *Term) {
	decided[c] = true
	if c.Op == "and" {
		for _, a := range c.Args {
			decide(a)
		}
	}
}

// decisions is guard without the facts that hold on every path.
func (lr *loopRun) decisions(b X, base int, sym *Term) *Term {
	var pc, fs []*Term
	for _, f := range b.st.pc[base:] {
		if decided[f] || f.Op == "=" {
			pc = append(pc, f)
		}
	}
	for _, f := range lr.resolveEqs(pc, sym) {
		if lr.clean(f, sym) {
			fs = append(fs, f)
		}
	}
	return And(fs...)
}

func (lr *loopRun) localEqs(b X, base int, sym *Term) map[*Term]*Term {
	m := map[*Term]*Term{}
	for _, f := range b.st.pc[base:] {
		if f.Op != "=" {
			continue
		}
		x, y := f.Args[0], f.Args[1]
		for k := 0; k < 2; k++ {
			if x.Op == "var" && !lr.clean(x, sym) && lr.clean(y, sym) && m[x] == nil {
				m[x] = y
			}
			x, y = y, x
		}
	}
	return m
}

// indexedForm: cell I(j) holds V(j) once iteration j is complete and its entry value before.
func (lr *loopRun) indexedForm(h0 X, rr *region, base int, key string, pat Pat, ix indexing, entry *State) bool {
	dbg := func(why string, t ...*Term) bool {
		if loopDebug {
			println("   no indexed form for", key, why)
			for _, x := range t {
				println("      ", clip(x.String(), 400))
			}
		}
		return false
	}
	// all writes of one iteration go to one cell
	var idx []*Term
	for _, b := range rr.backs {
		for _, w := range writesSince(h0.st.mem, b.st.mem) {
			if w.key != key {
				continue
			}
			at := w.u.idx
			if w.u.kind == 'l' && len(w.u.pats) == 1 && w.u.pats[0].kind == 'x' {
				at = w.u.pats[0].args
			} else if w.u.kind != 's' {
				at = nil
			}
			if at != nil {
				if !pat.covers(at) {
					continue
				}
				if idx != nil && !sameIdx(idx, at) {
					return dbg("1", pos0(idx)...)
				}
				idx = at
			} else {
				return dbg("2", pos0(idx)...)
			}
		}
	}
	if idx == nil {
		return dbg("3", pos0(idx)...)
	}
	pos := idx[len(idx)-1]
	var inv func(p *Term) *Term // cell position -> iteration index
	var subs []int
	if pat.kind == 'e' {
		var a *Term
		a, subs = stripSubs(idx[0])
		if a.Op != "elem" || a.Args[0] != pat.args[0] {
			return dbg("4", pos0(idx)...)
		}
		pos = a.Args[1]
		d := Minus(pos, ix.sym)
		if ix.sort != SInt || mentions(d, ix.sym) || !lr.clean(d) {
			return dbg("5", pos0(idx)...)
		}
		inv = func(p *Term) *Term { return Minus(p, d) }
	} else {
		if pos != ix.sym {
			return dbg("6", pos0(idx)...)
		}
		inv = func(p *Term) *Term { return p }
	}
	// value written, over all ways round
	var V *Term
	hv, ev := h0.st.read(key, idx...), entry.read(key, idx...)
	for i := len(rr.backs) - 1; i >= 0; i-- {
		b := rr.backs[i]
		v := Subst(b.st.read(key, idx...), lr.localEqs(b, base, ix.sym))
		if len(hv.Args) > 0 {
			v = Subst(v, map[*Term]*Term{hv: ev}) // the cell of an iteration still to come is as at entry
		}
		if !lr.clean(v, ix.sym) {
			return dbg("unclean", v, ix.sym)
		}
		if V == nil {
			V = v
		} else if V != v {
			V = Ite(lr.guard(b, base, ix.sym), v, V)
		}
	}
	if V == nil {
		return dbg("8", pos0(idx)...)
	}
	lr.cls = append(lr.cls, &closed{key: key, pat: pat, subs: subs, name: "cells of " + key, form: func(st *State, env *Env, at []*Term) *Term {
		var p *Term
		if pat.kind == 'e' {
			a, sb := stripSubs(at[0])
			if a.Op != "elem" || !sameInts(sb, subs) {
				return nil
			}
			p = a.Args[1]
		} else {
			p = at[1]
		}
		j := inv(p)
		return Ite(ix.done(st, env, j), Subst(V, map[*Term]*Term{ix.sym: j}), entry.read(key, at...))
	}})
	return true
}

// stripSubs takes the field path off an address.
func stripSubs(a *Term) (*Term, []int) {
	var p []int
	for a.Op == "sub" {
		p = append([]int{int(a.I.Int64())}, p...)
		a = a.Args[0]
	}
	return a, p
}

func withSubs(a *Term, p []int) *Term {
	for _, f := range p {
		a = Sub(a, f)
	}
	return a
}

func sameInts(a, b []int) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func inArray(cell, arr *Term) bool {
	a, _ := stripSubs(cell)
	return a.Op == "elem" && a.Args[0] == arr
}

// nestedCands: an inner loop rewrote the elements of one array per iteration of this loop.
func (lr *loopRun) nestedCands(h0 X, rr *region, base int) {
	entry := lr.x0.st
	for _, ix := range lr.indexings(h0, rr) {
		ix := ix
		for _, key := range sortedKeys(lr.mods) {
			key := key
			if pats := lr.mods[key]; strings.HasPrefix(key, "V:") || len(pats) != 1 || pats[0].kind != 'a' {
				continue
			}
			var arr *Term
			var subs []int
			ok := true
			for _, b := range rr.backs {
				for _, w := range writesSince(h0.st.mem, b.st.mem) {
					if w.key != key || len(lr.patsOf(w)) == 0 {
						continue
					}
					if w.u.kind != 'l' || w.u.form == nil || len(w.u.pats) != 1 || w.u.pats[0].kind != 'e' {
						if loopDebug {
							println("  nested: other write", key, string(w.u.kind), w.u.form != nil, len(w.u.pats))
						}
						ok = false
						break
					}
					a := w.u.pats[0].args[0]
					if rootOf(a) == Null {
						continue
					}
					if arr != nil && (arr != a || !sameInts(subs, w.u.form.subs)) {
						ok = false
						break
					}
					arr, subs = a, w.u.form.subs
				}
			}
			if loopDebug {
				println("  nested", key, ok, arr != nil)
			}
			if !ok || arr == nil {
				continue
			}
			ps := BVarNamed(fmt.Sprintf("np_%d", lr.mark), SInt)
			pv := Fresh("np", SInt)
			cell := withSubs(Elem(arr, pv), subs)
			var T *Term
			for i := len(rr.backs) - 1; i >= 0; i-- {
				b := rr.backs[i]
				v := Subst(b.st.read(key, cell), lr.localEqs(b, base, ix.sym))
				if !lr.clean(v, ix.sym, pv) {
					if loopDebug {
						println("    unclean", clip(v.String(), 600))
					}
					T = nil
					break
				}
				if T == nil {
					T = v
				} else if T != v {
					T = Ite(lr.guard(b, base, ix.sym), v, T)
				}
			}
			// the array of the iteration, with the facts of the way round
			var gs []*Term
			for _, b := range rr.backs {
				gs = append(gs, lr.guard(b, base, ix.sym))
			}
			A := arr
			P := True
			if len(gs) > 0 {
				f := factor(gs)
				var ps []*Term
				conj := []*Term{f}
				if f.Op == "and" {
					conj = f.Args
				}
				for _, c := range conj {
					if mentions(c, ix.sym) && lr.clean(c, ix.sym) && c.Op == "app" && c.Sort == SBool {
						ps = append(ps, c)
					}
				}
				P = And(ps...)
			}
			if T == nil || !lr.clean(A, ix.sym) {
				continue
			}
			j := BVarNamed(fmt.Sprintf("nj_%s_%d", sanit(ix.sort), lr.mark), ix.sort)
			sb := map[*Term]*Term{ix.sym: j, pv: ps}
			At, Tt, Pt := Subst(A, sb), Subst(T, sb), Subst(P, sb)
			at := withSubs(Elem(At, ps), subs)
			lr.addCand("nested done "+key, func(st *State, env *Env) *Term {
				return Forall([]*Term{j, ps}, Implies(And(Pt, ix.done(st, env, j)), Eq(st.read(key, at), Tt)))
			})
			lr.addCand("nested rest "+key, func(st *State, env *Env) *Term {
				return Forall([]*Term{j, ps}, Implies(And(Pt, Not(ix.done(st, env, j))), Eq(st.read(key, at), entry.read(key, at))))
			})
		}
	}
}

// covers: the pattern syntactically includes the cell.
func (p Pat) covers(idx []*Term) bool {
	switch p.kind {
	case 'a':
		return true
	case 'x':
		return sameIdx(p.args, idx)
	case 'm':
		return idx[0] == p.args[0]
	case 'e':
		a := idx[0]
		for a.Op == "sub" {
			a = a.Args[0]
		}
		return a.Op == "elem" && a.Args[0] == p.args[0]
	}
	return false
}

// exactForm: accumulators in one fixed cell.
func (lr *loopRun) exactForm(h0 X, rr *region, base int, key string, pat Pat, ixs []indexing) {
	entry := lr.x0.st
	e0 := entry.read(key, pat.args...)
	if lr.main == nil {
		return
	}
	c0 := lr.entry(*lr.main)
	ch := lr.counterOf(h0.env)
	var form func(c *Term) *Term
	for _, b := range rr.backs {
		v := b.st.read(key, pat.args...)
		v = Subst(v, lr.localEqs(b, base, ch))
		var f func(c *Term) *Term
		switch {
		case v.Sort == SInt:
			d := Minus(v, e0)
			if d.Op == "int" {
				q, rem := new(big.Int).QuoRem(d.I, lr.step, new(big.Int))
				if rem.Sign() == 0 {
					f = func(c *Term) *Term { return Add(e0, Mul(IntB(q), Minus(c, c0))) }
				}
			}
		case v.Sort == SList:
			// entry ++ [nth(L, c+d)]
			tail := stripPrefix(v, e0)
			if tail != nil && tail.Op == "seqlit" && len(tail.Args) == 1 && tail.Args[0].Op == "seq.nth" {
				n := tail.Args[0]
				d := Minus(n.Args[1], ch)
				if lr.clean(n.Args[0]) && lr.clean(d) && lr.step.Cmp(big.NewInt(1)) == 0 {
					L := n.Args[0]
					f = func(c *Term) *Term { return SeqConcat(e0, SeqExtract(L, Add(c0, d), Minus(c, c0))) }
				}
			}
			if v == e0 {
				f = func(c *Term) *Term { return e0 }
			}
		}
		if f == nil && v == e0 {
			f = func(c *Term) *Term { return e0 }
		}
		if f == nil || form != nil && form(ch) != f(ch) {
			return
		}
		form = f
	}
	if form == nil {
		return
	}
	lr.cls = append(lr.cls, &closed{key: key, pat: pat, name: "accumulator " + key, form: func(st *State, env *Env, at []*Term) *Term {
		return form(lr.counterOf(env))
	}})
}

func stripPrefix(v, p *Term) *Term {
	if p.Op == "seqlit" && len(p.Args) == 0 {
		return v
	}
	if v.Op == "seq.++" {
		n := 1
		if p.Op == "seq.++" {
			n = len(p.Args)
		}
		if len(v.Args) > n && SeqConcat(v.Args[:n]...) == p {
			return SeqConcat(v.Args[n:]...)
		}
		// literals merged with the prefix
		if p.Op == "seqlit" && v.Args[0].Op == "seqlit" && len(v.Args[0].Args) >= len(p.Args) {
			for i := range p.Args {
				if p.Args[i] != v.Args[0].Args[i] {
					return nil
				}
			}
			return SeqConcat(append([]*Term{SeqLit(v.Args[0].Args[len(p.Args):]...)}, v.Args[1:]...)...)
		}
	}
	if v.Op == "seqlit" && p.Op == "seqlit" && len(v.Args) >= len(p.Args) {
		for i := range p.Args {
			if p.Args[i] != v.Args[i] {
				return nil
			}
		}
		return SeqLit(v.Args[len(p.Args):]...)
	}
	return nil
}

// abstractSlices: a slice that starts out nil and only grows by append is represented by one fresh array.
func (lr *loopRun) abstractSlices(h0 X, rr *region) {
	for _, p := range lr.phis {
		if !isSlice(p.Type()) {
			continue
		}
		arr := phiLeaf{p, 0}
		if lr.keep[arr] {
			continue
		}
		made := lr.entry(arr) != Null
		if made && !lr.startsMade(p) {
			continue
		}
		if lr.lin[phiLeaf{p, 2}] == nil {
			continue
		}
		ok := len(rr.backs) > 0
		for _, b := range rr.backs {
			a := b.env.vals[p].L[0]
			var fresh func(t *Term) bool
			fresh = func(t *Term) bool {
				if t.Op == "ite" {
					return fresh(t.Args[1]) && fresh(t.Args[2])
				}
				return t == lr.fresh[arr] || t.Op == "obj" && objId(t) > lr.amark
			}
			if !fresh(a) {
				ok = false
			}
		}
		if !ok {
			continue
		}
		o := NewObj()
		unzeroed[objId(o)] = true
		lr.amark = allocCount // the abstract array counts as existing
		ln := phiLeaf{p, 2}
		lr.phiForm[arr] = func(env *Env) *Term {
			n := lr.fresh[ln]
			if f := lr.phiForm[ln]; f != nil {
				n = f(env)
			} else if lr.main != nil && *lr.main == ln {
				n = lr.counterOf(env)
			}
			if made {
				return o // the array made for it has another name from here on
			}
			return Ite(Eq(n, Int(0)), Null, o)
		}
		lr.phiForm[phiLeaf{p, 1}] = func(env *Env) *Term { return Int(0) }
		lr.abstr[arr] = true
		el := under(p.Type()).(*types.Slice).Elem()
		if contentArr(el) != "" {
			continue
		}
		lr.growCands(h0, p, el, o)
	}
}

// startsMade: the slice starts out as an empty one whose array was made for it and is known under no other name.
func (lr *loopRun) startsMade(p *ssa.Phi) bool {
	if lr.entry(phiLeaf{p, 2}) != Int(0) || lr.entry(phiLeaf{p, 1}) != Int(0) || lr.entry(phiLeaf{p, 0}).Op != "obj" {
		return false
	}
	only := func(v ssa.Value, user ssa.Instruction) bool {
		for _, r := range *v.Referrers() {
			if _, ok := r.(*ssa.DebugRef); !ok && r != user {
				return false
			}
		}
		return true
	}
	found := false
	for i, e := range p.Edges {
		if lr.l.blocks[p.Block().Preds[i]] {
			continue
		}
		if !only(e, p) {
			return false
		}
		switch e := e.(type) {
		case *ssa.MakeSlice:
			found = true
		case *ssa.Slice:
			a, ok := e.X.(*ssa.Alloc)
			if !ok || !only(a, e) {
				return false
			}
			found = true
		default:
			return false
		}
	}
	return found
}

// prune drops the branches of a conditional term that a state excludes.
func (ex *Exec) prune(st *State, t *Term) *Term {
	var rec func(x *Term, path []*Term) *Term
	rec = func(x *Term, path []*Term) *Term {
		if len(path) > 8 {
			return x
		}
		if x.Op == "and" || x.Op == "or" {
			if !ex.feasible(st, append(append([]*Term{}, path...), x)...) {
				return False
			}
			if !ex.feasible(st, append(append([]*Term{}, path...), Not(x))...) {
				return True
			}
			var as []*Term
			for _, a := range x.Args {
				t, n := a, Not(a)
				if x.Op == "or" {
					t, n = n, t
				}
				if a.Sort != SBool || !ex.feasible(st, append(append([]*Term{}, path...), n)...) {
					continue // always true (false) here
				}
				_ = t
				as = append(as, rec(a, path))
			}
			if x.Op == "and" {
				return And(as...)
			}
			return Or(as...)
		}
		if x.Op != "ite" {
			return x
		}
		c := x.Args[0]
		if !ex.feasible(st, append(append([]*Term{}, path...), c)...) {
			return rec(x.Args[2], path)
		}
		if !ex.feasible(st, append(append([]*Term{}, path...), Not(c))...) {
			return rec(x.Args[1], path)
		}
		a := rec(x.Args[1], append(append([]*Term{}, path...), c))
		b := rec(x.Args[2], append(append([]*Term{}, path...), Not(c)))
		return Ite(c, a, b)
	}
	return rec(t, nil)
}

// growCands: the j-th appended element has the value iteration j gave it.
func (lr *loopRun) growCands(h0 X, p *ssa.Phi, el types.Type, o *Term) {
	// a fresh generic iteration from the abstract representation
	h := lr.headNoHavoc()
	rr := lr.body(cloneX(h), true)
	if len(rr.backs) == 0 {
		return
	}
	ixs := lr.indexings(h, rr)
	if loopDebug {
		println("  grow", len(rr.backs), len(ixs))
		for _, ix := range ixs {
			println("     ", ix.sort, ix.sym.String(), h.env.vals[p].L[2].String())
		}
	}
	if len(ixs) == 0 || ixs[0].sort != SInt {
		return
	}
	ix := ixs[0]
	base := len(h.st.pc)
	n := h.env.vals[p].L[2]
	off := Minus(n, ix.sym)
	if !lr.clean(off) {
		return
	}
	dummy := Elem(o, Int(0))
	type lf struct {
		key string
		i   int
	}
	nl := numLeaves(el)
	var vals []*Term
	raw := make([][]*Term, nl)
	for i := 0; i < nl; i++ {
		var V *Term
		for k := len(rr.backs) - 1; k >= 0; k-- {
			b := rr.backs[k]
			s := b.env.vals[p]
			v := b.st.load(Elem(s.L[0], Add(s.L[1], n)), el).L[i]
			if v.Op == "ite" || v.Op == "and" || v.Op == "or" {
				v = lr.r.ex.prune(b.st, v)
			}
			raw[i] = append(raw[i], v)
			v = Subst(v, lr.localEqs(b, base, ix.sym))
			if V == nil {
				V = v
			} else if V != v {
				V = Ite(lr.guard(b, base, ix.sym), v, V)
			}
		}
		if !lr.clean(V, ix.sym) {
			if loopDebug {
				println("   grown value unclean", clip(V.String(), 400))
			}
			lr.clockCands(p, i, el, V, ix, off)
			V = nil
		}
		vals = append(vals, V)
	}
	_ = dummy
	lr.extremeCands(rr, p, el, raw)
	for i, V := range vals {
		if V == nil {
			continue
		}
		i, V := i, V
		lr.addCand(fmt.Sprintf("grown %s.%d", p.Comment, i), func(st *State, env *Env) *Term {
			j := BVarNamed(fmt.Sprintf("gj_%d", lr.mark), SInt)
			s := env.vals[p]
			cell := st.load(Elem(s.L[0], Add(s.L[1], j)), el).L[i]
			if s.L[0].Op == "ite" && s.L[0].Args[1] == Null {
				cell = st.load(Elem(s.L[0].Args[2], Add(s.L[1], j)), el).L[i]
			}
			body := Subst(V, map[*Term]*Term{ix.sym: Minus(j, off)})
			return Forall([]*Term{j}, Implies(And(Le(Int(0), j), Lt(j, s.L[2])), Eq(cell, body)))
		})
	}
}

// grownCell is the i-th leaf of the j-th element of a slice built by the loop.
func grownCell(st *State, env *Env, p *ssa.Phi, el types.Type, i int, j *Term) *Term {
	s := env.vals[p]
	arr := s.L[0]
	if arr.Op == "ite" && arr.Args[1] == Null {
		arr = arr.Args[2]
	}
	return st.load(Elem(arr, Add(s.L[1], j)), el).L[i]
}

// clockCands: a value taken from the clock in iteration j lies between its values for the clock before and after.
func (lr *loopRun) clockCands(p *ssa.Phi, i int, el types.Type, V *Term, ix indexing, off *Term) {
	if V.Sort != SInt || keys["W:now"] == nil {
		return
	}
	fv := map[*Term]bool{}
	freeVars(V, fv)
	var sym *Term
	for t := range fv {
		if t.syms <= lr.mark || t == ix.sym {
			continue
		}
		own := false
		for _, f := range lr.fresh {
			if f == t {
				own = true
			}
		}
		if own || sym != nil {
			return
		}
		sym = t
	}
	if sym == nil || sym.Sort != SInt {
		return
	}
	entry := lr.x0.st
	lr.addCand("clock moves on", func(st *State, env *Env) *Term { return Le(entry.read("W:now"), st.read("W:now")) })
	for _, last := range []bool{false, true} {
		for _, up := range []bool{false, true} {
			last, up := last, up
			lr.addCand(fmt.Sprintf("clock %s.%d %v %v", p.Comment, i, last, up), func(st *State, env *Env) *Term {
				j := BVarNamed(fmt.Sprintf("gj_%d", lr.mark), SInt)
				t := entry.read("W:now")
				if last {
					t = st.read("W:now")
				}
				cell := grownCell(st, env, p, el, i, j)
				b := Subst(V, map[*Term]*Term{ix.sym: Minus(j, off), sym: t})
				c := Le(cell, b)
				if !up {
					c = Le(b, cell)
				}
				return Forall([]*Term{j}, Implies(And(Le(Int(0), j), Lt(j, env.vals[p].L[2])), c))
			})
		}
	}
}

// extremeCands: a variable that keeps the smallest or largest of the values appended, and the index it was found at.
func (lr *loopRun) extremeCands(rr *region, p *ssa.Phi, el types.Type, raw [][]*Term) {
	leaves := func(t *Term) []*Term {
		var out []*Term
		var rec func(x *Term)
		rec = func(x *Term) {
			if x.Op == "ite" {
				rec(x.Args[1])
				rec(x.Args[2])
				return
			}
			out = append(out, x)
		}
		rec(t)
		return out
	}
	for _, pl := range lr.leafs() {
		pl := pl
		if lr.keep[pl] || lr.fresh[pl] == nil || lr.fresh[pl].Sort != SInt || lr.main != nil && *lr.main == pl {
			continue
		}
		for i := range raw {
			i := i
			hit := false
			for k, b := range rr.backs {
				if k >= len(raw[i]) {
					continue
				}
				v := b.env.vals[pl.phi].L[pl.i]
				ls := leaves(v)
				if v == raw[i][len(rr.backs)-1-k] {
					hit = true
				}
				for _, x := range ls {
					for _, y := range raw[i] {
						if x != lr.fresh[pl] && (x == y || in(leaves(y), x)) {
							hit = true
						}
					}
				}
			}
			if !hit {
				continue
			}
			e0 := lr.entry(pl)
			val := func(env *Env) *Term { return env.vals[pl.phi].L[pl.i] }
			for _, least := range []bool{true, false} {
				least := least
				lr.addCand(fmt.Sprintf("extreme %s of %s.%d %v", pl.phi.Comment, p.Comment, i, least), func(st *State, env *Env) *Term {
					j := BVarNamed(fmt.Sprintf("gj_%d", lr.mark), SInt)
					cell := grownCell(st, env, p, el, i, j)
					c := Le(val(env), cell)
					if !least {
						c = Le(cell, val(env))
					}
					return Forall([]*Term{j}, Implies(And(Le(Int(0), j), Lt(j, env.vals[p].L[2])), c))
				})
			}
			for _, ql := range lr.leafs() {
				ql := ql
				if ql == pl || ql.phi == p || lr.keep[ql] || lr.fresh[ql] == nil || lr.fresh[ql].Sort != SInt {
					continue
				}
				q0 := lr.entry(ql)
				lr.addCand(fmt.Sprintf("found %s of %s.%d at %s", pl.phi.Comment, p.Comment, i, ql.phi.Comment), func(st *State, env *Env) *Term {
					q := env.vals[ql.phi].L[ql.i]
					return Or(And(Eq(val(env), e0), Eq(q, q0)),
						And(Le(Int(0), q), Lt(q, env.vals[p].L[2]), Eq(val(env), grownCell(st, env, p, el, i, q))))
				})
			}
		}
	}
}

func in(ts []*Term, t *Term) bool {
	for _, x := range ts {
		if x == t {
			return true
		}
	}
	return false
}

// frameCands: simple facts about values the loop may change.
func (lr *loopRun) frameCands(h0 X) {
	for _, pl := range lr.leafs() {
		pl := pl
		if lr.keep[pl] || lr.phiForm[pl] != nil || lr.main != nil && *lr.main == pl {
			continue
		}
		e0 := lr.entry(pl)
		val := func(env *Env) *Term { return env.vals[pl.phi].L[pl.i] }
		switch lr.fresh[pl].Sort {
		case SAddr:
			lr.addCand("nonnil "+pl.phi.Comment, func(st *State, env *Env) *Term { return Not(Eq(val(env), Null)) })
		case SIface:
			lr.addCand("same "+pl.phi.Comment, func(st *State, env *Env) *Term { return Eq(val(env), e0) })
			lr.addCand("nonnil "+pl.phi.Comment, func(st *State, env *Env) *Term { return Not(Eq(val(env), INil)) })
		case SInt:
			lr.addCand("ge "+pl.phi.Comment, func(st *State, env *Env) *Term { return Le(e0, val(env)) })
			if lr.main != nil && lr.step.Sign() > 0 {
				c0 := lr.entry(*lr.main)
				// an index taken from the counter
				lr.addCand("idx "+pl.phi.Comment, func(st *State, env *Env) *Term {
					return Or(Eq(val(env), e0), And(Le(c0, val(env)), Le(val(env), lr.counterOf(env))))
				})
			}
		case SStr, SBool:
			lr.addCand("same "+pl.phi.Comment, func(st *State, env *Env) *Term { return Eq(val(env), e0) })
		}
	}
	// cells
	for _, key := range sortedKeys(lr.mods) {
		if strings.HasPrefix(key, "V:") {
			continue
		}
		for _, pat := range lr.mods[key] {
			if pat.kind != 'x' {
				continue
			}
			key, pat := key, pat
			e0 := lr.x0.st.read(key, pat.args...)
			lr.addCand("cell "+key, func(st *State, env *Env) *Term { return Eq(st.read(key, pat.args...), e0) })
			switch keys[key].res {
			case SAddr:
				lr.addCand("cell nonnil "+key, func(st *State, env *Env) *Term { return Not(Eq(st.read(key, pat.args...), Null)) })
			case SInt:
				lr.addCand("cell ge "+key, func(st *State, env *Env) *Term { return Le(e0, st.read(key, pat.args...)) })
				if keys[key].nn && len(key) > 4 && key[len(key)-4:] == ".len" {
					ck := key[:len(key)-4] + ".cap"
					lr.addCand("cell lencap "+key, func(st *State, env *Env) *Term {
						return Le(st.read(key, pat.args...), st.read(ck, pat.args...))
					})
				}
			}
		}
	}
	// everything visited was in the map when the loop started
	for _, k := range sortedUniq(lr.visit) {
		k := k
		for _, it := range iters {
			if it.key != k || it.str {
				continue
			}
			it := it
			entry := &State{mem: it.entry}
			lr.addCand("visited "+k, func(st *State, env *Env) *Term {
				b := BVarNamed("vk_"+k, leafSorts(under(it.m.T).(*types.Map).Key())[0])
				f := And(Not(Eq(it.m.t(), Null)), lr.ex.mapDom(entry, it.m, b))
				if isHeaderMap(it.m.T) {
					f = And(f, Eq(App("canon", SStr, b), b))
				}
				return Forall([]*Term{b}, Implies(st.read(k, b), f))
			})
			break
		}
	}
}

// contractCands: the clauses the contract of the enclosing function declares as candidates.
func (lr *loopRun) contractCands() {
	lr.cands = append(lr.cands, lr.ex.v.loopCandidates(lr, lr.r.fr)...)
}

// ---- Houdini

var loopDebug = os.Getenv("GV_LOOP") != ""

func (lr *loopRun) houdini() {
	ex := lr.ex
	// initiation
	live := lr.cands[:0]
	for _, c := range lr.cands {
		t := safeTerm(func() *Term { return c.f(lr.x0.st, lr.x0.env) })
		if t == nil || !ex.v.entails(lr.x0.st.pc, t) {
			if loopDebug {
				fmt.Fprintf(os.Stderr, "  loop %s: init fails: %s\n", lr.r.fr.fn, c.name)
			}
			continue
		}
		live = append(live, c)
	}
	lr.cands = live
	for _, c := range lr.cls {
		if !lr.clsHolds(c, lr.x0, nil) {
			c.bad = true
			if loopDebug {
				fmt.Fprintf(os.Stderr, "  loop %s: init fails: %s\n", lr.r.fr.fn, c.name)
			}
		}
	}
	for round := 0; round < 40; round++ {
		h := lr.head(true, nil)
		rr := lr.body(cloneX(h), true)
		changed := false
		for _, c := range lr.cls {
			if c.bad {
				continue
			}
			for _, b := range rr.backs {
				if !lr.clsHolds(c, b, &h) {
					c.bad = true
					changed = true
					if loopDebug {
						fmt.Fprintf(os.Stderr, "  loop %s: not preserved: %s\n", lr.r.fr.fn, c.name)
					}
					break
				}
			}
		}
		if changed {
			// the weaker memory may break everything else: start over
			continue
		}
		for _, c := range lr.cands {
			if c.bad {
				continue
			}
			for _, b := range rr.backs {
				t := safeTerm(func() *Term { return c.f(b.st, b.env) })
				if t == nil || !ex.v.entails(b.st.pc, t) && !(c.declared && ex.v.shows(b.st.pc, t)) {
					c.bad = true
					changed = true
					if loopDebug {
						fmt.Fprintf(os.Stderr, "  loop %s: not preserved: %s\n", lr.r.fr.fn, c.name)
						if n := os.Getenv("GV_CAND"); n != "" && strings.Contains(c.name, n) && t != nil {
							for _, p := range b.st.pc {
								fmt.Fprintf(os.Stderr, "    PC %s\n", p)
							}
							fmt.Fprintf(os.Stderr, "    GOAL %s\n", t)
						}
					}
					break
				}
			}
		}
		if !changed {
			if loopDebug {
				for _, c := range lr.cands {
					if !c.bad {
						fmt.Fprintf(os.Stderr, "  loop %s: invariant %s\n", lr.r.fr.fn, c.name)
					}
				}
				for _, c := range lr.cls {
					if !c.bad {
						fmt.Fprintf(os.Stderr, "  loop %s: closed form %s\n", lr.r.fr.fn, c.name)
					}
				}
			}
			return
		}
	}
	unsupp("loop invariants of %s do not stabilise", lr.r.fr.fn)
}

func safeTerm(f func() *Term) (t *Term) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(unsupported); ok {
				t = nil
				return
			}
			panic(e)
		}
	}()
	return f()
}

// clsHolds: the closed form describes the cells of its pattern in state x.
func (lr *loopRun) clsHolds(c *closed, x X, h *X) bool {
	var idx []*Term
	switch c.pat.kind {
	case 'x':
		idx = c.pat.args
	case 'e':
		idx = []*Term{withSubs(Elem(c.pat.args[0], Fresh("sk", SInt)), c.subs)}
	case 'm':
		idx = []*Term{c.pat.args[0], Fresh("sk", keys[c.key].args[1])}
	}
	want := c.form(x.st, x.env, idx)
	if want == nil {
		return false
	}
	got := x.st.read(c.key, idx...)
	if got.Sort == SList {
		got = lr.ex.v.absorb(x.st.pc, got)
	}
	return lr.ex.v.entails(x.st.pc, Eq(got, want))
}

// absorb merges L[a:a+n] ++ [L[a+n]] to L[a:a+n+1] where the bounds hold.
func (v *Verifier) absorb(pc []*Term, t *Term) *Term {
	if t.Op != "seq.++" {
		return t
	}
	args := append([]*Term{}, t.Args...)
	for i := 0; i+1 < len(args); i++ {
		e, l := args[i], args[i+1]
		if e.Op != "seq.extract" || l.Op != "seqlit" || len(l.Args) == 0 || l.Args[0].Op != "seq.nth" || l.Args[0].Args[0] != e.Args[0] {
			continue
		}
		L, a, n, m := e.Args[0], e.Args[1], e.Args[2], l.Args[0].Args[1]
		if Add(a, n) != m || !v.entails(pc, And(Le(Int(0), a), Le(Int(0), n), Lt(m, SeqLen(L)))) {
			continue
		}
		args[i] = SeqExtract(L, a, Add(n, Int(1)))
		if len(l.Args) == 1 {
			args = append(args[:i+1], args[i+2:]...)
		} else {
			args[i+1] = SeqLit(l.Args[1:]...)
		}
		i--
	}
	return SeqConcat(args...)
}

// finish runs the loop once more from the proven invariant, with obligations enabled.
func (lr *loopRun) finish() []exitEdge {
	h := lr.head(true, nil)
	ex := lr.ex
	// regular exits with the counter at its final value
	var direct []exitEdge
	useFinal := false
	if lr.final != nil && lr.clean(lr.final) {
		// which side of the header test leaves the loop
		iff := lr.l.header.Instrs[len(lr.l.header.Instrs)-1].(*ssa.If)
		_ = iff
		hx := lr.head(true, nil)
		ex.record++
		pr := &region{ex: ex, fr: lr.r.fr, lt: lr.r.lt, blocks: map[*ssa.BasicBlock]bool{lr.l.header: true}, header: lr.l.header}
		hx.pred = nil
		pr.run(lr.l.header, []X{hx})
		ex.record--
		ok := true
		n := 0
		for _, e := range pr.exits {
			if lr.l.blocks[e.to] {
				continue
			}
			n++
			if !ex.v.entails(e.x.st.pc, Eq(lr.counterOf(h.env), lr.final)) {
				ok = false
			}
		}
		if ok && n > 0 {
			fx := lr.head(true, lr.final)
			fx.pred = nil
			pr := &region{ex: ex, fr: lr.r.fr, lt: lr.r.lt, blocks: map[*ssa.BasicBlock]bool{lr.l.header: true}, header: lr.l.header}
			pr.run(lr.l.header, []X{fx})
			for _, e := range pr.exits {
				if !lr.l.blocks[e.to] {
					direct = append(direct, e)
				}
			}
			useFinal = true
		}
	}
	rr := lr.body(h, false)
	lr.r.outs = append(lr.r.outs, rr.outs...)
	var exits []exitEdge
	for _, e := range rr.exits {
		if useFinal && e.x.pred == lr.l.header {
			continue
		}
		exits = append(exits, e)
	}
	return append(exits, direct...)
}

func pos0(idx []*Term) []*Term { return idx }
