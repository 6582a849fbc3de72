package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math/big"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type unsupported string

func unsupp(f string, a ...interface{}) { panic(unsupported(fmt.Sprintf(f, a...))) }

// Frame is one activation of a function.
type Frame struct {
	fn     *ssa.Function
	caller *Frame
	depth  int
	bind   []Val
	site   token.Pos
}

type deferRec struct {
	call *ssa.CallCommon
	fnv  Val
	args []Val
	pos  token.Pos
}

type Env struct {
	vals   map[ssa.Value]Val
	defers []deferRec
	up     *Env // caller's environment (for recover detection)
}

func (e *Env) clone() *Env {
	n := &Env{vals: make(map[ssa.Value]Val, len(e.vals)+8), up: e.up}
	for k, v := range e.vals {
		n.vals[k] = v
	}
	n.defers = e.defers[:len(e.defers):len(e.defers)]
	return n
}

type X struct {
	st   *State
	env  *Env
	pred *ssa.BasicBlock
}

const (
	kRet = iota
	kPanic
	kExit
)

type Outcome struct {
	kind int
	st   *State
	vals []Val
	msg  string
	pos  token.Pos
}

type closureInfo struct {
	fn   *ssa.Function
	bind []Val
}

var closures = map[int]*closureInfo{} // object id -> closure
var funcIds = map[*ssa.Function]int{}
var funcById = map[int]*ssa.Function{}

func funcAddr(f *ssa.Function) *Term {
	id, ok := funcIds[f]
	if !ok {
		id = -1000000 - len(funcIds)
		funcIds[f] = id
		funcById[id] = f
	}
	return Obj(id)
}

var globalIds = map[*ssa.Global]int{}

func globalAddr(g *ssa.Global) *Term {
	id, ok := globalIds[g]
	if !ok {
		id = -1 - len(globalIds)
		globalIds[g] = id
	}
	return Obj(id)
}

type iterInfo struct {
	m     Val
	entry Mem
	key   string // visited key
	str   bool
}

var iters = map[int]*iterInfo{}

// pending is a goroutine that has been started and not yet run.
type pending struct {
	fn   *ssa.Function
	bind []Val
	args []Val
	mem  Mem // memory when started
	site token.Pos
}

type Exec struct {
	v         *Verifier
	record    int // >0: obligations are suppressed
	cur       *FnCheck
	stack     []*ssa.Function
	steps     int
	loopInfo  map[*ssa.Function]*loopTree
	goHook    func(x *X, p *pending)
	noInline  map[*ssa.Function]bool
	inGo      int
	flags     map[string]*Term // command line flags defined
	interfere bool
}

const maxSteps = 4000000

// ---- running a function body

func (ex *Exec) runFn(fn *ssa.Function, args []Val, bind []Val, st *State, up *Env, caller *Frame, site token.Pos) []Outcome {
	ex.v.funcsSeen[shortName(fn)] = true
	if len(fn.Blocks) == 0 {
		unsupp("function %s has no body", fn)
	}
	fr := &Frame{fn: fn, caller: caller, bind: bind, site: site}
	if caller != nil {
		fr.depth = caller.depth + 1
	}
	if fr.depth > 40 {
		unsupp("call depth at %s", fn)
	}
	env := &Env{vals: map[ssa.Value]Val{}, up: up}
	for i, p := range fn.Params {
		if len(args[i].L) != numLeaves(p.Type()) {
			unsupp("argument %d of %s: %d leaves for %s (%s)", i, fn, len(args[i].L), tstr(p.Type()), tstr(args[i].T))
		}
		env.vals[p] = Val{p.Type(), args[i].L}
	}
	for i, f := range fn.FreeVars {
		env.vals[f] = Val{f.Type(), bind[i].L}
	}
	lt := ex.loops(fn)
	r := &region{ex: ex, fr: fr, lt: lt, blocks: nil}
	r.run(fn.Blocks[0], []X{{st: st, env: env}})
	outs := r.outs
	// deferred calls of panicking activations
	var res []Outcome
	for _, o := range outs {
		res = append(res, o)
	}
	return ex.mergeOutcomes(res)
}

// mergeOutcomes joins normal returns when that is cheap.
func (ex *Exec) mergeOutcomes(outs []Outcome) []Outcome {
	var rets, rest []Outcome
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		if o.kind == kRet {
			rets = append(rets, o)
		} else {
			rest = append(rest, o)
		}
	}
	changed := true
	for changed && len(rets) > 1 {
		changed = false
		for i := 0; i < len(rets) && !changed; i++ {
			for j := i + 1; j < len(rets) && !changed; j++ {
				if m, ok := mergeOut(rets[i], rets[j], len(rets)); ok {
					rets[i] = m
					rets = append(rets[:j], rets[j+1:]...)
					changed = true
				}
			}
		}
	}
	return append(rets, rest...)
}

func mergeOut(a, b Outcome, n int) (Outcome, bool) {
	sel, st, ok := mergeStates(a.st, b.st, n)
	if !ok {
		return a, false
	}
	o := Outcome{kind: kRet, st: st, pos: a.pos}
	for i := range a.vals {
		o.vals = append(o.vals, iteVal(sel, a.vals[i], b.vals[i]))
	}
	return o, true
}

var mergeLimit = 8

// mergeStates joins two states; sel selects the first.
func mergeStates(a, b *State, n int) (*Term, *State, bool) {
	if len(a.pend) != len(b.pend) {
		return nil, nil, false
	}
	for i := range a.pend {
		if a.pend[i] != b.pend[i] {
			return nil, nil, false
		}
	}
	if len(a.vol) != len(b.vol) || len(a.snap) != len(b.snap) {
		return nil, nil, false
	}
	for i := range a.vol {
		if a.vol[i] != b.vol[i] {
			return nil, nil, false
		}
	}
	for i := range a.snap {
		if a.snap[i].ch != b.snap[i].ch {
			return nil, nil, false
		}
	}
	k := 0
	for k < len(a.pc) && k < len(b.pc) && a.pc[k] == b.pc[k] {
		k++
	}
	da, db := a.pc[k:], b.pc[k:]
	d := memDiff(a.mem, b.mem)
	lim := mergeLimit
	if n > 24 {
		lim = 1 << 30
	}
	if d > lim {
		return nil, nil, false
	}
	var sel *Term
	if len(da) > 0 && len(db) > 0 && da[0] == Not(db[0]) {
		sel = da[0]
	} else {
		ca, cb := And(da...), And(db...)
		if len(da) == 0 || len(db) == 0 {
			// one path condition implies the other: only safe when nothing differs
			if d == 0 && len(da) == 0 && len(db) == 0 {
				sel = True
			} else {
				return nil, nil, false
			}
		} else if exclusive(da, db) {
			sel = ca
			_ = cb
		} else {
			return nil, nil, false
		}
	}
	st := &State{mem: mergeMem(sel, a.mem, b.mem), pend: a.pend, vol: a.vol, snap: a.snap, allocMark: a.allocMark}
	for i := range a.snap {
		_ = i
		if d > 0 {
			return nil, nil, false
		}
	}
	for i := range a.vol {
		st.volFlag = append(st.volFlag, Ite(sel, a.volFlag[i], b.volFlag[i]))
	}
	st.pc = append(st.pc, a.pc[:k]...)
	if sel == True {
		return sel, st, true
	}
	if len(da) > 0 && len(db) > 0 && da[0] == Not(db[0]) {
		for _, f := range da[1:] {
			st.assume(Implies(sel, f))
		}
		for _, f := range db[1:] {
			st.assume(Implies(Not(sel), f))
		}
	} else {
		st.assume(Or(And(da...), And(db...)))
	}
	st.path = a.path
	if len(b.path) < len(a.path) {
		st.path = b.path
	}
	return sel, st, true
}

// exclusive: the two conjunctions contain complementary literals.
func exclusive(a, b []*Term) bool {
	set := map[*Term]bool{}
	for _, x := range a {
		set[x] = true
	}
	for _, y := range b {
		if set[Not(y)] {
			return true
		}
	}
	return And(append(append([]*Term{}, a...), b...)...) == False
}

// ---- regions

type exitEdge struct {
	to *ssa.BasicBlock
	x  X
}

type region struct {
	ex     *Exec
	fr     *Frame
	lt     *loopTree
	blocks map[*ssa.BasicBlock]bool // nil: whole function
	header *ssa.BasicBlock          // loop header of this region (edges to it are back edges)
	first  bool
	backs  []X
	exits  []exitEdge
	outs   []Outcome
	decide func(b *ssa.BasicBlock, cond *Term) // observes decisions
	seen   func(x X)
}

func (r *region) in(b *ssa.BasicBlock) bool { return r.blocks == nil || r.blocks[b] }

func (r *region) run(start *ssa.BasicBlock, xs []X) {
	pend := map[*ssa.BasicBlock][]X{start: xs}
	for _, b := range r.lt.rpo {
		if !r.in(b) {
			continue
		}
		in := pend[b]
		delete(pend, b)
		if len(in) == 0 {
			continue
		}
		if l := r.lt.byHeader[b]; l != nil && b != r.header {
			for _, e := range r.ex.runLoop(r, l, in) {
				r.edge(pend, e.to, e.x)
			}
			continue
		}
		in = r.enter(b, in)
		for _, x := range in {
			if x.st.dead {
				continue
			}
			r.block(b, x, pend)
		}
	}
	for b := range pend {
		unsupp("unreached pending block %s in %s", b, r.fr.fn)
	}
}

func (r *region) edge(pend map[*ssa.BasicBlock][]X, to *ssa.BasicBlock, x X) {
	if x.st.dead {
		return
	}
	if to == r.header {
		r.backs = append(r.backs, x)
		return
	}
	if !r.in(to) {
		r.exits = append(r.exits, exitEdge{to, x})
		return
	}
	pend[to] = append(pend[to], x)
}

// enter evaluates the phis of b and merges the incoming states.
func (r *region) enter(b *ssa.BasicBlock, in []X) []X {
	var phis []*ssa.Phi
	for _, i := range b.Instrs {
		if p, ok := i.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	for k := range in {
		x := &in[k]
		if x.pred == nil {
			continue
		}
		pi := -1
		for i, p := range b.Preds {
			if p == x.pred {
				pi = i
			}
		}
		if pi < 0 {
			unsupp("phi edge")
		}
		if len(phis) > 0 {
			vals := make([]Val, len(phis))
			for i, p := range phis {
				vals[i] = r.ex.val(r.fr, x, p.Edges[pi])
				vals[i].T = p.Type()
			}
			e := x.env.clone()
			for i, p := range phis {
				e.vals[p] = vals[i]
			}
			x.env = e
		}
	}
	return mergeXs(in, phis)
}

func mergeXs(in []X, phis []*ssa.Phi) []X {
	changed := len(in) > 1
	for changed {
		changed = false
		for i := 0; i < len(in) && !changed; i++ {
			for j := i + 1; j < len(in) && !changed; j++ {
				if m, ok := mergeX(in[i], in[j], len(in)); ok {
					in[i] = m
					in = append(in[:j:j], in[j+1:]...)
					changed = true
				}
			}
		}
	}
	return in
}

func mergeX(a, b X, n int) (X, bool) {
	if len(a.env.defers) != len(b.env.defers) {
		return a, false
	}
	sel, st, ok := mergeStates(a.st, b.st, n)
	if !ok {
		return a, false
	}
	e := &Env{vals: make(map[ssa.Value]Val, len(a.env.vals)), up: a.env.up, defers: a.env.defers}
	for k, v := range a.env.vals {
		if w, ok := b.env.vals[k]; ok {
			if len(v.L) != len(w.L) {
				continue
			}
			e.vals[k] = iteVal(sel, v, w)
		}
	}
	return X{st: st, env: e, pred: a.pred}, true
}

func (r *region) block(b *ssa.BasicBlock, x X, pend map[*ssa.BasicBlock][]X) {
	xs := []X{x}
	keep := false
	for _, ins := range b.Instrs {
		switch i := ins.(type) {
		case *ssa.Phi, *ssa.DebugRef:
			continue
		case *ssa.Jump:
			for _, x := range xs {
				x.pred = b
				r.edge(pend, b.Succs[0], x)
			}
			return
		case *ssa.If:
			for _, x := range xs {
				c := r.ex.val(r.fr, &x, i.Cond).t()
				if r.seen != nil {
					r.seen(x)
				}
				if r.decide != nil {
					r.decide(b, c)
				}
				r.ex.branch(x, c, i.Cond.Pos(), func(y X, taken bool) {
					y.pred = b
					if taken {
						r.edge(pend, b.Succs[0], y)
					} else {
						r.edge(pend, b.Succs[1], y)
					}
				})
			}
			return
		case *ssa.Return:
			for _, x := range xs {
				var vs []Val
				for k, rv := range i.Results {
					v := r.ex.val(r.fr, &x, rv)
					v.T = r.fr.fn.Signature.Results().At(k).Type()
					vs = append(vs, v)
				}
				r.outs = append(r.outs, Outcome{kind: kRet, st: x.st, vals: vs, pos: i.Pos()})
			}
			return
		case *ssa.Panic:
			for _, x := range xs {
				r.panicPath(x, "explicit panic", i.Pos())
			}
			return
		case *ssa.RunDefers:
			var nx []X
			for _, x := range xs {
				nx = append(nx, r.runDefers(x)...)
			}
			xs = nx
		default:
			var nx []X
			for _, x := range xs {
				nx = append(nx, r.instr(ins, x)...)
			}
			xs = nx
			if _, nx := ins.(*ssa.Next); nx {
				keep = true // the following test of the iterator tells the states apart
			}
			if len(xs) > 1 && !keep {
				xs = mergeXs(xs, nil)
			}
		}
		if len(xs) == 0 {
			return
		}
	}
}

// branch splits on a condition, dropping infeasible sides.
func (ex *Exec) branch(x X, c *Term, pos token.Pos, f func(X, bool)) {
	if c == True {
		f(x, true)
		return
	}
	if c == False {
		f(x, false)
		return
	}
	t := ex.feasible(x.st, c)
	e := ex.feasible(x.st, Not(c))
	decide(c)
	decide(Not(c))
	if t && e {
		y := X{st: x.st.clone(), env: x.env.clone()}
		x.st.assume(c)
		y.st.assume(Not(c))
		f(x, true)
		f(y, false)
		return
	}
	if t {
		f(x, true)
	} else if e {
		f(x, false)
	}
}

func (ex *Exec) feasible(st *State, extra ...*Term) bool {
	ex.steps++
	if ex.steps > maxSteps {
		unsupp("too many steps")
	}
	return ex.v.feasible(append(append([]*Term{}, st.pc...), extra...))
}

// ---- panics and defers

// recoverable tells whether some active frame has a pending deferred recover.
func recoverable(e *Env) bool {
	for ; e != nil; e = e.up {
		for _, d := range e.defers {
			if callsRecover(d) {
				return true
			}
		}
	}
	return false
}

func callsRecover(d deferRec) bool {
	var fn *ssa.Function
	if d.call != nil {
		fn = d.call.StaticCallee()
	}
	if fn == nil && len(d.fnv.L) > 0 && d.fnv.L[0].Op == "obj" {
		if c := closures[objId(d.fnv.L[0])]; c != nil {
			fn = c.fn
		} else {
			fn = funcById[objId(d.fnv.L[0])]
		}
	}
	if fn == nil {
		return false
	}
	for _, b := range fn.Blocks {
		for _, i := range b.Instrs {
			if c, ok := i.(*ssa.Call); ok {
				if bi, ok := c.Call.Value.(*ssa.Builtin); ok && bi.Name() == "recover" {
					return true
				}
			}
		}
	}
	return false
}

const panicKey = "G:panicking"

// panicPath unwinds the current frame of x.
func (r *region) panicPath(x X, msg string, pos token.Pos) {
	regKey(panicKey, SBool)
	if len(x.env.defers) == 0 {
		r.outs = append(r.outs, Outcome{kind: kPanic, st: x.st, msg: msg, pos: pos})
		return
	}
	x.st.write(panicKey, True)
	for _, y := range r.runDefers(x) {
		if y.st.read(panicKey) == False {
			// recovered: return the named results
			fn := r.fr.fn
			if fn.Recover != nil {
				rr := &region{ex: r.ex, fr: r.fr, lt: r.lt}
				rr.run(fn.Recover, []X{{st: y.st, env: y.env}})
				r.outs = append(r.outs, rr.outs...)
				continue
			}
			var vs []Val
			for k := 0; k < fn.Signature.Results().Len(); k++ {
				vs = append(vs, zeroVal(fn.Signature.Results().At(k).Type()))
			}
			r.outs = append(r.outs, Outcome{kind: kRet, st: y.st, vals: vs, pos: pos})
			continue
		}
		y.st.write(panicKey, False)
		r.outs = append(r.outs, Outcome{kind: kPanic, st: y.st, msg: msg, pos: pos})
	}
}

func (r *region) runDefers(x X) []X {
	xs := []X{x}
	for {
		var next []X
		done := true
		for _, x := range xs {
			n := len(x.env.defers)
			if n == 0 {
				next = append(next, x)
				continue
			}
			done = false
			d := x.env.defers[n-1]
			e := x.env.clone()
			e.defers = e.defers[:n-1]
			x.env = e
			for _, o := range r.ex.call(r.fr, x, d.call, d.fnv, d.args, d.pos) {
				switch o.kind {
				case kRet:
					next = append(next, X{st: o.st, env: e.clone(), pred: x.pred})
				default:
					if o.kind == kPanic && o.st != nil {
						o.st.write(panicKey, False)
					}
					r.outs = append(r.outs, o)
				}
			}
		}
		xs = next
		if done {
			return xs
		}
	}
}

// check records a safety obligation; the returned states satisfy cond.
// Where a deferred recover is pending the failing side continues as a panic.
func (r *region) check(x *X, cond *Term, what string, pos token.Pos) bool {
	if cond == True {
		return true
	}
	ex := r.ex
	if recoverable(x.env) {
		if ex.feasible(x.st, Not(cond)) {
			y := X{st: x.st.clone(), env: x.env.clone(), pred: x.pred}
			y.st.assume(Not(cond))
			r.panicPath(y, what, pos)
		}
	} else {
		ex.safety(x.st, cond, what, r.fr, pos)
	}
	x.st.assume(cond)
	if cond == False || x.st.dead {
		return false
	}
	return true
}

// ---- values

func (ex *Exec) val(fr *Frame, x *X, v ssa.Value) Val {
	switch c := v.(type) {
	case *ssa.Const:
		return constVal(c.Value, c.Type())
	case *ssa.Global:
		return Val{c.Type(), []*Term{globalAddr(c)}}
	case *ssa.Function:
		return Val{c.Type(), []*Term{funcAddr(c)}}
	case *ssa.Builtin:
		return Val{c.Type(), []*Term{Null}}
	}
	if r, ok := x.env.vals[v]; ok {
		return r
	}
	unsupp("value %s (%T) undefined in %s", v.Name(), v, fr.fn)
	return Val{}
}

// freshVal makes an unconstrained value; the facts of its type are assumed.
func (ex *Exec) freshVal(st *State, hint string, t types.Type) Val {
	v := Val{T: t}
	for i, s := range leafSorts(t) {
		v.L = append(v.L, Fresh(fmt.Sprintf("%s.%d", hint, i), s))
	}
	st.assume(typeFacts(v)...)
	return v
}

// typeFacts are the invariants every value of the type satisfies.
func typeFacts(v Val) []*Term {
	var out []*Term
	var rec func(t types.Type, ls []*Term)
	rec = func(t types.Type, ls []*Term) {
		if tup, ok := t.(*types.Tuple); ok {
			off := 0
			for i := 0; i < tup.Len(); i++ {
				n := numLeaves(tup.At(i).Type())
				rec(tup.At(i).Type(), ls[off:off+n])
				off += n
			}
			return
		}
		if isStruct(t) {
			st := under(t).(*types.Struct)
			off := 0
			for i := 0; i < st.NumFields(); i++ {
				n := numLeaves(st.Field(i).Type())
				rec(st.Field(i).Type(), ls[off:off+n])
				off += n
			}
			return
		}
		switch {
		case isSlice(t):
			out = append(out, sliceFacts(ls)...)
		case isInteger(t) && isUnsigned(t):
			out = append(out, Le(Int(0), ls[0]))
			if m := uintMax(t); m != nil {
				out = append(out, Le(ls[0], IntB(m)))
			}
		}
	}
	rec(v.T, v.L)
	return out
}

func sliceFacts(ls []*Term) []*Term {
	return []*Term{Le(Int(0), ls[1]), Le(Int(0), ls[2]), Le(ls[2], ls[3]), Implies(Eq(ls[0], Null), Eq(ls[3], Int(0)))}
}

func uintMax(t types.Type) *big.Int {
	b := under(t).(*types.Basic)
	switch b.Kind() {
	case types.Uint8:
		return big.NewInt(255)
	case types.Uint16:
		return big.NewInt(65535)
	case types.Uint32:
		return new(big.Int).SetUint64(1<<32 - 1)
	}
	return nil
}

// loadFacts assumes the type facts of a value read from symbolic memory.
func (ex *Exec) loadVal(st *State, a *Term, t types.Type) Val {
	if len(st.vol) > 0 {
		touchCells(st, a, t)
	}
	v := st.load(a, t)
	for _, f := range typeFacts(v) {
		if !f.bound {
			st.assumeOnce(f)
		}
	}
	if isSlice(t) && !v.L[0].bound && contentArr(under(t).(*types.Slice).Elem()) == "B" {
		// a slice lies within its array
		st.assumeOnce(Le(Add(v.L[1], v.L[2]), StrLen(st.read("B", v.L[0]))))
	}
	return v
}

func (s *State) assumeOnce(t *Term) {
	if t == True {
		return
	}
	for i := len(s.pc) - 1; i >= 0 && i > len(s.pc)-60; i-- {
		if s.pc[i] == t {
			return
		}
	}
	s.assume(t)
}

// ---- instructions

func one(x X) []X { return []X{x} }

func (r *region) set(x *X, v ssa.Value, val Val) {
	if len(val.L) != numLeaves(v.Type()) {
		unsupp("%s = %s in %s: %d leaves for %s", v.Name(), v, r.fr.fn, len(val.L), tstr(v.Type()))
	}
	val.T = v.Type()
	x.env.vals[v] = val
}

func (r *region) instr(ins ssa.Instruction, x X) []X {
	ex := r.ex
	st := x.st
	get := func(v ssa.Value) Val { return ex.val(r.fr, &x, v) }
	switch i := ins.(type) {
	case *ssa.Alloc:
		a := ex.alloc(st, deref(i.Type()))
		r.set(&x, i, V1(i.Type(), a))
	case *ssa.FieldAddr:
		b := get(i.X)
		if !r.check(&x, Not(Eq(b.t(), Null)), "nil dereference", i.Pos()) {
			return nil
		}
		r.set(&x, i, V1(i.Type(), Sub(b.t(), fid(deref(i.X.Type()), i.Field))))
	case *ssa.Field:
		r.set(&x, i, fieldOf(get(i.X), i.Field))
	case *ssa.IndexAddr:
		b, k := get(i.X), get(i.Index).t()
		switch u := under(i.X.Type()).(type) {
		case *types.Slice:
			if !r.check(&x, And(Le(Int(0), k), Lt(k, b.L[2])), "index out of range", i.Pos()) {
				return nil
			}
			r.set(&x, i, V1(i.Type(), Elem(b.L[0], Add(b.L[1], k))))
		case *types.Pointer:
			n := under(u.Elem()).(*types.Array).Len()
			if !r.check(&x, And(Not(Eq(b.t(), Null)), Le(Int(0), k), Lt(k, Int(n))), "index out of range", i.Pos()) {
				return nil
			}
			r.set(&x, i, V1(i.Type(), Elem(b.t(), k)))
		default:
			unsupp("IndexAddr %s", tstr(i.X.Type()))
		}
	case *ssa.Index:
		b, k := get(i.X), get(i.Index).t()
		if isString(i.X.Type()) {
			if !r.check(&x, And(Le(Int(0), k), Lt(k, StrLen(b.t()))), "index out of range", i.Pos()) {
				return nil
			}
			r.set(&x, i, V1(i.Type(), CharAt(b.t(), k)))
			break
		}
		if a, ok := under(i.X.Type()).(*types.Array); ok && isByte(a.Elem()) {
			r.set(&x, i, V1(i.Type(), CharAt(b.t(), k)))
			break
		}
		unsupp("Index %s", tstr(i.X.Type()))
	case *ssa.Lookup:
		m, k := get(i.X), get(i.Index)
		if isString(i.X.Type()) {
			if !r.check(&x, And(Le(Int(0), k.t()), Lt(k.t(), StrLen(m.t()))), "index out of range", i.Pos()) {
				return nil
			}
			r.set(&x, i, V1(i.Type(), CharAt(m.t(), k.t())))
			break
		}
		v, ok := ex.mapGet(st, m, k)
		if i.CommaOk {
			r.set(&x, i, mkTuple(i.Type(), v, VBool(ok)))
		} else {
			r.set(&x, i, v)
		}
	case *ssa.MapUpdate:
		m, k, v := get(i.Map), get(i.Key), get(i.Value)
		if !r.check(&x, Not(Eq(m.t(), Null)), "assignment to entry in nil map", i.Pos()) {
			return nil
		}
		ex.mapSet(st, m, k, v)
	case *ssa.Store:
		a, v := get(i.Addr), get(i.Val)
		if !r.check(&x, Not(Eq(a.t(), Null)), "nil dereference", i.Pos()) {
			return nil
		}
		v.T = deref(i.Addr.Type())
		st.store(a.t(), deref(i.Addr.Type()), v)
	case *ssa.UnOp:
		v := get(i.X)
		switch i.Op {
		case token.MUL:
			if !r.check(&x, Not(Eq(v.t(), Null)), "nil dereference", i.Pos()) {
				return nil
			}
			r.set(&x, i, ex.loadVal(st, v.t(), deref(i.X.Type())))
		case token.NOT:
			r.set(&x, i, V1(i.Type(), Not(v.t())))
		case token.SUB:
			r.set(&x, i, V1(i.Type(), Neg(v.t())))
		case token.XOR:
			r.set(&x, i, V1(i.Type(), Minus(Int(-1), v.t())))
		case token.ARROW:
			return r.recv(i, x)
		default:
			unsupp("unop %s", i.Op)
		}
	case *ssa.BinOp:
		a, b := get(i.X), get(i.Y)
		v, cond, what := ex.binop(st, i, a, b)
		if cond != nil && !r.check(&x, cond, what, i.Pos()) {
			return nil
		}
		r.set(&x, i, v)
	case *ssa.ChangeType:
		r.set(&x, i, get(i.X))
	case *ssa.ChangeInterface:
		r.set(&x, i, get(i.X))
	case *ssa.MakeInterface:
		r.set(&x, i, ex.box(st, get(i.X), i.X.Type()))
	case *ssa.Convert:
		r.set(&x, i, ex.convert(st, get(i.X), i.X.Type(), i.Type()))
	case *ssa.MultiConvert:
		r.set(&x, i, ex.convert(st, get(i.X), i.X.Type(), i.Type()))
	case *ssa.TypeAssert:
		return r.typeAssert(i, x)
	case *ssa.Extract:
		r.set(&x, i, tupleElem(get(i.Tuple), i.Index))
	case *ssa.MakeSlice:
		n, c := get(i.Len).t(), get(i.Cap).t()
		if !r.check(&x, And(Le(Int(0), n), Le(n, c)), "makeslice: len out of range", i.Pos()) {
			return nil
		}
		r.set(&x, i, ex.makeSlice(st, i.Type(), n, c))
	case *ssa.MakeMap:
		r.set(&x, i, V1(i.Type(), ex.makeMap(st, i.Type())))
	case *ssa.MakeChan:
		o := NewObj()
		r.set(&x, i, V1(i.Type(), o))
	case *ssa.MakeClosure:
		o := NewObj()
		ci := &closureInfo{fn: i.Fn.(*ssa.Function)}
		for _, b := range i.Bindings {
			ci.bind = append(ci.bind, get(b))
		}
		closures[objId(o)] = ci
		r.set(&x, i, V1(i.Type(), o))
	case *ssa.Slice:
		v, ok := r.slice(i, &x)
		if !ok {
			return nil
		}
		r.set(&x, i, v)
	case *ssa.Range:
		r.set(&x, i, ex.rangeStart(st, i, get(i.X)))
	case *ssa.Next:
		return r.next(i, x)
	case *ssa.Call:
		return r.callInstr(i, x)
	case *ssa.Defer:
		d := deferRec{call: &i.Call, pos: i.Pos()}
		if !i.Call.IsInvoke() {
			if _, ok := i.Call.Value.(*ssa.Builtin); !ok {
				d.fnv = get(i.Call.Value)
			}
		} else {
			d.fnv = get(i.Call.Value)
			if !r.check(&x, Not(Eq(d.fnv.t(), INil)), "nil interface method call", i.Pos()) {
				return nil
			}
		}
		for _, a := range i.Call.Args {
			d.args = append(d.args, get(a))
		}
		x.env.defers = append(x.env.defers[:len(x.env.defers):len(x.env.defers)], d)
	case *ssa.Go:
		return r.goStmt(i, x)
	case *ssa.Select:
		return r.selectStmt(i, x)
	case *ssa.Send:
		// unbuffered sends are outside the subset
		unsupp("channel send in %s", r.fr.fn)
	default:
		unsupp("instruction %T in %s", ins, r.fr.fn)
	}
	return one(x)
}

func (ex *Exec) alloc(st *State, t types.Type) *Term {
	o := NewObj()
	ex.initObj(st, o, t)
	return o
}

func (ex *Exec) initObj(st *State, o *Term, t types.Type) {
	if a, ok := under(t).(*types.Array); ok {
		switch contentArr(a.Elem()) {
		case "B":
			if a.Len() <= 65536 {
				st.write("B", Str(string(make([]byte, a.Len()))), o)
			}
		case "L":
			xs := make([]*Term, a.Len())
			for i := range xs {
				xs[i] = Str("")
			}
			st.write("L", SeqLit(xs...), o)
		}
	}
	if isStruct(t) {
		s := under(t).(*types.Struct)
		for i := 0; i < s.NumFields(); i++ {
			if _, ok := under(s.Field(i).Type()).(*types.Array); ok || isStruct(s.Field(i).Type()) {
				ex.initObj(st, Sub(o, fid(t, i)), s.Field(i).Type())
			}
		}
	}
}

var zerosUF = "zeros"

func (ex *Exec) makeSlice(st *State, t types.Type, n, c *Term) Val {
	o := NewObj()
	el := under(t).(*types.Slice).Elem()
	switch contentArr(el) {
	case "B":
		if n.Op == "int" && n.I.Int64() < 4096 && n.I.Sign() >= 0 {
			st.write("B", Str(string(make([]byte, n.I.Int64()))), o)
		} else {
			z := App(zerosUF, SStr, n)
			st.write("B", z, o)
			st.assume(Eq(StrLen(z), n))
		}
	case "L":
		if n.Op == "int" && n.I.Int64() < 4096 && n.I.Sign() >= 0 {
			xs := make([]*Term, n.I.Int64())
			for i := range xs {
				xs[i] = Str("")
			}
			st.write("L", SeqLit(xs...), o)
		} else {
			z := App("blanks", SList, n)
			st.write("L", z, o)
			st.assume(Eq(SeqLen(z), n))
		}
	}
	return Val{t, []*Term{o, Int(0), n, c}}
}

// sliceOfBytes allocates a new byte slice with the given content.
func (ex *Exec) sliceOfBytes(st *State, t types.Type, s *Term) Val {
	if t == nil {
		t = types.NewSlice(types.Typ[types.Uint8])
	}
	o := NewObj()
	st.write("B", s, o)
	n := StrLen(s)
	return Val{t, []*Term{o, Int(0), n, n}}
}

func (ex *Exec) sliceOfStrs(st *State, t types.Type, s *Term) Val {
	if t == nil {
		t = types.NewSlice(types.Typ[types.String])
	}
	o := NewObj()
	st.write("L", s, o)
	n := SeqLen(s)
	return Val{t, []*Term{o, Int(0), n, n}}
}

// content of byte and string slices
func bytesOf(st *State, v Val) *Term { return Substr(st.read("B", v.L[0]), v.L[1], v.L[2]) }
func listOf(st *State, v Val) *Term  { return SeqExtract(st.read("L", v.L[0]), v.L[1], v.L[2]) }

// ---- maps

func mapKeyNames(t types.Type) (dom string, vals []string, m *types.Map) {
	m = under(t).(*types.Map)
	n := "M:" + tstr(m)
	ks := leafSorts(m.Key())
	if len(ks) != 1 {
		unsupp("map key type %s", tstr(m.Key()))
	}
	dom = regKey(n+".dom", SBool, SAddr, ks[0])
	for i, s := range leafSorts(m.Elem()) {
		vals = append(vals, regKey(fmt.Sprintf("%s.v%d", n, i), s, SAddr, ks[0]))
	}
	// slice leaves are never negative
	i := 0
	var rec func(t types.Type)
	rec = func(t types.Type) {
		if isStruct(t) {
			s := under(t).(*types.Struct)
			for j := 0; j < s.NumFields(); j++ {
				rec(s.Field(j).Type())
			}
			return
		}
		for _, l := range scalarLeaves(t) {
			k := keys[vals[i]]
			k.nn = l.suffix == ".len" || l.suffix == ".cap" || l.suffix == ".off" || l.sort == SInt && isUnsigned(t)
			i++
		}
	}
	rec(m.Elem())
	return
}

func (ex *Exec) makeMap(st *State, t types.Type) *Term {
	o := NewObj()
	regKey("M:len", SInt, SAddr)
	keys["M:len"].nn = true
	return o
}

func (ex *Exec) mapDom(st *State, m Val, k *Term) *Term {
	if isHeaderMap(m.T) {
		return Lt(Int(0), SeqLen(st.read("H", m.t(), k)))
	}
	dom, _, _ := mapKeyNames(m.T)
	return st.read(dom, m.t(), k)
}

func (ex *Exec) mapGet(st *State, m, k Val) (Val, *Term) {
	mt := under(m.T).(*types.Map)
	if isHeaderMap(m.T) {
		l := st.read("H", m.t(), k.t())
		l = Ite(Eq(m.t(), Null), SeqLit(), l)
		v := ex.sliceOfStrs(st, mt.Elem(), l)
		return v, Lt(Int(0), SeqLen(l))
	}
	dom, vals, _ := mapKeyNames(m.T)
	d := And(Not(Eq(m.t(), Null)), st.read(dom, m.t(), k.t()))
	if !k.t().bound && st.knows(d) {
		d = True
	}
	v := Val{T: mt.Elem()}
	z := zeroVal(mt.Elem())
	for i, n := range vals {
		v.L = append(v.L, Ite(d, st.read(n, m.t(), k.t()), z.L[i]))
	}
	for _, f := range typeFacts(v) {
		if !f.bound {
			st.assumeOnce(f)
		}
	}
	return v, d
}

// knows: every conjunct of t is literally among the assumptions.
func (st *State) knows(t *Term) bool {
	has := map[*Term]bool{}
	for _, p := range st.pc {
		has[p] = true
		if p.Op == "and" {
			for _, a := range p.Args {
				has[a] = true
			}
		}
	}
	if has[t] {
		return true
	}
	if t.Op != "and" {
		return false
	}
	for _, a := range t.Args {
		if !has[a] {
			return false
		}
	}
	return true
}

// rawGet reads a map value without the domain test (specifications).
func (ex *Exec) mapSet(st *State, m, k, v Val) {
	if isHeaderMap(m.T) {
		st.write("H", listOf(st, v), m.t(), k.t())
		return
	}
	dom, vals, _ := mapKeyNames(m.T)
	d := st.read(dom, m.t(), k.t())
	regKey("M:len", SInt, SAddr)
	keys["M:len"].nn = true
	n := st.read("M:len", m.t())
	st.write("M:len", Ite(d, n, Add(n, Int(1))), m.t())
	st.write(dom, True, m.t(), k.t())
	for i, nm := range vals {
		st.write(nm, v.L[i], m.t(), k.t())
	}
}

func (ex *Exec) mapDelete(st *State, m, k Val) {
	if isHeaderMap(m.T) {
		st.write("H", SeqLit(), m.t(), k.t())
		return
	}
	dom, _, _ := mapKeyNames(m.T)
	d := st.read(dom, m.t(), k.t())
	regKey("M:len", SInt, SAddr)
	keys["M:len"].nn = true
	n := st.read("M:len", m.t())
	st.write("M:len", Ite(d, Minus(n, Int(1)), n), m.t())
	st.write(dom, False, m.t(), k.t())
}

func (ex *Exec) mapLen(st *State, m Val) *Term {
	if isHeaderMap(m.T) {
		return App("hdrlen", SInt, m.t())
	}
	regKey("M:len", SInt, SAddr)
	keys["M:len"].nn = true
	return Ite(Eq(m.t(), Null), Int(0), st.read("M:len", m.t()))
}

// ---- iteration over maps and strings

var rangeSerial = map[*ssa.Range]int{}

func (ex *Exec) rangeStart(st *State, i *ssa.Range, m Val) Val {
	o := NewObj()
	if isString(m.T) {
		iters[objId(o)] = &iterInfo{m: m, str: true}
		return Val{i.Type(), []*Term{o}}
	}
	n, ok := rangeSerial[i]
	if !ok {
		n = len(rangeSerial) + 1
		rangeSerial[i] = n
	}
	mt := under(m.T).(*types.Map)
	k := regKey(fmt.Sprintf("V:%d", n), SBool, leafSorts(mt.Key())[0])
	st.fill(k, False)
	entry := Mem{}
	for kk, v := range st.mem {
		entry[kk] = v
	}
	iters[objId(o)] = &iterInfo{m: m, entry: entry, key: k}
	return Val{i.Type(), []*Term{o}}
}

func (r *region) next(i *ssa.Next, x X) []X {
	ex := r.ex
	it := iters[objId(ex.val(r.fr, &x, i.Iter).t())]
	if it == nil {
		unsupp("unknown iterator")
	}
	tup := i.Type().(*types.Tuple)
	if it.str {
		ok := Fresh("more", SBool)
		k := Fresh("pos", SInt)
		c := Fresh("rune", SInt)
		x.st.assume(Implies(ok, And(Le(Int(0), k), Lt(k, StrLen(it.m.t())))))
		x.env.vals[i] = Val{tup, []*Term{ok, k, c}}
		return one(x)
	}
	mt := under(it.m.T).(*types.Map)
	ks := leafSorts(mt.Key())[0]
	entry := &State{mem: it.entry}
	st := x.st
	inDom := func(s *State, k *Term) *Term {
		return And(Not(Eq(it.m.t(), Null)), ex.mapDom(s, it.m, k))
	}
	// no more entries
	y := X{st: st.clone(), env: x.env.clone(), pred: x.pred}
	bv := BVarNamed("k_"+it.key, ks)
	y.st.assume(Forall([]*Term{bv}, Implies(And(inDom(entry, bv), inDom(y.st, bv)), y.st.read(it.key, bv))))
	sel := Fresh("more", SBool)
	y.st.pc = append(y.st.pc, Not(sel))
	y.env.vals[i] = r.nextVal(tup, False, Fresh("k", ks), ex.freshVal(y.st, "v", mt.Elem()))
	// one more entry
	hint := "k"
	if isHeaderMap(it.m.T) {
		hint = "hdrkey"
		ex.v.assumption("the keys of header maps are in canonical form and have at least one value, as net/http delivers them")
	}
	k := Fresh(hint, ks)
	if hint == "hdrkey" {
		st.assume(Eq(App("canon", SStr, k), k))
	}
	st.assume(sel)
	st.assume(inDom(st, k), Not(st.read(it.key, k)))
	st.write(it.key, True, k)
	v, _ := ex.mapGet(st, it.m, Val{mt.Key(), []*Term{k}})
	x.env = x.env.clone()
	x.env.vals[i] = r.nextVal(tup, True, k, v)
	return []X{x, y}
}

func (r *region) nextVal(tup *types.Tuple, ok, k *Term, v Val) Val {
	out := Val{T: tup, L: []*Term{ok}}
	if numLeaves(tup.At(1).Type()) == 1 {
		out.L = append(out.L, k)
	}
	if n := numLeaves(tup.At(2).Type()); n == len(v.L) {
		out.L = append(out.L, v.L...)
	} else {
		for j := 0; j < n; j++ {
			out.L = append(out.L, Int(0))
		}
	}
	return out
}

// ---- operators

func wrapUnsigned(t types.Type, v *Term) *Term { return v }

func (ex *Exec) binop(st *State, i *ssa.BinOp, a, b Val) (Val, *Term, string) {
	T := i.Type()
	switch i.Op {
	case token.EQL, token.NEQ:
		e := ex.goEq(st, a, b, i.X.Type(), i.Y.Type())
		if i.Op == token.NEQ {
			e = Not(e)
		}
		return V1(T, e), nil, ""
	}
	x, y := a.t(), b.t()
	switch i.Op {
	case token.ADD:
		if isString(T) {
			return V1(T, Concat(x, y)), nil, ""
		}
		return V1(T, Add(x, y)), nil, ""
	case token.SUB:
		return V1(T, Minus(x, y)), nil, ""
	case token.MUL:
		return V1(T, Mul(x, y)), nil, ""
	case token.QUO:
		if isFloat(T) {
			if y.Op == "real" && y.R.Sign() != 0 {
				return V1(T, RDiv(x, y)), nil, ""
			}
			// IEEE division never traps; a zero divisor yields an unspecified value that only depends on the dividend
			u := App("fdiv0", SReal, x)
			return V1(T, Ite(Eq(y, RealR(new(big.Rat))), u, RDiv(x, y))), nil, ""
		}
		return V1(T, truncDiv(x, y)), Not(Eq(y, Int(0))), "integer divide by zero"
	case token.REM:
		q := truncDiv(x, y)
		if x.Op == "int" && y.Op == "int" && y.I.Sign() != 0 {
			return V1(T, IntB(new(big.Int).Rem(x.I, y.I))), nil, ""
		}
		if y.Op == "int" && y.I.Sign() > 0 {
			return V1(T, Ite(Le(Int(0), x), Mod(x, y), Neg(Mod(Neg(x), y)))), nil, ""
		}
		return V1(T, Minus(x, Mul(y, q))), Not(Eq(y, Int(0))), "integer divide by zero"
	case token.LSS:
		return V1(T, Lt(x, y)), nil, ""
	case token.LEQ:
		return V1(T, ex.le(x, y)), nil, ""
	case token.GTR:
		return V1(T, Lt(y, x)), nil, ""
	case token.GEQ:
		return V1(T, ex.le(y, x)), nil, ""
	case token.AND:
		if x.Sort == SBool {
			return V1(T, And(x, y)), nil, ""
		}
		if x.Op == "int" && y.Op == "int" {
			return V1(T, IntB(new(big.Int).And(x.I, y.I))), nil, ""
		}
		if y.Op == "int" && y.I.Cmp(big.NewInt(1)) == 0 {
			return V1(T, Mod(x, Int(2))), nil, ""
		}
	case token.OR:
		if x.Sort == SBool {
			return V1(T, Or(x, y)), nil, ""
		}
		if x.Op == "int" && y.Op == "int" {
			return V1(T, IntB(new(big.Int).Or(x.I, y.I))), nil, ""
		}
	case token.SHL:
		if y.Op == "int" && y.I.Sign() >= 0 && y.I.Int64() < 1000 {
			return V1(T, Mul(x, IntB(new(big.Int).Lsh(big.NewInt(1), uint(y.I.Int64()))))), nil, ""
		}
	case token.SHR:
		if y.Op == "int" && y.I.Sign() >= 0 && y.I.Int64() < 1000 {
			return V1(T, Div(x, IntB(new(big.Int).Lsh(big.NewInt(1), uint(y.I.Int64()))))), nil, ""
		}
	}
	// bit operations without a mathematical counterpart are uninterpreted
	return V1(T, App("bit_"+strings.Map(func(r rune) rune {
		if strings.ContainsRune("&|^<>", r) {
			return map[rune]rune{'&': 'a', '|': 'o', '^': 'x', '<': 'l', '>': 'r'}[r]
		}
		return r
	}, i.Op.String()), SInt, x, y)), nil, ""
}

func (ex *Exec) le(x, y *Term) *Term {
	if x.Sort == SStr {
		return Not(Lt(y, x))
	}
	return Le(x, y)
}

func truncDiv(x, y *Term) *Term {
	if x.Op == "int" && y.Op == "int" && y.I.Sign() != 0 {
		return IntB(new(big.Int).Quo(x.I, y.I))
	}
	if y.Op == "int" && y.I.Sign() > 0 {
		return Ite(Le(Int(0), x), Div(x, y), Neg(Div(Neg(x), y)))
	}
	sx := Ite(Le(Int(0), x), x, Neg(x))
	sy := Ite(Le(Int(0), y), y, Neg(y))
	q := Div(sx, sy)
	return Ite(Eq(Lt(x, Int(0)), Lt(y, Int(0))), q, Neg(q))
}

// goEq is Go's == on values of (assignable) types.
func (ex *Exec) goEq(st *State, a, b Val, ta, tb types.Type) *Term {
	if isIface(ta) && !isIface(tb) {
		b = ex.box(st, b, tb)
	} else if isIface(tb) && !isIface(ta) {
		a = ex.box(st, a, ta)
	}
	if isSlice(ta) || isSlice(tb) { // comparison with nil
		x := a
		if len(x.L) != 4 || x.L[0] == Null && len(b.L) == 4 {
			x = b
		}
		return Eq(x.L[0], Null)
	}
	return eqVal(a, b)
}

// ---- interfaces

func (ex *Exec) box(st *State, v Val, t types.Type) Val {
	tag := tagOf(t)
	switch boxKind(t) {
	case "str":
		return V1(emptyIfaceT, IStr(tag, v.t()))
	case "int":
		return V1(emptyIfaceT, IInt(tag, v.t()))
	case "bool":
		return V1(emptyIfaceT, IInt(tag, Ite(v.t(), Int(1), Int(0))))
	case "ptr":
		return V1(emptyIfaceT, IPtr(tag, v.t()))
	}
	if isIface(t) {
		return v
	}
	o := NewObj()
	st.store(o, t, v)
	return V1(emptyIfaceT, IPtr(tag, o))
}

func (ex *Exec) unbox(st *State, x *Term, t types.Type) Val {
	switch boxKind(t) {
	case "str":
		return V1(t, IStrVal(x))
	case "int":
		return V1(t, IIntVal(x))
	case "bool":
		return V1(t, Eq(IIntVal(x), Int(1)))
	case "ptr":
		return V1(t, IAddr(x))
	}
	return st.load(IAddr(x), t)
}

func (ex *Exec) hasType(x *Term, t types.Type) *Term {
	if isIface(t) {
		it := under(t).(*types.Interface)
		if it.Empty() {
			return Not(Eq(x, INil))
		}
		tag := ITag(x)
		if tag.Op == "int" {
			if tag.I.Sign() == 0 {
				return False
			}
			return Bool(types.Implements(tagType(int(tag.I.Int64())), it))
		}
		if tag.Op == "ite" {
			return Ite(tag.Args[0], ex.hasTypeTag(tag.Args[1], t), ex.hasTypeTag(tag.Args[2], t))
		}
		return ex.hasTypeTag(tag, t)
	}
	return Eq(ITag(x), Int(int64(tagOf(t))))
}

func (ex *Exec) hasTypeTag(tag *Term, t types.Type) *Term {
	if tag.Op == "int" {
		if tag.I.Sign() == 0 {
			return False
		}
		return Bool(types.Implements(tagType(int(tag.I.Int64())), under(t).(*types.Interface)))
	}
	if tag.Op == "ite" {
		return Ite(tag.Args[0], ex.hasTypeTag(tag.Args[1], t), ex.hasTypeTag(tag.Args[2], t))
	}
	return And(Not(Eq(tag, Int(0))), App("impl_"+tstr(t), SBool, tag))
}

func (r *region) typeAssert(i *ssa.TypeAssert, x X) []X {
	ex := r.ex
	v := ex.val(r.fr, &x, i.X).t()
	ok := ex.hasType(v, i.AssertedType)
	var res Val
	if isIface(i.AssertedType) {
		res = V1(i.AssertedType, v)
	} else {
		res = ex.unbox(x.st, v, i.AssertedType)
	}
	if !i.CommaOk {
		if !r.check(&x, ok, "type assertion", i.Pos()) {
			return nil
		}
		r.set(&x, i, res)
		return one(x)
	}
	z := zeroVal(i.AssertedType)
	r.set(&x, i, mkTuple(i.Type(), iteVal(ok, res, z), VBool(ok)))
	return one(x)
}

// ---- conversions

func (ex *Exec) convert(st *State, v Val, from, to types.Type) Val {
	switch {
	case isString(to) && isByteSlice(from):
		return V1(to, bytesOf(st, v))
	case isByteSlice(to) && isString(from):
		return ex.sliceOfBytes(st, to, v.t())
	case isString(to) && isInteger(from):
		return V1(to, App("runestr", SStr, v.t()))
	case isString(to) && isString(from):
		return V1(to, v.t())
	case isString(to) && isSlice(from):
		return V1(to, Fresh("runes", SStr))
	case isSlice(to) && isString(from):
		return ex.freshVal(st, "runes", to)
	case isFloat(to) && isInteger(from):
		return V1(to, ToReal(v.t()))
	case isInteger(to) && isFloat(from):
		return V1(to, Trunc(v.t()))
	case isInteger(to) && isInteger(from):
		return V1(to, convInt(v.t(), from, to))
	}
	if len(v.L) == numLeaves(to) {
		return Val{to, v.L}
	}
	unsupp("conversion %s to %s", tstr(from), tstr(to))
	return Val{}
}

var intBits = map[types.BasicKind]uint{types.Int8: 8, types.Int16: 16, types.Int32: 32, types.Int64: 64, types.Int: 64,
	types.Uint8: 8, types.Uint16: 16, types.Uint32: 32, types.Uint64: 64, types.Uint: 64, types.Uintptr: 64}

// convInt narrows exactly for small target types; 64-bit values are mathematical integers.
func convInt(v *Term, from, to types.Type) *Term {
	f, t := under(from).(*types.Basic), under(to).(*types.Basic)
	fb, tb := intBits[f.Kind()], intBits[t.Kind()]
	fu, tu := f.Info()&types.IsUnsigned != 0, t.Info()&types.IsUnsigned != 0
	if tb == 0 || fb == 0 {
		return v
	}
	if tb > fb && (fu || !tu) || tb == fb && fu == tu || fu && !tu && tb > fb {
		return v
	}
	if tb >= 64 && (!fu || !tu) {
		if tb == 64 && !tu {
			return v // uint64 -> int64: values above 2^63 are outside the model
		}
	}
	m := new(big.Int).Lsh(big.NewInt(1), tb)
	r := Mod(v, IntB(m))
	if tu {
		return Ite(And(Le(Int(0), v), Lt(v, IntB(m))), v, r)
	}
	h := new(big.Int).Rsh(m, 1)
	return Ite(And(Le(IntB(new(big.Int).Neg(h)), v), Lt(v, IntB(h))), v, Ite(Lt(r, IntB(h)), r, Minus(r, IntB(m))))
}

// ---- slicing and appending

func (r *region) slice(i *ssa.Slice, x *X) (Val, bool) {
	ex := r.ex
	v := ex.val(r.fr, x, i.X)
	lo := Int(0)
	if i.Low != nil {
		lo = ex.val(r.fr, x, i.Low).t()
	}
	if isString(i.X.Type()) {
		n := StrLen(v.t())
		hi := n
		if i.High != nil {
			hi = ex.val(r.fr, x, i.High).t()
		}
		if !r.check(x, And(Le(Int(0), lo), Le(lo, hi), Le(hi, n)), "slice bounds out of range", i.Pos()) {
			return Val{}, false
		}
		return V1(i.Type(), Substr(v.t(), lo, Minus(hi, lo))), true
	}
	var arr, off, ln, cp *Term
	switch u := under(i.X.Type()).(type) {
	case *types.Slice:
		arr, off, ln, cp = v.L[0], v.L[1], v.L[2], v.L[3]
	case *types.Pointer:
		if !r.check(x, Not(Eq(v.t(), Null)), "nil dereference", i.Pos()) {
			return Val{}, false
		}
		n := Int(under(u.Elem()).(*types.Array).Len())
		arr, off, ln, cp = v.t(), Int(0), n, n
	}
	hi := ln
	if i.High != nil {
		hi = ex.val(r.fr, x, i.High).t()
	}
	mx := cp
	if i.Max != nil {
		mx = ex.val(r.fr, x, i.Max).t()
	}
	if !r.check(x, And(Le(Int(0), lo), Le(lo, hi), Le(hi, mx), Le(mx, cp)), "slice bounds out of range", i.Pos()) {
		return Val{}, false
	}
	return Val{i.Type(), []*Term{arr, Add(off, lo), Minus(hi, lo), Minus(mx, lo)}}, true
}

// elemKeys lists the memory keys holding elements of a slice element type.
func elemKeys(t types.Type) []string {
	var out []string
	var rec func(a *Term, t types.Type)
	a := Elem(Sym("dummy_arr", SAddr), Int(0))
	rec = func(a *Term, t types.Type) {
		if isStruct(t) {
			s := under(t).(*types.Struct)
			for i := 0; i < s.NumFields(); i++ {
				rec(Sub(a, fid(t, i)), s.Field(i).Type())
			}
			return
		}
		if arr, ok := under(t).(*types.Array); ok {
			if isByte(arr.Elem()) {
				out = append(out, "B")
			}
			return
		}
		for _, l := range scalarLeaves(t) {
			k, _ := cellKey(a, t, l)
			out = append(out, k)
		}
	}
	rec(a, t)
	return out
}

// appendSlice models append(s, e...); it may return two states (in place, reallocated).
func (r *region) appendSlice(x X, s, e Val, T types.Type) []struct {
	x X
	v Val
} {
	type res = struct {
		x X
		v Val
	}
	ex := r.ex
	el := under(T).(*types.Slice).Elem()
	st := x.st
	if isString(e.T) && isByte(el) {
		e = ex.sliceOfBytes(st, nil, e.t())
	}
	n := e.L[2]
	if n == Int(0) {
		return []res{{x, Val{T, s.L}}}
	}
	total := Add(s.L[2], n)
	if key := contentArr(el); key != "" && known(s.L[0]) {
		if fits := Le(total, s.L[3]); ex.feasible(st, fits) {
			y := X{st: st.clone(), env: x.env.clone(), pred: x.pred}
			y.st.assume(fits)
			st.assume(Not(fits))
			o, end := y.st.read(key, s.L[0]), Add(s.L[1], total)
			if key == "B" {
				o = Concat(Substr(o, Int(0), Add(s.L[1], s.L[2])), bytesOf(y.st, e), Substr(o, end, Minus(StrLen(o), end)))
			} else {
				o = SeqConcat(SeqExtract(o, Int(0), Add(s.L[1], s.L[2])), listOf(y.st, e), SeqExtract(o, end, Minus(SeqLen(o), end)))
			}
			y.st.write(key, o, s.L[0])
			in := res{y, Val{T, []*Term{s.L[0], s.L[1], total, s.L[3]}}}
			if !ex.feasible(st) {
				return []res{in}
			}
			return append([]res{in}, r.appendContent(x, s, e, T, key, total))
		}
	}
	if key := contentArr(el); key != "" {
		return []res{r.appendContent(x, s, e, T, key, total)}
	}
	fits := Le(total, s.L[3])
	var out []res
	inPlace := ex.feasible(st, fits)
	realloc := ex.feasible(st, Not(fits))
	if inPlace {
		y := x
		if realloc {
			y = X{st: st.clone(), env: x.env.clone(), pred: x.pred}
			y.st.assume(fits)
		}
		ex.copyElems(y.st, el, s.L[0], Add(s.L[1], s.L[2]), n, e)
		out = append(out, res{y, Val{T, []*Term{s.L[0], s.L[1], total, s.L[3]}}})
	}
	if realloc {
		if inPlace {
			st.assume(Not(fits))
		}
		o := NewObj()
		if !(s.L[2] == Int(0)) {
			ex.copyElems(st, el, o, Int(0), s.L[2], s)
		}
		ex.copyElems(st, el, o, s.L[2], n, e)
		cp := Fresh("cap", SInt)
		st.assume(Le(total, cp))
		out = append(out, res{x, Val{T, []*Term{o, Int(0), total, cp}}})
	}
	return out
}

// known: the array may have other names, as it was not made by the code being executed.
func known(arr *Term) bool {
	return arr.Op != "obj" && arr != Null && !(arr.Op == "var" && strings.HasPrefix(arr.S, "h_"))
}

// appendContent appends to bytes or strings in a new array.
func (r *region) appendContent(x X, s, e Val, T types.Type, key string, total *Term) struct {
	x X
	v Val
} {
	var v Val
	if key == "B" {
		v = r.ex.sliceOfBytes(x.st, T, Concat(bytesOf(x.st, s), bytesOf(x.st, e)))
	} else {
		v = r.ex.sliceOfStrs(x.st, T, SeqConcat(listOf(x.st, s), listOf(x.st, e)))
	}
	v.L[2] = total
	return struct {
		x X
		v Val
	}{x, grow(x.st, v)}
}

func grow(st *State, v Val) Val {
	cp := Fresh("cap", SInt)
	st.assume(Le(v.L[2], cp))
	v.L[3] = cp
	return v
}

// copyElems copies n elements of src to dst[at:].
func (ex *Exec) copyElems(st *State, el types.Type, dst, at, n *Term, src Val) {
	if n.Op == "int" && n.I.Int64() <= 8 {
		// evaluate all sources first: the ranges may overlap
		var vs []Val
		for j := int64(0); j < n.I.Int64(); j++ {
			vs = append(vs, st.load(Elem(src.L[0], Add(src.L[1], Int(j))), el))
		}
		for j := int64(0); j < n.I.Int64(); j++ {
			st.store(Elem(dst, Add(at, Int(j))), el, vs[j])
		}
		return
	}
	arr, off := src.L[0], src.L[1]
	rm := &Remap{dst: dst, lo: at, n: n, src: func(j *Term) *Term { return Elem(arr, Add(off, j)) }, desc: "copy"}
	for _, k := range elemKeys(el) {
		st.remap(k, rm)
	}
}
