package main

import (
	"go/ast"
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// shortName is the name of a function with the module path removed.
func shortName(fn *ssa.Function) string {
	return strings.ReplaceAll(strings.ReplaceAll(fn.String(), modPath+".", ""), modPath+"/", "")
}

func (r *region) callInstr(i *ssa.Call, x X) []X {
	ex := r.ex
	var fnv Val
	call := &i.Call
	if _, ok := call.Value.(*ssa.Builtin); !ok {
		fnv = ex.val(r.fr, &x, call.Value)
		if call.IsInvoke() {
			if !r.check(&x, Not(Eq(fnv.t(), INil)), "method call on nil interface", i.Pos()) {
				return nil
			}
		} else if call.StaticCallee() == nil {
			if !r.check(&x, Not(Eq(fnv.t(), Null)), "call of nil function", i.Pos()) {
				return nil
			}
		}
	}
	var args []Val
	for _, a := range call.Args {
		args = append(args, ex.val(r.fr, &x, a))
	}
	outs := ex.call(r.fr, x, call, fnv, args, i.Pos())
	var res []X
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		y := X{st: o.st, env: x.env.clone(), pred: x.pred}
		switch o.kind {
		case kRet:
			if v := i; numLeaves(v.Type()) > 0 || len(o.vals) == 1 {
				if tup, ok := v.Type().(*types.Tuple); ok {
					if tup.Len() > 0 {
						y.env.vals[v] = mkTuple(tup, o.vals...)
					} else {
						y.env.vals[v] = Val{T: tup}
					}
				} else if len(o.vals) == 1 {
					r.set(&y, v, o.vals[0])
				}
			}
			res = append(res, y)
		case kPanic:
			r.panicPath(y, o.msg, o.pos)
		default:
			r.outs = append(r.outs, o)
		}
	}
	return res
}

func retOut(st *State, vals ...Val) []Outcome { return []Outcome{{kind: kRet, st: st, vals: vals}} }

// call performs a call; fnv is the function or interface value, args the explicit arguments.
func (ex *Exec) call(fr *Frame, x X, call *ssa.CallCommon, fnv Val, args []Val, pos token.Pos) []Outcome {
	if b, ok := call.Value.(*ssa.Builtin); ok {
		return ex.builtin(fr, x, b, call, args, pos)
	}
	if call.IsInvoke() {
		return ex.invoke(fr, x, call, fnv.t(), args, pos)
	}
	if fn := call.StaticCallee(); fn != nil {
		var bind []Val
		if len(fn.FreeVars) > 0 {
			ci := closures[objId(fnv.t())]
			bind = ci.bind
		}
		return ex.callFn(fr, x, fn, bind, args, call.Signature(), pos)
	}
	return ex.callValue(fr, x, fnv.t(), args, call, call.Signature(), pos)
}

// callValue calls a function value.
func (ex *Exec) callValue(fr *Frame, x X, f *Term, args []Val, call *ssa.CallCommon, sig *types.Signature, pos token.Pos) []Outcome {
	if f.Op == "obj" {
		id := objId(f)
		if ci := closures[id]; ci != nil {
			return ex.callFn(fr, x, ci.fn, ci.bind, args, sig, pos)
		}
		if fn := funcById[id]; fn != nil {
			return ex.callFn(fr, x, fn, nil, args, sig, pos)
		}
		if ch, ok := cancels[id]; ok {
			x.st.write(closedKey(), True, ch)
			return retOut(x.st)
		}
	}
	if f.Op == "ite" {
		var out []Outcome
		ex.branch(x, f.Args[0], pos, func(y X, taken bool) {
			g := f.Args[2]
			if taken {
				g = f.Args[1]
			}
			if g == Null {
				ex.safety(y.st, False, "call of nil function", fr, pos)
				return
			}
			out = append(out, ex.callValue(fr, y, g, args, call, sig, pos)...)
		})
		return out
	}
	// a context's cancel function read from memory: it closes the channel of some context,
	// which every receive from such a channel already allows for
	if call != nil && sig.Params().Len() == 0 && sig.Results().Len() == 0 {
		ex.v.assumption("function values of type func() read from memory are context cancel functions")
		return retOut(x.st)
	}
	unsupp("call of unknown function value %s in %s", f, fr.fn)
	return nil
}

func (ex *Exec) invoke(fr *Frame, x X, call *ssa.CallCommon, recv *Term, args []Val, pos token.Pos) []Outcome {
	if recv.Op == "ite" {
		var out []Outcome
		ex.branch(x, recv.Args[0], pos, func(y X, taken bool) {
			g := recv.Args[2]
			if taken {
				g = recv.Args[1]
			}
			if g == INil {
				ex.safety(y.st, False, "method call on nil interface", fr, pos)
				return
			}
			out = append(out, ex.invoke(fr, y, call, g, args, pos)...)
		})
		return out
	}
	tag := ITag(recv)
	if tag.Op == "int" && tag.I.Sign() > 0 {
		t := tagType(int(tag.I.Int64()))
		if t != nil {
			if ms := ex.v.prog.MethodSets.MethodSet(t); ms.Lookup(call.Method.Pkg(), call.Method.Name()) != nil {
				m := ex.v.prog.LookupMethod(t, call.Method.Pkg(), call.Method.Name())
				if m != nil {
					a := append([]Val{ex.unbox(x.st, recv, t)}, args...)
					return ex.callFn(fr, x, m, nil, a, call.Signature(), pos)
				}
			}
		}
	}
	name := "(" + tstr(call.Value.Type()) + ")." + call.Method.Name()
	a := append([]Val{V1(call.Value.Type(), recv)}, args...)
	return ex.extern(fr, x, name, nil, a, call.Signature(), pos)
}

// callFn calls a known function.
func (ex *Exec) callFn(fr *Frame, x X, fn *ssa.Function, bind []Val, args []Val, sig *types.Signature, pos token.Pos) []Outcome {
	if fc := ex.v.contractFor(fn); fc != nil && ex.v.useContract(ex, fc, fn) {
		return ex.applyContract(fr, x, fc, fn, args, pos)
	}
	if fn.Pkg == ex.v.pkg && fn.Name() == "BootStrap" && fr != nil && ex.v.other(fr.fn.Pkg) {
		// a command hands over to the server
		x.st.write("W:boot", Add(x.st.read("W:boot"), Int(1)))
		if g, ok := ex.v.pkg.Members["ConfigFile"].(*ssa.Global); ok {
			x.st.write("W:boot.file", x.st.load(globalAddr(g), deref(g.Type())).t())
		}
		return retOut(x.st)
	}
	if len(fn.Blocks) > 0 {
		for _, f := range ex.stack {
			if f == fn {
				n := 0
				for _, g := range ex.stack {
					if g == fn {
						n++
					}
				}
				if n > 3 {
					unsupp("recursion in %s without a contract", fn)
				}
			}
		}
		ex.stack = append(ex.stack, fn)
		outs := ex.runFn(fn, args, bind, x.st, x.env, fr, pos)
		ex.stack = ex.stack[:len(ex.stack)-1]
		return outs
	}
	return ex.extern(fr, x, shortName(fn), fn, args, sig, pos)
}

// ---- builtins

func (ex *Exec) builtin(fr *Frame, x X, b *ssa.Builtin, call *ssa.CallCommon, args []Val, pos token.Pos) []Outcome {
	st := x.st
	switch b.Name() {
	case "len":
		switch {
		case isString(args[0].T):
			return retOut(st, VInt(StrLen(args[0].t())))
		case isSlice(args[0].T):
			return retOut(st, VInt(args[0].L[2]))
		}
		switch u := under(args[0].T).(type) {
		case *types.Map:
			n := ex.mapLen(st, args[0])
			if dom, _, _ := mapKeyNames(args[0].T); !isHeaderMap(args[0].T) {
				// a map that has a key is not empty
				bv := BVarNamed("lk_"+dom, leafSorts(u.Key())[0])
				st.assume(Forall([]*Term{bv}, Implies(And(Not(Eq(args[0].t(), Null)), ex.mapDom(st, args[0], bv)), Lt(Int(0), n))))
			}
			return retOut(st, VInt(n))
		case *types.Array:
			return retOut(st, VInt(Int(u.Len())))
		case *types.Pointer:
			return retOut(st, VInt(Int(under(u.Elem()).(*types.Array).Len())))
		case *types.Chan:
			return retOut(st, VInt(Int(0)))
		}
	case "cap":
		if isSlice(args[0].T) {
			return retOut(st, VInt(args[0].L[3]))
		}
	case "append":
		r := &region{ex: ex, fr: fr}
		var outs []Outcome
		T := call.Signature().Results().At(0).Type()
		if len(args) == 1 {
			return retOut(st, args[0])
		}
		for _, rr := range r.appendSlice(x, args[0], args[1], T) {
			outs = append(outs, Outcome{kind: kRet, st: rr.x.st, vals: []Val{rr.v}})
		}
		return outs
	case "copy":
		dst, src := args[0], args[1]
		if isString(src.T) {
			src = ex.sliceOfBytes(st, nil, src.t())
		}
		n := Ite(Le(dst.L[2], src.L[2]), dst.L[2], src.L[2])
		el := under(dst.T).(*types.Slice).Elem()
		switch contentArr(el) {
		case "B":
			o := st.read("B", dst.L[0])
			s := Substr(st.read("B", src.L[0]), src.L[1], n)
			st.write("B", Concat(Substr(o, Int(0), dst.L[1]), s, Substr(o, Add(dst.L[1], n), Minus(StrLen(o), Add(dst.L[1], n)))), dst.L[0])
		case "L":
			o := st.read("L", dst.L[0])
			s := SeqExtract(st.read("L", src.L[0]), src.L[1], n)
			st.write("L", SeqConcat(SeqExtract(o, Int(0), dst.L[1]), s, SeqExtract(o, Add(dst.L[1], n), Minus(SeqLen(o), Add(dst.L[1], n)))), dst.L[0])
		default:
			ex.copyElems(st, el, dst.L[0], dst.L[1], n, src)
		}
		return retOut(st, VInt(n))
	case "delete":
		ex.mapDelete(st, args[0], args[1])
		return retOut(st)
	case "clear":
		unsupp("clear")
	case "close":
		return ex.closeChan(fr, x, args[0].t(), pos)
	case "recover":
		regKey(panicKey, SBool)
		p := st.read(panicKey)
		v := Fresh("recovered", SIface)
		st.assume(Implies(p, Not(Eq(v, INil))), Implies(Not(p), Eq(v, INil)))
		st.write(panicKey, False)
		return retOut(st, V1(emptyIfaceT, v))
	case "panic":
		return []Outcome{{kind: kPanic, st: st, msg: "explicit panic", pos: pos}}
	case "print", "println":
		return retOut(st)
	case "min", "max":
		v := args[0]
		for _, a := range args[1:] {
			c := Le(v.t(), a.t())
			if b.Name() == "max" {
				c = Le(a.t(), v.t())
			}
			v = V1(v.T, Ite(c, v.t(), a.t()))
		}
		return retOut(st, v)
	case "ssa:wrapnilchk":
		ex.safety(st, Not(Eq(args[0].t(), Null)), "nil receiver", fr, pos)
		st.assume(Not(Eq(args[0].t(), Null)))
		return retOut(st, args[0])
	}
	unsupp("builtin %s of %s", b.Name(), tstr(args[0].T))
	return nil
}

// ---- contracts

// transport rewrites a term over a callee's parameters and entry memory into the caller's state.
func transport(t *Term, m map[*Term]*Term, st *State) *Term {
	memo := map[*Term]*Term{}
	var rec func(x *Term) *Term
	rec = func(x *Term) *Term {
		if r, ok := m[x]; ok {
			return r
		}
		if r, ok := memo[x]; ok {
			return r
		}
		r := x
		if len(x.Args) == 0 && x.Op == "app" && ufKey[x.S] != "" {
			r = st.read(ufKey[x.S])
		}
		if len(x.Args) > 0 {
			as := make([]*Term, len(x.Args))
			ch := false
			for i, a := range x.Args {
				as[i] = rec(a)
				if as[i] != a {
					ch = true
				}
			}
			if x.Op == "app" && ufKey[x.S] != "" {
				r = st.read(ufKey[x.S], as...)
			} else if ch {
				r = rebuild(x, as)
			}
		}
		memo[x] = r
		return r
	}
	return rec(t)
}

func (ex *Exec) applyContract(fr *Frame, x X, fc *Contract, fn *ssa.Function, args []Val, pos token.Pos) []Outcome {
	v := ex.v
	st := x.st
	v.usedContracts[fc.name] = true
	pre := st.clone()
	// preconditions
	se := &specEnv{v: v, ex: ex, st: st, old: pre, vars: map[string]Val{}, fr: fr}
	se.bindParams(fc, fn, args)
	for _, cl := range fc.clauses {
		if cl.kind != "requires" {
			continue
		}
		t, err := se.boolExpr(cl)
		if err != nil {
			unsupp("contract %s: %v", fc.name, err)
		}
		if cl.props == nil || ex.wants(cl.props) {
			ex.oblige(st, t, fmt.Sprintf("precondition of %s: %s", fc.name, cl.text), cl, fr, pos)
		}
		st.assume(t)
	}
	// effects
	ms := v.modset(fn)
	made := NewObj()
	pm := map[*Term]*Term{}
	for i, a := range ms.params {
		for j, l := range a.L {
			pm[l] = args[i].L[j]
		}
	}
	for _, g := range v.globalVals {
		cur := pre.load(g.addr, g.val.T)
		for j, l := range g.val.L {
			pm[l] = cur.L[j]
		}
	}
	for _, k := range sortedKeys(ms.pats) {
		var pats []Pat
		for _, p := range ms.pats[k] {
			q := Pat{kind: p.kind}
			for _, a := range p.args {
				q.args = append(q.args, transport(a, pm, pre))
			}
			pats = append(pats, q)
		}
		st.havoc(k, pats...)
	}
	if len(ms.pats["W:now"]) > 0 {
		st.assume(Le(pre.read("W:now"), st.read("W:now"))) // time does not run backwards
	}
	// results
	var vals []Val
	res := fn.Signature.Results()
	for i := 0; i < res.Len(); i++ {
		vals = append(vals, ex.freshVal(st, fmt.Sprintf("%s_r%d", fn.Name(), i), res.At(i).Type()))
	}
	for _, cl := range fc.clauses {
		// a result that is one of the arguments
		if b, ok := cl.expr.(*ast.BinaryExpr); ok && cl.kind == "ensures" && ex.wants(cl.props) && b.Op == token.EQL && len(vals) == 1 {
			x, ok1 := b.X.(*ast.Ident)
			y, ok2 := b.Y.(*ast.Ident)
			if !ok1 || !ok2 || x.Name != "result" {
				continue
			}
			for i, n := range fc.params {
				if n == y.Name && i < len(args) && types.Identical(args[i].T, vals[0].T) {
					vals[0] = args[i]
				}
			}
		}
	}
	pe := &specEnv{v: v, ex: ex, st: st, old: pre, vars: map[string]Val{}, fr: fr}
	pe.bindParams(fc, fn, args)
	pe.bindResults(fc, vals)
	pe.made, pe.nfr = made, new(int)
	for _, cl := range fc.clauses {
		if cl.kind != "ensures" || !ex.wants(cl.props) {
			continue
		}
		t, err := pe.boolExpr(cl)
		if err != nil {
			unsupp("contract %s: %v", fc.name, err)
		}
		st.assume(t)
	}
	if fc.records {
		n := st.read("W:calls." + fc.recordName())
		val := vals[0]
		for i, r := range fc.results {
			if r == fc.recorded {
				val = vals[i]
			}
		}
		st.write("W:ret."+fc.recordName(), val.t(), n)
		st.write("W:calls."+fc.recordName(), Add(n, Int(1)))
	}
	outs := retOut(st, vals...)
	if !fc.declaresLate() {
		return outs
	}
	// a goroutine may have been left behind
	when := True
	le := *se
	le.st = pre
	rec := &volRec{pats: map[string][]Pat{}, end: map[string]*Upd{}, flag: False}
	for _, cl := range fc.clauses {
		switch cl.kind {
		case "latewhen":
			t, err := pe.boolExpr(cl)
			if err != nil {
				unsupp("contract %s: %v", fc.name, err)
			}
			when = And(when, t)
		case "late":
			ks, ps, err := le.lateCells(cl)
			if err != nil {
				unsupp("contract %s: %v", fc.name, err)
			}
			for i, k := range ks {
				if k == closedKey() {
					rec.shut = append(rec.shut, ps[i])
				} else {
					rec.pats[k] = append(rec.pats[k], ps[i])
				}
			}
		}
	}
	if !ex.feasible(st, when) {
		return outs
	}
	left := st.clone()
	left.assume(when)
	end := left.clone()
	for _, k := range sortedKeys(rec.pats) {
		end.havoc(k, rec.pats[k]...)
		rec.end[k] = end.mem[k]
	}
	left.pc = end.pc
	for _, p := range rec.shut {
		left.write(lateKey(), True, p.args[0])
	}
	left.vol = append(left.vol[:len(left.vol):len(left.vol)], rec)
	left.volFlag = append(left.volFlag[:len(left.volFlag):len(left.volFlag)], False)
	lo := retOut(left, vals...)
	if !ex.feasible(st, Not(when)) {
		return lo
	}
	st.assume(Not(when))
	return append(retOut(st, vals...), lo...)
}
