package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// cancels maps the object standing for a context's cancel function to the context's done channel.
var cancels = map[int]*Term{}

func closedKey() string { return regKey("G:closed", SBool, SAddr) }
func extKey() string    { return regKey("G:ext", SBool, SAddr) }
func lateKey() string   { return regKey("W:late", SBool, SAddr) }

// volRec are the cells an abandoned goroutine may still write.
type volRec struct {
	pats map[string][]Pat
	end  map[string]*Upd
	flag *Term
	shut []Pat // channels it may still close
}

func (ex *Exec) closeChan(fr *Frame, x X, ch *Term, pos token.Pos) []Outcome {
	r := &region{ex: ex, fr: fr, lt: ex.loops(fr.fn)}
	ok := And(Not(Eq(ch, Null)), Not(x.st.read(closedKey(), ch)))
	var outs []Outcome
	if ok != True {
		if recoverable(x.env) {
			if ex.feasible(x.st, Not(ok)) {
				y := x.st.clone()
				y.assume(Not(ok))
				outs = append(outs, Outcome{kind: kPanic, st: y, msg: "close of nil or closed channel", pos: pos})
			}
		} else {
			ex.safety(x.st, ok, "close of nil or closed channel", fr, pos)
		}
		x.st.assume(ok)
	}
	_ = r
	x.st.write(closedKey(), True, ch)
	if ex.inGo > 0 {
		m := Mem{}
		for k, u := range x.st.mem {
			m[k] = u
		}
		x.st.snap = append(x.st.snap[:len(x.st.snap):len(x.st.snap)], closeSnap{ch, m})
	}
	return append(outs, Outcome{kind: kRet, st: x.st, pos: pos})
}

type closeSnap struct {
	ch  *Term
	mem Mem
}

func (r *region) goStmt(i *ssa.Go, x X) []X {
	ex := r.ex
	p := &pending{}
	for _, a := range i.Call.Args {
		p.args = append(p.args, ex.val(r.fr, &x, a))
	}
	if i.Call.IsInvoke() {
		unsupp("go statement on an interface method")
	}
	if _, ok := i.Call.Value.(*ssa.Builtin); ok {
		unsupp("go statement on a builtin")
	}
	fv := ex.val(r.fr, &x, i.Call.Value)
	if fv.t().Op != "obj" {
		unsupp("go statement on an unknown function")
	}
	if ci := closures[objId(fv.t())]; ci != nil {
		p.fn, p.bind = ci.fn, ci.bind
	} else if fn := funcById[objId(fv.t())]; fn != nil {
		p.fn = fn
	} else {
		unsupp("go statement on an unknown function")
	}
	p.site = i.Pos()
	if len(p.fn.Blocks) == 0 {
		// an external function running in the background
		outs := ex.callFn(r.fr, X{st: x.st, env: x.env}, p.fn, p.bind, p.args, i.Call.Signature(), i.Pos())
		for _, o := range outs {
			if o.kind == kRet {
				x.st = o.st
			}
		}
		return one(x)
	}
	if fc := ex.v.contractFor(p.fn); fc != nil {
		// verified on its own; its effects on shared memory are described there
		ex.v.assumption(fmt.Sprintf("background run of %s started by %s does not interfere with its starter", shortName(p.fn), shortName(r.fr.fn)))
		return one(x)
	}
	x.st.pend = append(x.st.pend[:len(x.st.pend):len(x.st.pend)], p)
	return one(x)
}

// runPending runs a goroutine to its end; interfere models the starter running on meanwhile.
func (ex *Exec) runPending(fr *Frame, x X, p *pending, interfere bool) []Outcome {
	ex.inGo++
	old := ex.interfere
	ex.interfere = interfere
	defer func() { ex.inGo--; ex.interfere = old }()
	st := x.st.clone()
	st.pend = nil
	st.snap = nil
	f := &Frame{fn: fr.fn, caller: nil, depth: fr.depth}
	return ex.runFn(p.fn, p.args, p.bind, st, nil, f, p.site)
}

// starterMayChange lists what a goroutine must expect its starter to change while it is blocked.
var starterMayChange = []string{"F:Up.", "F:Down.AbortedFlag", "F:Atmpt.AbortedFlag"}

// blocked is called by externals that block: in a goroutine the rest of the program moves on meanwhile.
func (ex *Exec) blocked(st *State) {
	if !ex.interfere {
		return
	}
	for _, k := range sortedKeys(keys) {
		for _, p := range starterMayChange {
			if strings.HasPrefix(k, p) {
				before := st.clone()
				st.havoc(k, Pat{kind: 'a'})
				ki := keys[k]
				if ki.res == SAddr && len(ki.args) == 1 && ki.typ != nil && ex.v.neverNil(k) {
					a := BVarNamed("p_"+sanit(k), SAddr)
					st.assume(Forall([]*Term{a}, Implies(Not(Eq(before.read(k, a), Null)), Not(Eq(st.read(k, a), Null)))))
				}
			}
		}
	}
	ex.v.assumption("while a goroutine is blocked its starter may change the attempt list and the abort flags, nothing else the goroutine reads")
}

func (r *region) recv(i *ssa.UnOp, x X) []X {
	ex := r.ex
	ch := ex.val(r.fr, &x, i.X).t()
	el := under(i.X.Type()).(*types.Chan).Elem()
	x.st.assume(Not(Eq(ch, Null)))
	v := ex.freshVal(x.st, "recv", el)
	ex.v.assumption("receives deliver arbitrary values")
	if i.CommaOk {
		r.set(&x, i, mkTuple(i.Type(), v, VBool(Fresh("recvok", SBool))))
	} else {
		r.set(&x, i, v)
	}
	return one(x)
}

func (r *region) selectStmt(i *ssa.Select, x X) []X {
	ex := r.ex
	var res []X
	finish := func(y X, idx int64) {
		y.env = y.env.clone()
		tup := i.Type().(*types.Tuple)
		out := Val{T: tup, L: []*Term{Int(idx), Fresh("recvOk", SBool)}}
		for k := 2; k < tup.Len(); k++ {
			out.L = append(out.L, ex.freshVal(y.st, "recv", tup.At(k).Type()).L...)
		}
		y.env.vals[i] = out
		if !y.st.dead {
			res = append(res, y)
		}
	}
	fork := func(y X) X { return X{st: y.st.clone(), env: y.env.clone(), pred: y.pred} }
	var chans []*Term
	for _, s := range i.States {
		if s.Dir != types.RecvOnly {
			unsupp("send in select")
		}
		chans = append(chans, ex.val(r.fr, &x, s.Chan).t())
	}
	if !i.Blocking {
		var flags []*Term
		for _, ch := range chans {
			c := Fresh("closed", SBool)
			was := x.st.read(closedKey(), ch)
			ext := x.st.read(extKey(), ch)
			x.st.assume(Implies(was, c), Implies(Not(ext), Eq(c, was)), Implies(Eq(ch, Null), Not(c)))
			x.st.write(closedKey(), c, ch)
			flags = append(flags, c)
		}
		none := True
		for k, c := range flags {
			none = And(none, Not(c))
			if ex.feasible(x.st, c) {
				y := fork(x)
				y.st.assume(c)
				finish(y, int64(k))
			}
		}
		if ex.feasible(x.st, none) {
			x.st.assume(none)
			finish(x, -1)
		}
		return res
	}
	pend := x.st.pend
	for k, ch := range chans {
		if ch == Null {
			continue
		}
		nn := Not(Eq(ch, Null))
		ext := x.st.read(extKey(), ch)
		// closed from outside (a context), at any time
		if ex.feasible(x.st, nn, ext) {
			y := fork(x)
			y.st.assume(nn, ext)
			y.st.write(closedKey(), True, ch)
			for _, z := range ex.abandon(r.fr, y, pend) {
				finish(z, int64(k))
			}
		}
		was := x.st.read(closedKey(), ch)
		if ex.feasible(x.st, nn, Not(ext), was) {
			y := fork(x)
			y.st.assume(nn, Not(ext), was)
			for _, z := range ex.abandon(r.fr, y, pend) {
				finish(z, int64(k))
			}
		}
		// closed by a goroutine that ran to the end
		if !ex.feasible(x.st, nn, Not(ext), Not(was)) {
			continue
		}
		for pi, p := range pend {
			y := fork(x)
			y.st.assume(nn, Not(ext), Not(was))
			for _, o := range ex.runPending(r.fr, y, p, false) {
				if o.kind == kPanic {
					// nobody recovers a panic in a goroutine
					ex.safety(o.st, False, "panic in goroutine: "+o.msg, r.fr, o.pos)
					continue
				}
				if o.kind != kRet {
					r.outs = append(r.outs, o)
					continue
				}
				var snap *closeSnap
				for si := range o.st.snap {
					if o.st.snap[si].ch == ch || !ex.feasible(o.st, Not(Eq(o.st.snap[si].ch, ch))) {
						snap = &o.st.snap[si]
						break
					}
				}
				if snap == nil {
					if ex.feasible(o.st, o.st.read(closedKey(), ch)) && len(o.st.snap) > 0 {
						unsupp("cannot tell which channel a goroutine closes: %s against %s", o.st.snap[0].ch, ch)
					}
					continue // this run never wakes the select
				}
				z := X{st: o.st, env: y.env.clone(), pred: y.pred}
				z.st.snap = nil
				// whatever the goroutine does after the close is unordered with its starter
				for _, w := range writesSince(snap.mem, z.st.mem) {
					pats := patsOf(w.u, func(t *Term) bool { return true }, 1<<30)
					z.st.havoc(w.key, pats...)
				}
				var rest []*pending
				for pj, q := range pend {
					if pj != pi {
						rest = append(rest, q)
					}
				}
				for _, zz := range ex.abandon(r.fr, z, rest) {
					finish(zz, int64(k))
				}
			}
		}
	}
	return res
}

// abandon leaves goroutines running: their writes may happen at any later time.
func (ex *Exec) abandon(fr *Frame, x X, ps []*pending) []X {
	st := x.st
	st.pend = nil
	for _, p := range ps {
		start := x.st.clone()
		start.allocMark = allocCount
		outs := ex.runPending(fr, X{st: start, env: x.env}, p, true)
		rec := &volRec{pats: map[string][]Pat{}, end: map[string]*Upd{}, flag: False}
		var live []Outcome
		for _, o := range outs {
			switch o.kind {
			case kRet:
				if !o.st.dead {
					live = append(live, o)
				}
			case kPanic:
				ex.safety(o.st, False, "panic in goroutine: "+o.msg, fr, o.pos)
			}
		}
		if len(live) == 0 {
			continue
		}
		// which run it will be is not known
		n := len(st.pc)
		var sel []*Term
		for range live[1:] {
			sel = append(sel, Fresh("run", SBool))
		}
		chosen := func(i int) *Term {
			c := True
			for j := 0; j < i && j < len(sel); j++ {
				c = And(c, Not(sel[j]))
			}
			if i < len(sel) {
				c = And(c, sel[i])
			}
			return c
		}
		for i, o := range live {
			k := 0
			for k < n && k < len(o.st.pc) && o.st.pc[k] == st.pc[k] {
				k++
			}
			for _, f := range o.st.pc[k:] {
				st.assume(Implies(chosen(i), f))
			}
		}
		base := Mem{}
		for k, u := range start.mem {
			base[k] = u
		}
		keyset := map[string]bool{}
		for _, o := range live {
			for k, u := range o.st.mem {
				if base[k] != u {
					keyset[k] = true
				}
			}
		}
		for _, k := range sortedKeys(keyset) {
			end := live[len(live)-1].st.mem[k]
			for i := len(live) - 2; i >= 0; i-- {
				end = joinChain(sel[i], live[i].st.mem[k], end)
			}
			if strings.HasPrefix(k, "W:") && k != lateKey() {
				st.mem[k] = end
				continue
			}
			if k == panicKey || strings.HasPrefix(k, "V:") {
				continue
			}
			if k == closedKey() || strings.HasPrefix(k, "F:") || strings.HasPrefix(k, "C:") || strings.HasPrefix(k, "M:") || k == "B" || k == "L" || k == "H" {
				var pats, own []Pat
				for _, o := range live {
					for _, w := range writesSince(Mem{k: base[k]}, Mem{k: o.st.mem[k]}) {
						if w.u.kind == 'h' && ex.isInterference(k) {
							continue
						}
						for _, pt := range patsOf(w.u, func(t *Term) bool { return true }, 1<<30) {
							if len(pt.args) > 0 {
								// objects the goroutine made itself are its own
								if r := rootOf(pt.args[0]); r.Op == "obj" && objId(r) > start.allocMark {
									own = append(own, pt)
									continue
								}
							}
							dup := false
							for _, q := range pats {
								if samePat(q, pt) {
									dup = true
								}
							}
							if !dup {
								pats = append(pats, pt)
							}
						}
					}
				}
				if len(pats) == 0 && len(own) == 0 {
					continue
				}
				if len(pats) == 0 && !ex.isInterference(k) {
					st.mem[k] = end
					continue
				}
				if len(own) > 0 {
					st.mem[k] = &Upd{kind: 'w', pats: own, cond: True, other: end, prev: st.mem[k]}
				}
				for _, pt := range pats {
					if pt.kind == 'x' || pt.kind == 'm' || pt.kind == 'e' {
						st.write(lateKey(), True, pt.args[0])
					} else {
						st.fill(lateKey(), True)
					}
				}
				if k == closedKey() {
					rec.shut = pats
					continue // recorded as late; receives from external channels are unordered anyway
				}
				rec.pats[k] = pats
				rec.end[k] = end
			}
		}
		st.vol = append(st.vol[:len(st.vol):len(st.vol)], rec)
		st.volFlag = append(st.volFlag[:len(st.volFlag):len(st.volFlag)], False)
	}
	return one(x)
}

// neverNil: every store to this pointer field in the package stores the address of something.
func (v *Verifier) neverNil(key string) bool {
	if r, ok := v.nonNilFields[key]; ok {
		return r
	}
	ok := true
	for _, fn := range v.allFuncs() {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				s, is := i.(*ssa.Store)
				if !is {
					continue
				}
				fa, is := s.Addr.(*ssa.FieldAddr)
				if !is {
					if al, is := s.Addr.(*ssa.Alloc); holdsField(s.Val.Type(), key) && (!is || al.Heap) {
						ok = false
					}
					continue
				}
				if holdsField(s.Val.Type(), key) {
					ok = false
				}
				if "F:"+fieldName(fid(deref(fa.X.Type()), fa.Field)) != key {
					continue
				}
				switch s.Val.(type) {
				case *ssa.Alloc, *ssa.IndexAddr, *ssa.FieldAddr:
				default:
					ok = false
				}
			}
		}
	}
	if v.nonNilFields == nil {
		v.nonNilFields = map[string]bool{}
	}
	v.nonNilFields[key] = ok
	return ok
}

// holdsField: values of the type contain the field.
func holdsField(t types.Type, key string) bool {
	switch u := under(t).(type) {
	case *types.Struct:
		for i := 0; i < u.NumFields(); i++ {
			if "F:"+fieldName(fid(t, i)) == key || holdsField(u.Field(i).Type(), key) {
				return true
			}
		}
	case *types.Array:
		return holdsField(u.Elem(), key)
	}
	return false
}

func (ex *Exec) isInterference(k string) bool {
	for _, p := range starterMayChange {
		if strings.HasPrefix(k, p) {
			return true
		}
	}
	return false
}

// touch lets abandoned goroutines act before a read of a key.
func (s *State) touch(key string) {
	for i, rec := range s.vol {
		pats, ok := rec.pats[key]
		if !ok {
			continue
		}
		f := Fresh("late", SBool)
		s.assume(Implies(s.volFlag[i], f))
		s.volFlag = append([]*Term{}, s.volFlag...)
		s.volFlag[i] = f
		s.mem[key] = &Upd{kind: 'w', pats: pats, cond: f, other: rec.end[key], prev: s.mem[key]}
	}
}

func touchCells(s *State, a *Term, t types.Type) {
	if _, x, y, ok := splitIte(a); ok {
		touchCells(s, x, t)
		touchCells(s, y, t)
		return
	}
	if isStruct(t) {
		st := under(t).(*types.Struct)
		for i := 0; i < st.NumFields(); i++ {
			touchCells(s, Sub(a, fid(t, i)), st.Field(i).Type())
		}
		return
	}
	if _, ok := under(t).(*types.Array); ok {
		return
	}
	for _, l := range scalarLeaves(t) {
		k, _ := cellKey(a, t, l)
		s.touch(k)
	}
}
