package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Upd is one node of a memory chain. A nil *Upd is the initial memory of its key.
type Upd struct {
	kind  byte // 's' store, 'h' havoc, 'j' join, 'r' index remap
	idx   []*Term
	val   *Term
	pats  []Pat
	uf    string
	age   int
	sym   int
	cond  *Term
	prev  *Upd
	other *Upd // join: value when cond is false
	rm    *Remap
	form  *closed // 'l': closed form of a loop
	fenv  *Env
	fst   *State
	fn    func(idx []*Term) *Term // 'l': given directly
}

// Pat describes the cells a havoc covers.
type Pat struct {
	kind byte // 'x' exact, 'a' all, 'e' elements of array, 'm' entries of map
	args []*Term
}

// Remap reads cells of dst elements [lo,lo+n) from the element given by src(j), j relative to lo.
type Remap struct {
	dst, lo, n *Term
	src        func(j *Term) *Term // address of the source element
	desc       string
}

type keyInfo struct {
	name string
	args []string
	res  string
	nn   bool // values are never negative
	typ  types.Type
}

var keys = map[string]*keyInfo{}
var ufKey = map[string]string{} // UF name of initial memory -> key

func regKey(name string, res string, args ...string) string {
	if _, ok := keys[name]; !ok {
		keys[name] = &keyInfo{name: name, args: args, res: res}
	}
	return name
}

type Mem map[string]*Upd

type State struct {
	mem       Mem
	pc        []*Term
	pend      []*pending
	path      []string
	dead      bool
	snap      []closeSnap
	vol       []*volRec
	volFlag   []*Term
	allocMark int
}

func newState() *State { return &State{mem: Mem{}} }

func (s *State) clone() *State {
	n := &State{mem: make(Mem, len(s.mem)+4)}
	for k, v := range s.mem {
		n.mem[k] = v
	}
	n.pc = s.pc[:len(s.pc):len(s.pc)]
	n.pend = s.pend[:len(s.pend):len(s.pend)]
	n.path = s.path[:len(s.path):len(s.path)]
	n.snap = s.snap[:len(s.snap):len(s.snap)]
	n.vol = s.vol
	n.volFlag = s.volFlag
	return n
}

func (s *State) assume(ts ...*Term) {
	for _, t := range ts {
		if t == True {
			continue
		}
		if t.Op == "and" {
			s.assume(t.Args...)
			continue
		}
		if t == False {
			s.dead = true
		}
		s.pc = append(s.pc, t)
	}
}

// unzeroed objects were not allocated by Go code: their content is unknown
var unzeroed = map[int]bool{}
var initMode bool // package initialisation: globals start zeroed

func objId(t *Term) int { return int(t.I.Int64()) }

type readKey struct {
	u *Upd
	k string
	a int
	b int
}

var readMemo = map[readKey]*Term{}

func (s *State) read(key string, idx ...*Term) *Term { return readChain(s.mem[key], key, idx) }

func readChain(u *Upd, key string, idx []*Term) *Term {
	rk := readKey{u: u, k: key}
	if len(idx) > 0 {
		rk.a = idx[0].id
	}
	if len(idx) > 1 {
		rk.b = idx[1].id
	}
	if r, ok := readMemo[rk]; ok {
		return r
	}
	r := readRaw(u, key, idx)
	readMemo[rk] = r
	return r
}

func ufName(key string) string { return sanit(key) + "@0" }

func readRaw(u *Upd, key string, idx []*Term) *Term {
	ki := keys[key]
	if ki == nil {
		panic("unregistered key " + key)
	}
	// reads through conditional addresses
	if len(idx) > 0 && idx[0].Op == "ite" && idx[0].Sort == SAddr {
		c := idx[0]
		rest := idx[1:]
		return Ite(c.Args[0],
			readChain(u, key, append([]*Term{c.Args[1]}, rest...)),
			readChain(u, key, append([]*Term{c.Args[2]}, rest...)))
	}
	if len(idx) > 0 && idx[0].Op == "sub" && idx[0].Args[0].Op == "ite" {
		c := idx[0].Args[0]
		f := int(idx[0].I.Int64())
		rest := idx[1:]
		return Ite(c.Args[0],
			readChain(u, key, append([]*Term{Sub(c.Args[1], f)}, rest...)),
			readChain(u, key, append([]*Term{Sub(c.Args[2], f)}, rest...)))
	}
	rootObj := 0
	if len(idx) > 0 && idx[0].Sort == SAddr {
		if r := rootOf(idx[0]); r.Op == "obj" {
			rootObj = objId(r)
		}
	}
	for u != nil {
		switch u.kind {
		case 's':
			eq := True
			for i := range idx {
				eq = And(eq, Eq(idx[i], u.idx[i]))
			}
			if eq == True {
				return u.val
			}
			if eq == False {
				u = u.prev
				continue
			}
			return Ite(eq, u.val, readChain(u.prev, key, idx))
		case 'h':
			if rootObj > u.age {
				u = u.prev
				continue
			}
			c := False
			for _, p := range u.pats {
				c = Or(c, p.match(idx))
			}
			if c == False {
				u = u.prev
				continue
			}
			v := applyUF(u.uf, key, idx, u.age, u.sym)
			if key == "G:closed" {
				return Or(And(c, v), readChain(u.prev, key, idx)) // a closed channel stays closed
			}
			if c == True {
				return v
			}
			return Ite(c, v, readChain(u.prev, key, idx))
		case 'l':
			if rootObj > u.age {
				u = u.prev
				continue
			}
			c := False
			for _, p := range u.pats {
				c = Or(c, p.match(idx))
			}
			if c == False {
				u = u.prev
				continue
			}
			var v *Term
			if u.fn != nil {
				v = u.fn(idx)
			} else {
				v = u.form.form(u.fst, u.fenv, idx)
			}
			if v == nil {
				unsupp("read of %s at %s", key, idx[0])
			}
			if c == True {
				return v
			}
			return Ite(c, v, readChain(u.prev, key, idx))
		case 'p':
			e := Eq(idx[0], u.idx[0])
			if u.cond != nil {
				e = And(e, u.cond)
			}
			if e == False {
				u = u.prev
				continue
			}
			v := readChain(u.other, u.uf, []*Term{u.val, idx[1]})
			if e == True {
				return v
			}
			return Ite(e, v, readChain(u.prev, key, idx))
		case 'w':
			c := False
			for _, p := range u.pats {
				c = Or(c, p.match(idx))
			}
			c = And(c, u.cond)
			if c == False {
				u = u.prev
				continue
			}
			return Ite(c, readChain(u.other, key, idx), readChain(u.prev, key, idx))
		case 'c':
			return u.val
		case 'j':
			a := readChain(u.prev, key, idx)
			b := readChain(u.other, key, idx)
			return Ite(u.cond, a, b)
		case 'r':
			c, src, known := u.rm.match(idx[0])
			if !known {
				if ageOf(idx[0]) < rootAge(u.rm.dst) {
					u = u.prev
					continue
				}
				v := applyUF(u.uf, key, idx, u.age, u.sym)
				return v
			}
			if c == False {
				u = u.prev
				continue
			}
			ni := append([]*Term{src}, idx[1:]...)
			v := readChain(u.prev, key, ni)
			if c == True {
				return v
			}
			return Ite(c, v, readChain(u.prev, key, idx))
		}
	}
	if rootObj > 0 && !unzeroed[rootObj] || initMode && rootObj < 0 {
		return zeroOfSort(ki.res)
	}
	if len(idx) > 0 && idx[0] == Null {
		return zeroOfSort(ki.res)
	}
	return applyUF(ufName(key), key, idx, 0, 0)
}

func ageOf(t *Term) int {
	return t.age
}
func rootAge(t *Term) int {
	r := rootOf(t)
	if r.Op == "obj" {
		return objId(r)
	}
	if r.Op == "ite" {
		a, b := rootAge(r.Args[1]), rootAge(r.Args[2])
		if b < a {
			return b
		}
		return a
	}
	return 0
}

// ufSym: when a havoc introduced its function
var ufSym = map[string]int{}

func applyUF(uf, key string, idx []*Term, age, sym int) *Term {
	ki := keys[key]
	if uf == ufName(key) {
		ufKey[uf] = key
	}
	if len(idx) > 0 && idx[0].Sort == SAddr {
		if r := rootAge(idx[0]); r > age {
			age = r
		}
	}
	t := AppAt(uf, ki.res, age, sym, idx...)
	if sym > 0 {
		ufSym[t.S] = sym
	}
	if ki.nn {
		nonnegUF[t.S] = true
	}
	return t
}

func (p Pat) match(idx []*Term) *Term {
	switch p.kind {
	case 'a':
		return True
	case 'x':
		eq := True
		for i := range idx {
			eq = And(eq, Eq(idx[i], p.args[i]))
		}
		return eq
	case 'm':
		return Eq(idx[0], p.args[0])
	case 'e':
		a := idx[0]
		for a.Op == "sub" {
			a = a.Args[0]
		}
		if a.Op == "elem" {
			r := Eq(a.Args[0], p.args[0])
			if r == False && a.Args[0].Op == "sub" {
				// element of an array nested in an element
				return Pat{'e', p.args}.match([]*Term{a.Args[0]})
			}
			return r
		}
		if a.Op == "obj" || a.Op == "null" {
			return False
		}
		if rootAge(p.args[0]) > ageOf(a) {
			return False
		}
		if a.bound || a.Op == "var" || a.Op == "app" {
			return True
		}
		return True
	}
	return True
}

// match decides whether address a lies in the remapped range; known is false if it cannot tell.
func (r *Remap) match(a *Term) (cond, src *Term, known bool) {
	var subs []int
	x := a
	for x.Op == "sub" {
		subs = append(subs, int(x.I.Int64()))
		x = x.Args[0]
	}
	if x.Op == "elem" {
		e := Eq(x.Args[0], r.dst)
		if e == False {
			return False, nil, true
		}
		j := Minus(x.Args[1], r.lo)
		c := And(e, Le(Int(0), j), Lt(j, r.n))
		s := r.src(j)
		for i := len(subs) - 1; i >= 0; i-- {
			s = Sub(s, subs[i])
		}
		return c, s, true
	}
	if x.Op == "obj" || x.Op == "null" {
		return False, nil, true
	}
	if rootAge(r.dst) > ageOf(x) {
		return False, nil, true // an address from before the range came into being
	}
	return nil, nil, false
}

func (s *State) write(key string, val *Term, idx ...*Term) {
	ki := keys[key]
	if ki == nil {
		panic("unregistered key " + key)
	}
	if val.Sort != ki.res {
		panic(fmt.Sprintf("write %s: sort %s, want %s", key, val.Sort, ki.res))
	}
	if len(idx) > 0 && idx[0].Op == "ite" && idx[0].Sort == SAddr {
		c := idx[0]
		a := append([]*Term{c.Args[1]}, idx[1:]...)
		b := append([]*Term{c.Args[2]}, idx[1:]...)
		s.write(key, Ite(c.Args[0], val, s.read(key, a...)), a...)
		// second write must see the old value where the first applied
		s.write(key, Ite(c.Args[0], s.read(key, b...), val), b...)
		return
	}
	if s.read(key, idx...) == val {
		return
	}
	s.mem[key] = &Upd{kind: 's', idx: idx, val: val, prev: s.mem[key]}
}

// fill sets every cell of a key to one value.
func (s *State) fill(key string, val *Term) {
	s.mem[key] = &Upd{kind: 'c', val: val, prev: s.mem[key]}
}

func sameIdx(a, b []*Term) bool {
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func (s *State) havoc(key string, pats ...Pat) {
	symCount++
	s.mem[key] = &Upd{kind: 'h', pats: pats, uf: fmt.Sprintf("%s@%d", sanit(key), symCount), age: allocCount, sym: symCount, prev: s.mem[key]}
}

func (s *State) remap(key string, rm *Remap) {
	symCount++
	s.mem[key] = &Upd{kind: 'r', rm: rm, uf: fmt.Sprintf("%s@%d", sanit(key), symCount), age: allocCount, sym: symCount, prev: s.mem[key]}
}

// ---- typed access

func cellKey(a *Term, t types.Type, l leaf) (string, []*Term) {
	var name string
	var idx []*Term
	if a.Op == "sub" {
		name = "F:" + fieldName(int(a.I.Int64())) + l.suffix
		idx = []*Term{a.Args[0]}
	} else {
		name = "C:" + tstr(t) + l.suffix
		idx = []*Term{a}
	}
	if _, ok := keys[name]; !ok {
		regKey(name, l.sort, SAddr)
		k := keys[name]
		k.typ = t
		k.nn = l.suffix == ".len" || l.suffix == ".cap" || l.suffix == ".off" || l.sort == SInt && isUnsigned(t)
	}
	return name, idx
}

// iteAddr pushes typed access through conditional addresses.
func splitIte(a *Term) (*Term, *Term, *Term, bool) {
	if a.Op == "ite" {
		return a.Args[0], a.Args[1], a.Args[2], true
	}
	if a.Op == "sub" {
		if c, x, y, ok := splitIte(a.Args[0]); ok {
			f := int(a.I.Int64())
			return c, Sub(x, f), Sub(y, f), true
		}
	}
	if a.Op == "elem" {
		if c, x, y, ok := splitIte(a.Args[0]); ok {
			return c, Elem(x, a.Args[1]), Elem(y, a.Args[1]), true
		}
	}
	return nil, nil, nil, false
}

func (s *State) load(a *Term, t types.Type) Val {
	if c, x, y, ok := splitIte(a); ok {
		return iteVal(c, s.load(x, t), s.load(y, t))
	}
	if isStruct(t) {
		st := under(t).(*types.Struct)
		v := Val{T: t}
		for i := 0; i < st.NumFields(); i++ {
			v.L = append(v.L, s.load(Sub(a, fid(t, i)), st.Field(i).Type()).L...)
		}
		return v
	}
	if arr, ok := under(t).(*types.Array); ok {
		if isByte(arr.Elem()) {
			return Val{t, []*Term{s.read("B", a)}}
		}
		return Val{t, []*Term{a}}
	}
	if a.Op == "elem" {
		switch contentArr(t) {
		case "B":
			return Val{t, []*Term{CharAt(s.read("B", a.Args[0]), a.Args[1])}}
		case "L":
			return Val{t, []*Term{SeqNth(s.read("L", a.Args[0]), a.Args[1])}}
		}
	}
	v := Val{T: t}
	for _, l := range scalarLeaves(t) {
		k, idx := cellKey(a, t, l)
		v.L = append(v.L, s.read(k, idx...))
	}
	return v
}

func (s *State) store(a *Term, t types.Type, v Val) {
	if c, x, y, ok := splitIte(a); ok {
		s.store(x, t, iteVal(c, v, s.load(x, t)))
		s.store(y, t, iteVal(c, s.load(y, t), v))
		return
	}
	if len(v.L) != numLeaves(t) {
		panic(fmt.Sprintf("store %s: %d leaves for %s", a, len(v.L), tstr(t)))
	}
	if isStruct(t) {
		st := under(t).(*types.Struct)
		off := 0
		for i := 0; i < st.NumFields(); i++ {
			ft := st.Field(i).Type()
			n := numLeaves(ft)
			s.store(Sub(a, fid(t, i)), ft, Val{ft, v.L[off : off+n]})
			off += n
		}
		return
	}
	if arr, ok := under(t).(*types.Array); ok {
		if isByte(arr.Elem()) {
			s.write("B", v.L[0], a)
		}
		return
	}
	if a.Op == "elem" {
		switch contentArr(t) {
		case "B":
			old := s.read("B", a.Args[0])
			s.write("B", strSet(old, a.Args[1], FromCode(v.L[0])), a.Args[0])
			return
		case "L":
			old := s.read("L", a.Args[0])
			s.write("L", listSet(old, a.Args[1], v.L[0]), a.Args[0])
			return
		}
	}
	for i, l := range scalarLeaves(t) {
		k, idx := cellKey(a, t, l)
		s.write(k, v.L[i], idx...)
	}
}

func strSet(s, i, c *Term) *Term {
	if s.Op == "str" && i.Op == "int" && c.Op == "str" {
		k := i.I.Int64()
		if k >= 0 && k < int64(len(s.S)) {
			return Str(s.S[:k] + c.S + s.S[k+1:])
		}
	}
	n := StrLen(s)
	return Concat(Substr(s, Int(0), i), c, Substr(s, Add(i, Int(1)), Minus(n, Add(i, Int(1)))))
}

func listSet(s, i, c *Term) *Term {
	if s.Op == "seqlit" && i.Op == "int" {
		k := i.I.Int64()
		if k >= 0 && k < int64(len(s.Args)) {
			a := append([]*Term{}, s.Args...)
			a[k] = c
			return SeqLit(a...)
		}
	}
	n := SeqLen(s)
	return SeqConcat(SeqExtract(s, Int(0), i), SeqLit(c), SeqExtract(s, Add(i, Int(1)), Minus(n, Add(i, Int(1)))))
}

func iteVal(c *Term, a, b Val) Val {
	if len(a.L) != len(b.L) {
		panic(fmt.Sprintf("iteVal: %d/%d leaves %s %s", len(a.L), len(b.L), tstr(a.T), tstr(b.T)))
	}
	r := Val{T: a.T}
	for i := range a.L {
		r.L = append(r.L, Ite(c, a.L[i], b.L[i]))
	}
	return r
}

func eqVal(a, b Val) *Term {
	r := True
	if len(a.L) != len(b.L) {
		panic(fmt.Sprintf("eqVal: %d/%d leaves %s %s", len(a.L), len(b.L), tstr(a.T), tstr(b.T)))
	}
	for i := range a.L {
		r = And(r, Eq(a.L[i], b.L[i]))
	}
	return r
}

// ---- merging

// mergeInto merges b into a copy of a under selector sel (true selects a); pcs have a common prefix of length n.
func mergeMem(sel *Term, a, b Mem) Mem {
	m := make(Mem, len(a))
	for k, u := range a {
		m[k] = u
	}
	for k, v := range b {
		u, ok := m[k]
		if ok && u == v {
			continue
		}
		m[k] = joinChain(sel, u, v)
	}
	for k, u := range a {
		if _, ok := b[k]; !ok && u != nil {
			m[k] = joinChain(sel, u, nil)
		}
	}
	return m
}

func joinChain(sel *Term, u, v *Upd) *Upd {
	if u == v {
		return u
	}
	return &Upd{kind: 'j', cond: sel, prev: u, other: v}
}

func memDiff(a, b Mem) int {
	n := 0
	for k, v := range b {
		if a[k] != v {
			n++
		}
	}
	for k, u := range a {
		if _, ok := b[k]; !ok && u != nil {
			n++
		}
	}
	return n
}

// ---- write sets

type writeRec struct {
	key string
	u   *Upd
}

// writesSince lists the updates made after the mark.
func writesSince(mark, now Mem) []writeRec {
	var out []writeRec
	for _, k := range sortedKeys(now) {
		u := now[k]
		base := mark[k]
		seen := map[*Upd]bool{}
		var rec func(x *Upd)
		rec = func(x *Upd) {
			for x != nil && x != base && !seen[x] {
				seen[x] = true
				if x.kind == 'j' {
					rec(x.other)
					x = x.prev
					continue
				}
				out = append(out, writeRec{k, x})
				x = x.prev
			}
		}
		rec(u)
	}
	return out
}

func isGhostKey(k string) bool { return strings.HasPrefix(k, "G:") || strings.HasPrefix(k, "W:") }
