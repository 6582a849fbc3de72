package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"time"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Obligation is one named proof obligation; every path through the code adds an instance.
type Obligation struct {
	Name      string
	Prop      string
	Func      string
	Instances int
	Proved    int
	Verdict   string // proved, failed, unknown
	Model     []string
	Path      string
	By        map[string]int
}

// FnCheck is the verification of one function against its contract.
type FnCheck struct {
	fn     *ssa.Function
	fc     *Contract
	params []Val
	entry  *State
	age    int
}

type Verifier struct {
	prog      *ssa.Program
	pkg       *ssa.Package
	others    []*ssa.Package // other packages of the module
	rawInit   map[*ssa.Global]Val
	fset      *token.FileSet
	sol       *Solver
	fsol      *Solver
	contracts map[string]*Contract
	defs      map[string]*specDef
	prop      string
	assume    map[string]bool

	obls          map[string]*Obligation
	oblOrder      []string
	usedContracts map[string]bool
	modsets       map[*ssa.Function]*modSet
	globalVals    []globalVal
	nonNilFields  map[string]bool
	computing     map[*ssa.Function]bool
	initSt        *State
	funcsSeen     map[string]bool
	externSeen    map[string]bool
	nFeas         int
	feasSlow int
	problems      []string
	only          string
}

func loadProgram(dir string) (*Verifier, error) {
	cfg := &packages.Config{Mode: packages.LoadSyntax | packages.NeedModule, Dir: dir, Env: os.Environ()}
	pkgs, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	for _, p := range pkgs {
		if len(p.Errors) > 0 {
			return nil, fmt.Errorf("package %s does not type-check: %v", p.PkgPath, p.Errors)
		}
	}
	// the module's own package first, then its commands
	sort.Slice(pkgs, func(i, j int) bool { return pkgs[i].PkgPath < pkgs[j].PkgPath })
	if len(pkgs) == 0 || pkgs[0].Module == nil || pkgs[0].PkgPath != pkgs[0].Module.Path {
		return nil, fmt.Errorf("no package at the root of the module")
	}
	modPath = pkgs[0].PkgPath
	prog, sp := ssautil.Packages(pkgs, ssa.InstantiateGenerics)
	prog.Build()
	v := &Verifier{prog: prog, pkg: sp[0], others: sp[1:], fset: pkgs[0].Fset, contracts: map[string]*Contract{}, defs: map[string]*specDef{},
		assume: map[string]bool{}, obls: map[string]*Obligation{}, usedContracts: map[string]bool{},
		modsets: map[*ssa.Function]*modSet{}, computing: map[*ssa.Function]bool{}, funcsSeen: map[string]bool{}, externSeen: map[string]bool{}}
	v.sol = NewSolver()
	v.fsol = v.sol
	return v, nil
}

func (v *Verifier) assumption(s string) { v.assume[s] = true }

// ---- finding functions

func (v *Verifier) allFuncs() map[string]*ssa.Function {
	out := map[string]*ssa.Function{}
	for fn := range ssautil.AllFunctions(v.prog) {
		if fn.Pkg == v.pkg && fn.Synthetic == "" {
			out[shortName(fn)] = fn
		}
	}
	return out
}

func (v *Verifier) other(p *ssa.Package) bool {
	for _, o := range v.others {
		if o == p && p != nil {
			return true
		}
	}
	return false
}

func (v *Verifier) lookup(name string) *ssa.Function {
	if i := strings.LastIndex(name, "."); i > 0 && strings.Contains(name[:i], "/") {
		for _, o := range v.others {
			if o.Pkg.Path() == modPath+"/"+name[:i] {
				return o.Func(name[i+1:])
			}
		}
		return nil
	}
	if f := v.pkg.Func(name); f != nil {
		return f
	}
	if strings.HasPrefix(name, "(") {
		i := strings.Index(name, ").")
		if i < 0 {
			return nil
		}
		tn, mn := name[1:i], name[i+2:]
		ptr := strings.HasPrefix(tn, "*")
		tn = strings.TrimPrefix(tn, "*")
		m := v.pkg.Type(tn)
		if m == nil {
			return nil
		}
		var T types.Type = m.Type()
		if ptr {
			T = types.NewPointer(T)
		}
		sel := v.prog.MethodSets.MethodSet(T).Lookup(v.pkg.Pkg, mn)
		if sel == nil {
			// a receiver turned from value to pointer
			sel = v.prog.MethodSets.MethodSet(types.NewPointer(m.Type())).Lookup(v.pkg.Pkg, mn)
			if sel == nil {
				return nil
			}
		}
		f := v.prog.MethodValue(sel)
		if f != nil && f.Synthetic != "" {
			// wrapper: use the declared method
			if obj, ok := sel.Obj().(*types.Func); ok {
				if d := v.prog.FuncValue(obj); d != nil {
					return d
				}
			}
		}
		return f
	}
	return nil
}

func (v *Verifier) contractFor(fn *ssa.Function) *Contract { return v.contracts[shortName(fn)] }

func (v *Verifier) useContract(ex *Exec, fc *Contract, fn *ssa.Function) bool {
	if len(ex.stack) == 0 && len(fc.modular) == 0 {
		return false
	}
	for _, f := range ex.stack {
		if f == fn {
			return true // recursion
		}
	}
	if !fc.isModular {
		return false
	}
	return fc.modular == nil || hasTag(fc.modular, v.prop)
}

func hasTag(tags []string, p string) bool {
	for _, t := range tags {
		if t == p {
			return true
		}
	}
	return false
}

func (ex *Exec) wants(props []string) bool { return len(props) == 0 || hasTag(props, ex.v.prop) }

// ---- satisfiability helpers

var quantMemo = map[*Term]bool{}

func hasQuant(t *Term) bool {
	if r, ok := quantMemo[t]; ok {
		return r
	}
	r := t.Op == "forall" || t.Op == "exists"
	for _, a := range t.Args {
		if r {
			break
		}
		r = hasQuant(a)
	}
	quantMemo[t] = r
	return r
}

func (v *Verifier) feasible(as []*Term) bool {
	v.nFeas++
	var fl []*Term
	for _, a := range as {
		if a == False {
			return false
		}
		if !hasQuant(a) {
			fl = append(fl, a)
		}
	}
	ms := 300
	if v.feasSlow > 12 {
		ms = 80 // the queries of this function are beyond the solver more often than not
	}
	r := v.fsol.Quick(withAxioms(fl), ms)
	if r != "sat" && r != "unsat" {
		v.feasSlow++
	}
	return r != "unsat"
}

func (v *Verifier) entails(pc []*Term, t *Term) bool {
	if t == True {
		return true
	}
	var plain []*Term
	for _, a := range pc {
		if !hasQuant(a) {
			plain = append(plain, a)
		}
	}
	if len(plain) < len(pc) && !hasQuant(t) {
		if v.sol.Quick(withAxioms(append(plain, Not(t))), 400) == "unsat" {
			return true
		}
	}
	as := append(append([]*Term{}, pc...), Not(t))
	return v.sol.Quick(withAxioms(as), 800) == "unsat"
}

// shows is entails with every back end.
func (v *Verifier) shows(pc []*Term, t *Term) bool {
	r, _ := v.sol.Prove(append(append([]*Term{}, pc...), Not(t)))
	return r == "unsat"
}

// ---- obligations

func (v *Verifier) obl(name, fn string) *Obligation {
	k := fn + "|" + name
	o := v.obls[k]
	if o == nil {
		o = &Obligation{Name: name, Prop: v.prop, Func: fn, Verdict: "proved", By: map[string]int{}}
		v.obls[k] = o
		v.oblOrder = append(v.oblOrder, k)
	}
	return o
}

func (v *Verifier) posStr(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := v.fset.Position(p)
	f := q.Filename
	if i := strings.LastIndex(f, "/"); i >= 0 {
		f = f[i+1:]
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

// prove checks that the state entails t.
func (v *Verifier) prove(st *State, t *Term, o *Obligation, where string) bool {
	o.Instances++
	if t == True || st.dead {
		o.Proved++
		o.By["simplifier"]++
		return true
	}
	if t.Op == "and" {
		o.Instances--
		ok := true
		for _, a := range t.Args {
			if !v.prove(st, a, o, where) {
				ok = false
			}
		}
		return ok
	}
	if o.Verdict != "proved" {
		return false // one failing path is enough
	}
	as := append(append([]*Term{}, st.pc...), Not(t))
	full := withAxioms(as)
	t0 := time.Now()
	if verbose > 2 {
		fmt.Fprintf(os.Stderr, "PROVING %s: %s\n", o.Name, t)
		for _, p := range st.pc {
			fmt.Fprintf(os.Stderr, "    %s\n", p)
		}
	}
	r, who := v.sol.Prove(full)
	if verbose > 0 && time.Since(t0) > 3*time.Second {
		fmt.Fprintf(os.Stderr, "  [%.1fs %s %s] %s %s\n", time.Since(t0).Seconds(), r, who, o.Func, o.Name)
	}
	o.By[who]++
	if r == "unsat" {
		o.Proved++
		return true
	}
	if o.Verdict == "proved" {
		o.Verdict = "unknown"
		if r == "sat" {
			o.Verdict = "failed"
		}
		o.Path = where
		if verbose > 1 || os.Getenv("GV_DUMP") != "" {
			fmt.Fprintf(os.Stderr, "FAILED %s %s (%s) at %s\n  goal: %s\n", o.Func, o.Name, r, where, t)
			for _, p := range st.pc {
				fmt.Fprintf(os.Stderr, "    %s\n", p)
			}
		}
		o.Model = append(o.Model, "goal: "+clip(t.String(), 2000))
		vars := map[*Term]bool{}
		for _, a := range as {
			freeVars(a, vars)
		}
		var vl []*Term
		for x := range vars {
			vl = append(vl, x)
		}
		sort.Slice(vl, func(i, j int) bool { return vl[i].id < vl[j].id })
		if len(vl) > 60 {
			vl = vl[:60]
		}
		m := v.sol.Model(full, vl)
		for _, x := range vl {
			if s := m[x]; s != "" {
				o.Model = append(o.Model, clip(s, 300))
			}
		}
	}
	return false
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

var fvSeen = map[*Term]map[*Term]bool{}

func freeVars(t *Term, out map[*Term]bool) {
	seen := map[*Term]bool{}
	var rec func(x *Term)
	rec = func(x *Term) {
		if seen[x] {
			return
		}
		seen[x] = true
		if x.Op == "var" {
			out[x] = true
		}
		for _, a := range x.Args {
			rec(a)
		}
	}
	rec(t)
}

func (fr *Frame) where(v *Verifier, pos token.Pos) string {
	s := v.posStr(pos)
	for f := fr; f != nil; f = f.caller {
		s += " in " + shortName(f.fn)
		if f.caller != nil {
			s += " called at " + v.posStr(f.site)
		}
	}
	return s
}

func (ex *Exec) oblige(st *State, t *Term, name string, cl *Clause, fr *Frame, pos token.Pos) {
	if ex.record > 0 || ex.cur == nil {
		return
	}
	fn := shortName(ex.cur.fn)
	o := ex.v.obl(name, fn)
	w := ex.v.posStr(pos)
	if fr != nil {
		w = fr.where(ex.v, pos)
	}
	ex.v.prove(st, t, o, w)
}

// safety is an obligation that the code cannot panic here; it is only recorded for C22.
func (ex *Exec) safety(st *State, cond *Term, what string, fr *Frame, pos token.Pos) {
	if cond == True || ex.record > 0 || ex.v.prop != "C22" || ex.cur == nil || st.dead {
		return
	}
	// the obligation belongs to the function containing the instruction
	o := ex.v.obl(fmt.Sprintf("safety: %s [%s %s]", what, shortName(fr.fn), ex.v.posStr(pos)), shortName(ex.cur.fn))
	ex.v.prove(st, cond, o, fr.where(ex.v, pos))
}

// ---- checking a function

func (v *Verifier) newExec() *Exec { return &Exec{v: v, noInline: map[*ssa.Function]bool{}} }

func (v *Verifier) paramVals(st *State, fn *ssa.Function) []Val {
	var ps []Val
	for i, p := range fn.Params {
		val := Val{T: p.Type()}
		for j, s := range leafSorts(p.Type()) {
			val.L = append(val.L, Fresh(fmt.Sprintf("%s.%d", pname(p, i), j), s))
		}
		st.assume(typeFacts(val)...)
		ps = append(ps, val)
	}
	return ps
}

func pname(p *ssa.Parameter, i int) string {
	if p.Name() == "" {
		return fmt.Sprintf("p%d", i)
	}
	return p.Name()
}

// check verifies one function against its contract.
func (v *Verifier) check(fc *Contract) (err error) {
	v.feasSlow = 0
	fn := v.lookup(fc.name)
	if fn == nil {
		v.problems = append(v.problems, fmt.Sprintf("contract %s: no such function in the code", fc.name))
		return fmt.Errorf("function %s not found", fc.name)
	}
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case unsupported:
				err = fmt.Errorf("%s", string(e))
			case fatalErr:
				err = fmt.Errorf("%s", string(e))
			case specErr:
				err = fmt.Errorf("%s", string(e))
			default:
				if os.Getenv("GV_PANIC") != "" {
					panic(r)
				}
				err = fmt.Errorf("internal: %v", r)
			}
			v.problems = append(v.problems, fc.name+": "+err.Error())
		}
	}()
	v.funcsSeen[fc.name] = true
	ex := v.newExec()
	st := v.startState()
	if v.other(fn.Pkg) {
		// the program starts here
		st.write("W:parsed", False)
		st.write("W:boot", Int(0))
		for _, name := range sortedKeys(v.pkg.Members) {
			if g, ok := v.pkg.Members[name].(*ssa.Global); ok {
				if val, ok := v.rawInit[g]; ok && isString(val.T) {
					st.store(globalAddr(g), val.T, val)
				}
			}
		}
	}
	params := v.paramVals(st, fn)
	ck := &FnCheck{fn: fn, fc: fc, params: params, age: allocCount}
	ex.cur = ck
	se := &specEnv{v: v, ex: ex, st: st, old: st, vars: map[string]Val{}}
	se.bindParams(fc, fn, params)
	for _, cl := range fc.clauses {
		if cl.kind != "requires" {
			continue
		}
		t, err := se.boolExpr(cl)
		if err != nil {
			return v.specProblem(fc, cl, err)
		}
		st.assume(t)
	}
	ck.entry = st.clone()
	// vacuity: the precondition must be satisfiable
	vo := v.obl("precondition is satisfiable", fc.name)
	vo.Instances++
	if v.sol.Check(withAxioms(st.pc)) == "unsat" {
		vo.Verdict = "failed"
		vo.Model = append(vo.Model, "the assumptions about the inputs contradict each other: nothing would be checked")
	} else {
		vo.Proved++
		vo.By["z3-5.3.2"]++
	}
	ex.stack = append(ex.stack, fn)
	outs := ex.runFn(fn, params, ck.bindVals(v, st), st, nil, nil, token.NoPos)
	nret := 0
	for _, o := range outs {
		if o.st.dead {
			continue
		}
		post := &specEnv{v: v, ex: ex, st: o.st, old: ck.entry, vars: map[string]Val{}}
		post.bindParams(fc, fn, params)
		switch o.kind {
		case kRet:
			nret++
			post.bindResults(fc, o.vals)
			if err := v.checkLate(ex, ck, fc, post, o); err != nil {
				return err
			}
			for _, cl := range fc.clauses {
				if cl.kind != "ensures" || !ex.wants(cl.props) {
					continue
				}
				t, err := post.boolExpr(cl)
				if err != nil {
					return v.specProblem(fc, cl, err)
				}
				ex.oblige(o.st, t, "ensures "+cl.label(), cl, nil, o.pos)
			}
		case kExit:
			for _, cl := range fc.clauses {
				if cl.kind != "exits" || !ex.wants(cl.props) {
					continue
				}
				t, err := post.boolExpr(cl)
				if err != nil {
					return v.specProblem(fc, cl, err)
				}
				ex.oblige(o.st, t, "exits "+cl.label(), cl, nil, o.pos)
			}
		case kPanic:
			if v.prop == "C22" {
				ob := v.obl(fmt.Sprintf("safety: %s [%s]", o.msg, v.posStr(o.pos)), fc.name)
				v.prove(o.st, False, ob, v.posStr(o.pos))
			}
		}
		if o.kind != kPanic {
			for _, cl := range fc.clauses {
				if cl.kind != "preserves" || !ex.wants(cl.props) {
					continue
				}
				v.preserves(ex, ck, cl, o)
			}
		}
	}
	for _, cl := range fc.clauses {
		if cl.kind == "returns" && ex.wants(cl.props) {
			ob := v.obl("some path returns", fc.name)
			ob.Instances++
			if nret > 0 {
				ob.Proved++
				ob.By["executor"]++
			} else {
				ob.Verdict = "failed"
			}
		}
	}
	return nil
}

// checkLate: what a goroutine still running at the return may write is what the contract lists.
func (v *Verifier) checkLate(ex *Exec, ck *FnCheck, fc *Contract, post *specEnv, o Outcome) error {
	if len(o.st.vol) == 0 {
		return nil
	}
	if fc.declaresLate() {
		pre := *post
		pre.st = ck.entry
		cells := map[string][]Pat{}
		for _, cl := range fc.clauses {
			switch cl.kind {
			case "late":
				ks, ps, err := pre.lateCells(cl)
				if err != nil {
					return v.specProblem(fc, cl, err)
				}
				for i, k := range ks {
					cells[k] = append(cells[k], ps[i])
				}
			case "latewhen":
				t, err := post.boolExpr(cl)
				if err != nil {
					return v.specProblem(fc, cl, err)
				}
				ex.oblige(o.st, t, "a goroutine is left behind only when "+cl.label(), cl, nil, o.pos)
			}
		}
		one := func(k string, p Pat) {
			if len(p.args) > 0 && p.kind != 'a' {
				if r := rootOf(p.args[0]); r.Op == "obj" && objId(r) > ck.age {
					return // made by this call
				}
			}
			t := False
			if p.kind == 'x' {
				for _, q := range cells[k] {
					eq := True
					for i := range q.args {
						eq = And(eq, Eq(p.args[i], q.args[i]))
					}
					t = Or(t, eq)
				}
			}
			ex.oblige(o.st, t, "what a goroutine left behind still writes: "+k, nil, nil, o.pos)
		}
		for _, rec := range o.st.vol {
			for _, k := range sortedKeys(rec.pats) {
				for _, p := range rec.pats[k] {
					one(k, p)
				}
			}
			for _, p := range rec.shut {
				one(closedKey(), p)
			}
		}
	}
	// the result is described whether or not it has written yet
	ks := map[string]bool{}
	for _, rec := range o.st.vol {
		for k := range rec.pats {
			ks[k] = true
		}
	}
	for _, k := range sortedKeys(ks) {
		o.st.touch(k)
	}
	return nil
}

func (ck *FnCheck) bindVals(v *Verifier, st *State) []Val {
	var out []Val
	for _, f := range ck.fn.FreeVars {
		val := Val{T: f.Type()}
		for j, s := range leafSorts(f.Type()) {
			t := Fresh(fmt.Sprintf("free_%s.%d", f.Name(), j), s)
			val.L = append(val.L, t)
			if s == SAddr {
				st.assume(Not(Eq(t, Null)))
			}
		}
		out = append(out, val)
	}
	return out
}

func (v *Verifier) specProblem(fc *Contract, cl *Clause, err error) error {
	e := fmt.Errorf("%s: clause %q cannot be evaluated: %v", fc.name, cl.text, err)
	v.problems = append(v.problems, e.Error())
	return e
}

// preserves: no pre-existing cell of the listed key families has changed.
func (v *Verifier) preserves(ex *Exec, ck *FnCheck, cl *Clause, o Outcome) {
	for _, k := range sortedKeys(o.st.mem) {
		if o.st.mem[k] == ck.entry.mem[k] {
			continue
		}
		hit := ""
		for _, p := range strings.Fields(cl.text) {
			if matchKey(p, k) {
				hit = p
			}
		}
		if hit == "" {
			continue
		}
		if cl.except != nil && cl.except(k) {
			continue
		}
		ki := keys[k]
		mkIdx := func(a *Term) []*Term {
			idx := []*Term{}
			for i, s := range ki.args {
				if i == 0 && s == SAddr && a != nil {
					idx = append(idx, a)
				} else {
					x := Fresh("any", s)
					x.age = ck.age
					idx = append(idx, x)
				}
			}
			return idx
		}
		any := Fresh("anyaddr", SAddr)
		any.age = ck.age
		i1 := mkIdx(any)
		t := Eq(o.st.read(k, i1...), ck.entry.read(k, i1...))
		arr := Fresh("anyarr", SAddr)
		arr.age = ck.age
		el := Elem(arr, Fresh("anyidx", SInt))
		i2 := mkIdx(el)
		t2 := Eq(o.st.read(k, i2...), ck.entry.read(k, i2...))
		ex.oblige(o.st, And(t, t2), "preserves "+k, cl, nil, o.pos)
	}
}

func matchKey(p, k string) bool {
	if strings.HasSuffix(p, "*") {
		return strings.HasPrefix(k, strings.TrimSuffix(p, "*"))
	}
	return p == k
}

// ---- the state a function starts in

func (v *Verifier) startState() *State {
	if v.initSt == nil {
		v.privateGlobals()
		v.initSt = v.runInit()
	}
	return v.initSt.clone()
}

// privateGlobals finds the variables that are only loaded and stored directly.
func (v *Verifier) privateGlobals() {
	bad := map[*ssa.Global]bool{}
	for fn := range ssautil.AllFunctions(v.prog) {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for k, op := range i.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok || g.Pkg != v.pkg {
						continue
					}
					switch ins := i.(type) {
					case *ssa.UnOp:
						if ins.Op == token.MUL {
							continue
						}
					case *ssa.Store:
						if k == 0 {
							continue
						}
					case *ssa.DebugRef:
						continue
					}
					bad[g] = true
				}
			}
		}
	}
	for _, m := range v.pkg.Members {
		g, ok := m.(*ssa.Global)
		if !ok || bad[g] {
			continue
		}
		if _, st := under(deref(g.Type())).(*types.Struct); st {
			continue
		}
		privObj[int(globalAddr(g).I.Int64())] = true
	}
}

// mutableGlobals are reassigned outside the initialiser or have their address taken.
func (v *Verifier) mutableGlobals() map[*ssa.Global]bool {
	out := map[*ssa.Global]bool{}
	for fn := range ssautil.AllFunctions(v.prog) {
		if fn.Pkg != v.pkg && !v.other(fn.Pkg) || fn.Name() == "init" && fn.Synthetic != "" {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					g, ok := (*op).(*ssa.Global)
					if !ok {
						continue
					}
					switch ins := i.(type) {
					case *ssa.UnOp:
						if ins.Op == token.MUL {
							if !v.readOnlyUse(ins, 0) {
								out[g] = true
							}
							continue
						}
						out[g] = true
					case ssa.CallInstruction:
						// methods of external types (sync.Pool, sync.Mutex) keep the Go-visible fields
						if f := ins.Common().StaticCallee(); f != nil && len(f.Blocks) == 0 && strings.HasPrefix(tstr(deref(g.Type())), "sync.") {
							continue
						}
						out[g] = true
					default:
						out[g] = true
					}
				}
			}
		}
	}
	return out
}

// readOnlyUse: a value loaded from a global is only read through.
func (v *Verifier) readOnlyUse(val ssa.Value, d int) bool {
	switch under(val.Type()).(type) {
	case *types.Slice, *types.Map:
	default:
		return true // pointers to external objects, functions and scalars
	}
	if d > 3 || val.Referrers() == nil {
		return false
	}
	for _, u := range *val.Referrers() {
		switch i := u.(type) {
		case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
		case *ssa.IndexAddr:
			for _, w := range *i.Referrers() {
				if _, ok := w.(*ssa.UnOp); !ok {
					return false
				}
			}
		case *ssa.Slice:
			if !v.readOnlyUse(i, d+1) {
				return false
			}
		case *ssa.Call:
			if b, ok := i.Call.Value.(*ssa.Builtin); ok {
				switch b.Name() {
				case "len", "cap":
				case "append":
					if i.Call.Args[0] == val {
						return false
					}
				case "copy":
					if i.Call.Args[0] == val {
						return false
					}
				default:
					return false
				}
				continue
			}
			// external readers and package functions
			if fn := i.Call.StaticCallee(); fn != nil {
				for k, a := range i.Call.Args {
					if a == val && len(fn.Blocks) > 0 {
						if !v.readOnlyUse(fn.Params[k], d+1) {
							return false
						}
					}
				}
				continue
			}
			return false
		case *ssa.MakeInterface, *ssa.ChangeType:
			// boxed for formatting
			if mi, ok := u.(*ssa.MakeInterface); ok {
				_ = mi
				continue
			}
			if !v.readOnlyUse(u.(ssa.Value), d+1) {
				return false
			}
		case *ssa.Phi, *ssa.BinOp, *ssa.If:
		case *ssa.Return:
		default:
			return false
		}
	}
	return true
}

func (v *Verifier) runInit() *State {
	ex := v.newExec()
	ex.record = 1
	st := newState()
	fn := v.pkg.Func("init")
	mut := v.mutableGlobals()
	initMode = true
	// the initialiser of this package alone
	res := func() *State {
		defer func() {
			if r := recover(); r != nil {
				if u, ok := r.(unsupported); ok {
					v.problems = append(v.problems, "package initialiser: "+string(u))
					return
				}
				panic(r)
			}
		}()
		outs := ex.runFn(fn, nil, nil, st, nil, nil, token.NoPos)
		for _, o := range outs {
			if o.kind == kRet && !o.st.dead {
				return o.st
			}
		}
		return nil
	}()
	initMode = false
	out := newState()
	if res == nil {
		return out
	}
	v.rawInit = map[*ssa.Global]Val{}
	out.mem = res.mem
	out.pc = res.pc
	// everything the program may change later is unknown
	for _, name := range sortedKeys(v.pkg.Members) {
		g, ok := v.pkg.Members[name].(*ssa.Global)
		if !ok || strings.HasPrefix(name, "init$") {
			continue
		}
		T := deref(g.Type())
		if mut[g] {
			a := globalAddr(g)
			initMode = true // variables without initialiser are zero
			v.rawInit[g] = res.load(a, T)
			initMode = false
			val := Val{T: T}
			for j, s := range leafSorts(T) {
				val.L = append(val.L, Fresh(fmt.Sprintf("%s.%d", name, j), s))
			}
			out.assume(typeFacts(val)...)
			out.store(a, T, val)
			v.globalVals = append(v.globalVals, globalVal{a, val})
		}
	}
	// the pointers other packages hold in their variables lead somewhere
	libs := map[*ssa.Global]bool{}
	for fn := range ssautil.AllFunctions(v.prog) {
		if fn.Pkg != v.pkg {
			continue
		}
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				for _, op := range i.Operands(nil) {
					if g, ok := (*op).(*ssa.Global); ok && g.Pkg != v.pkg && !libs[g] {
						libs[g] = true
					}
				}
			}
		}
	}
	var lg []*ssa.Global
	for g := range libs {
		if isPtr(deref(g.Type())) {
			lg = append(lg, g)
		}
	}
	sort.Slice(lg, func(i, j int) bool { return lg[i].String() < lg[j].String() })
	for _, g := range lg {
		T := deref(g.Type())
		val := Val{T: T, L: []*Term{Fresh(g.Name(), SAddr)}}
		out.assume(typeFacts(val)...)
		out.assume(Not(Eq(val.t(), Null)))
		out.store(globalAddr(g), T, val)
		v.globalVals = append(v.globalVals, globalVal{globalAddr(g), val})
		v.assumption("the pointers held by variables of other packages are not nil")
	}
	// ghost state starts unknown
	for k := range out.mem {
		if isGhostKey(k) {
			delete(out.mem, k)
		}
	}
	// nothing has been sorted yet
	out.mem["W:perm"] = &Upd{kind: 'l', age: 1 << 40, pats: []Pat{{kind: 'a'}}, fn: func(idx []*Term) *Term { return idx[0] }}
	return out
}

// ---- effects of a function used by contract

// globalVal is the unknown a mutable global holds when a function starts.
type globalVal struct {
	addr *Term
	val  Val
}

type modSet struct {
	params []Val
	pats   map[string][]Pat
	used   bool
}

func (v *Verifier) modset(fn *ssa.Function) *modSet {
	if m := v.modsets[fn]; m != nil {
		m.used = true
		return m
	}
	prev := &modSet{pats: map[string][]Pat{}, params: v.paramVals(newState(), fn)}
	v.modsets[fn] = prev
	for round := 0; ; round++ {
		if round > 6 {
			unsupp("effects of %s do not converge", shortName(fn))
		}
		m := &modSet{pats: map[string][]Pat{}}
		ex := v.newExec()
		ex.record = 1
		st := v.startState()
		params := v.paramVals(st, fn)
		m.params = params
		fc := v.contractFor(fn)
		ck := &FnCheck{fn: fn, fc: fc, params: params, age: allocCount}
		ex.cur = ck
		if fc != nil {
			se := &specEnv{v: v, ex: ex, st: st, old: st, vars: map[string]Val{}}
			se.bindParams(fc, fn, params)
			for _, cl := range fc.clauses {
				if cl.kind == "requires" {
					if t, err := se.boolExpr(cl); err == nil {
						st.assume(t)
					}
				}
			}
		}
		entry := st.clone()
		amark, smark := allocCount, symCount
		inv := func(t *Term) bool { return !t.bound && t.syms <= smark }
		ex.stack = append(ex.stack, fn)
		outs := ex.runFn(fn, params, nil, st, nil, nil, token.NoPos)
		add := func(k string, pt Pat) {
			for _, q := range m.pats[k] {
				if q.kind == 'a' || samePat(q, pt) {
					return
				}
			}
			if pt.kind == 'a' {
				m.pats[k] = nil
			}
			m.pats[k] = append(m.pats[k], pt)
		}
		for _, o := range outs {
			if os.Getenv("GV_MODS") != "" {
				fmt.Fprintln(os.Stderr, "modset out", shortName(fn), round, o.kind, o.st.dead)
			}
			if o.kind != kRet {
				continue
			}
			for _, w := range writesSince(entry.mem, o.st.mem) {
				if os.Getenv("GV_MODS") != "" && w.key == "W:do.url" {
					fmt.Fprintln(os.Stderr, "   write", string(w.u.kind), w.u.idx, w.u.pats)
				}
				if strings.HasPrefix(w.key, "V:") {
					continue
				}
				for _, pt := range patsOf(w.u, inv, amark) {
					if len(pt.args) > 0 && pt.args[0] == Null {
						continue
					}
					add(w.key, pt)
				}
			}
			if fc != nil && fc.declaresLate() {
				le := &specEnv{v: v, ex: ex, st: entry, old: entry, vars: map[string]Val{}}
				le.bindParams(fc, fn, params)
				for _, cl := range fc.clauses {
					if cl.kind != "late" {
						continue
					}
					ks, ps, err := le.lateCells(cl)
					if err != nil {
						unsupp("contract %s: %v", fc.name, err)
					}
					for i, k := range ks {
						add(k, ps[i])
					}
				}
				continue
			}
			for _, rec := range o.st.vol {
				for k := range rec.pats {
					add(k, Pat{kind: 'a'})
				}
			}
		}
		if os.Getenv("GV_MODS") != "" {
			for _, k := range sortedKeys(m.pats) {
				for _, p := range m.pats[k] {
					fmt.Fprintln(os.Stderr, "mods", shortName(fn), k, string(p.kind), p.args)
				}
			}
		}
		v.modsets[fn] = m
		if !prev.used || m.size() == prev.size() {
			return m
		}
		prev = m
	}
}

func (m *modSet) size() int {
	n := 0
	for _, ps := range m.pats {
		for _, p := range ps {
			n++
			if p.kind == 'a' {
				n += 1000
			}
		}
	}
	return n
}
