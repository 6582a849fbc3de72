package main

import (
	"fmt"
	"go/ast"
	"go/parser"
	"go/token"
	"go/types"
	"math/big"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Contract is the specification of one function.
type Contract struct {
	name      string
	params    []string
	results   []string
	clauses   []*Clause
	isModular bool
	modular   []string
	props     []string // properties for which the function is an anchor
	file      string
	recorded  string // which of its results
	records   bool // calls under contract leave their result in W:ret.<name>
}

// recordName is the name under which the calls of a function are recorded.
func (fc *Contract) recordName() string {
	n := fc.name
	if i := strings.LastIndexAny(n, ".)"); i >= 0 {
		n = n[i+1:]
	}
	return n
}

type Clause struct {
	kind   string
	props  []string
	name   string
	text   string
	expr   ast.Expr
	except func(key string) bool
}

func (c *Clause) label() string {
	if c.name != "" {
		return c.name
	}
	return c.text
}

type specDef struct {
	params []string
	expr   ast.Expr
}

type specErr string

func serr(f string, a ...interface{}) { panic(specErr(fmt.Sprintf(f, a...))) }

var clauseKinds = map[string]bool{"func": true, "params": true, "results": true, "requires": true, "ensures": true, "exits": true,
	"preserves": true, "modular": true, "define": true, "anchor": true, "returns": true, "except": true, "late": true, "latewhen": true, "records": true, "invariant": true}

func (v *Verifier) loadContracts(dir string) error {
	fs, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(fs)
	for _, f := range fs {
		b, err := os.ReadFile(f)
		if err != nil {
			return err
		}
		if err := v.parseContracts(string(b), f); err != nil {
			return fmt.Errorf("%s: %v", f, err)
		}
	}
	return nil
}

func (v *Verifier) parseContracts(text, file string) error {
	var lines []string
	for _, l := range strings.Split(text, "\n") {
		if i := strings.Index(l, "//"); i >= 0 && (i == 0 || l[i-1] == ' ' || l[i-1] == '\t') {
			l = l[:i]
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		w := strings.Fields(l)[0]
		if i := strings.IndexAny(w, "["); i > 0 {
			w = w[:i]
		}
		if clauseKinds[w] || len(lines) == 0 {
			lines = append(lines, strings.TrimSpace(l))
		} else {
			lines[len(lines)-1] += " " + strings.TrimSpace(l)
		}
	}
	var fc *Contract
	for _, l := range lines {
		kw := l
		rest := ""
		if i := strings.IndexAny(l, " ["); i >= 0 {
			kw = l[:i]
			rest = l[i:]
		}
		var tags []string
		rest = strings.TrimSpace(rest)
		if strings.HasPrefix(rest, "[") {
			j := strings.Index(rest, "]")
			for _, t := range strings.Split(rest[1:j], ",") {
				tags = append(tags, strings.TrimSpace(t))
			}
			rest = strings.TrimSpace(rest[j+1:])
		}
		switch kw {
		case "func":
			fc = &Contract{name: rest, file: file}
			if v.contracts[rest] != nil {
				fc = v.contracts[rest]
			}
			v.contracts[rest] = fc
		case "params":
			fc.params = strings.Fields(rest)
		case "results":
			fc.results = strings.Fields(rest)
		case "anchor":
			fc.props = append(fc.props, strings.Fields(rest)...)
		case "modular":
			fc.isModular = true
			fc.modular = tags
		case "records":
			// records sort: the result of the k-th call is ghost("W:ret.<name>", k)
			fc.records = true
			w := strings.Fields(rest)
			srt, _ := sortOfName(w[0])
			if len(w) > 1 {
				fc.recorded = w[1]
			}
			regKey("W:calls."+fc.recordName(), SInt)
			keys["W:calls."+fc.recordName()].nn = true
			regKey("W:ret."+fc.recordName(), srt, SInt)
		case "define":
			i := strings.Index(rest, "=")
			h := strings.TrimSpace(rest[:i])
			if !strings.Contains(h, "(") {
				h += "()"
			}
			p := strings.Index(h, "(")
			d := &specDef{}
			for _, a := range strings.Split(strings.TrimSuffix(h[p+1:], ")"), ",") {
				if a = strings.TrimSpace(a); a != "" {
					d.params = append(d.params, a)
				}
			}
			e, err := parser.ParseExpr(rest[i+1:])
			if err != nil {
				return fmt.Errorf("%s: %v", l, err)
			}
			d.expr = e
			v.defs[h[:p]] = d
		case "preserves", "returns":
			fc.clauses = append(fc.clauses, &Clause{kind: kw, props: tags, text: rest})
		case "requires", "ensures", "exits", "late", "latewhen", "invariant":
			c := &Clause{kind: kw, props: tags}
			if i := strings.Index(rest, ": "); i > 0 && !strings.ContainsAny(rest[:i], "()\"=") {
				c.name = strings.TrimSpace(rest[:i])
				rest = rest[i+2:]
			}
			c.text = rest
			e, err := parser.ParseExpr(rest)
			if err != nil {
				return fmt.Errorf("%s: %v", l, err)
			}
			c.expr = e
			fc.clauses = append(fc.clauses, c)
		default:
			return fmt.Errorf("unknown clause %q", l)
		}
	}
	return nil
}

// ---- evaluation

type specEnv struct {
	v    *Verifier
	ex   *Exec
	st   *State
	old  *State
	vars map[string]Val
	fr   *Frame

	visit []string // the visited-key sets of the loop a candidate is evaluated for
	made  *Term // when assuming the clauses of a call: the object fresh() stands for
	nfr  *int
}

func (se *specEnv) bindParams(fc *Contract, fn *ssa.Function, args []Val) {
	for i, p := range fc.params {
		if i < len(args) && p != "_" {
			se.vars[p] = args[i]
		}
	}
	if len(fc.params) != 0 && len(fc.params) != len(args) {
		serr("%s takes %d parameters, the contract names %d", fc.name, len(args), len(fc.params))
	}
}

func (se *specEnv) bindResults(fc *Contract, vals []Val) {
	if len(fc.results) != 0 && len(fc.results) != len(vals) {
		serr("%s has %d results, the contract names %d", fc.name, len(vals), len(fc.results))
	}
	for i, p := range fc.results {
		se.vars[p] = vals[i]
	}
	if len(vals) == 1 {
		se.vars["result"] = vals[0]
	}
}

func (se *specEnv) boolExpr(cl *Clause) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch e := r.(type) {
			case specErr:
				err = fmt.Errorf("%s", string(e))
			case unsupported:
				err = fmt.Errorf("%s", string(e))
			default:
				if os.Getenv("GV_PANIC") != "" {
					panic(r)
				}
				err = fmt.Errorf("%v", r)
			}
		}
	}()
	return se.boolean(cl.expr), nil
}

// lateCells are the cells (key and index) a goroutine left running may still write.
func (se *specEnv) lateCells(cl *Clause) (ks []string, ps []Pat, err error) {
	defer func() {
		if r := recover(); r != nil {
			err = fmt.Errorf("%v", r)
		}
	}()
	if c, ok := cl.expr.(*ast.CallExpr); ok {
		if id, ok := c.Fun.(*ast.Ident); ok && id.Name == "closed" {
			return []string{closedKey()}, []Pat{{kind: 'x', args: []*Term{se.rv(c.Args[0]).t()}}}, nil
		}
	}
	s := se.eval(cl.expr)
	if s.addr == nil {
		serr("not a variable: %s", exprStr(cl.expr))
	}
	for _, l := range scalarLeaves(s.T) {
		k, idx := cellKey(s.addr, s.T, l)
		ks = append(ks, k)
		ps = append(ps, Pat{kind: 'x', args: idx})
	}
	return ks, ps, nil
}

func (fc *Contract) declaresLate() bool {
	for _, cl := range fc.clauses {
		if cl.kind == "late" || cl.kind == "latewhen" {
			return true
		}
	}
	return false
}

func (se *specEnv) boolean(e ast.Expr) *Term {
	v := se.rv(e)
	if len(v.L) != 1 || v.L[0].Sort != SBool {
		serr("not a boolean: %s", exprStr(e))
	}
	return v.t()
}

func exprStr(e ast.Expr) string { return types.ExprString(e) }

// SV is a specification value; with an address it is read lazily.
type SV struct {
	v    Val
	addr *Term
	T    types.Type
	st   *State
}

func (se *specEnv) rv(e ast.Expr) Val { return se.force(se.eval(e)) }

func (se *specEnv) force(x SV) Val {
	if x.addr == nil {
		return x.v
	}
	return x.st.load(x.addr, x.T)
}

func val(v Val) SV { return SV{v: v, T: v.T} }

var nilT types.Type = types.Typ[types.UntypedNil]

func (se *specEnv) with(st *State) *specEnv {
	n := *se
	n.st = st
	return &n
}

func (se *specEnv) bind(k string, v Val) *specEnv {
	n := *se
	n.vars = map[string]Val{}
	for a, b := range se.vars {
		n.vars[a] = b
	}
	n.vars[k] = v
	return &n
}

func (se *specEnv) eval(e ast.Expr) SV {
	switch x := e.(type) {
	case *ast.ParenExpr:
		return se.eval(x.X)
	case *ast.BasicLit:
		switch x.Kind {
		case token.INT:
			b, ok := new(big.Int).SetString(strings.ReplaceAll(x.Value, "_", ""), 0)
			if !ok {
				serr("bad integer %s", x.Value)
			}
			return val(VInt(IntB(b)))
		case token.FLOAT:
			r, _ := new(big.Rat).SetString(x.Value)
			return val(VReal(RealR(r)))
		case token.STRING:
			s, err := strconv.Unquote(x.Value)
			if err != nil {
				serr("bad string %s", x.Value)
			}
			return val(VStr(Str(s)))
		case token.CHAR:
			r, _, _, _ := strconv.UnquoteChar(strings.Trim(x.Value, "'"), '\'')
			return val(VInt(Int(int64(r))))
		}
	case *ast.Ident:
		return se.ident(x.Name)
	case *ast.SelectorExpr:
		return se.selector(x)
	case *ast.StarExpr:
		p := se.rv(x.X)
		return SV{addr: p.t(), T: deref(p.T), st: se.st}
	case *ast.IndexExpr:
		return se.index(x)
	case *ast.UnaryExpr:
		switch x.Op {
		case token.NOT:
			return val(VBool(Not(se.boolean(x.X))))
		case token.SUB:
			v := se.rv(x.X)
			return val(V1(v.T, Neg(v.t())))
		case token.AND:
			s := se.eval(x.X)
			if s.addr == nil {
				serr("no address: %s", exprStr(x.X))
			}
			return val(V1(types.NewPointer(s.T), s.addr))
		}
	case *ast.BinaryExpr:
		return val(se.binary(x))
	case *ast.CallExpr:
		return se.callExpr(x)
	case *ast.SliceExpr:
		v := se.rv(x.X)
		var lo, hi *Term = Int(0), nil
		if x.Low != nil {
			lo = se.rv(x.Low).t()
		}
		if isString(v.T) {
			hi = StrLen(v.t())
			if x.High != nil {
				hi = se.rv(x.High).t()
			}
			return val(V1(v.T, Substr(v.t(), lo, Minus(hi, lo))))
		}
	}
	serr("cannot evaluate %s", exprStr(e))
	return SV{}
}

func (se *specEnv) ident(n string) SV {
	if v, ok := se.vars[n]; ok {
		return val(v)
	}
	switch n {
	case "true":
		return val(VBool(True))
	case "false":
		return val(VBool(False))
	case "nil":
		return val(V1(nilT, Null))
	}
	if m := se.v.pkg.Members[n]; m != nil {
		switch g := m.(type) {
		case *ssa.NamedConst:
			return val(constVal(g.Value.Value, g.Value.Type()))
		case *ssa.Global:
			return SV{addr: globalAddr(g), T: deref(g.Type()), st: se.st}
		case *ssa.Function:
			return val(V1(g.Type(), funcAddr(g)))
		}
	}
	if d := se.v.defs[n]; d != nil && len(d.params) == 0 {
		return se.eval(d.expr)
	}
	serr("unknown name %s", n)
	return SV{}
}

func (se *specEnv) selector(x *ast.SelectorExpr) SV {
	b := se.eval(x.X)
	T := b.T
	if b.addr == nil {
		T = b.v.T
	}
	if isPtr(T) {
		p := se.force(b)
		st := se.st
		b = SV{addr: p.t(), T: deref(T), st: st}
		T = b.T
	}
	s, ok := under(T).(*types.Struct)
	if !ok {
		serr("%s has no fields (%s)", exprStr(x.X), tstr(T))
	}
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == x.Sel.Name {
			if b.addr != nil {
				return SV{addr: Sub(b.addr, fid(T, i)), T: s.Field(i).Type(), st: b.st}
			}
			return val(fieldOf(b.v, i))
		}
	}
	// promoted fields
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Embedded() {
			var in SV
			if b.addr != nil {
				in = SV{addr: Sub(b.addr, fid(T, i)), T: s.Field(i).Type(), st: b.st}
			} else {
				in = val(fieldOf(b.v, i))
			}
			it := in.T
			if isPtr(it) {
				in = SV{addr: se.force(in).t(), T: deref(it), st: se.st}
			}
			if is, ok := under(in.T).(*types.Struct); ok {
				for j := 0; j < is.NumFields(); j++ {
					if is.Field(j).Name() == x.Sel.Name {
						if in.addr != nil {
							return SV{addr: Sub(in.addr, fid(in.T, j)), T: is.Field(j).Type(), st: in.st}
						}
						return val(fieldOf(in.v, j))
					}
				}
			}
		}
	}
	serr("no field %s in %s", x.Sel.Name, tstr(T))
	return SV{}
}

func (se *specEnv) index(x *ast.IndexExpr) SV {
	b := se.rv(x.X)
	k := se.rv(x.Index)
	switch {
	case isSlice(b.T):
		el := under(b.T).(*types.Slice).Elem()
		return SV{addr: Elem(b.L[0], Add(b.L[1], k.t())), T: el, st: se.st}
	case isString(b.T):
		return val(V1(types.Typ[types.Uint8], CharAt(b.t(), k.t())))
	case b.T == strSeqT:
		return val(VStr(SeqNth(b.t(), k.t())))
	}
	if m, ok := under(b.T).(*types.Map); ok {
		if isHeaderMap(b.T) {
			return val(VList(Ite(Eq(b.t(), Null), SeqLit(), se.st.read("H", b.t(), k.t()))))
		}
		dom, vals, _ := mapKeyNames(b.T)
		d := And(Not(Eq(b.t(), Null)), se.st.read(dom, b.t(), k.t()))
		v := Val{T: m.Elem()}
		z := zeroVal(m.Elem())
		for i, n := range vals {
			v.L = append(v.L, Ite(d, se.st.read(n, b.t(), k.t()), z.L[i]))
		}
		return val(v)
	}
	serr("cannot index %s", tstr(b.T))
	return SV{}
}

func (se *specEnv) binary(x *ast.BinaryExpr) Val {
	switch x.Op {
	case token.LAND:
		return VBool(And(se.boolean(x.X), se.boolean(x.Y)))
	case token.LOR:
		return VBool(Or(se.boolean(x.X), se.boolean(x.Y)))
	}
	a, b := se.rv(x.X), se.rv(x.Y)
	switch x.Op {
	case token.EQL, token.NEQ:
		t := se.equal(a, b)
		if x.Op == token.NEQ {
			t = Not(t)
		}
		return VBool(t)
	}
	l, r := a.t(), b.t()
	if l.Sort == SReal && r.Sort == SInt {
		r = ToReal(r)
	}
	if l.Sort == SInt && r.Sort == SReal {
		l = ToReal(l)
	}
	T := a.T
	if l.Sort == SReal {
		T = realT
	}
	switch x.Op {
	case token.LSS:
		return VBool(Lt(l, r))
	case token.LEQ:
		return VBool(Le(l, r))
	case token.GTR:
		return VBool(Lt(r, l))
	case token.GEQ:
		return VBool(Le(r, l))
	case token.ADD:
		if l.Sort == SStr {
			return VStr(Concat(l, r))
		}
		if l.Sort == SList {
			return VList(SeqConcat(l, r))
		}
		return V1(T, Add(l, r))
	case token.SUB:
		return V1(T, Minus(l, r))
	case token.MUL:
		return V1(T, Mul(l, r))
	case token.QUO:
		if l.Sort == SReal {
			return V1(T, RDiv(l, r))
		}
		return V1(T, truncDiv(l, r))
	}
	if x.Op == token.REM {
		return V1(T, Minus(l, Mul(truncDiv(l, r), r)))
	}
	serr("operator %s", x.Op)
	return Val{}
}

func (se *specEnv) equal(a, b Val) *Term {
	if a.T == nilT {
		a, b = b, a
	}
	if b.T == nilT {
		switch {
		case isSlice(a.T):
			return Eq(a.L[0], Null)
		case len(a.L) == 1 && a.L[0].Sort == SIface:
			return Eq(a.L[0], INil)
		case len(a.L) == 1 && a.L[0].Sort == SAddr:
			return Eq(a.L[0], Null)
		}
		serr("comparison of %s with nil", tstr(a.T))
	}
	if len(a.L) == 1 && len(b.L) == 1 {
		x, y := a.L[0], b.L[0]
		if x.Sort == SIface && y.Sort != SIface && a.T != nil {
			return se.ex.goEq(se.st, a, b, a.T, b.T)
		}
		if x.Sort == SInt && y.Sort == SReal {
			x = ToReal(x)
		}
		if x.Sort == SReal && y.Sort == SInt {
			y = ToReal(y)
		}
		if x.Sort != y.Sort {
			serr("comparison of %s with %s", tstr(a.T), tstr(b.T))
		}
		return Eq(x, y)
	}
	if len(a.L) != len(b.L) {
		serr("comparison of %s with %s", tstr(a.T), tstr(b.T))
	}
	return eqVal(a, b)
}

func (v *Verifier) typeByName(s string) types.Type {
	s = strings.TrimSpace(s)
	if strings.HasPrefix(s, "*") {
		return types.NewPointer(v.typeByName(s[1:]))
	}
	if strings.HasPrefix(s, "[]") {
		return types.NewSlice(v.typeByName(s[2:]))
	}
	if b := types.Universe.Lookup(s); b != nil {
		return b.Type()
	}
	if i := strings.LastIndex(s, "."); i >= 0 {
		path, n := s[:i], s[i+1:]
		for _, p := range v.prog.AllPackages() {
			if p.Pkg.Path() == path {
				if o := p.Pkg.Scope().Lookup(n); o != nil {
					return o.Type()
				}
			}
		}
		serr("unknown type %s", s)
	}
	if m := v.pkg.Type(s); m != nil {
		return m.Type()
	}
	serr("unknown type %s", s)
	return nil
}

func (se *specEnv) strArg(e ast.Expr) string {
	l, ok := e.(*ast.BasicLit)
	if !ok || l.Kind != token.STRING {
		serr("expected a string literal, got %s", exprStr(e))
	}
	s, _ := strconv.Unquote(l.Value)
	return s
}

func identOf(e ast.Expr) string {
	if i, ok := e.(*ast.Ident); ok {
		return i.Name
	}
	serr("expected a name, got %s", exprStr(e))
	return ""
}

func sortOfName(s string) (string, types.Type) {
	switch s {
	case "int":
		return SInt, intT
	case "string":
		return SStr, stringT
	case "bool":
		return SBool, boolT
	case "real":
		return SReal, realT
	case "addr":
		return SAddr, addrT
	case "iface":
		return SIface, emptyIfaceT
	case "list":
		return SList, strSeqT
	}
	serr("unknown sort %s", s)
	return "", nil
}

func typeOfSort(s string) types.Type {
	switch s {
	case SInt:
		return intT
	case SStr:
		return stringT
	case SBool:
		return boolT
	case SReal:
		return realT
	case SAddr:
		return addrT
	case SIface:
		return emptyIfaceT
	case SList:
		return strSeqT
	}
	return intT
}

func (se *specEnv) callExpr(x *ast.CallExpr) SV {
	n, ok := x.Fun.(*ast.Ident)
	if !ok {
		serr("cannot call %s", exprStr(x.Fun))
	}
	arg := func(i int) Val {
		if i >= len(x.Args) {
			serr("%s: missing argument %d", n.Name, i)
		}
		return se.rv(x.Args[i])
	}
	st := se.st
	switch n.Name {
	case "old":
		return val(se.with(se.old).rv(x.Args[0]))
	case "len":
		v := arg(0)
		switch {
		case isString(v.T):
			return val(VInt(StrLen(v.t())))
		case isSlice(v.T):
			return val(VInt(v.L[2]))
		case v.T == strSeqT:
			return val(VInt(SeqLen(v.t())))
		}
		if _, ok := under(v.T).(*types.Map); ok {
			return val(VInt(se.ex.mapLen(st, v)))
		}
		serr("len of %s", tstr(v.T))
	case "cap":
		return val(VInt(arg(0).L[3]))
	case "has": // map membership
		m, k := arg(0), arg(1)
		return val(VBool(And(Not(Eq(m.t(), Null)), se.ex.mapDom(st, m, k.t()))))
	case "implies":
		a := se.boolean(x.Args[0])
		if a == False {
			return val(VBool(True))
		}
		return val(VBool(Implies(a, se.boolean(x.Args[1]))))
	case "iff":
		return val(VBool(Eq(se.boolean(x.Args[0]), se.boolean(x.Args[1]))))
	case "ite":
		c := se.boolean(x.Args[0])
		if c == True {
			return se.eval(x.Args[1])
		}
		if c == False {
			return se.eval(x.Args[2])
		}
		return val(iteVal(c, arg(1), arg(2)))
	case "forall", "exists":
		// forall(i, lo, hi, body)
		name := identOf(x.Args[0])
		lo, hi := arg(1).t(), arg(2).t()
		if lo.Op == "int" && hi.Op == "int" && hi.I.Int64()-lo.I.Int64() <= 64 {
			var fs []*Term
			for i := lo.I.Int64(); i < hi.I.Int64(); i++ {
				fs = append(fs, se.bind(name, VInt(Int(i))).boolean(x.Args[3]))
			}
			if n.Name == "forall" {
				return val(VBool(And(fs...)))
			}
			return val(VBool(Or(fs...)))
		}
		bv := BVar(name, SInt)
		body := se.bind(name, VInt(bv)).boolean(x.Args[3])
		rng := And(Le(lo, bv), Lt(bv, hi))
		if n.Name == "forall" {
			return val(VBool(Forall([]*Term{bv}, Implies(rng, body))))
		}
		return val(VBool(Exists([]*Term{bv}, And(rng, body))))
	case "sum":
		// sum(i, lo, hi, body)
		name := identOf(x.Args[0])
		lo, hi := arg(1).t(), arg(2).t()
		k := BVar(name, SInt)
		body := se.bind(name, VInt(Add(lo, k))).rv(x.Args[3])
		return val(V1(body.T, SumOf(body.t(), k, Minus(hi, lo))))
	case "all", "any":
		// all(x, sort, body)
		name := identOf(x.Args[0])
		var bs []*Term
		var v Val
		sn := ""
		if id, ok := x.Args[1].(*ast.Ident); ok {
			sn = id.Name
		}
		if lit, ok := x.Args[1].(*ast.BasicLit); ok {
			T := se.v.typeByName(se.strArg(lit))
			v = Val{T: T}
			for _, s := range leafSorts(T) {
				b := BVar(name, s)
				bs = append(bs, b)
				v.L = append(v.L, b)
			}
		} else {
			s, T := sortOfName(sn)
			b := BVar(name, s)
			bs = []*Term{b}
			v = V1(T, b)
		}
		body := se.bind(name, v).boolean(x.Args[2])
		if n.Name == "all" {
			return val(VBool(Forall(bs, body)))
		}
		return val(VBool(Exists(bs, body)))
	case "let":
		name := identOf(x.Args[0])
		return se.bind(name, arg(1)).eval(x.Args[2])
	case "bytes":
		v := arg(0)
		if len(v.L) == 1 && v.L[0].Sort == SStr {
			return val(VStr(v.L[0]))
		}
		return val(VStr(bytesOf(st, v)))
	case "strs":
		return val(VList(listOf(st, arg(0))))
	case "list":
		var ts []*Term
		for i := range x.Args {
			ts = append(ts, arg(i).t())
		}
		return val(VList(SeqLit(ts...)))
	case "hdr": // values of a header
		return val(VList(Ite(Eq(arg(0).t(), Null), SeqLit(), st.read("H", arg(0).t(), arg(1).t()))))
	case "whdr": // header map of a response writer
		return val(V1(se.v.typeByName("net/http.Header"), App("whdr", SAddr, arg(0).t())))
	case "ghost":
		k := se.strArg(x.Args[0])
		if keys[k] == nil {
			serr("unknown ghost %s", k)
		}
		var idx []*Term
		for i := 1; i < len(x.Args); i++ {
			idx = append(idx, arg(i).t())
		}
		t := st.read(k, idx...)
		return val(V1(typeOfSort(t.Sort), t))
	case "visited":
		// the key has been visited by this loop over a map (in an invariant)
		t := False
		for _, k := range se.visit {
			if keys[k] != nil && len(keys[k].args) == 1 && keys[k].args[0] == arg(0).L[0].Sort {
				t = Or(t, se.st.read(k, arg(0).L[0]))
			}
		}
		return val(VBool(t))
	case "closed":
		return val(VBool(st.read(closedKey(), arg(0).t())))
	case "uf":
		// uf("name", sort, args...)
		s, T := sortOfName(identOf(x.Args[1]))
		var as []*Term
		for i := 2; i < len(x.Args); i++ {
			as = append(as, arg(i).L...)
		}
		return val(V1(T, App(se.strArg(x.Args[0]), s, as...)))
	case "arr": // the array behind a slice
		return val(VAddr(arg(0).L[0]))
	case "addr":
		s := se.eval(x.Args[0])
		if s.addr != nil {
			return val(VAddr(s.addr))
		}
		v := s.v
		if v.L[0].Sort == SIface {
			return val(VAddr(IAddr(v.L[0])))
		}
		return val(VAddr(v.L[0]))
	case "real":
		v := arg(0)
		if v.t().Sort == SInt {
			return val(VReal(ToReal(v.t())))
		}
		return val(v)
	case "typeis":
		return val(VBool(se.ex.hasType(arg(0).t(), se.v.typeByName(se.strArg(x.Args[1])))))
	case "unbox":
		T := se.v.typeByName(se.strArg(x.Args[1]))
		return val(se.ex.unbox(st, arg(0).t(), T))
	case "as": // a pointer or address viewed as pointer to T
		T := se.v.typeByName(se.strArg(x.Args[1]))
		v := arg(0)
		t := v.L[0]
		if t.Sort == SIface {
			t = IAddr(t)
		}
		return val(V1(types.NewPointer(T), t))
	case "library": // a variable of a library package
		p := se.v.prog.ImportedPackage(se.strArg(x.Args[0]))
		if p == nil {
			serr("no package %s", se.strArg(x.Args[0]))
		}
		g, ok := p.Members[se.strArg(x.Args[1])].(*ssa.Global)
		if !ok {
			serr("no variable %s", se.strArg(x.Args[1]))
		}
		return SV{addr: globalAddr(g), T: deref(g.Type()), st: st}
	case "bound": // a value captured by a closure or method value
		ci := closures[objId(arg(0).t())]
		T := se.v.typeByName(se.strArg(x.Args[1]))
		if ci == nil || len(ci.bind) != 1 || len(leafSorts(T)) != len(ci.bind[0].L) {
			return val(se.ex.freshVal(st, "nobinding", T))
		}
		return val(Val{T, ci.bind[0].L})
	case "yields": // a function value that returns the value whatever its arguments are
		f := arg(0).t()
		if f.Op != "obj" {
			return val(VBool(False))
		}
		fn, bind := funcById[objId(f)], []Val(nil)
		if ci := closures[objId(f)]; ci != nil {
			fn, bind = ci.fn, ci.bind
		}
		if fn == nil {
			return val(VBool(False))
		}
		s2 := st.clone()
		n := len(s2.pc)
		var as []Val
		for _, p := range fn.Params {
			as = append(as, se.ex.freshVal(s2, p.Name(), p.Type()))
		}
		all := True
		for _, o := range se.ex.runFn(fn, as, bind, s2, nil, nil, fn.Pos()) {
			r := False
			if o.kind == kRet && len(o.vals) == 1 && len(o.vals[0].L) == 1 {
				r = Eq(o.vals[0].t(), arg(1).t())
			}
			all = And(all, Implies(And(o.st.pc[n:]...), r))
		}
		return val(VBool(all))
	case "fresh": // allocated during the call
		v := arg(0)
		t := v.L[0]
		if t.Sort == SIface {
			t = IAddr(t)
		}
		if se.made != nil {
			*se.nfr++
			if *se.nfr > 1 {
				serr("fresh() used twice in one contract")
			}
			return val(VBool(Eq(t, se.made)))
		}
		if se.ex.cur == nil {
			return val(VBool(False))
		}
		if r := rootOf(t); r.Op == "obj" {
			return val(VBool(Bool(objId(r) > se.ex.cur.age)))
		}
		return val(VBool(IsNew(t, int64(se.ex.cur.age))))
	case "hasPrefix":
		return val(VBool(PrefixOf(arg(1).t(), arg(0).t())))
	case "hasSuffix":
		return val(VBool(SuffixOf(arg(1).t(), arg(0).t())))
	case "contains":
		return val(VBool(Contains(arg(0).t(), arg(1).t())))
	case "indexOf":
		return val(VInt(IndexOf(arg(0).t(), arg(1).t())))
	case "substr":
		return val(VStr(Substr(arg(0).t(), arg(1).t(), arg(2).t())))
	case "replace1":
		return val(VStr(Replace1(arg(0).t(), arg(1).t(), arg(2).t())))
	case "lower":
		return val(VStr(lowerOf(arg(0).t())))
	case "upper":
		return val(VStr(upperOf(arg(0).t())))
	case "canon":
		return val(VStr(canonOf(arg(0).t())))
	case "itoa":
		return val(VStr(itoaOf(arg(0).t())))
	case "in": // in(x, a, b, ...)
		a := arg(0)
		t := False
		for i := 1; i < len(x.Args); i++ {
			t = Or(t, se.equal(a, arg(i)))
		}
		return val(VBool(t))
	case "int":
		return val(V1(intT, arg(0).t()))
	}
	if d := se.v.defs[n.Name]; d != nil {
		if len(d.params) != len(x.Args) {
			serr("%s takes %d arguments", n.Name, len(d.params))
		}
		ne := *se
		ne.vars = map[string]Val{}
		// globals stay visible through ident; parameters are bound by value, lvalues keep their pointers
		for i, p := range d.params {
			ne.vars[p] = arg(i)
		}
		return ne.eval(d.expr)
	}
	serr("unknown function %s", n.Name)
	return SV{}
}

// loopCandidates: the invariants the contract under proof proposes. A loop keeps those that hold.
func (v *Verifier) loopCandidates(lr *loopRun, fr *Frame) []*cand {
	ck := lr.ex.cur
	if ck == nil || ck.entry == nil || (fr.fn != ck.fn && v.contractFor(fr.fn) != nil) {
		return nil
	}
	var out []*cand
	for _, cl := range ck.fc.clauses {
		if cl.kind != "invariant" || !lr.ex.wants(cl.props) {
			continue
		}
		cl := cl
		out = append(out, &cand{name: "contract " + cl.label(), declared: true, f: func(st *State, env *Env) *Term {
			se := &specEnv{v: v, ex: lr.ex, st: st, old: ck.entry, vars: map[string]Val{}, visit: lr.visit}
			se.bindParams(ck.fc, ck.fn, ck.params)
			t, err := se.boolExpr(cl)
			if err != nil {
				serr("invariant %s: %v", cl.label(), err)
			}
			return t
		}})
	}
	return out
}
