package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"math/big"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Assumed contracts of functions outside the package under verification.

type xc struct {
	ex   *Exec
	fr   *Frame
	x    X
	st   *State
	a    []Val
	fn   *ssa.Function
	sig  *types.Signature
	pos  token.Pos
	name string
}

type xfn func(*xc) []Outcome

var externs = map[string]xfn{}

// extErrT is the dynamic type of every error made outside the package.
var extErrT types.Type = types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "externalError", nil), types.NewStruct(nil, nil), nil))
var mbrT types.Type = types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "maxBytesReader", nil), types.NewStruct(nil, nil), nil))
var ctxT types.Type = types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "cancelCtx", nil), types.NewStruct(nil, nil), nil))
var tokT types.Type = types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "jwtToken", nil), types.NewStruct(nil, nil), nil))
var optT types.Type = types.NewPointer(types.NewNamed(types.NewTypeName(0, nil, "jwtOption", nil), types.NewStruct(nil, nil), nil))

var evObj = Obj(-2000001)
var fatalObj = Obj(-2000002)

func (c *xc) rt(i int) types.Type { return c.sig.Results().At(i).Type() }
func (c *xc) ret(vs ...*Term) []Outcome {
	var vals []Val
	n := c.sig.Results().Len()
	if len(vs) != n {
		unsupp("model of %s returns %d values, the function %d", c.name, len(vs), n)
	}
	for i, t := range vs {
		vals = append(vals, V1(c.rt(i), t))
	}
	return c.retv(vals...)
}
func (c *xc) retv(vals ...Val) []Outcome {
	for i := range vals {
		vals[i].T = c.rt(i)
	}
	return []Outcome{{kind: kRet, st: c.st, vals: vals, pos: c.pos}}
}
func (c *xc) fresh(i int, hint string) Val { return c.ex.freshVal(c.st, hint, c.rt(i)) }
func (c *xc) with(st *State) *xc {
	d := *c
	d.st = st
	d.x = X{st: st, env: c.x.env, pred: c.x.pred}
	return &d
}

// fork continues with f where cond holds and with g where it does not.
func (c *xc) fork(cond *Term, f, g func(c *xc) []Outcome) []Outcome {
	if cond == True {
		return f(c)
	}
	if cond == False {
		return g(c)
	}
	var out []Outcome
	y := c.st.clone()
	decide(cond)
	decide(Not(cond))
	if c.ex.feasible(c.st, cond) {
		c.st.assume(cond)
		out = append(out, f(c)...)
	}
	if c.ex.feasible(y, Not(cond)) {
		y.assume(Not(cond))
		out = append(out, g(c.with(y))...)
	}
	return out
}

func (c *xc) safety(cond *Term, what string) {
	if cond == True {
		return
	}
	c.ex.safety(c.st, cond, what, c.fr, c.pos)
	c.st.assume(cond)
}

// newErr is an error made outside the package.
func newErr(st *State) *Term { return IPtr(tagOf(extErrT), NewObj()) }
func (c *xc) err() *Term     { return newErr(c.st) }
func errMsg(e *Term) *Term   { return App("errmsg", SStr, e) }

// maybeErr is an unknown error or nil.
func (c *xc) maybeErr() *Term {
	b := Fresh("failed", SBool)
	return Ite(b, c.err(), INil)
}

func (c *xc) str(i int) *Term   { return c.a[i].t() }
func (c *xc) bytes(i int) *Term { return bytesOf(c.st, c.a[i]) }
func (c *xc) retBytes(s *Term) Val {
	return c.ex.sliceOfBytes(c.st, types.NewSlice(types.Typ[types.Uint8]), s)
}

// pointee is the address a pointer in an interface points to, with its type.
func ptrIn(i *Term) (*Term, types.Type) {
	tag := ITag(i)
	if tag.Op != "int" {
		return nil, nil
	}
	t := tagType(int(tag.I.Int64()))
	if t == nil || !isPtr(t) {
		return nil, nil
	}
	return IAddr(i), deref(t)
}

// unzObj is an object not made by the package: its content is unknown.
func unzObj() *Term {
	o := NewObj()
	unzeroed[objId(o)] = true
	return o
}

// havocAt gives everything stored at an address unknown values.
func (ex *Exec) havocAt(st *State, a *Term, t types.Type) {
	if _, ok := under(t).(*types.Array); ok {
		return
	}
	st.store(a, t, ex.freshVal(st, "ext", t))
}

// nilSafe receivers need no check.
func nilSafe(name string) bool {
	return strings.Contains(name, "zerolog") || strings.HasPrefix(name, "(*os.File)") || strings.HasPrefix(name, "(*sync.")
}

func (ex *Exec) extern(fr *Frame, x X, name string, fn *ssa.Function, args []Val, sig *types.Signature, pos token.Pos) []Outcome {
	c := &xc{ex: ex, fr: fr, x: x, st: x.st, a: args, fn: fn, sig: sig, pos: pos, name: name}
	ex.v.externSeen[name] = true
	if strings.HasPrefix(name, "(*") && len(args) > 0 && len(args[0].L) == 1 && args[0].L[0].Sort == SAddr && !nilSafe(name) {
		c.safety(Not(Eq(args[0].t(), Null)), "method "+name+" on nil pointer")
		if c.st.dead {
			return nil
		}
	}
	if f := externs[name]; f != nil {
		return f(c)
	}
	if i := strings.LastIndex(name, ")."); i > 0 {
		// methods of interfaces embedding a known one
		if f := externs["*"+name[i+1:]]; f != nil {
			return f(c)
		}
	}
	if strings.Contains(name, "zerolog") && sig.Results().Len() == 1 && len(args) > 0 && tstr(args[0].T) == tstr(sig.Results().At(0).Type()) {
		return c.retv(args[0])
	}
	if fn != nil && fn.Name() == "init" || strings.HasSuffix(name, ".init") {
		return retOut(c.st)
	}
	ex.v.assumption(fmt.Sprintf("%s: no model; results unknown, memory reachable in one step from its arguments unknown afterwards", name))
	for _, a := range args {
		for i, l := range a.L {
			if l.Sort == SAddr && i == 0 {
				switch u := under(a.T).(type) {
				case *types.Pointer:
					if isStruct(u.Elem()) && !strings.HasPrefix(tstr(u.Elem()), "net/http.Request") || !isStruct(u.Elem()) {
						ex.havocAt(c.st, l, u.Elem())
					}
				case *types.Slice:
					for _, k := range elemKeys(u.Elem()) {
						c.st.havoc(k, Pat{kind: 'e', args: []*Term{l}})
					}
					if ca := contentArr(u.Elem()); ca != "" {
						n := Fresh("content", keys[ca].res)
						if ca == "B" {
							c.st.assume(Eq(StrLen(n), StrLen(c.st.read(ca, l))))
						} else {
							c.st.assume(Eq(SeqLen(n), SeqLen(c.st.read(ca, l))))
						}
						c.st.write(ca, n, l)
					}
				}
			}
		}
	}
	var vals []Val
	for i := 0; i < sig.Results().Len(); i++ {
		vals = append(vals, c.fresh(i, "ext"))
	}
	return retOut(c.st, vals...)
}

// ---- string helpers

var ufConst = map[string]func(string) string{
	"lower": strings.ToLower,
	"upper": strings.ToUpper,
	"trim":  strings.TrimSpace,
}

func strFn(name string, t *Term) *Term {
	if t.Op == "str" {
		return Str(ufConst[name](t.S))
	}
	if t.Op == "ite" {
		return Ite(t.Args[0], strFn(name, t.Args[1]), strFn(name, t.Args[2]))
	}
	if t.Op == "app" && t.S == name {
		return t
	}
	return App(name, SStr, t)
}
func lowerOf(t *Term) *Term { return strFn("lower", t) }
func upperOf(t *Term) *Term { return strFn("upper", t) }

// canonOf is the canonical form of a header name.
func canonOf(t *Term) *Term {
	if t.Op == "str" {
		return Str(canonHeader(t.S))
	}
	if isCanon(t) {
		return t
	}
	if t.Op == "ite" {
		return Ite(t.Args[0], canonOf(t.Args[1]), canonOf(t.Args[2]))
	}
	return App("canon", SStr, t)
}

// keys met when ranging over a header map are canonical
func isCanon(t *Term) bool {
	return (t.Op == "var" || t.Op == "bvar") && strings.HasPrefix(t.S, "hdrkey") || t.Op == "app" && t.S == "canon"
}

func itoaOf(t *Term) *Term {
	if t.Op == "int" {
		return Str(t.I.String())
	}
	if t.Op == "ite" {
		return Ite(t.Args[0], itoaOf(t.Args[1]), itoaOf(t.Args[2]))
	}
	return App("itoa", SStr, t)
}

func sprintf(c *xc, f *Term, args Val) *Term {
	if f.Op != "str" || args.L[2].Op != "int" {
		return Fresh("formatted", SStr)
	}
	n := int(args.L[2].I.Int64())
	k := 0
	var out []*Term
	s := f.S
	for len(s) > 0 {
		i := strings.IndexByte(s, '%')
		if i < 0 {
			out = append(out, Str(s))
			break
		}
		out = append(out, Str(s[:i]))
		s = s[i+1:]
		j := 0
		for j < len(s) && strings.IndexByte("+-# 0123456789.", s[j]) >= 0 {
			j++
		}
		if j >= len(s) {
			out = append(out, Fresh("formatted", SStr))
			break
		}
		verb := s[:j+1]
		s = s[j+1:]
		if verb == "%" {
			out = append(out, Str("%"))
			continue
		}
		if k >= n {
			out = append(out, Str("%!"+verb+"(MISSING)"))
			continue
		}
		v := c.st.load(Elem(args.L[0], Add(args.L[1], Int(int64(k)))), emptyIfaceT).t()
		k++
		out = append(out, fmtArg(c, verb, v))
	}
	if k < n {
		out = append(out, Fresh("extra", SStr))
	}
	return Concat(out...)
}

func fmtArg(c *xc, verb string, v *Term) *Term {
	if v.Op == "ite" {
		return Ite(v.Args[0], fmtArg(c, verb, v.Args[1]), fmtArg(c, verb, v.Args[2]))
	}
	tag := ITag(v)
	var t types.Type
	if tag.Op == "int" {
		t = tagType(int(tag.I.Int64()))
	}
	if t != nil {
		switch verb {
		case "d", "v":
			if isInteger(t) && (verb == "d" || !hasMethod(c, t, "String")) {
				return itoaOf(IIntVal(v))
			}
		}
		if (verb == "s" || verb == "v") && isString(t) {
			if !hasMethod(c, t, "String") || tstr(t) == "github.com/lestrrat-go/jwx/jwa.SignatureAlgorithm" {
				return IStrVal(v)
			}
		}
		if verb == "X" && tstr(t) == "*math/big.Int" {
			return App("hexup", SStr, IAddr(v))
		}
		if isInteger(t) {
			return App("fmtint_"+verb, SStr, IIntVal(v))
		}
		if boxKind(t) == "str" {
			return App("fmtstr_"+verb+tstr(t), SStr, IStrVal(v))
		}
		if (verb == "s" || verb == "v") && types.Implements(t, errorT.Underlying().(*types.Interface)) {
			return errMsg(v)
		}
	}
	return Fresh("formatted", SStr)
}

func hasMethod(c *xc, t types.Type, n string) bool {
	ms := c.ex.v.prog.MethodSets.MethodSet(t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == n {
			return true
		}
	}
	return false
}

// sat64 is an integer saturated to 64 bits.
func sat64(t *Term) *Term {
	mx, mn := IntB(big.NewInt(math.MaxInt64)), IntB(big.NewInt(math.MinInt64))
	return Ite(Gt(t, mx), mx, Ite(Lt(t, mn), mn, t))
}

const unixEpoch = 62135596800

func unixOf(t *Term) *Term { return Minus(Div(t, Int(1000000000)), Int(unixEpoch)) }
func truncSec(t *Term) *Term {
	return Minus(t, Mod(t, Int(1000000000)))
}

func now(st *State) *Term {
	regKey("W:now", SInt)
	n := Fresh("now", SInt)
	lo := new(big.Int).Mul(big.NewInt(unixEpoch), big.NewInt(1000000000))
	hi := new(big.Int).Add(lo, big.NewInt(math.MaxInt64/2))
	st.assume(Le(st.read("W:now"), n), Lt(IntB(lo), n), Lt(n, IntB(hi)))
	st.write("W:now", n)
	return n
}

func regexpOf(p *Term) *Term { return App("re", SAddr, p) }

func init() {
	for _, k := range []struct {
		n, r string
		a    []string
	}{
		{"B", SStr, []string{SAddr}}, {"L", SList, []string{SAddr}}, {"H", SList, []string{SAddr, SStr}},
		{"W:status", SInt, []string{SIface}}, {"W:wh", SInt, []string{SIface}}, {"W:body", SStr, []string{SIface}},
		{"W:writes", SInt, []string{SIface}}, {"W:hsnap", SList, []string{SAddr, SStr}},
		{"W:do", SInt, nil}, {"W:do.url", SStr, []string{SInt}}, {"W:do.method", SStr, []string{SInt}},
		{"W:do.body", SStr, []string{SInt}}, {"W:do.hasbody", SBool, []string{SInt}}, {"W:do.h", SList, []string{SInt, SStr}},
		{"W:do.ctx", SAddr, []string{SInt}},
		{"W:rq.url", SStr, []string{SAddr}}, {"W:rq.body", SStr, []string{SAddr}}, {"W:rq.hasbody", SBool, []string{SAddr}}, {"W:rq.ctx", SIface, []string{SAddr}},
		{"W:now", SInt, nil}, {"W:dice", SReal, nil}, {"W:perm", SInt, []string{SInt}}, {"W:seed", SInt, nil},
		{"W:buf", SStr, []string{SAddr}}, {"W:bufarr", SAddr, []string{SAddr}},
		{"W:rdsrc", SIface, []string{SAddr}}, {"W:mbr.src", SIface, []string{SAddr}}, {"W:mbr.n", SInt, []string{SAddr}},
		{"W:gz.dst", SIface, []string{SAddr}}, {"W:gz.in", SStr, []string{SAddr}}, {"W:gz.base", SStr, []string{SAddr}},
		{"W:gr.src", SIface, []string{SAddr}}, {"W:timer", SInt, []string{SAddr}}, {"W:timers", SInt, []string{SAddr}},
		{"W:ctxch", SAddr, []string{SAddr}}, {"W:pool", SBool, []string{SAddr, SAddr}}, {"W:pooln", SInt, []string{SAddr}},
		{"W:mux", SAddr, []string{SAddr, SStr}}, {"W:listen", SInt, nil}, {"W:listen.srv", SAddr, nil}, {"W:listen.tls", SBool, nil},
		{"W:sem", SBool, []string{SAddr}}, {"W:opt.alg", SStr, []string{SAddr}}, {"W:opt.key", SIface, []string{SAddr}},
		{"W:tok.iat", SInt, []string{SAddr}}, {"W:tok.nbf", SInt, []string{SAddr}}, {"W:tok.exp", SInt, []string{SAddr}},
		{"W:raw", SIface, []string{SAddr}}, {"W:vf.roots", SAddr, nil}, {"W:vf.inter", SAddr, nil}, {"W:vf.cert", SAddr, nil}, {"W:vf", SInt, nil},
		{"W:sleep", SInt, nil}, {"W:late", SBool, []string{SAddr}}, {"W:ver.token", SStr, nil}, {"W:ver.now", SInt, nil}, {"W:log", SStr, nil},
		{"W:exitcode", SInt, nil}, {"W:boot", SInt, nil}, {"W:boot.file", SStr, nil}, {"W:parsed", SBool, nil}, {"W:fetch", SInt, nil},
		{"W:json.ref", SAddr, []string{SStr}}, {"W:json.len", SInt, []string{SStr}}, {"W:json", SStr, nil}, {"W:jsons", SInt, nil},
		{"G:closed", SBool, []string{SAddr}}, {"G:ext", SBool, []string{SAddr}},
	} {
		regKey(k.n, k.r, k.a...)
	}
	for _, k := range []string{"W:wh", "W:writes", "W:do", "W:timers", "W:listen", "W:vf", "W:fetch", "W:jsons"} {
		keys[k].nn = true // counters
	}
	nonnegUF["itoa"] = false
	delete(nonnegUF, "itoa")
	axiomFns["itoa"] = func(a *Term) []*Term {
		return []*Term{Eq(App("atoi", SInt, a), a.Args[0]), App("atoiok", SBool, a), Lt(Int(0), StrLen(a))}
	}
	axiomFns["replace1"] = func(a *Term) []*Term {
		s, p, r := a.Args[0], a.Args[1], a.Args[2]
		i := IndexOf(s, p)
		n := Add(i, StrLen(p))
		return []*Term{Implies(Not(Contains(s, p)), Eq(a, s)),
			Implies(PrefixOf(p, s), Eq(a, Concat(r, Substr(s, StrLen(p), Minus(StrLen(s), StrLen(p)))))),
			Implies(Contains(s, p), Eq(a, Concat(Substr(s, Int(0), i), r, Substr(s, n, Minus(StrLen(s), n)))))}
	}
	axiomFns["split"] = func(a *Term) []*Term {
		s, sep := a.Args[0], a.Args[1]
		n0, n1 := SeqNth(a, Int(0)), SeqNth(a, Int(1))
		has := mk(&Term{Op: "str.contains", Sort: SBool, Args: []*Term{s, sep}})
		i := IndexOf(s, sep)
		rest := Substr(s, Add(i, StrLen(sep)), Minus(StrLen(s), Add(i, StrLen(sep))))
		out := []*Term{Le(Int(1), SeqLen(a)), Eq(Eq(SeqLen(a), Int(1)), Not(has)),
			Implies(Not(has), Eq(n0, s)),
			Implies(has, Eq(n0, Substr(s, Int(0), i))),
			Implies(And(has, Not(Contains(rest, sep))), And(Eq(n1, rest), Eq(SeqLen(a), Int(2)))),
			Implies(And(has, Contains(rest, sep)), Eq(n1, Substr(rest, Int(0), IndexOf(rest, sep))))}
		return out
	}
	axiomFns["gz"] = func(a *Term) []*Term {
		return []*Term{Eq(App("gunz", SStr, a), a.Args[0]), App("isgz", SBool, a), PrefixOf(Str("\x1f\x8b"), a), Le(Int(18), StrLen(a))}
	}
	axiomFns["isgz"] = func(a *Term) []*Term {
		return []*Term{Implies(a, PrefixOf(Str("\x1f\x8b"), a.Args[0]))}
	}
	axiomFns["canon"] = func(a *Term) []*Term {
		return []*Term{Eq(App("lower", SStr, a), lowerOf(a.Args[0]))}
	}
	axiomFns["lower"] = func(a *Term) []*Term {
		return []*Term{Eq(Eq(a, Str("")), Eq(a.Args[0], Str("")))}
	}
	axiomFns["upper"] = func(a *Term) []*Term {
		return []*Term{Eq(Eq(a, Str("")), Eq(a.Args[0], Str("")))}
	}
	axiomFns["trim"] = func(a *Term) []*Term { return nil }
	axiomFns["re"] = func(a *Term) []*Term { return []*Term{Not(Eq(a, Null))} }
	axiomFns["whdr"] = func(a *Term) []*Term { return []*Term{Not(Eq(a, Null))} }
	nonnegUF["jwssigs"] = true

	reg := func(f xfn, names ...string) {
		for _, n := range names {
			externs[n] = f
		}
	}

	// errors, fmt
	reg(func(c *xc) []Outcome {
		e := c.err()
		c.st.assume(Eq(errMsg(e), c.str(0)))
		return c.ret(e)
	}, "errors.New")
	reg(func(c *xc) []Outcome {
		e := c.err()
		c.st.assume(Eq(errMsg(e), sprintf(c, c.str(0), c.a[1])))
		return c.ret(e)
	}, "fmt.Errorf")
	reg(func(c *xc) []Outcome { return c.ret(errMsg(c.a[0].t())) }, "(error).Error")
	reg(func(c *xc) []Outcome { return c.ret(sprintf(c, c.str(0), c.a[1])) }, "fmt.Sprintf")
	reg(func(c *xc) []Outcome {
		// operands are joined by spaces between non-strings; one operand is printed as by %v
		if c.a[0].L[2] == Int(1) {
			return c.ret(sprintf(c, Str("%v"), c.a[0]))
		}
		return c.ret(Fresh("sprint", SStr))
	}, "fmt.Sprint")

	// strings
	reg(func(c *xc) []Outcome { return c.ret(Contains(c.str(0), c.str(1))) }, "strings.Contains")
	reg(func(c *xc) []Outcome { return c.ret(PrefixOf(c.str(1), c.str(0))) }, "strings.HasPrefix")
	reg(func(c *xc) []Outcome { return c.ret(SuffixOf(c.str(1), c.str(0))) }, "strings.HasSuffix")
	reg(func(c *xc) []Outcome { return c.ret(IndexOf(c.str(0), c.str(1))) }, "strings.Index")
	reg(func(c *xc) []Outcome { return c.ret(IndexOf(c.str(0), FromCode(c.a[1].t()))) }, "strings.IndexByte", "strings.IndexRune")
	reg(func(c *xc) []Outcome { return c.ret(lowerOf(c.str(0))) }, "strings.ToLower")
	reg(func(c *xc) []Outcome { return c.ret(upperOf(c.str(0))) }, "strings.ToUpper")
	reg(func(c *xc) []Outcome { return c.ret(strFn("trim", c.str(0))) }, "strings.TrimSpace")
	reg(func(c *xc) []Outcome { return c.ret(Eq(lowerOf(c.str(0)), lowerOf(c.str(1)))) }, "strings.EqualFold")
	reg(func(c *xc) []Outcome {
		s, p := c.str(0), c.str(1)
		return c.ret(Ite(PrefixOf(p, s), Substr(s, StrLen(p), Minus(StrLen(s), StrLen(p))), s))
	}, "strings.TrimPrefix")
	reg(func(c *xc) []Outcome {
		s, p := c.str(0), c.str(1)
		return c.ret(Ite(SuffixOf(p, s), Substr(s, Int(0), Minus(StrLen(s), StrLen(p))), s))
	}, "strings.TrimSuffix")
	reg(func(c *xc) []Outcome {
		n := c.a[3].t()
		if n == Int(1) {
			return c.ret(Replace1(c.str(0), c.str(1), c.str(2)))
		}
		return c.ret(App("replace", SStr, c.str(0), c.str(1), c.str(2), n))
	}, "strings.Replace")
	reg(func(c *xc) []Outcome {
		return c.ret(App("replace", SStr, c.str(0), c.str(1), c.str(2), Int(-1)))
	}, "strings.ReplaceAll")
	reg(func(c *xc) []Outcome {
		var l *Term
		if c.str(0).Op == "str" && c.str(1).Op == "str" {
			var xs []*Term
			for _, p := range strings.Split(c.str(0).S, c.str(1).S) {
				xs = append(xs, Str(p))
			}
			l = SeqLit(xs...)
		} else {
			l = App("split", SList, c.str(0), c.str(1))
		}
		return c.retv(c.ex.sliceOfStrs(c.st, c.rt(0), l))
	}, "strings.Split")
	reg(func(c *xc) []Outcome {
		return c.retv(c.ex.sliceOfStrs(c.st, c.rt(0), App("splitn", SList, c.str(0), c.str(1), c.a[2].t())))
	}, "strings.SplitN")
	reg(func(c *xc) []Outcome {
		return c.retv(c.ex.sliceOfStrs(c.st, c.rt(0), App("fields", SList, c.str(0))))
	}, "strings.Fields")
	reg(func(c *xc) []Outcome { return c.ret(joinOf(listOf(c.st, c.a[0]), c.str(1))) }, "strings.Join")
	axiomFns["join"] = func(a *Term) []*Term {
		l := a.Args[0]
		return []*Term{Implies(Eq(SeqLen(l), Int(0)), Eq(a, Str(""))), Implies(Eq(SeqLen(l), Int(1)), Eq(a, SeqNth(l, Int(0))))}
	}

	// strconv
	reg(func(c *xc) []Outcome {
		s := c.str(0)
		if s.Op == "str" {
			if n, err := strconv.Atoi(s.S); err == nil {
				return c.ret(Int(int64(n)), INil)
			}
		}
		ok := App("atoiok", SBool, s)
		v := App("atoi", SInt, s)
		e := Fresh("badnum", SInt) // the value returned with an error
		c.st.assume(Implies(ok, And(Le(Int(math.MinInt64), v), Le(v, Int(math.MaxInt64)))), Implies(ok, Not(Eq(s, Str("")))))
		c.ex.v.assumption("strconv.Atoi returns 0 with an error for text that is not a number in range, or an extreme value")
		c.st.assume(Or(Eq(e, Int(0)), Eq(e, Int(math.MaxInt64)), Eq(e, Int(math.MinInt64))))
		return c.ret(Ite(ok, v, e), Ite(ok, INil, c.err()))
	}, "strconv.Atoi")
	reg(func(c *xc) []Outcome {
		s := c.str(0)
		ok := App("parseintok", SBool, s, c.a[1].t(), c.a[2].t())
		v := App("parseint", SInt, s, c.a[1].t(), c.a[2].t())
		e := Fresh("badnum", SInt)
		c.st.assume(Implies(ok, Not(Eq(s, Str("")))))
		return c.ret(Ite(ok, v, e), Ite(ok, INil, c.err()))
	}, "strconv.ParseInt")
	reg(func(c *xc) []Outcome { return c.ret(itoaOf(c.a[0].t())) }, "strconv.Itoa")
	reg(func(c *xc) []Outcome {
		if c.a[1].t() == Int(10) {
			return c.ret(itoaOf(c.a[0].t()))
		}
		return c.ret(App("fmtint", SStr, c.a[0].t(), c.a[1].t()))
	}, "strconv.FormatInt")

	// bytes
	reg(func(c *xc) []Outcome {
		a, b := c.bytes(0), c.bytes(1)
		r := App("bytescmp", SInt, a, b)
		if a == b {
			r = Int(0)
		}
		c.st.assume(Eq(Eq(r, Int(0)), Eq(a, b)), Le(Int(-1), r), Le(r, Int(1)))
		return c.ret(r)
	}, "bytes.Compare")
	reg(func(c *xc) []Outcome { return c.ret(Eq(c.bytes(0), c.bytes(1))) }, "bytes.Equal")
	reg(func(c *xc) []Outcome { return c.ret(PrefixOf(c.bytes(1), c.bytes(0))) }, "bytes.HasPrefix")
	reg(func(c *xc) []Outcome {
		o := NewObj()
		c.st.write("W:buf", c.bytes(0), o)
		if strings.HasPrefix(c.name, "bytes.NewBuffer") {
			c.st.write("W:bufarr", c.a[0].L[0], o)
		}
		return c.ret(o)
	}, "bytes.NewBuffer", "bytes.NewReader")
	reg(func(c *xc) []Outcome {
		o := NewObj()
		c.st.write("W:buf", c.str(0), o)
		return c.ret(o)
	}, "bytes.NewBufferString", "strings.NewReader")
	reg(func(c *xc) []Outcome {
		s := c.st.read("W:buf", c.str(0))
		v := c.retBytes(s)
		c.st.write("W:bufarr", v.L[0], c.str(0))
		return c.retv(v)
	}, "(*bytes.Buffer).Bytes")
	bufWrite := func(c *xc, b *Term, s *Term) {
		c.st.write("W:buf", Concat(c.st.read("W:buf", b), s), b)
		dirty(c.st, b)
	}
	reg(func(c *xc) []Outcome { return c.ret(c.st.read("W:buf", c.str(0))) }, "(*bytes.Buffer).String", "(*strings.Builder).String")
	reg(func(c *xc) []Outcome { return c.ret(StrLen(c.st.read("W:buf", c.str(0)))) }, "(*bytes.Buffer).Len", "(*strings.Builder).Len")
	reg(func(c *xc) []Outcome {
		c.st.write("W:buf", Str(""), c.str(0))
		dirty(c.st, c.str(0))
		return c.ret()
	}, "(*bytes.Buffer).Reset", "(*strings.Builder).Reset")
	reg(func(c *xc) []Outcome { return c.ret() }, "(*bytes.Buffer).Grow", "(*strings.Builder).Grow")
	reg(func(c *xc) []Outcome {
		bufWrite(c, c.str(0), c.a[1].t())
		return c.ret(StrLen(c.a[1].t()), INil)
	}, "(*bytes.Buffer).WriteString", "(*strings.Builder).WriteString")
	reg(func(c *xc) []Outcome {
		bufWrite(c, c.str(0), FromCode(c.a[1].t()))
		return c.ret(INil)
	}, "(*bytes.Buffer).WriteByte", "(*strings.Builder).WriteByte")
	reg(func(c *xc) []Outcome {
		bufWrite(c, c.str(0), FromCode(c.a[1].t()))
		return c.ret(Int(1), INil)
	}, "(*bytes.Buffer).WriteRune", "(*strings.Builder).WriteRune")
	reg(func(c *xc) []Outcome {
		bufWrite(c, c.str(0), c.bytes(1))
		return c.ret(c.a[1].L[2], INil)
	}, "(*bytes.Buffer).Write", "(*strings.Builder).Write")

	// time
	const sec = 1000000000
	reg(func(c *xc) []Outcome { return c.ret(now(c.st)) }, "time.Now")
	reg(func(c *xc) []Outcome { return c.ret(sat64(Minus(now(c.st), c.a[0].t()))) }, "time.Since")
	reg(func(c *xc) []Outcome { return c.ret(sat64(Minus(c.a[0].t(), now(c.st)))) }, "time.Until")
	reg(func(c *xc) []Outcome { return c.ret(sat64(Minus(c.a[0].t(), c.a[1].t()))) }, "(time.Time).Sub")
	reg(func(c *xc) []Outcome { return c.ret(Add(c.a[0].t(), c.a[1].t())) }, "(time.Time).Add")
	reg(func(c *xc) []Outcome { return c.ret(Lt(c.a[0].t(), c.a[1].t())) }, "(time.Time).Before")
	reg(func(c *xc) []Outcome { return c.ret(Lt(c.a[1].t(), c.a[0].t())) }, "(time.Time).After")
	reg(func(c *xc) []Outcome { return c.ret(Eq(c.a[1].t(), c.a[0].t())) }, "(time.Time).Equal")
	reg(func(c *xc) []Outcome { return c.ret(Eq(c.a[0].t(), Int(0))) }, "(time.Time).IsZero")
	reg(func(c *xc) []Outcome { return c.ret(c.a[0].t()) }, "(time.Time).Local", "(time.Time).UTC", "(time.Time).Round")
	reg(func(c *xc) []Outcome { return c.ret(unixOf(c.a[0].t())) }, "(time.Time).Unix")
	reg(func(c *xc) []Outcome { return c.ret(Minus(c.a[0].t(), Mul(Int(unixEpoch), Int(sec)))) }, "(time.Time).UnixNano")
	reg(func(c *xc) []Outcome { return c.ret(App("timefmt", SStr, c.a[0].t(), c.str(1))) }, "(time.Time).Format")
	reg(func(c *xc) []Outcome { return c.ret(RDiv(ToReal(c.a[0].t()), RealR(big.NewRat(sec, 1)))) }, "(time.Duration).Seconds")
	reg(func(c *xc) []Outcome { return c.ret(RDiv(ToReal(c.a[0].t()), RealR(big.NewRat(3600*sec, 1)))) }, "(time.Duration).Hours")
	reg(func(c *xc) []Outcome { return c.ret(RDiv(ToReal(c.a[0].t()), RealR(big.NewRat(60*sec, 1)))) }, "(time.Duration).Minutes")
	reg(func(c *xc) []Outcome { return c.ret(truncDiv(c.a[0].t(), Int(1000))) }, "(time.Duration).Microseconds")
	reg(func(c *xc) []Outcome { return c.ret(truncDiv(c.a[0].t(), Int(1000000))) }, "(time.Duration).Milliseconds")
	reg(func(c *xc) []Outcome {
		c.st.write("W:sleep", Add(c.st.read("W:sleep"), Int(1)))
		return c.ret()
	}, "time.Sleep")
	reg(func(c *xc) []Outcome {
		// the function runs later: find out what it closes
		f := c.a[1].t()
		st := c.st.clone()
		st.pend = nil
		c.ex.record++
		outs := c.ex.callValue(c.fr, X{st: st, env: c.x.env}, f, nil, nil, types.NewSignatureType(nil, nil, nil, nil, nil, false), c.pos)
		c.ex.record--
		for _, o := range outs {
			if o.kind != kRet {
				continue
			}
			for _, w := range writesSince(c.st.mem, o.st.mem) {
				if w.key != closedKey() || w.u.kind != 's' {
					unsupp("a timer function does more than close channels (%s)", w.key)
				}
				ch := w.u.idx[0]
				c.st.write("W:timer", c.a[0].t(), ch)
				c.st.write("W:timers", Add(c.st.read("W:timers", ch), Int(1)), ch)
				c.st.write(extKey(), True, ch)
			}
		}
		return c.ret(NewObj())
	}, "time.AfterFunc")

	// logging
	ev := func(c *xc) []Outcome { return c.ret(evObj) }
	for _, n := range []string{"Debug", "Info", "Trace", "Warn", "Error", "Log", "Print"} {
		reg(ev, "github.com/rs/zerolog/log."+n)
	}
	reg(func(c *xc) []Outcome { return c.ret(fatalObj) }, "github.com/rs/zerolog/log.Fatal")
	send := func(c *xc) []Outcome {
		e := c.a[0].t()
		return c.fork(Eq(e, fatalObj), func(c *xc) []Outcome {
			c.st.write("W:exitcode", Int(1))
			return []Outcome{{kind: kExit, st: c.st, msg: "log.Fatal", pos: c.pos}}
		}, func(c *xc) []Outcome { return c.ret() })
	}
	reg(send, "(*github.com/rs/zerolog.Event).Msg", "(*github.com/rs/zerolog.Event).Msgf", "(*github.com/rs/zerolog.Event).Send")
	reg(func(c *xc) []Outcome {
		c.st.write("W:exitcode", c.a[0].t())
		return []Outcome{{kind: kExit, st: c.st, msg: "os.Exit", pos: c.pos}}
	}, "os.Exit")

	// os
	reg(func(c *xc) []Outcome { return c.ret(App("env", SStr, c.str(0))) }, "os.Getenv")
	// command line flags: set ones get the value given when the line is parsed
	defFlag := func(c *xc, at *Term, name, def *Term) {
		if name.Op != "str" {
			unsupp("a flag whose name is not constant")
		}
		if c.ex.flags == nil {
			c.ex.flags = map[string]*Term{}
		}
		c.ex.flags[name.S] = at
		c.st.store(at, types.Typ[types.String], V1(types.Typ[types.String], def))
	}
	reg(func(c *xc) []Outcome {
		o := c.ex.alloc(c.st, types.Typ[types.String])
		defFlag(c, o, c.str(0), c.str(1))
		return c.ret(o)
	}, "flag.String")
	reg(func(c *xc) []Outcome {
		defFlag(c, c.str(0), c.str(1), c.str(2))
		return c.ret()
	}, "flag.StringVar")
	reg(func(c *xc) []Outcome {
		T := types.Typ[types.String]
		for _, n := range sortedKeys(c.ex.flags) {
			a := c.ex.flags[n]
			c.st.store(a, T, V1(T, Ite(App("flagset", SBool, Str(n)), App("flagvalue", SStr, Str(n)), c.st.load(a, T).t())))
		}
		c.st.write("W:parsed", True)
		c.ex.v.assumption("package flag: one parse of the command line; a flag given has the value given, others keep their defaults")
		return c.ret()
	}, "flag.Parse")
	reg(func(c *xc) []Outcome {
		sig := under(c.a[0].T).(*types.Signature)
		FT := deref(sig.Params().At(0).Type())
		sts := []*State{c.st}
		for _, n := range sortedKeys(c.ex.flags) {
			var next []*State
			for _, s := range sts {
				d := c.with(s)
				d.fork(And(s.read("W:parsed"), App("flagset", SBool, Str(n))), func(e *xc) []Outcome {
					o := e.ex.alloc(e.st, FT)
					k := fieldIndex(FT, "Name")
					e.st.store(Sub(o, fid(FT, k)), types.Typ[types.String], V1(types.Typ[types.String], Str(n)))
					for _, out := range e.ex.callValue(e.fr, X{st: e.st, env: e.x.env}, e.a[0].t(), []Val{V1(sig.Params().At(0).Type(), o)}, nil, sig, e.pos) {
						if out.kind == kRet && !out.st.dead {
							next = append(next, out.st)
						}
					}
					return nil
				}, func(e *xc) []Outcome { next = append(next, e.st); return nil })
			}
			sts = next
		}
		var outs []Outcome
		for _, s := range sts {
			outs = append(outs, Outcome{kind: kRet, st: s, pos: c.pos})
		}
		return outs
	}, "flag.Visit")
	reg(func(c *xc) []Outcome { return c.ret(Fresh("pid", SInt)) }, "os.Getpid")
	reg(func(c *xc) []Outcome { return c.ret(Fresh("host", SStr), c.maybeErr()) }, "os.Hostname")
	reg(func(c *xc) []Outcome {
		ok := App("fileok", SBool, c.str(0))
		return c.fork(ok, func(c *xc) []Outcome {
			o := unzObj()
			c.st.write("W:rdsrc", IStr(tagOf(stringT), c.str(0)), o)
			return c.ret(o, INil)
		}, func(c *xc) []Outcome { return c.ret(Null, c.err()) })
	}, "os.Open")
	reg(func(c *xc) []Outcome { return c.ret(c.maybeErr()) }, "(*os.File).Close", "(io.ReadCloser).Close", "(io.Closer).Close", "(net.Conn).Close")

	// regexp
	reg(func(c *xc) []Outcome {
		ok := App("reok", SBool, c.str(0))
		if c.str(0).Op == "str" {
			ok = Bool(regexOK(c.str(0).S))
		}
		return c.fork(ok, func(c *xc) []Outcome { return c.ret(regexpOf(c.str(0)), INil) },
			func(c *xc) []Outcome { return c.ret(Null, c.err()) })
	}, "regexp.Compile")
	reg(func(c *xc) []Outcome {
		if c.str(0).Op != "str" || !regexOK(c.str(0).S) {
			c.safety(App("reok", SBool, c.str(0)), "regexp.MustCompile of a bad pattern")
		}
		return c.ret(regexpOf(c.str(0)))
	}, "regexp.MustCompile")
	reg(func(c *xc) []Outcome { return c.ret(App("rematch", SBool, c.a[0].t(), c.str(1))) }, "(*regexp.Regexp).MatchString")
	reg(func(c *xc) []Outcome {
		ok := App("reok", SBool, c.str(0))
		return c.ret(And(ok, App("rematch", SBool, regexpOf(c.str(0)), c.str(1))), Ite(ok, INil, c.err()))
	}, "regexp.MatchString")
	reg(func(c *xc) []Outcome {
		return c.retv(c.ex.sliceOfStrs(c.st, c.rt(0), App("refind", SList, c.a[0].t(), c.str(1))))
	}, "(*regexp.Regexp).FindStringSubmatch")
	reg(func(c *xc) []Outcome { return c.ret(App("refind0", SStr, c.a[0].t(), c.str(1))) }, "(*regexp.Regexp).FindString")

	// rand, uuid
	reg(func(c *xc) []Outcome {
		d := Fresh("dice", SReal)
		c.st.assume(Le(RealR(new(big.Rat)), d), Lt(d, RealR(big.NewRat(1, 1))))
		c.st.write("W:dice", d)
		return c.ret(d)
	}, "math/rand.Float64")
	reg(func(c *xc) []Outcome {
		c.st.write("W:seed", Add(c.st.read("W:seed"), Int(1)))
		return c.ret()
	}, "math/rand.Seed")
	reg(func(c *xc) []Outcome { return c.ret(IPtr(tagOf(extErrT), NewObj())) }, "math/rand.NewSource")
	reg(func(c *xc) []Outcome { return c.ret(unzObj()) }, "math/rand.New")
	reg(func(c *xc) []Outcome {
		n := Fresh("rnd", SInt)
		c.st.assume(Le(Int(0), n))
		return c.ret(n)
	}, "(*math/rand.Rand).Int", "math/rand.Int", "(*math/rand.Rand).Int63", "math/rand.Int63")
	reg(func(c *xc) []Outcome {
		n := Fresh("rnd", SInt)
		k := c.a[len(c.a)-1].t()
		c.safety(Lt(Int(0), k), "rand.Intn of a non-positive number")
		c.st.assume(Le(Int(0), n), Lt(n, k))
		return c.ret(n)
	}, "(*math/rand.Rand).Intn", "math/rand.Intn")
	reg(func(c *xc) []Outcome { return c.ret(Fresh("uuid", SStr)) }, "github.com/google/uuid.New")
	reg(func(c *xc) []Outcome { return c.ret(Fresh("uuid", SStr), c.maybeErr()) }, "github.com/google/uuid.NewRandom")

	// sync
	none := func(c *xc) []Outcome { return c.ret() }
	reg(none, "(*sync.Mutex).Lock", "(*sync.Mutex).Unlock", "(*sync.RWMutex).Lock", "(*sync.RWMutex).Unlock", "(*sync.RWMutex).RLock", "(*sync.RWMutex).RUnlock",
		"(*sync.WaitGroup).Done", "(*sync.WaitGroup).Add", "(*sync.WaitGroup).Wait", "runtime.GC")
	reg(func(c *xc) []Outcome { return c.ret(NewObj()) }, "golang.org/x/sync/semaphore.NewWeighted")
	reg(func(c *xc) []Outcome {
		return c.fork(Fresh("acquired", SBool), func(c *xc) []Outcome {
			c.st.write("W:sem", True, c.a[0].t())
			return c.ret(True)
		}, func(c *xc) []Outcome { return c.ret(False) })
	}, "(*golang.org/x/sync/semaphore.Weighted).TryAcquire")
	reg(func(c *xc) []Outcome {
		c.safety(c.st.read("W:sem", c.a[0].t()), "release of a semaphore that is not held")
		c.st.write("W:sem", False, c.a[0].t())
		return c.ret()
	}, "(*golang.org/x/sync/semaphore.Weighted).Release")
	reg(poolGet, "(*sync.Pool).Get")
	reg(poolPut, "(*sync.Pool).Put")
	for _, n := range []string{"sort.Sort", "sort.Stable"} {
		reg(sortIface, n)
	}
	for _, n := range []string{"sort.Slice", "sort.SliceStable"} {
		reg(sortSlice, n)
	}
	reg(func(c *xc) []Outcome {
		return c.ret(App("durafmt", SAddr, c.a[0].t()))
	}, "github.com/hako/durafmt.Parse")
	axiomFns["durafmt"] = func(a *Term) []*Term { return []*Term{Not(Eq(a, Null))} }
	axiomFns["durafmtn"] = axiomFns["durafmt"]
	reg(func(c *xc) []Outcome { return c.ret(App("durafmtn", SAddr, c.a[0].t(), c.a[1].t())) }, "(*github.com/hako/durafmt.Durafmt).LimitFirstN")
	reg(func(c *xc) []Outcome { return c.ret(App("durafmts", SStr, c.a[0].t())) }, "(*github.com/hako/durafmt.Durafmt).String")
	reg(func(c *xc) []Outcome {
		h := App("hexlower", SStr, c.bytes(0))
		return c.ret(h)
	}, "encoding/hex.EncodeToString")
}

func regexOK(p string) bool {
	_, err := regexpCompile(p)
	return err == nil
}

// dirty: the array last handed out by a buffer may be overwritten.
func dirty(st *State, buf *Term) {
	arr := st.read("W:bufarr", buf)
	if arr == Null {
		return
	}
	n := Fresh("overwritten", SStr)
	o := st.read("B", arr)
	st.assume(Eq(StrLen(n), StrLen(o)))
	st.write("B", Ite(Eq(arr, Null), o, n), arr)
}

func joinOf(l, sep *Term) *Term {
	if l.Op == "seqlit" {
		var out []*Term
		for i, x := range l.Args {
			if i > 0 {
				out = append(out, sep)
			}
			out = append(out, x)
		}
		return Concat(out...)
	}
	return App("join", SStr, l, sep)
}

// poolNew runs the pool's New: the type it makes, 0 if there is none. It reports whether New may yield nil.
func poolNew(c *xc) (int, bool) {
	pool := c.a[0].t()
	pt := deref(c.a[0].T)
	st := c.st.clone()
	newf := fieldOf(st.load(pool, pt), fieldIndex(pt, "New"))
	if newf.t().Op != "obj" {
		return 0, true
	}
	c.ex.record++
	outs := c.ex.callValue(c.fr, X{st: st, env: c.x.env}, newf.t(), nil, nil, under(newf.T).(*types.Signature), c.pos)
	c.ex.record--
	tag := 0
	mayNil := false
	for _, o := range outs {
		if o.kind != kRet || o.st.dead {
			continue
		}
		t := ITag(o.vals[0].t())
		if t.Op != "int" {
			unsupp("sync.Pool whose New has no definite type")
		}
		if tag != 0 && tag != int(t.I.Int64()) {
			unsupp("sync.Pool whose New has no definite type")
		}
		tag = int(t.I.Int64())
		if c.ex.feasible(o.st, Eq(IAddr(o.vals[0].t()), Null)) {
			mayNil = true
		}
	}
	if tag == 0 {
		unsupp("sync.Pool whose New never returns")
	}
	return tag, mayNil
}

// poolGet delivers an object New made or an earlier Put left, in whatever state.
func poolGet(c *xc) []Outcome {
	tag, mayNil := poolNew(c)
	if tag == 0 {
		return c.retv(c.fresh(0, "pooled"))
	}
	o := unzObj()
	if mayNil {
		return c.ret(IPtr(tag, Ite(Fresh("pooledNil", SBool), Null, o)))
	}
	return c.ret(IPtr(tag, o))
}

func poolPut(c *xc) []Outcome {
	i := c.a[1].t()
	if tag, mayNil := poolNew(c); tag != 0 {
		ok := Eq(ITag(i), Int(int64(tag)))
		if !mayNil {
			ok = And(ok, Not(Eq(IAddr(i), Null)))
		}
		c.ex.oblige(c.st, ok, "sync.Pool receives what its New makes", nil, c.fr, c.pos)
		c.st.assume(ok)
	}
	// whoever gets the object next may overwrite its buffer
	if a, t := ptrIn(i); a != nil && tstr(t) == "bytes.Buffer" {
		c.st.write("W:buf", Fresh("reused", SStr), a)
		dirty(c.st, a)
	}
	return c.ret()
}

func fieldIndex(t types.Type, name string) int {
	s := under(t).(*types.Struct)
	for i := 0; i < s.NumFields(); i++ {
		if s.Field(i).Name() == name {
			return i
		}
	}
	panic("no field " + name)
}

// ---- sorting

var sortCount int

func permute(c *xc, sl Val, less func(st *State, i, j *Term) *Term) {
	sortCount++
	st := c.st
	el := under(sl.T).(*types.Slice).Elem()
	arr, off, n := sl.L[0], sl.L[1], sl.L[2]
	pn := fmt.Sprintf("perm_%d", sortCount)
	symCount++
	sy, age := symCount, allocCount
	perm := func(j *Term) *Term { return AppAt(pn, SInt, age, sy, j) }
	inv := func(j *Term) *Term { return AppAt("inv"+pn, SInt, age, sy, j) }
	if ca := contentArr(el); ca == "L" || ca == "B" {
		unsupp("sort of a slice of strings")
	}
	ufSym[pn] = sy
	before := st.clone()
	symCount++
	st.mem["W:perm"] = &Upd{kind: 'l', pats: []Pat{{kind: 'a'}}, age: 1 << 40, sym: symCount, prev: st.mem["W:perm"],
		fn: func(idx []*Term) *Term { return before.read("W:perm", perm(idx[0])) }}
	j := BVarNamed("pj", SInt)
	in := func(x *Term) *Term { return And(Le(Int(0), x), Lt(x, n)) }
	st.assume(ForallPat([]*Term{j}, Implies(in(j), And(in(perm(j)), Eq(inv(perm(j)), j))), perm(j)))
	st.assume(ForallPat([]*Term{j}, Implies(in(j), And(in(inv(j)), Eq(perm(inv(j)), j))), inv(j)))
	done := map[string]bool{}
	for _, k := range elemKeys(el) {
		if done[k] {
			continue
		}
		done[k] = true
		st.remap(k, &Remap{dst: arr, lo: off, n: n, src: func(j *Term) *Term { return Elem(arr, Add(off, perm(j))) }, desc: pn})
	}
	// sorted: no later element is less than an earlier one
	fi, fj := Fresh("si", SInt), Fresh("sj", SInt)
	cl := st.clone()
	cl.assume(Le(Int(0), fi), Lt(fi, fj), Lt(fj, n))
	c.ex.record++
	l := less(cl, fj, fi)
	c.ex.record--
	if l != nil {
		bi, bj := BVarNamed("si", SInt), BVarNamed("sj", SInt)
		body := Implies(And(Le(Int(0), fi), Lt(fi, fj), Lt(fj, n)), Not(l))
		st.assume(Forall([]*Term{bi, bj}, Subst(body, map[*Term]*Term{fi: bi, fj: bj})))
	}
}

func sortIface(c *xc) []Outcome {
	x := c.a[0].t()
	tag := ITag(x)
	if tag.Op != "int" {
		unsupp("sort of a value of unknown type")
	}
	t := tagType(int(tag.I.Int64()))
	v := c.ex.unbox(c.st, x, t)
	if !isSlice(t) {
		unsupp("sort of %s", tstr(t))
	}
	c.ex.v.assumption("sort.Sort permutes by the Swap method, which exchanges two elements, into an order in which Less(j,i) is false for i<j")
	method := func(n string) *ssa.Function {
		for _, f := range []string{n} {
			sel := c.ex.v.prog.MethodSets.MethodSet(t).Lookup(c.ex.v.pkg.Pkg, f)
			if sel != nil {
				return c.ex.v.prog.MethodValue(sel)
			}
		}
		return nil
	}
	lessF := method("Less")
	if lessF == nil {
		unsupp("no Less for %s", tstr(t))
	}
	permute(c, v, func(st *State, i, j *Term) *Term {
		outs := c.ex.callFn(c.fr, X{st: st, env: c.x.env}, lessF, nil, []Val{v, VInt(i), VInt(j)}, lessF.Signature, c.pos)
		return oneBool(outs, st)
	})
	return c.ret()
}

// oneBool joins the results of a pure boolean function.
func oneBool(outs []Outcome, st *State) *Term {
	n := len(st.pc)
	r := False
	for _, o := range outs {
		if o.kind != kRet {
			continue
		}
		if len(outs) == 1 {
			return o.vals[0].t()
		}
		k := 0
		for k < n && k < len(o.st.pc) && o.st.pc[k] == st.pc[k] {
			k++
		}
		r = Or(r, And(And(o.st.pc[k:]...), o.vals[0].t()))
	}
	return r
}

func sortSlice(c *xc) []Outcome {
	x := c.a[0].t()
	tag := ITag(x)
	if tag.Op != "int" {
		unsupp("sort of a value of unknown type")
	}
	t := tagType(int(tag.I.Int64()))
	v := c.ex.unbox(c.st, x, t)
	f := c.a[1].t()
	permute(c, v, func(st *State, i, j *Term) *Term {
		outs := c.ex.callValue(c.fr, X{st: st, env: c.x.env}, f, []Val{VInt(i), VInt(j)}, nil, under(c.a[1].T).(*types.Signature), c.pos)
		return oneBool(outs, st)
	})
	return c.ret()
}
