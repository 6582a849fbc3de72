package main

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"
)

// Sorts are SMT-LIB sort names.
const (
	SBool  = "Bool"
	SInt   = "Int"
	SReal  = "Real"
	SStr   = "String"
	SAddr  = "Addr"
	SIface = "Iface"
	SList  = "StrSeq" // (Seq String)
)

// Term is a hash-consed SMT term.
type Term struct {
	Op    string // "int","str","true","false","real","var","app:<f>", or an SMT operator
	Sort  string
	Args  []*Term
	S     string   // string constant, variable or function name
	I     *big.Int // int constant
	R     *big.Rat
	Vars  []*Term // quantifier variables
	id    int
	at    bool // made by AppAt
	base  int  // the age AppAt was given
	age   int  // for Addr terms: cannot denote an object allocated after this count
	bound bool // contains a bound variable
	syms  int  // newest symbol id contained (loop variance)
}

type funDecl struct {
	name string
	args []string
	res  string
}

var (
	termTab    = map[string]*Term{}
	termCount  int
	funs       = map[string]*funDecl{}
	symCount   int // counter of fresh symbols
	allocCount int
)

func mk(t *Term) *Term {
	var b strings.Builder
	b.WriteString(t.Op)
	b.WriteByte('|')
	b.WriteString(t.Sort)
	b.WriteByte('|')
	b.WriteString(t.S)
	if t.I != nil {
		b.WriteByte('#')
		b.WriteString(t.I.String())
	}
	if t.R != nil {
		b.WriteByte('#')
		b.WriteString(t.R.String())
	}
	for _, a := range t.Args {
		b.WriteByte(',')
		b.WriteString(strconv.Itoa(a.id))
	}
	for _, a := range t.Vars {
		b.WriteByte(';')
		b.WriteString(strconv.Itoa(a.id))
	}
	k := b.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	termCount++
	t.id = termCount
	for _, a := range t.Args {
		if a.bound {
			t.bound = true
		}
		if a.syms > t.syms {
			t.syms = a.syms
		}
	}
	if t.Op == "forall" || t.Op == "exists" {
		t.bound = hasFreeBound(t)
	}
	termTab[k] = t
	return t
}

func hasFreeBound(t *Term) bool {
	set := map[*Term]bool{}
	for _, v := range t.Vars {
		set[v] = true
	}
	seen := map[*Term]bool{}
	var rec func(x *Term, set map[*Term]bool) bool
	rec = func(x *Term, set map[*Term]bool) bool {
		if !x.bound {
			return false
		}
		if x.Op == "bvar" {
			return !set[x]
		}
		if seen[x] {
			return false
		}
		seen[x] = true
		if x.Op == "forall" || x.Op == "exists" {
			s2 := map[*Term]bool{}
			for k := range set {
				s2[k] = true
			}
			for _, v := range x.Vars {
				s2[v] = true
			}
			return rec(x.Args[0], s2)
		}
		for _, a := range x.Args {
			if rec(a, set) {
				return true
			}
		}
		return false
	}
	for _, a := range t.Args {
		if rec(a, set) {
			return true
		}
	}
	return false
}

var True = mk(&Term{Op: "true", Sort: SBool})
var False = mk(&Term{Op: "false", Sort: SBool})

func Bool(b bool) *Term {
	if b {
		return True
	}
	return False
}
func Int(i int64) *Term      { return IntB(big.NewInt(i)) }
func IntB(i *big.Int) *Term  { return mk(&Term{Op: "int", Sort: SInt, I: new(big.Int).Set(i)}) }
func Str(s string) *Term     { return mk(&Term{Op: "str", Sort: SStr, S: s}) }
func RealR(r *big.Rat) *Term { return mk(&Term{Op: "real", Sort: SReal, R: new(big.Rat).Set(r)}) }

// Fresh makes a new symbol; loop variance is tracked through syms.
func Fresh(hint, sort string) *Term {
	symCount++
	t := mk(&Term{Op: "var", Sort: sort, S: fmt.Sprintf("%s!%d", sanit(hint), symCount)})
	t.syms = symCount
	t.age = allocCount
	return t
}

// Sym is a named symbol (inputs).
func Sym(name, sort string) *Term {
	return mk(&Term{Op: "var", Sort: sort, S: sanit(name)})
}

func BVar(hint, sort string) *Term {
	symCount++
	t := mk(&Term{Op: "bvar", Sort: sort, S: fmt.Sprintf("%s?%d", sanit(hint), symCount)})
	t.bound = true
	if sort != SInt && sort != SStr && sort != SBool && sort != SReal {
		t.age = 1 << 30
	}
	return t
}

func sanit(s string) string {
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '.' || c == '$' || c == '!' || c == '?' || c == '#' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
	}
	return b.String()
}

func (t *Term) isConst() bool {
	switch t.Op {
	case "true", "false", "int", "str", "real":
		return true
	}
	return false
}

// App applies an uninterpreted function.
func App(name, sort string, args ...*Term) *Term {
	name = sanit(name)
	if (name == "atoi" || name == "atoiok") && len(args) == 1 && args[0].Op == "str" {
		n, err := strconv.Atoi(args[0].S)
		if name == "atoiok" {
			return Bool(err == nil)
		}
		if err == nil {
			return Int(int64(n))
		}
	}
	if (name == "atoi" || name == "atoiok") && len(args) == 1 && args[0].Op == "ite" {
		i := args[0]
		return Ite(i.Args[0], App(name, sort, i.Args[1]), App(name, sort, i.Args[2]))
	}
	if _, ok := funs[name]; !ok {
		d := &funDecl{name: name, res: sort}
		for _, a := range args {
			d.args = append(d.args, a.Sort)
		}
		funs[name] = d
	} else {
		d := funs[name]
		if len(d.args) != len(args) {
			panic(fmt.Sprintf("arity clash for %s: %v vs %v", name, d.args, args))
		}
		for i := range args {
			if args[i].Sort != d.args[i] {
				panic(fmt.Sprintf("sort clash for %s arg %d: %s vs %s", name, i, args[i].Sort, d.args[i]))
			}
		}
	}
	t := mk(&Term{Op: "app", Sort: sort, S: name, Args: args})
	for _, a := range args {
		if t.age < a.age {
			t.age = a.age
		}
	}
	return t
}

// AppAt is App for functions introduced by a havoc: they carry age and variance of their creation.
func AppAt(name, sort string, age, sym int, args ...*Term) *Term {
	t := App(name, sort, args...)
	t.at, t.base = true, age
	if t.age < 1<<30 {
		t.age = age
	}
	if t.syms < sym {
		t.syms = sym
	}
	return t
}

func Not(a *Term) *Term {
	switch a.Op {
	case "true":
		return False
	case "false":
		return True
	case "not":
		return a.Args[0]
	}
	return mk(&Term{Op: "not", Sort: SBool, Args: []*Term{a}})
}

func And(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a.Op == "and" {
			for _, b := range a.Args {
				if !seen[b] {
					seen[b] = true
					out = append(out, b)
				}
			}
			continue
		}
		if a == True || seen[a] {
			continue
		}
		if a == False {
			return False
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if a == False || seen[Not(a)] {
			return False
		}
	}
	switch len(out) {
	case 0:
		return True
	case 1:
		return out[0]
	}
	return mk(&Term{Op: "and", Sort: SBool, Args: out})
}

func Or(as ...*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, a := range as {
		if a.Op == "or" {
			for _, b := range a.Args {
				if !seen[b] {
					seen[b] = true
					out = append(out, b)
				}
			}
			continue
		}
		if a == False || seen[a] {
			continue
		}
		if a == True {
			return True
		}
		seen[a] = true
		out = append(out, a)
	}
	for _, a := range out {
		if seen[Not(a)] {
			return True
		}
	}
	switch len(out) {
	case 0:
		return False
	case 1:
		return out[0]
	}
	return mk(&Term{Op: "or", Sort: SBool, Args: out})
}

func Implies(a, b *Term) *Term { return Or(Not(a), b) }

func Iff(a, b *Term) *Term { return Eq(a, b) }

func Ite(c, a, b *Term) *Term {
	if c == True || a == b {
		return a
	}
	if c == False {
		return b
	}
	if a.Sort != b.Sort {
		panic(fmt.Sprintf("ite sorts %s %s", a.Sort, b.Sort))
	}
	if a.Sort == SBool {
		if a == True {
			return Or(c, b)
		}
		if a == False {
			return And(Not(c), b)
		}
		if b == True {
			return Or(Not(c), a)
		}
		if b == False {
			return And(c, a)
		}
	}
	if c.Op == "not" {
		return Ite(c.Args[0], b, a)
	}
	if b.Op == "ite" && b.Args[0] == c {
		b = b.Args[2]
		if a == b {
			return a
		}
	}
	if a.Op == "ite" && a.Args[0] == c {
		a = a.Args[1]
	}
	t := mk(&Term{Op: "ite", Sort: a.Sort, Args: []*Term{c, a, b}})
	if a.Sort == SAddr || a.Sort == SIface {
		t.age = maxi(a.age, b.age)
	}
	return t
}

func maxi(a, b int) int {
	if a > b {
		return a
	}
	return b
}

// ---- addresses

var Null = mk(&Term{Op: "null", Sort: SAddr})

func Obj(n int) *Term {
	t := mk(&Term{Op: "obj", Sort: SAddr, I: big.NewInt(int64(n))})
	t.age = n
	t.syms = 0
	return t
}

// objSym remembers at which symbol count an object was allocated (loop variance)
var objSym = map[int]int{}

func NewObj() *Term {
	allocCount++
	t := Obj(allocCount)
	symCount++
	t.syms = symCount
	return t
}

func Sub(base *Term, fid int) *Term {
	t := mk(&Term{Op: "sub", Sort: SAddr, Args: []*Term{base}, I: big.NewInt(int64(fid))})
	t.age = base.age
	return t
}

func Elem(arr, i *Term) *Term {
	t := mk(&Term{Op: "elem", Sort: SAddr, Args: []*Term{arr, i}})
	t.age = arr.age
	return t
}

func rootOf(t *Term) *Term {
	for t.Op == "sub" || t.Op == "elem" {
		t = t.Args[0]
	}
	return t
}

// Eq builds equality with simplification.
func Eq(a, b *Term) *Term {
	if a == b {
		return True
	}
	if a.Sort != b.Sort {
		if a.Sort == SInt && b.Sort == SReal {
			return Eq(ToReal(a), b)
		}
		if a.Sort == SReal && b.Sort == SInt {
			return Eq(a, ToReal(b))
		}
		panic(fmt.Sprintf("eq sorts %s %s: %s / %s", a.Sort, b.Sort, a, b))
	}
	if a.isConst() && b.isConst() {
		return False
	}
	switch a.Sort {
	case SBool:
		if a == True {
			return b
		}
		if b == True {
			return a
		}
		if a == False {
			return Not(b)
		}
		if b == False {
			return Not(a)
		}
		if Not(a) == b {
			return False
		}
	case SAddr:
		if r, ok := addrEq(a, b); ok {
			return r
		}
	case SIface:
		if r := ifaceEq(a, b); r != nil {
			return r
		}
	case SInt:
		// cancel constants: x+c1 = c2, x+c1 = x+c2
		xa, ca := splitConst(a)
		xb, cb := splitConst(b)
		if xa == xb {
			return Bool(ca.Cmp(cb) == 0)
		}
		if xa == nil && xb != nil && cb.Sign() != 0 {
			return Eq(IntB(new(big.Int).Sub(ca, cb)), xb)
		}
		if xb == nil && xa != nil && ca.Sign() != 0 {
			return Eq(xa, IntB(new(big.Int).Sub(cb, ca)))
		}
		if xa == nil && a.Sort == SInt {
			if b.Op == "str.len" && ca.Sign() == 0 {
				return Eq(b.Args[0], Str(""))
			}
		}
		if xb == nil {
			if a.Op == "str.len" && cb.Sign() == 0 {
				return Eq(a.Args[0], Str(""))
			}
		}
	case SStr:
		if r := strEq(a, b); r != nil {
			return r
		}
	case SList:
		if a.Op == "seqlit" && b.Op == "seqlit" {
			if len(a.Args) != len(b.Args) {
				return False
			}
			r := True
			for i := range a.Args {
				r = And(r, Eq(a.Args[i], b.Args[i]))
			}
			return r
		}
	}
	// push into ite when one side decides
	if a.Op == "ite" && (b.isConst() || b.Op == "null" || b.Op == "inil") {
		l, r := Eq(a.Args[1], b), Eq(a.Args[2], b)
		if l.isConst() || r.isConst() {
			return Ite(a.Args[0], l, r)
		}
	}
	if b.Op == "ite" && (a.isConst() || a.Op == "null" || a.Op == "inil") {
		return Eq(b, a)
	}
	if a.id > b.id {
		a, b = b, a
	}
	return mk(&Term{Op: "=", Sort: SBool, Args: []*Term{a, b}})
}

func strEq(a, b *Term) *Term {
	if a.Op == "str" && b.Op == "str.++" {
		a, b = b, a
	}
	if a.Op == "str.++" && b.Op == "str" {
		f := a.Args[0]
		if f.Op == "str" {
			if !strings.HasPrefix(b.S, f.S) {
				return False
			}
			return Eq(Concat(a.Args[1:]...), Str(b.S[len(f.S):]))
		}
		l := a.Args[len(a.Args)-1]
		if l.Op == "str" {
			if !strings.HasSuffix(b.S, l.S) {
				return False
			}
			return Eq(Concat(a.Args[:len(a.Args)-1]...), Str(b.S[:len(b.S)-len(l.S)]))
		}
	}
	if a.Op == "str.++" && b.Op == "str.++" {
		if a.Args[0] == b.Args[0] {
			return Eq(Concat(a.Args[1:]...), Concat(b.Args[1:]...))
		}
		if a.Args[len(a.Args)-1] == b.Args[len(b.Args)-1] {
			return Eq(Concat(a.Args[:len(a.Args)-1]...), Concat(b.Args[:len(b.Args)-1]...))
		}
	}
	if b.Op == "str.++" && len(b.Args) > 0 && b.Args[0] == a {
		return Eq(Concat(b.Args[1:]...), Str(""))
	}
	if a.Op == "str.++" && a.Args[0] == b {
		return Eq(Concat(a.Args[1:]...), Str(""))
	}
	return nil
}

// privObj are the cells of package variables whose address is never used as a value,
// so that no pointer found in memory or handed in can point to them.
var privObj = map[int]bool{}

func addrEq(a, b *Term) (*Term, bool) {
	if a.Op == "ite" && (b.Op == "null" || b.Op == "obj") {
		return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b)), true
	}
	if b.Op == "ite" && (a.Op == "null" || a.Op == "obj") {
		return Ite(b.Args[0], Eq(a, b.Args[1]), Eq(a, b.Args[2])), true
	}
	for k := 0; k < 2; k++ {
		if a.Op == "ite" && b.Op != "ite" {
			_, k1 := addrEq(a.Args[1], b)
			_, k2 := addrEq(a.Args[2], b)
			if k1 || k2 {
				return Ite(a.Args[0], Eq(a.Args[1], b), Eq(a.Args[2], b)), true
			}
		}
		a, b = b, a
	}
	con := func(t *Term) bool { return t.Op == "null" || t.Op == "obj" || t.Op == "sub" || t.Op == "elem" }
	if con(a) && con(b) {
		if a.Op != b.Op {
			return False, true
		}
		switch a.Op {
		case "obj":
			return Bool(a.I.Cmp(b.I) == 0), true
		case "sub":
			if a.I.Cmp(b.I) != 0 {
				return False, true
			}
			return Eq(a.Args[0], b.Args[0]), true
		case "elem":
			e := Eq(a.Args[0], b.Args[0])
			if e == False {
				return False, true
			}
			return And(e, Eq(a.Args[1], b.Args[1])), true
		}
	}
	ra, rb := rootOf(a), rootOf(b)
	if ra.Op == "obj" && b.age < int(ra.I.Int64()) {
		return False, true
	}
	if rb.Op == "obj" && a.age < int(rb.I.Int64()) {
		return False, true
	}
	if rb.Op == "obj" && privObj[int(rb.I.Int64())] && a.age < 1<<30 && ra.Op != "ite" {
		return False, true
	}
	if ra.Op == "obj" && privObj[int(ra.I.Int64())] && b.age < 1<<30 && rb.Op != "ite" {
		return False, true
	}
	return nil, false
}

// ---- interfaces

var INil = mk(&Term{Op: "inil", Sort: SIface})

func IPtr(tag int, a *Term) *Term {
	t := mk(&Term{Op: "iptr", Sort: SIface, Args: []*Term{Int(int64(tag)), a}})
	t.age = a.age
	return t
}
func IStr(tag int, a *Term) *Term {
	return mk(&Term{Op: "istr", Sort: SIface, Args: []*Term{Int(int64(tag)), a}})
}
func IInt(tag int, a *Term) *Term {
	return mk(&Term{Op: "iint", Sort: SIface, Args: []*Term{Int(int64(tag)), a}})
}

func ifaceEq(a, b *Term) *Term {
	con := func(t *Term) bool { return t.Op == "inil" || t.Op == "iptr" || t.Op == "istr" || t.Op == "iint" }
	if con(a) && con(b) {
		if a.Op != b.Op {
			return False
		}
		if a.Op == "inil" {
			return True
		}
		return And(Eq(a.Args[0], b.Args[0]), Eq(a.Args[1], b.Args[1]))
	}
	return nil
}

func ITag(t *Term) *Term {
	switch t.Op {
	case "inil":
		return Int(0)
	case "iptr", "istr", "iint":
		return t.Args[0]
	case "ite":
		return Ite(t.Args[0], ITag(t.Args[1]), ITag(t.Args[2]))
	}
	return mk(&Term{Op: "tagof", Sort: SInt, Args: []*Term{t}})
}
// IsNew tells whether an object was allocated after the given number.
func IsNew(t *Term, age int64) *Term {
	switch t.Op {
	case "obj":
		return Bool(t.I.Int64() > age)
	case "null", "sub", "elem":
		return False
	case "ite":
		return Ite(t.Args[0], IsNew(t.Args[1], age), IsNew(t.Args[2], age))
	}
	return mk(&Term{Op: "isnew", Sort: SBool, I: big.NewInt(age), Args: []*Term{t}})
}
func IAddr(t *Term) *Term {
	switch t.Op {
	case "iptr":
		return t.Args[1]
	case "ite":
		return Ite(t.Args[0], IAddr(t.Args[1]), IAddr(t.Args[2]))
	}
	r := mk(&Term{Op: "iaddr", Sort: SAddr, Args: []*Term{t}})
	if r.age == 0 {
		r.age = t.age
	}
	return r
}
func IStrVal(t *Term) *Term {
	if t.Op == "istr" {
		return t.Args[1]
	}
	if t.Op == "ite" {
		return Ite(t.Args[0], IStrVal(t.Args[1]), IStrVal(t.Args[2]))
	}
	return mk(&Term{Op: "sval", Sort: SStr, Args: []*Term{t}})
}
func IIntVal(t *Term) *Term {
	if t.Op == "iint" {
		return t.Args[1]
	}
	if t.Op == "ite" {
		return Ite(t.Args[0], IIntVal(t.Args[1]), IIntVal(t.Args[2]))
	}
	return mk(&Term{Op: "nval", Sort: SInt, Args: []*Term{t}})
}

// ---- arithmetic

// splitConst splits an int term into (non-constant part or nil, constant)
func splitConst(t *Term) (*Term, *big.Int) {
	if t.Op == "int" {
		return nil, t.I
	}
	if t.Op == "+" && t.Args[len(t.Args)-1].Op == "int" {
		c := t.Args[len(t.Args)-1].I
		if len(t.Args) == 2 {
			return t.Args[0], c
		}
		return mk(&Term{Op: "+", Sort: SInt, Args: t.Args[:len(t.Args)-1]}), c
	}
	return t, big.NewInt(0)
}

func Add(as ...*Term) *Term {
	if len(as) > 0 && (as[0].Sort == SReal || as[len(as)-1].Sort == SReal) {
		return addReal(as...)
	}
	coef := map[*Term]*big.Int{}
	var order []*Term
	c := big.NewInt(0)
	var add func(t *Term, k *big.Int)
	add = func(t *Term, k *big.Int) {
		switch {
		case t.Op == "int":
			c.Add(c, new(big.Int).Mul(k, t.I))
		case t.Op == "+":
			for _, x := range t.Args {
				add(x, k)
			}
		case t.Op == "*" && t.Args[0].Op == "int":
			add(t.Args[1], new(big.Int).Mul(k, t.Args[0].I))
		default:
			if coef[t] == nil {
				coef[t] = big.NewInt(0)
				order = append(order, t)
			}
			coef[t].Add(coef[t], k)
		}
	}
	for _, a := range as {
		add(a, big.NewInt(1))
	}
	sort.SliceStable(order, func(i, j int) bool { return order[i].id < order[j].id })
	var out []*Term
	for _, t := range order {
		k := coef[t]
		if k.Sign() == 0 {
			continue
		}
		if k.Cmp(big.NewInt(1)) == 0 {
			out = append(out, t)
		} else {
			out = append(out, mk(&Term{Op: "*", Sort: SInt, Args: []*Term{IntB(k), t}}))
		}
	}
	if len(out) == 0 {
		return IntB(c)
	}
	if c.Sign() != 0 {
		out = append(out, IntB(c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(&Term{Op: "+", Sort: SInt, Args: out})
}

func addReal(as ...*Term) *Term {
	c := new(big.Rat)
	var out []*Term
	for _, a := range as {
		if a.Sort == SInt {
			a = ToReal(a)
		}
		if a.Op == "real" {
			c.Add(c, a.R)
		} else {
			out = append(out, a)
		}
	}
	if c.Sign() != 0 || len(out) == 0 {
		out = append(out, RealR(c))
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk(&Term{Op: "+", Sort: SReal, Args: out})
}

func Neg(a *Term) *Term {
	if a.Sort == SReal {
		return Mul(RealR(big.NewRat(-1, 1)), a)
	}
	return Mul(Int(-1), a)
}
func Minus(a, b *Term) *Term { return Add(a, Neg(b)) }

func Mul(a, b *Term) *Term {
	if a.Sort == SReal || b.Sort == SReal {
		if a.Sort == SInt {
			a = ToReal(a)
		}
		if b.Sort == SInt {
			b = ToReal(b)
		}
		if a.Op == "real" && b.Op == "real" {
			return RealR(new(big.Rat).Mul(a.R, b.R))
		}
		if b.Op == "real" {
			a, b = b, a
		}
		if a.Op == "real" && a.R.Sign() == 0 {
			return a
		}
		if a.Op == "real" && a.R.Cmp(big.NewRat(1, 1)) == 0 {
			return b
		}
		return mk(&Term{Op: "*", Sort: SReal, Args: []*Term{a, b}})
	}
	if a.Op == "int" && b.Op == "int" {
		return IntB(new(big.Int).Mul(a.I, b.I))
	}
	if b.Op == "int" {
		a, b = b, a
	}
	if a.Op == "int" {
		if a.I.Sign() == 0 {
			return a
		}
		if a.I.Cmp(big.NewInt(1)) == 0 {
			return b
		}
		if b.Op == "+" {
			var out []*Term
			for _, x := range b.Args {
				out = append(out, Mul(a, x))
			}
			return Add(out...)
		}
		if b.Op == "*" && b.Args[0].Op == "int" {
			return Mul(IntB(new(big.Int).Mul(a.I, b.Args[0].I)), b.Args[1])
		}
	}
	return mk(&Term{Op: "*", Sort: SInt, Args: []*Term{a, b}})
}

// Div and Mod are Euclidean; the executor guards Go's truncated semantics.
func Div(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.I.Sign() != 0 {
		return IntB(new(big.Int).Div(a.I, b.I))
	}
	return mk(&Term{Op: "div", Sort: SInt, Args: []*Term{a, b}})
}
func Mod(a, b *Term) *Term {
	if a.Op == "int" && b.Op == "int" && b.I.Sign() != 0 {
		return IntB(new(big.Int).Mod(a.I, b.I))
	}
	return mk(&Term{Op: "mod", Sort: SInt, Args: []*Term{a, b}})
}
func RDiv(a, b *Term) *Term {
	if a.Sort == SInt {
		a = ToReal(a)
	}
	if b.Sort == SInt {
		b = ToReal(b)
	}
	if a.Op == "real" && b.Op == "real" && b.R.Sign() != 0 {
		return RealR(new(big.Rat).Quo(a.R, b.R))
	}
	if b.Op == "real" && b.R.Sign() != 0 {
		return Mul(RealR(new(big.Rat).Inv(b.R)), a)
	}
	return mk(&Term{Op: "/", Sort: SReal, Args: []*Term{a, b}})
}
func ToReal(a *Term) *Term {
	if a.Sort == SReal {
		return a
	}
	if a.Op == "int" {
		return RealR(new(big.Rat).SetInt(a.I))
	}
	return mk(&Term{Op: "to_real", Sort: SReal, Args: []*Term{a}})
}

// Trunc converts a real to int rounding toward zero.
func Trunc(a *Term) *Term {
	if a.Op == "to_real" {
		return a.Args[0]
	}
	if a.Op == "real" {
		q := new(big.Int).Quo(a.R.Num(), a.R.Denom())
		return IntB(q)
	}
	fl := mk(&Term{Op: "to_int", Sort: SInt, Args: []*Term{a}})
	nfl := mk(&Term{Op: "to_int", Sort: SInt, Args: []*Term{Neg(a)}})
	return Ite(Le(RealR(new(big.Rat)), a), fl, Neg(nfl))
}

func cmpReal(a, b *Term) (*Term, *Term) {
	if a.Sort != b.Sort {
		return ToReal(a), ToReal(b)
	}
	return a, b
}

func Lt(a, b *Term) *Term {
	a, b = cmpReal(a, b)
	if a == b {
		return False
	}
	if a.Sort == SInt {
		xa, ca := splitConst(a)
		xb, cb := splitConst(b)
		if xa == xb {
			return Bool(ca.Cmp(cb) < 0)
		}
		if xa == nil && nonneg(xb) && new(big.Int).Sub(ca, cb).Sign() < 0 {
			return True
		}
		if xb == nil && nonneg(xa) && new(big.Int).Sub(cb, ca).Sign() <= 0 {
			return False
		}
	}
	if a.Op == "real" && b.Op == "real" {
		return Bool(a.R.Cmp(b.R) < 0)
	}
	if a.Sort == SStr {
		return mk(&Term{Op: "str.<", Sort: SBool, Args: []*Term{a, b}})
	}
	return mk(&Term{Op: "<", Sort: SBool, Args: []*Term{a, b}})
}

func nonneg(t *Term) bool {
	return t != nil && (t.Op == "str.len" || t.Op == "seq.len")
}

func Le(a, b *Term) *Term { return Not(Lt(b, a)) }
func Gt(a, b *Term) *Term { return Lt(b, a) }
func Ge(a, b *Term) *Term { return Le(b, a) }

// ---- strings

func StrLen(a *Term) *Term {
	if a.Op == "str" {
		return Int(int64(len(a.S)))
	}
	if a.Op == "str.++" {
		var xs []*Term
		for _, x := range a.Args {
			xs = append(xs, StrLen(x))
		}
		return Add(xs...)
	}
	if a.Op == "ite" {
		l, r := StrLen(a.Args[1]), StrLen(a.Args[2])
		if l.Op == "int" || r.Op == "int" {
			return Ite(a.Args[0], l, r)
		}
	}
	return mk(&Term{Op: "str.len", Sort: SInt, Args: []*Term{a}})
}

func Concat(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		parts := []*Term{a}
		if a.Op == "str.++" {
			parts = a.Args
		}
		for _, p := range parts {
			if p.Op == "str" && p.S == "" {
				continue
			}
			if p.Op == "str" && len(out) > 0 && out[len(out)-1].Op == "str" {
				out[len(out)-1] = Str(out[len(out)-1].S + p.S)
				continue
			}
			out = append(out, p)
		}
	}
	switch len(out) {
	case 0:
		return Str("")
	case 1:
		return out[0]
	}
	return mk(&Term{Op: "str.++", Sort: SStr, Args: out})
}

func Substr(s, off, n *Term) *Term {
	if off.Op == "int" && off.I.Sign() == 0 {
		if StrLen(s) == n {
			return s
		}
		// substr(a ++ b, 0, len a) = a ; also prefixes
		if s.Op == "str.++" {
			acc := Int(0)
			for i, p := range s.Args {
				acc = Add(acc, StrLen(p))
				if acc == n {
					return Concat(s.Args[:i+1]...)
				}
			}
		}
	}
	if s.Op == "str" && off.Op == "int" && n.Op == "int" {
		o, l := off.I.Int64(), n.I.Int64()
		if o >= 0 && l >= 0 && o+l <= int64(len(s.S)) {
			return Str(s.S[o : o+l])
		}
	}
	if s.Op == "str.++" && off.Op == "int" && s.Args[0].Op == "str" && off.I.Int64() >= int64(len(s.Args[0].S)) && off.I.Sign() > 0 {
		l0 := int64(len(s.Args[0].S))
		return Substr(Concat(s.Args[1:]...), Int(off.I.Int64()-l0), n)
	}
	if s.Op == "str.++" && off == StrLen(s.Args[0]) {
		return Substr(Concat(s.Args[1:]...), Int(0), n)
	}
	return mk(&Term{Op: "str.substr", Sort: SStr, Args: []*Term{s, off, n}})
}

func PrefixOf(p, s *Term) *Term {
	if p.Op == "str" && s.Op == "str" {
		return Bool(strings.HasPrefix(s.S, p.S))
	}
	if p.Op == "str" && p.S == "" || p == s {
		return True
	}
	if s.Op == "str.++" {
		f := s.Args[0]
		if f == p {
			return True
		}
		if p.Op == "str" && f.Op == "str" {
			if len(f.S) >= len(p.S) {
				return Bool(strings.HasPrefix(f.S, p.S))
			}
			if !strings.HasPrefix(p.S, f.S) {
				return False
			}
			return PrefixOf(Str(p.S[len(f.S):]), Concat(s.Args[1:]...))
		}
		if p.Op == "str.++" && p.Args[0] == f {
			return PrefixOf(Concat(p.Args[1:]...), Concat(s.Args[1:]...))
		}
	}
	return mk(&Term{Op: "str.prefixof", Sort: SBool, Args: []*Term{p, s}})
}
func SuffixOf(p, s *Term) *Term {
	if p.Op == "str" && s.Op == "str" {
		return Bool(strings.HasSuffix(s.S, p.S))
	}
	return mk(&Term{Op: "str.suffixof", Sort: SBool, Args: []*Term{p, s}})
}
func Contains(s, p *Term) *Term {
	if p.Op == "str" && s.Op == "str" {
		return Bool(strings.Contains(s.S, p.S))
	}
	return mk(&Term{Op: "str.contains", Sort: SBool, Args: []*Term{s, p}})
}
func IndexOf(s, p *Term) *Term {
	if p.Op == "str" && s.Op == "str" {
		return Int(int64(strings.Index(s.S, p.S)))
	}
	return mk(&Term{Op: "str.indexof", Sort: SInt, Args: []*Term{s, p, Int(0)}})
}
func Replace1(s, a, b *Term) *Term {
	if s.Op == "str" && a.Op == "str" && b.Op == "str" {
		return Str(strings.Replace(s.S, a.S, b.S, 1))
	}
	return App("replace1", SStr, s, a, b)
}
func CharAt(s, i *Term) *Term { // byte value
	if s.Op == "str" && i.Op == "int" && i.I.Sign() >= 0 && i.I.Int64() < int64(len(s.S)) {
		return Int(int64(s.S[i.I.Int64()]))
	}
	return mk(&Term{Op: "str.to_code", Sort: SInt, Args: []*Term{mk(&Term{Op: "str.at", Sort: SStr, Args: []*Term{s, i}})}})
}
func FromCode(c *Term) *Term {
	if c.Op == "int" && c.I.Sign() >= 0 && c.I.Int64() < 256 {
		return Str(string([]byte{byte(c.I.Int64())}))
	}
	return mk(&Term{Op: "str.from_code", Sort: SStr, Args: []*Term{c}})
}

// ---- lists of strings

func SeqLit(xs ...*Term) *Term { return mk(&Term{Op: "seqlit", Sort: SList, Args: xs}) }
func SeqLen(a *Term) *Term {
	switch a.Op {
	case "seqlit":
		return Int(int64(len(a.Args)))
	case "seq.++":
		var xs []*Term
		for _, x := range a.Args {
			xs = append(xs, SeqLen(x))
		}
		return Add(xs...)
	case "ite":
		l, r := SeqLen(a.Args[1]), SeqLen(a.Args[2])
		if l.Op == "int" || r.Op == "int" {
			return Ite(a.Args[0], l, r)
		}
	}
	return mk(&Term{Op: "seq.len", Sort: SInt, Args: []*Term{a}})
}
func SeqNth(a, i *Term) *Term {
	if a.Op == "seqlit" && i.Op == "int" && i.I.Sign() >= 0 && i.I.Int64() < int64(len(a.Args)) {
		return a.Args[i.I.Int64()]
	}
	return mk(&Term{Op: "seq.nth", Sort: SStr, Args: []*Term{a, i}})
}
func SeqConcat(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		parts := []*Term{a}
		if a.Op == "seq.++" {
			parts = a.Args
		}
		for _, p := range parts {
			if p.Op == "seqlit" && len(p.Args) == 0 {
				continue
			}
			if p.Op == "seqlit" && len(out) > 0 && out[len(out)-1].Op == "seqlit" {
				out[len(out)-1] = SeqLit(append(append([]*Term{}, out[len(out)-1].Args...), p.Args...)...)
				continue
			}
			out = append(out, p)
		}
	}
	switch len(out) {
	case 0:
		return SeqLit()
	case 1:
		return out[0]
	}
	return mk(&Term{Op: "seq.++", Sort: SList, Args: out})
}
func SeqExtract(a, off, n *Term) *Term {
	if off.Op == "int" && off.I.Sign() == 0 && SeqLen(a) == n {
		return a
	}
	if n.Op == "int" && n.I.Sign() == 0 {
		return SeqLit()
	}
	if a.Op == "seqlit" && off.Op == "int" && n.Op == "int" {
		o, l := off.I.Int64(), n.I.Int64()
		if o >= 0 && l >= 0 && o+l <= int64(len(a.Args)) {
			return SeqLit(a.Args[o : o+l]...)
		}
	}
	return mk(&Term{Op: "seq.extract", Sort: SList, Args: []*Term{a, off, n}})
}

// ---- quantifiers

func Forall(vars []*Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	if len(vars) == 0 {
		return body
	}
	return mk(&Term{Op: "forall", Sort: SBool, Vars: vars, Args: []*Term{body}})
}
func Exists(vars []*Term, body *Term) *Term {
	if body == True || body == False {
		return body
	}
	if len(vars) == 0 {
		return body
	}
	return mk(&Term{Op: "exists", Sort: SBool, Vars: vars, Args: []*Term{body}})
}

// Subst replaces subterms (used to instantiate bound variables).
func Subst(t *Term, m map[*Term]*Term) *Term {
	memo := map[*Term]*Term{}
	var rec func(x *Term) *Term
	rec = func(x *Term) *Term {
		if r, ok := m[x]; ok {
			return r
		}
		if len(x.Args) == 0 {
			return x
		}
		if r, ok := memo[x]; ok {
			return r
		}
		args := make([]*Term, len(x.Args))
		ch := false
		for i, a := range x.Args {
			args[i] = rec(a)
			ch = ch || args[i] != a
		}
		r := x
		if ch {
			r = rebuild(x, args)
		}
		memo[x] = r
		return r
	}
	return rec(t)
}

func rebuild(x *Term, a []*Term) *Term {
	switch x.Op {
	case "and":
		return And(a...)
	case "or":
		return Or(a...)
	case "not":
		return Not(a[0])
	case "=":
		return Eq(a[0], a[1])
	case "ite":
		return Ite(a[0], a[1], a[2])
	case "+":
		return Add(a...)
	case "*":
		return Mul(a[0], a[1])
	case "<":
		return Lt(a[0], a[1])
	case "sub":
		return Sub(a[0], int(x.I.Int64()))
	case "elem":
		return Elem(a[0], a[1])
	case "str.++":
		return Concat(a...)
	case "str.len":
		return StrLen(a[0])
	case "str.prefixof":
		return PrefixOf(a[0], a[1])
	case "str.suffixof":
		return SuffixOf(a[0], a[1])
	case "str.contains":
		return Contains(a[0], a[1])
	case "str.substr":
		return Substr(a[0], a[1], a[2])
	case "app":
		if len(a) == 1 && a[0].Op == "str" {
			if x.S == "canon" {
				return canonOf(a[0])
			}
			if ufConst[x.S] != nil {
				return strFn(x.S, a[0])
			}
		}
	case "seq.nth":
		return SeqNth(a[0], a[1])
	case "seq.len":
		return SeqLen(a[0])
	case "seq.extract":
		return SeqExtract(a[0], a[1], a[2])
	case "seq.++":
		return SeqConcat(a...)
	case "tagof":
		return ITag(a[0])
	case "isnew":
		return IsNew(a[0], x.I.Int64())
	case "iaddr":
		return IAddr(a[0])
	case "sval":
		return IStrVal(a[0])
	case "forall":
		if len(a) > 1 {
			return ForallPat(x.Vars, a[0], a[1])
		}
		return Forall(x.Vars, a[0])
	case "exists":
		return Exists(x.Vars, a[0])
	}
	n := &Term{Op: x.Op, Sort: x.Sort, S: x.S, I: x.I, R: x.R, Args: a, Vars: x.Vars}
	r := mk(n)
	if x.age < 1<<30 {
		if r.age < x.age {
			r.age = x.age
		}
	} else {
		m := x.base
		for _, y := range a {
			if !x.at && y.age > m || y.age == 1<<30 {
				m = y.age
			}
		}
		if m > r.age {
			r.age = m
		}
		if x.at {
			r.at, r.base = true, x.base
		}
	}
	if r.syms < x.syms {
		r.syms = x.syms
	}
	return r
}

func (t *Term) String() string { return t.str(0) }
func (t *Term) str(d int) string {
	if d > 12 {
		return "..."
	}
	switch t.Op {
	case "int":
		return t.I.String()
	case "real":
		return t.R.RatString()
	case "str":
		return strconv.Quote(t.S)
	case "var", "bvar":
		return t.S
	case "obj":
		return "obj" + t.I.String()
	case "sub":
		return t.Args[0].str(d+1) + "." + fieldName(int(t.I.Int64()))
	case "elem":
		return t.Args[0].str(d+1) + "[" + t.Args[1].str(d+1) + "]"
	}
	if len(t.Args) == 0 && t.Op != "app" {
		return t.Op
	}
	var b strings.Builder
	b.WriteString("(")
	if t.Op == "app" {
		b.WriteString(t.S)
	} else {
		b.WriteString(t.Op)
	}
	for _, v := range t.Vars {
		b.WriteString(" " + v.S + ":")
	}
	for _, a := range t.Args {
		b.WriteString(" ")
		b.WriteString(a.str(d + 1))
	}
	b.WriteString(")")
	return b.String()
}

func sortedKeys[V any](m map[string]V) []string {
	var ks []string
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
