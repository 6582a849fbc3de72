package main

import (
	"bufio"
	"context"
	"fmt"
	"io"
	"os"
	"os/exec"
	"sort"
	"strings"
	"time"
)

const prelude = `(set-option :produce-models true)
(declare-datatypes ((Addr 0)) (((null) (obj (oid Int)) (sub (sbase Addr) (sfid Int)) (elem (earr Addr) (eidx Int)))))
(declare-datatypes ((Iface 0)) (((inil) (iptr (itag Int) (iadr Addr)) (istr (stag Int) (isv String)) (iint (ntag Int) (inv Int)))))
(define-sort StrSeq () (Seq String))
(define-fun tagof ((x Iface)) Int (ite ((_ is inil) x) 0 (ite ((_ is iptr) x) (itag x) (ite ((_ is istr) x) (stag x) (ntag x)))))
(define-fun iaddr ((x Iface)) Addr (iadr x))
(define-fun sval ((x Iface)) String (isv x))
(define-fun nval ((x Iface)) Int (inv x))
`

// absPrelude: strings and string lists are uninterpreted sorts.
const absPrelude = `(declare-sort Str 0)
(declare-sort SSeq 0)
(declare-datatypes ((Addr 0)) (((null) (obj (oid Int)) (sub (sbase Addr) (sfid Int)) (elem (earr Addr) (eidx Int)))))
(declare-datatypes ((Iface 0)) (((inil) (iptr (itag Int) (iadr Addr)) (istr (stag Int) (isv Str)) (iint (ntag Int) (inv Int)))))
(define-fun tagof ((x Iface)) Int (ite ((_ is inil) x) 0 (ite ((_ is iptr) x) (itag x) (ite ((_ is istr) x) (stag x) (ntag x)))))
(define-fun iaddr ((x Iface)) Addr (iadr x))
(define-fun sval ((x Iface)) Str (isv x))
(define-fun nval ((x Iface)) Int (inv x))
(declare-fun slen (Str) Int)
(declare-fun scode (Str) Int)
(declare-const sempty Str)
(assert (= (slen sempty) 0))
(assert (= (scode sempty) 0))
`

func (e *emitter) sort(s string) string {
	if e.abs {
		switch s {
		case SStr:
			return "Str"
		case SList:
			return "SSeq"
		}
	}
	return s
}

// absOp prints a string operation as an uninterpreted function.
func (e *emitter) absOp(t *Term, as []string) string {
	if t.Op == "str.len" {
		if !t.bound {
			fmt.Fprintf(e.w, "(assert (>= (slen %s) 0))\n(assert (= (= (slen %s) 0) (= %s sempty)))\n", as[0], as[0], as[0])
			a := t.Args[0]
			if a.Op == "str.++" {
				var ls []string
				for _, x := range a.Args {
					ls = append(ls, e.ref(StrLen(x)))
				}
				fmt.Fprintf(e.w, "(assert (= (slen %s) (+ %s)))\n", as[0], strings.Join(ls, " "))
			}
		}
		return "(slen " + as[0] + ")"
	}
	n := fmt.Sprintf("%s/%d", t.Op, len(as))
	if !e.decl["f:"+n] {
		e.decl["f:"+n] = true
		var ss []string
		for _, a := range t.Args {
			ss = append(ss, e.sort(a.Sort))
		}
		fmt.Fprintf(e.w, "(declare-fun %s (%s) %s)\n", q(n), strings.Join(ss, " "), e.sort(t.Sort))
	}
	r := q(n)
	if len(as) > 0 {
		r = "(" + q(n) + " " + strings.Join(as, " ") + ")"
	}
	if !t.bound && (t.Op == "str.prefixof" || t.Op == "str.suffixof") {
		fmt.Fprintf(e.w, "(assert (=> %s (<= %s %s)))\n", r, e.ref(StrLen(t.Args[0])), e.ref(StrLen(t.Args[1])))
	}
	if !t.bound && t.Op == "str.contains" {
		fmt.Fprintf(e.w, "(assert (=> %s (<= %s %s)))\n", r, e.ref(StrLen(t.Args[1])), e.ref(StrLen(t.Args[0])))
	}
	return r
}

func smtStr(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '"' {
			b.WriteString(`""`)
		} else if c == '\\' || c < 32 || c > 126 {
			fmt.Fprintf(&b, `\u{%x}`, c)
		} else {
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func q(s string) string { return "|" + s + "|" }

// emitter prints terms, remembering what a solver process already knows.
type emitter struct {
	w       io.Writer
	defined map[*Term]string
	decl    map[string]bool
	cvc5    bool
	abs     bool // strings uninterpreted
	nlit    int
}

func (e *emitter) declare(t *Term) {
	switch t.Op {
	case "var":
		if !e.decl[t.S] {
			e.decl[t.S] = true
			fmt.Fprintf(e.w, "(declare-const %s %s)\n", q(t.S), e.sort(t.Sort))
		}
	case "app":
		if !e.decl["f:"+t.S] {
			e.decl["f:"+t.S] = true
			d := funs[t.S]
			var ss []string
			for _, a := range d.args {
				ss = append(ss, e.sort(a))
			}
			fmt.Fprintf(e.w, "(declare-fun %s (%s) %s)\n", q(t.S), strings.Join(ss, " "), e.sort(d.res))
		}
	}
}

func (e *emitter) ref(t *Term) string {
	if s, ok := e.defined[t]; ok {
		return s
	}
	// declare everything below first (definitions must be global)
	s := e.raw(t)
	if !t.bound && len(t.Args) > 0 && len(s) > 24 {
		n := fmt.Sprintf("t%d", t.id)
		fmt.Fprintf(e.w, "(define-fun %s () %s %s)\n", n, e.sort(t.Sort), s)
		s = n
	}
	if !t.bound {
		e.defined[t] = s
	}
	return s
}

func (e *emitter) raw(t *Term) string {
	switch t.Op {
	case "true", "false", "null", "inil":
		return t.Op
	case "int":
		if t.I.Sign() < 0 {
			return "(- " + strings.TrimPrefix(t.I.String(), "-") + ")"
		}
		return t.I.String()
	case "real":
		n, d := t.R.Num(), t.R.Denom()
		ns := n.String()
		if n.Sign() < 0 {
			ns = "(- " + strings.TrimPrefix(ns, "-") + ".0)"
		} else {
			ns += ".0"
		}
		return "(/ " + ns + " " + d.String() + ".0)"
	case "str":
		if e.abs {
			if t.S == "" {
				return "sempty"
			}
			e.nlit++
			n := fmt.Sprintf("lit%d", e.nlit)
			fmt.Fprintf(e.w, "(declare-const %s Str)\n(assert (= (scode %s) %d))\n(assert (= (slen %s) %d))\n", n, n, e.nlit, n, len(t.S))
			return n
		}
		return smtStr(t.S)
	case "var":
		e.declare(t)
		return q(t.S)
	case "bvar":
		return q(t.S)
	case "obj":
		return "(obj " + t.I.String() + ")"
	case "sub":
		return "(sub " + e.ref(t.Args[0]) + " " + t.I.String() + ")"
	case "app":
		e.declare(t)
		if len(t.Args) == 0 {
			return q(t.S)
		}
	}
	var as []string
	for _, a := range t.Args {
		as = append(as, e.ref(a))
	}
	if e.abs && (strings.HasPrefix(t.Op, "str.") || strings.HasPrefix(t.Op, "seq")) {
		return e.absOp(t, as)
	}
	switch t.Op {
	case "app":
		return "(" + q(t.S) + " " + strings.Join(as, " ") + ")"
	case "isnew":
		return "(and ((_ is obj) " + as[0] + ") (> (oid " + as[0] + ") " + t.I.String() + "))"
	case "seqlit":
		if len(as) == 0 {
			return "(as seq.empty (Seq String))"
		}
		var us []string
		for _, a := range as {
			us = append(us, "(seq.unit "+a+")")
		}
		if len(us) == 1 {
			return us[0]
		}
		return "(seq.++ " + strings.Join(us, " ") + ")"
	case "forall", "exists":
		var vs []string
		for _, v := range t.Vars {
			vs = append(vs, "("+q(v.S)+" "+e.sort(v.Sort)+")")
		}
		if len(as) > 1 {
			return "(" + t.Op + " (" + strings.Join(vs, " ") + ") (! " + as[0] + " :pattern (" + as[1] + ")))"
		}
		return "(" + t.Op + " (" + strings.Join(vs, " ") + ") " + as[0] + ")"
	}
	return "(" + t.Op + " " + strings.Join(as, " ") + ")"
}

// ---- persistent z3 process

type Solver struct {
	cmd       *exec.Cmd
	in        io.WriteCloser
	out       *bufio.Reader
	em        *emitter
	nq        int
	cache     map[string]string
	spent     time.Duration
	nfall     int
	by        map[string]int
	timeoutMs int
	abs       bool
	nconf     int // answers put to cvc5
	nagree    int // of which it agreed to
	tconf     time.Duration
	absS      *Solver // the same with strings uninterpreted
}

func NewSolver() *Solver {
	s := newSolver(4000, false)
	s.absS = newSolver(2000, true)
	return s
}

func newSolver(ms int, abs bool) *Solver {
	s := &Solver{cache: map[string]string{}, by: map[string]int{}, timeoutMs: ms, abs: abs}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command("z3-new", "-in", "-smt2")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = os.Stderr
	if err := s.cmd.Start(); err != nil {
		fatal("cannot start z3-new: %v", err)
	}
	s.out = bufio.NewReaderSize(o, 1<<20)
	s.em = &emitter{w: s.in, defined: map[*Term]string{}, decl: map[string]bool{}, abs: s.abs}
	if s.abs {
		io.WriteString(s.in, absPrelude)
	} else {
		io.WriteString(s.in, prelude)
	}
	fmt.Fprintf(s.in, "(set-option :timeout %d)\n", s.timeoutMs)
}

func (s *Solver) restart() {
	s.in.Close()
	s.cmd.Process.Kill()
	s.cmd.Wait()
	s.start()
}

func (s *Solver) readLine() (string, error) {
	type res struct {
		l string
		e error
	}
	ch := make(chan res, 1)
	go func() {
		for {
			l, e := s.out.ReadString('\n')
			l = strings.TrimSpace(l)
			if l == "" && e == nil {
				continue
			}
			ch <- res{l, e}
			return
		}
	}()
	select {
	case r := <-ch:
		return r.l, r.e
	case <-time.After(time.Duration(s.timeoutMs)*time.Millisecond*3 + 5*time.Second):
		return "", fmt.Errorf("timeout")
	}
}

func keyOf(as []*Term) string {
	ids := make([]int, len(as))
	for i, a := range as {
		ids[i] = a.id
	}
	sort.Ints(ids)
	return fmt.Sprint(ids)
}

// Quick tries the string-free abstraction, then the full problem for a short time.
// Only "unsat" is meaningful.
func (s *Solver) Quick(as []*Term, ms int) string {
	if s.absS.Check(as) == "unsat" {
		return "unsat"
	}
	r := s.CheckT(as, ms)
	if r == "unsat" && !s.confirm(as) {
		return "unknown"
	}
	return r
}

// confirm has cvc5 look at a set of assertions the string solver of z3 found unsatisfiable: incremental z3 is
// known to be wrong on some string problems, so an answer cvc5 contradicts with "sat" is not believed.
func (s *Solver) confirm(as []*Term) bool {
	var fl []*Term
	for _, a := range as {
		if a == False {
			return true
		}
		if a != True {
			fl = append(fl, a)
		}
	}
	k := "C" + keyOf(fl)
	if r, ok := s.cache[k]; ok {
		return r == "yes"
	}
	t0 := time.Now()
	ctx, cancel := context.WithTimeout(context.Background(), 8*time.Second)
	defer cancel()
	c := exec.CommandContext(ctx, "cvc5", "--lang=smt2", "--tlimit=5000", "-")
	c.Stdin = strings.NewReader(script(fl, true))
	o, _ := c.Output()
	l := strings.TrimSpace(strings.SplitN(string(o)+"\n", "\n", 2)[0])
	s.nconf++
	s.tconf += time.Since(t0)
	s.spent += time.Since(t0)
	if os.Getenv("GV_WHICH") != "" {
		fmt.Fprintf(os.Stderr, "CONFIRM %s %v\n", l, time.Since(t0))
	}
	s.cache[k] = "yes"
	if l == "sat" {
		s.cache[k] = "no"
		return false
	}
	if l == "unsat" {
		s.nagree++
	}
	return true
}

func (s *Solver) CheckT(as []*Term, ms int) string {
	k := ""
	if os.Getenv("GV_SLOW") != "" {
		t0 := time.Now()
		defer func() {
			if d := time.Since(t0); d > 200*time.Millisecond {
				fmt.Fprintf(os.Stderr, "SLOW %.2f last: %s\n", d.Seconds(), clip(as[len(as)-1].String(), 300))
			}
		}()
	}
	var fl []*Term
	for _, a := range as {
		if a == False {
			return "unsat"
		}
		if a != True {
			fl = append(fl, a)
		}
	}
	k = keyOf(fl)
	if r, ok := s.cache[k]; ok {
		return r
	}
	if r, ok := s.cache[fmt.Sprint(ms, k)]; ok {
		return r
	}
	old := s.timeoutMs
	if ms < old {
		s.timeoutMs = ms
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", ms)
	}
	r := s.Check(as)
	if ms < old {
		s.timeoutMs = old
		fmt.Fprintf(s.in, "(set-option :timeout %d)\n", old)
	}
	if r == "unknown" {
		delete(s.cache, k)
		s.cache[fmt.Sprint(ms, k)] = r
	}
	return r
}

// Check returns "sat", "unsat" or "unknown" for the conjunction.
func (s *Solver) Check(as []*Term) string {
	var fl []*Term
	for _, a := range as {
		if a == False {
			return "unsat"
		}
		if a != True {
			fl = append(fl, a)
		}
	}
	if len(fl) == 0 {
		return "sat"
	}
	k := keyOf(fl)
	if r, ok := s.cache[k]; ok {
		return r
	}
	t0 := time.Now()
	defer func() { s.spent += time.Since(t0) }()
	r := s.raw(fl)
	if d := time.Since(t0); d > 1500*time.Millisecond && verbose > 1 {
		fmt.Fprintf(os.Stderr, "slow query %v -> %s (%d asserts)\n", d, r, len(fl))
	}
	s.cache[k] = r
	return r
}

func (s *Solver) raw(fl []*Term) string {
	s.nq++
	if s.nq%1500 == 0 {
		s.restart()
	}
	var refs []string
	for _, a := range fl {
		refs = append(refs, s.em.ref(a))
	}
	io.WriteString(s.in, "(push)\n")
	for _, r := range refs {
		io.WriteString(s.in, "(assert "+r+")\n")
	}
	io.WriteString(s.in, "(check-sat)\n")
	l, err := s.readLine()
	if err != nil {
		s.restart()
		return "unknown"
	}
	for strings.HasPrefix(l, "(error") {
		fmt.Fprintln(os.Stderr, "z3:", l)
		smtErrors++
		l, err = s.readLine()
		if err != nil {
			s.restart()
			return "unknown"
		}
	}
	io.WriteString(s.in, "(pop)\n")
	if l == "timeout" {
		l = "unknown"
	}
	return l
}

var smtErrors int

// Model asks for values of the given terms under the assertions.
func (s *Solver) Model(as []*Term, vals []*Term) map[*Term]string {
	var refs, vr []string
	for _, a := range as {
		if a != True {
			refs = append(refs, s.em.ref(a))
		}
	}
	for _, v := range vals {
		vr = append(vr, s.em.ref(v))
	}
	io.WriteString(s.in, "(push)\n")
	for _, r := range refs {
		io.WriteString(s.in, "(assert "+r+")\n")
	}
	io.WriteString(s.in, "(check-sat)\n")
	l, err := s.readLine()
	out := map[*Term]string{}
	if err != nil {
		s.restart()
		return out
	}
	if l == "sat" || l == "unknown" {
		for i, v := range vr {
			io.WriteString(s.in, "(get-value ("+v+"))\n(echo \"<end>\")\n")
			var sb strings.Builder
			for {
				l, err := s.readLine()
				if err != nil || strings.Contains(l, "<end>") {
					break
				}
				sb.WriteString(l)
				sb.WriteByte(' ')
			}
			out[vals[i]] = strings.TrimSpace(sb.String())
		}
	}
	io.WriteString(s.in, "(pop)\n")
	return out
}

// script renders a stand-alone SMT-LIB problem.
func script(as []*Term, forCvc5 bool) string {
	var b strings.Builder
	if forCvc5 {
		b.WriteString("(set-logic ALL)\n(set-option :strings-exp true)\n")
	}
	b.WriteString(strings.Replace(prelude, "(set-option :produce-models true)\n", "", 1))
	e := &emitter{w: &b, defined: map[*Term]string{}, decl: map[string]bool{}, cvc5: forCvc5}
	for _, a := range as {
		r := e.ref(a)
		b.WriteString("(assert " + r + ")\n")
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

// Prove tries to show that the conjunction is unsatisfiable with every installed back end.
// It returns the verdict and the back end that decided.
func (s *Solver) Prove(as []*Term) (string, string) {
	quant := false
	for _, a := range as {
		quant = quant || hasQuant(a)
	}
	var gr []*Term
	rd := reduced(as)
	if quant {
		rd = reduced(instantiated(rd, 3))
	}
	if len(rd) == 1 && rd[0] == False {
		s.by["simplifier"]++
		return "unsat", "simplifier"
	}
	rd = withAxioms(rd)
	if s.absS.Check(rd) == "unsat" {
		which("abstraction of the reduced problem", rd)
		s.by["z3-5.3.2"]++
		return "unsat", "z3-5.3.2"
	}
	if f := os.Getenv("GV_RED"); f != "" {
		fmt.Fprintf(os.Stderr, "REDUCED\n")
		for _, a := range rd {
			fmt.Fprintf(os.Stderr, "   R %s\n", a)
		}
		os.WriteFile(f, []byte(script(rd, false)), 0644)
	}
	if quant && s.split(as) {
		s.by["z3-5.3.2"]++
		return "unsat", "z3-5.3.2"
	}
	if quant {
		gr = instantiated(as, 3)
		if s.absS.Check(gr) == "unsat" || s.Check(gr) == "unsat" && s.confirm(gr) {
			s.by["z3-5.3.2"]++
			return "unsat", "z3-5.3.2"
		}
	}
	if !quant && s.absS.Check(as) == "unsat" {
		which("abstraction", as)
		s.by["z3-5.3.2"]++
		return "unsat", "z3-5.3.2"
	}
	if !quant {
		if r := s.CheckT(rd, 2000); r == "sat" || r == "unsat" && s.confirm(rd) {
			s.by["z3-5.3.2"]++
			return r, "z3-5.3.2"
		}
	}
	r := s.Check(as)
	if r == "unsat" && !s.confirm(as) {
		r = "unknown"
	}
	if r == "unsat" || r == "sat" {
		which("full "+r, as)
		s.by["z3-5.3.2"]++
		return r, "z3-5.3.2"
	}
	if os.Getenv("GV_NOFALL") != "" {
		return "unknown", "z3-5.3.2"
	}
	k := "P" + keyOf(as)
	if r, ok := s.cache[k]; ok {
		return r, "fallback"
	}
	t0 := time.Now()
	defer func() { s.spent += time.Since(t0) }()
	s.nfall++
	type res struct{ r, who string }
	ch := make(chan res, 4)
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(fallbackSecs)*time.Second)
	defer cancel()
	if gr != nil {
		z := script(rd, false)
		for _, w := range [][]string{{"z3-5.3.2", "z3-new"}, {"z3-4.8.12", "z3"}} {
			c, done := context.WithTimeout(context.Background(), 10*time.Second)
			x := exec.CommandContext(c, w[1], "-in", "-smt2")
			x.Stdin = strings.NewReader(z)
			o, _ := x.Output()
			done()
			if strings.HasPrefix(string(o), "unsat") {
				s.cache[k] = "unsat"
				s.by[w[0]]++
				return "unsat", w[0]
			}
		}
	}
	run := func(who string, txt string, args ...string) {
		c := exec.CommandContext(ctx, args[0], args[1:]...)
		c.Stdin = strings.NewReader(txt)
		o, _ := c.Output()
		l := strings.TrimSpace(strings.SplitN(string(o)+"\n", "\n", 2)[0])
		ch <- res{l, who}
	}
	z := script(as, false)
	go run("z3-5.3.2", z, "z3-new", "-in", "-smt2")
	go run("z3-4.8.12", z, "z3", "-in", "-smt2")
	go run("cvc5-1.1.2", script(as, true), "cvc5", "--lang=smt2", "-")
	verdict, who := "unknown", "none"
	for i := 0; i < 3; i++ {
		x := <-ch
		if x.r == "unsat" {
			verdict, who = "unsat", x.who
			break
		}
		if x.r == "sat" && x.who != "cvc5-1.1.2" {
			verdict, who = "sat", x.who
			break
		}
	}
	s.cache[k] = verdict
	s.by[who]++
	return verdict, who
}

var fallbackSecs = 20
var verbose int

func fatal(f string, a ...interface{}) {
	panic(fatalErr(fmt.Sprintf(f, a...)))
}

type fatalErr string

// which records how a query was decided (debugging).
func which(how string, as []*Term) {
	if f := os.Getenv("GV_WHICH"); f != "" {
		nwhich++
		fmt.Fprintf(os.Stderr, "WHICH %d %s\n", nwhich, how)
		os.WriteFile(fmt.Sprintf("%s.%d", f, nwhich), []byte(script(as, false)), 0644)
		os.WriteFile(fmt.Sprintf("%s.%d.cvc5", f, nwhich), []byte(script(as, true)), 0644)
	}
}

var nwhich int
