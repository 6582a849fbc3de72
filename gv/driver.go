package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// Result is what one worker (one function against its contract) reports.
type Result struct {
	Contract    string
	Obligations []*Obligation
	Problems    []string
	Assumptions []string
	Functions   []string // functions whose bodies were executed
	Externs     []string
	ByContract  []string // callees used by contract
	SolverS     float64
	Queries     int
	By          map[string]int
	WallS       float64
}

func (v *Verifier) result(name string, t0 time.Time) *Result {
	v.sol.by["second opinion of cvc5-1.1.2: agreed"] = v.sol.nagree
	v.sol.by["second opinion of cvc5-1.1.2: no answer in 5 s"] = v.sol.nconf - v.sol.nagree
	r := &Result{Contract: name, Problems: v.problems, SolverS: (v.sol.spent + v.sol.absS.spent).Seconds(), Queries: v.sol.nq + v.sol.absS.nq, By: v.sol.by, WallS: time.Since(t0).Seconds()}
	for _, k := range v.oblOrder {
		r.Obligations = append(r.Obligations, v.obls[k])
	}
	r.Assumptions = sortedKeys(v.assume)
	r.Functions = sortedKeys(v.funcsSeen)
	r.Externs = sortedKeys(v.externSeen)
	r.ByContract = sortedKeys(v.usedContracts)
	return r
}

type checkOpts struct {
	repo, verif, prop, tier string
	seed                    int
}

// anchorsOf lists the contracts a property depends on.
func (v *Verifier) anchorsOf(prop string) []string {
	var out []string
	for _, n := range sortedKeys(v.contracts) {
		if hasTag(v.contracts[n].props, prop) {
			out = append(out, n)
		}
	}
	return out
}

func runCheck(o checkOpts) int {
	t0 := time.Now()
	self, _ := os.Executable()
	evdir := filepath.Join(o.verif, "evidence")
	os.MkdirAll(filepath.Join(evdir, "replay"), 0755)
	replay := filepath.Join(evdir, "replay", o.prop+".txt")
	os.Remove(replay)
	var alarms []string
	var results []*Result
	// the contracts are parsed without the program
	pv := &Verifier{contracts: map[string]*Contract{}, defs: map[string]*specDef{}}
	if err := pv.loadContracts(filepath.Join(o.verif, "contracts")); err != nil {
		fmt.Fprintln(os.Stderr, err)
		return 2
	}
	anchors := pv.anchorsOf(o.prop)
	limit := 700 * time.Second
	if o.tier == "thorough" {
		limit = 3000 * time.Second
	}
	if s := os.Getenv("GV_LIMIT"); s != "" {
		n, _ := strconv.Atoi(s)
		limit = time.Duration(n) * time.Second
	}
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()

	// the bounded replay runs beside the proofs
	type rep struct {
		fails []string
		cases int
		kinds map[string]int
		out   string
		err   string
		secs  float64
	}
	repCh := make(chan rep, 1)
	go func() {
		var r rep
		r.fails, r.cases, r.kinds, r.out, r.err, r.secs = runReplay(ctx, o)
		repCh <- r
	}()

	sem := make(chan bool, 7)
	var mu sync.Mutex
	var wg sync.WaitGroup
	for _, a := range anchors {
		a := a
		wg.Add(1)
		go func() {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			args := []string{"-repo", o.repo, "-contracts", filepath.Join(o.verif, "contracts"), "-prop", o.prop, "-only", a, "-json", "-tier", o.tier}
			c := exec.CommandContext(ctx, self, args...)
			var ob, eb bytes.Buffer
			c.Stdout, c.Stderr = &ob, &eb
			err := c.Run()
			r := &Result{Contract: a}
			if i := strings.Index(ob.String(), "\n{"); i >= 0 || strings.HasPrefix(ob.String(), "{") {
				json.Unmarshal(ob.Bytes()[i+1:], r)
			}
			if ctx.Err() != nil {
				r.Problems = append(r.Problems, a+": the proof did not finish in time")
			} else if err != nil {
				r.Problems = append(r.Problems, fmt.Sprintf("%s: verifier stopped: %v %s", a, err, clip(eb.String(), 1500)))
			}
			mu.Lock()
			results = append(results, r)
			mu.Unlock()
		}()
	}
	wg.Wait()
	rp := <-repCh
	sort.Slice(results, func(i, j int) bool { return results[i].Contract < results[j].Contract })

	known, fixed := loadKnown(filepath.Join(o.verif, "known-findings.txt"), o.prop)
	_ = fixed
	total, done := 0, 0
	by := map[string]int{}
	assume := map[string]bool{}
	fns := map[string]bool{}
	exts := map[string]bool{}
	used := map[string]bool{}
	solver := 0.0
	queries := 0
	var names []string
	seenKnown := map[string]bool{}
	for _, r := range results {
		solver += r.SolverS
		queries += r.Queries
		for _, x := range r.Assumptions {
			assume[x] = true
		}
		for _, x := range r.Functions {
			fns[x] = true
		}
		for _, x := range r.Externs {
			exts[x] = true
		}
		for _, x := range r.ByContract {
			used[x] = true
		}
		for _, ob := range r.Obligations {
			total++
			if ob.Verdict == "proved" {
				done++
				names = append(names, ob.Func+": "+clip(ob.Name, 100))
				for k, n := range ob.By {
					by[k] += n
				}
				continue
			}
			id := ob.Func + ": " + ob.Name
			if k := known.match(id); k != "" {
				seenKnown[k] = true
				continue
			}
			alarms = append(alarms, fmt.Sprintf("obligation not discharged: %s [%s]\n  at %s\n  %s", id, ob.Verdict, ob.Path, strings.Join(ob.Model, "\n  ")))
		}
		for _, p := range r.Problems {
			alarms = append(alarms, "not decided: "+p)
		}
	}
	var fails []string
	for _, f := range rp.fails {
		if k := known.match(f); k != "" {
			seenKnown[k] = true
			continue
		}
		fails = append(fails, f)
	}
	if rp.err != "" {
		alarms = append(alarms, "replay harness: "+rp.err)
	}
	if len(anchors) == 0 {
		alarms = append(alarms, "no contract for this property")
	}
	for _, k := range sortedKeys(seenKnown) {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", o.prop, k)
	}
	trusted := []string{
		"the verifier itself (/verif/gv): translation of Go SSA to logic, loop invariant inference is untrusted (every candidate is proved), memory model",
		"golang.org/x/tools/go/ssa as the meaning of the source text; the Go compiler",
		"SMT solvers: z3 5.3.2, z3 4.8.12, cvc5 1.1.2",
	}
	for _, x := range sortedKeys(exts) {
		trusted = append(trusted, "assumed contract of dependency: "+x)
	}
	as := sortedKeys(assume)
	as = append(as, "map iteration, select and scheduling orders are arbitrary; goroutines started by a function run to completion at the places where the caller waits for them")
	ev := map[string]interface{}{
		"property": o.prop, "tier": o.tier, "seed": o.seed, "level": "proof",
		"coverage": map[string]interface{}{
			"obligations": total, "discharged": done,
			"checker_cmd":              "bin/gv -check " + o.prop,
			"trusted_base":             trusted,
			"functions_under_contract": anchors,
			"functions_executed":       sortedKeys(fns),
			"callees_by_contract":      sortedKeys(used),
			"back_ends":                by,
			"solver_seconds":           solver,
			"solver_queries":           queries,
			"obligation_names":         names,
			"bounded_replay": map[string]interface{}{
				"label": "bounded, not counted as proved: the same property evaluated on the real code for directed and seeded random inputs; it supplies failing inputs for failed obligations and validates the assumed contracts",
				"cases": rp.cases, "kinds": rp.kinds, "failures": len(rp.fails), "seconds": rp.secs,
			},
		},
		"assumptions": as,
		"wall_s":      time.Since(t0).Seconds(),
		"violations":  len(alarms) + len(fails),
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.WriteFile(filepath.Join(evdir, o.prop+".json"), b, 0644)

	fmt.Printf("%s: %d contracts, %d obligations, %d discharged, %d problems, replay %d cases %d failures, %.1fs (solver %.1fs)\n", o.prop, len(anchors), total, done, len(alarms)-(total-done), rp.cases, len(rp.fails), time.Since(t0).Seconds(), solver)
	if len(alarms) == 0 && len(fails) == 0 {
		return 0
	}
	var sb strings.Builder
	fmt.Fprintf(&sb, "property %s\n\n", o.prop)
	if len(fails) > 0 {
		fmt.Fprintf(&sb, "Failing inputs on the real code (rerun: %s):\n", replayCmd(o))
		for _, f := range fails {
			fmt.Fprintf(&sb, "- %s\n", f)
		}
	}
	for _, a := range alarms {
		fmt.Fprintf(&sb, "\n%s\n", a)
	}
	if rp.out != "" {
		fmt.Fprintf(&sb, "\nreplay output:\n%s\n", clip(rp.out, 20000))
	}
	os.WriteFile(replay, []byte(sb.String()), 0644)
	for _, a := range alarms {
		fmt.Println(clip(strings.SplitN(a, "\n", 2)[0], 300))
	}
	for i, f := range fails {
		if i < 5 {
			fmt.Println("failing input:", clip(f, 400))
		}
	}
	suffix := ""
	if len(fails) == 0 {
		suffix = " no-failing-input-found"
	}
	fmt.Printf("VIOLATION property=%s replay=%s%s\n", o.prop, replay, suffix)
	return 1
}

// ---- replay

func replayCmd(o checkOpts) string {
	return fmt.Sprintf("cd %s && go test -overlay OVERLAY.json -vet=off -count=1 -run '^TestVerif%s$' .  # overlay: %s/replay/*.go as zz_verif_*_test.go", o.repo, o.prop, o.verif)
}

func runReplay(ctx context.Context, o checkOpts) (fails []string, cases int, kinds map[string]int, out, errs string, secs float64) {
	t0 := time.Now()
	kinds = map[string]int{}
	defer func() { secs = time.Since(t0).Seconds() }()
	dir := filepath.Join(o.verif, "replay")
	if _, err := os.Stat(filepath.Join(dir, o.prop+".go")); err != nil {
		return
	}
	tmp, err := os.MkdirTemp("", "verif-replay")
	if err != nil {
		errs = err.Error()
		return
	}
	defer os.RemoveAll(tmp)
	rep := map[string]string{}
	// the package's own tests are not needed and may not even compile beside ours
	ts, _ := filepath.Glob(filepath.Join(o.repo, "*_test.go"))
	for _, t := range ts {
		rep[t] = ""
	}
	for _, f := range []string{"common.go", "judges.go", o.prop + ".go"} {
		rep[filepath.Join(o.repo, "zz_verif_"+strings.TrimSuffix(f, ".go")+"_test.go")] = filepath.Join(dir, f)
	}
	ov, _ := json.Marshal(map[string]interface{}{"Replace": rep})
	ovf := filepath.Join(tmp, "overlay.json")
	os.WriteFile(ovf, ov, 0644)
	outf := filepath.Join(tmp, "out.txt")
	secsLim := 120
	if o.tier == "thorough" {
		secsLim = 900
	}
	for try := 0; try < 2; try++ {
		os.Remove(outf)
		c := exec.CommandContext(ctx, "go", "test", "-overlay", ovf, "-vet=off", "-count=1", "-timeout", fmt.Sprintf("%ds", secsLim+60), "-run", "^TestVerif"+o.prop+"$", ".")
		c.Dir = o.repo
		c.Env = append(os.Environ(), "VERIF_OUT="+outf, "VERIF_SEED="+strconv.Itoa(o.seed), "VERIF_TIER="+o.tier, "VERIF_TMP="+tmp)
		b, rerr := c.CombinedOutput()
		out = string(b)
		fails, cases = nil, 0
		kinds = map[string]int{}
		data, _ := os.ReadFile(outf)
		finished := false
		for _, l := range strings.Split(string(data), "\n") {
			switch {
			case strings.HasPrefix(l, "FAIL "):
				fails = append(fails, l[5:])
			case strings.HasPrefix(l, "CASES "):
				f := strings.Fields(l)
				n, _ := strconv.Atoi(f[2])
				cases += n
				kinds[f[1]] += n
			case l == "DONE":
				finished = true
			case strings.HasPrefix(l, "BEGIN "):
				// the case being run when the process died
				if !finished && rerr != nil {
					errs = l
				}
			}
		}
		if finished {
			errs = ""
			if len(fails) == 0 || try == 1 || o.tier == "thorough" {
				return
			}
			// a failure must repeat
			continue
		}
		last := ""
		for _, l := range strings.Split(string(data), "\n") {
			if strings.HasPrefix(l, "BEGIN ") {
				last = l[6:]
			}
		}
		if last != "" && (strings.Contains(out, "panic:") || strings.Contains(out, "fatal error:") || strings.Contains(out, "test timed out")) {
			errs = ""
			fails = append(fails, "the process died or hung in case: "+last)
		} else {
			errs = "did not run: " + clip(out, 3000)
			fails = nil
		}
	}
	return
}

// ---- known findings

type knownSet []string

func (k knownSet) match(s string) string {
	for _, x := range k {
		// "<identification> ## <description>"
		id := strings.TrimSpace(strings.SplitN(x, "##", 2)[0])
		if id != "" && strings.HasPrefix(s, id) {
			return x
		}
	}
	return ""
}

func loadKnown(file, prop string) (known, fixed knownSet) {
	b, _ := os.ReadFile(file)
	for _, l := range strings.Split(string(b), "\n") {
		l = strings.TrimSpace(l)
		if p := "known: property=" + prop + " "; strings.HasPrefix(l, p) {
			known = append(known, l[len(p):])
		}
		if p := "fixed: property=" + prop + " "; strings.HasPrefix(l, p) {
			fixed = append(fixed, l[len(p):])
		}
	}
	return
}
