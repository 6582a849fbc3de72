package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"time"

	"golang.org/x/tools/go/ssa"
)

func main() {
	repo := flag.String("repo", "/repo", "")
	dir := flag.String("contracts", "/verif/contracts", "")
	prop := flag.String("prop", "", "property")
	only := flag.String("only", "", "check one contract")
	list := flag.String("list", "", "externs|anchors")
	flag.IntVar(&verbose, "v", 0, "")
	dump := flag.String("dump", "", "dump SSA of a function")
	chk := flag.String("check", "", "decide a property: run all its contracts, write evidence")
	verif := flag.String("verif", "/verif", "")
	asJSON := flag.Bool("json", false, "")
	tier := flag.String("tier", "", "quick or thorough")
	flag.Parse()
	debug.SetGCPercent(300)
	if f := os.Getenv("GV_PROF"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
		defer pprof.StopCPUProfile()
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	if *chk != "" {
		seed, err := strconv.Atoi(os.Getenv("VERIF_SEED"))
		if err != nil {
			seed = 1
		}
		os.Exit(runCheck(checkOpts{repo: *repo, verif: *verif, prop: *chk, tier: *tier, seed: seed}))
	}
	t0 := time.Now()
	v, err := loadProgram(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if *dump != "" {
		f := v.lookup(*dump)
		f.WriteTo(os.Stdout)
		for _, a := range f.AnonFuncs {
			a.WriteTo(os.Stdout)
		}
		return
	}
	if *list == "externs" {
		listExterns(v)
		return
	}
	if err := v.loadContracts(*dir); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	v.prop = *prop
	for _, n := range sortedKeys(v.contracts) {
		fc := v.contracts[n]
		if *only != "" && n != *only {
			continue
		}
		if *only == "" && !hasTag(fc.props, *prop) {
			continue
		}
		t := time.Now()
		err := v.check(fc)
		if err != nil {
			fmt.Println("ERROR", n, err)
		}
		if verbose > 0 {
			fmt.Fprintf(os.Stderr, "%s: %.1fs\n", n, time.Since(t).Seconds())
		}
	}
	if *asJSON {
		b, _ := json.Marshal(v.result(*only, t0))
		fmt.Println()
		fmt.Println(string(b))
		return
	}
	bad := 0
	for _, k := range v.oblOrder {
		o := v.obls[k]
		s := "proved"
		if o.Verdict != "proved" {
			s = "FAILED (" + o.Verdict + ")"
			bad++
		}
		fmt.Printf("%-16s %s: %s  [%d/%d %v]\n", s, o.Func, clip(o.Name, 150), o.Proved, o.Instances, o.By)
		if o.Verdict != "proved" && verbose > 0 {
			fmt.Println("    at", o.Path)
			for _, m := range o.Model {
				fmt.Println("    ", m)
			}
		}
	}
	fmt.Printf("%d obligations, %d failed, %d problems, %.1fs (solver %.1fs, %d queries, %d feasibility; %d confirmed of %d in %.1fs)\n", len(v.oblOrder), bad, len(v.problems), time.Since(t0).Seconds(), v.sol.spent.Seconds(), v.sol.nq, v.nFeas, v.sol.nagree, v.sol.nconf, v.sol.tconf.Seconds())
	for _, p := range v.problems {
		fmt.Println("PROBLEM", p)
	}
}

func listExterns(v *Verifier) {
	m := map[string]map[string]bool{}
	for n, fn := range v.allFuncs() {
		for _, b := range fn.Blocks {
			for _, i := range b.Instrs {
				var c *ssa.CallCommon
				switch x := i.(type) {
				case *ssa.Call:
					c = &x.Call
				case *ssa.Defer:
					c = &x.Call
				case *ssa.Go:
					c = &x.Call
				}
				if c == nil {
					continue
				}
				k := ""
				if c.IsInvoke() {
					k = "(" + tstr(c.Value.Type()) + ")." + c.Method.Name()
				} else if f := c.StaticCallee(); f != nil && len(f.Blocks) == 0 {
					k = shortName(f)
				}
				if k != "" {
					if m[k] == nil {
						m[k] = map[string]bool{}
					}
					m[k][n] = true
				}
			}
		}
	}
	for _, k := range sortedKeys(m) {
		fs := sortedKeys(m[k])
		sort.Strings(fs)
		if len(fs) > 4 {
			fs = append(fs[:4], "...")
		}
		_, ok := externs[k]
		mark := " "
		if ok {
			mark = "*"
		}
		fmt.Println(mark, k, fs)
	}
}
