package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/specs", "spec directory")
	lemmas := flag.String("lemmas", "/verif/lemmas", "directory of Go lemma functions")
	fns := flag.String("fn", "", "verify these functions only (substring match, comma separated)")
	prop := flag.String("property", "", "verify the contracts behind a property")
	jsonOut := flag.String("json", "", "write the report here")
	dump := flag.String("dump", "", "write the scripts of failed obligations to this directory")
	verbose := flag.Bool("v", false, "list obligations")
	secs := flag.Int("secs", 15, "solver seconds per obligation")
	mf := flag.Int64("maxfail", 0, "give up after that many failed obligations (0: never)")
	dl := flag.Int("deadline", 0, "wall-clock seconds for the whole run (0: none)")
	again := flag.Int("again", 0, "wall-clock seconds for a second attempt at failed functions (0: none)")
	flag.Parse()
	z3Secs = *secs
	if *dl > 0 {
		maxFail = *mf
		deadline = time.Now().Add(time.Duration(*dl) * time.Second)
	}
	if flag.NArg() > 0 && flag.Arg(0) == "prelude" {
		fmt.Print(prelude())
		return
	}
	t0 := time.Now()
	p, err := loadProg(*repo, *lemmas, []string{"./...", "./providers/env", "./providers/flags", "./providers/maps"})
	if err != nil {
		fmt.Fprintln(os.Stderr, "LOAD-ERROR", err)
		os.Exit(3)
	}
	sp := newSpec()
	if err := sp.load(*specs); err != nil {
		fmt.Fprintln(os.Stderr, "SPEC-ERROR", err)
		os.Exit(3)
	}
	if flag.NArg() > 0 && flag.Arg(0) == "funcs" {
		for _, k := range sortedKeys(p.funcs) {
			fmt.Println(k)
		}
		return
	}
	if flag.NArg() > 1 && flag.Arg(0) == "ssa" {
		p.funcs[flag.Arg(1)].WriteTo(os.Stdout)
		return
	}
	fmt.Fprintf(os.Stderr, "loaded in %v\n", time.Since(t0).Round(time.Millisecond))
	var keys []string
	if *prop != "" {
		keys = sp.roots[*prop]
		if len(keys) == 0 {
			fmt.Fprintln(os.Stderr, "no roots for", *prop)
			os.Exit(3)
		}
	} else {
		for _, a := range sp.axioms {
			if k := "lemma " + a.pkg + "." + a.label(); a.lem && (*fns == "" || strings.Contains(k, *fns)) {
				keys = append(keys, k)
			}
		}
		for _, k := range sp.order {
			c := sp.contracts[k]
			if c.extern || c.trusted {
				continue
			}
			if *fns != "" {
				m := false
				for _, f := range strings.Split(*fns, ",") {
					m = m || strings.Contains(k, f)
				}
				if !m {
					continue
				}
			}
			keys = append(keys, k)
		}
	}
	rep := verifyClosure(p, sp, keys, *prop != "")
	if *again > 0 {
		var redo []int
		for i, r := range rep.results {
			if len(r.failed()) > 0 && r.Err == "" {
				redo = append(redo, i)
			}
		}
		if len(redo) > 0 && len(redo) <= 3 {
			startSecondRound(3**secs, *again)
			for _, i := range redo {
				k := rep.results[i].Key
				fmt.Fprintf(os.Stderr, "again: %s\n", k)
				if strings.HasPrefix(k, "lemma ") {
					rep.results[i] = verifyLemma(p, sp, k)
				} else {
					rep.results[i] = verifyFn(p, sp, k)
				}
			}
		}
	}
	bad := 0
	for _, r := range rep.results {
		f := r.failed()
		bad += len(f)
		if r.Err != "" {
			bad++
		}
		fmt.Printf("%-60s %4d obligations %3d failed %6d ms %s\n", r.Key, len(r.Obls), len(f), r.WallMs, r.Err)
		for _, n := range r.Notes {
			fmt.Println("    note:", n)
		}
		if *verbose {
			sl := append([]*Obl(nil), r.Obls...)
			sort.Slice(sl, func(i, j int) bool { return sl[i].Ms > sl[j].Ms })
			for i, o := range sl {
				if i < 6 && o.Ms > 1500 && o.Result == "unsat" {
					fmt.Printf("    slow %s %d ms %s\n", o.Name, o.Ms, o.Backend)
				}
			}
		}
		for i, o := range f {
			fmt.Printf("    FAILED %s at %s: %s (%d ms)\n", o.Name, o.Pos, o.Result, o.Ms)
			if *verbose {
				fmt.Printf("       goal %s\n       path %s\n", o.goal, strings.Join(o.trace, " | "))
			}
			if *dump != "" {
				os.WriteFile(fmt.Sprintf("%s/%s.%d.smt2", *dump, sanitizeFile(r.Key), i), []byte(r.x.script(o.pc, o.goal)), 0o644)
			}
		}
	}
	rep.write(*jsonOut, time.Since(t0))
	fmt.Printf("total: %d functions, %d obligations, %d failed, %d queries, %.1f s solver, %.1f s wall\n", len(rep.results), rep.nObl(), bad, nQueries, float64(totalMs)/1000, time.Since(t0).Seconds())
	if bad > 0 {
		os.Exit(1)
	}
}

func sanitizeFile(s string) string {
	return strings.Map(func(r rune) rune {
		if r == '/' || r == '*' || r == '(' || r == ')' || r == '$' {
			return '_'
		}
		return r
	}, s)
}
