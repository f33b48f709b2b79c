package main

import (
	"encoding/json"
	"os"
	"sort"
	"strings"
	"sync"
	"time"
)

type Report struct {
	results []*FnResult
}

func (r *Report) nObl() int {
	n := 0
	for _, f := range r.results {
		n += len(f.Obls)
	}
	return n
}

// verifyClosure verifies the functions and, if closure is set, every contract
// they rely on.
func verifyClosure(p *Prog, sp *Spec, keys []string, closure bool) *Report {
	rep := &Report{}
	seen := map[string]bool{}
	todo := append([]string{}, keys...)
	for len(todo) > 0 {
		var batch []string
		for _, k := range todo {
			if !seen[k] {
				seen[k] = true
				batch = append(batch, k)
			}
		}
		todo = nil
		out := make([]*FnResult, len(batch))
		var wg sync.WaitGroup
		sem := make(chan struct{}, 4)
		for i, k := range batch {
			wg.Add(1)
			go func() {
				defer wg.Done()
				sem <- struct{}{}
				defer func() { <-sem }()
				if strings.HasPrefix(k, "lemma ") {
					out[i] = verifyLemma(p, sp, k)
					return
				}
				if sp.contracts[k] == nil {
					out[i] = &FnResult{Key: k, Err: "no contract"}
					return
				}
				out[i] = verifyFn(p, sp, k)
			}()
		}
		wg.Wait()
		for _, r := range out {
			rep.results = append(rep.results, r)
			if closure {
				todo = append(todo, r.Used...)
			}
		}
	}
	sort.Slice(rep.results, func(i, j int) bool { return rep.results[i].Key < rep.results[j].Key })
	return rep
}

func (r *Report) write(file string, wall time.Duration) {
	if file == "" {
		return
	}
	type fo struct {
		Name    string   `json:"name"`
		Pos     string   `json:"pos"`
		Result  string   `json:"result"`
		Backend string   `json:"backend"`
		Goal    string   `json:"goal"`
		Path    []string `json:"path"`
	}
	type ff struct {
		Fn          string   `json:"function"`
		Obligations int      `json:"obligations"`
		Discharged  int      `json:"discharged"`
		LoopInv     int      `json:"loop_invariants"`
		Failed      []fo     `json:"failed,omitempty"`
		Inlined     []string `json:"inlined,omitempty"`
		Uses        []string `json:"uses,omitempty"`
		Notes       []string `json:"notes,omitempty"`
		Err         string   `json:"error,omitempty"`
		Ms          int64    `json:"wall_ms"`
		Vacuous     bool     `json:"vacuous,omitempty"`
	}
	doc := struct {
		Functions   []ff           `json:"functions"`
		Obligations int            `json:"obligations"`
		Discharged  int            `json:"discharged"`
		Backends    map[string]int `json:"backends"`
		Assumed     []string       `json:"assumed"`
		SolverS     float64        `json:"solver_s"`
		WallS       float64        `json:"wall_s"`
		Queries     int            `json:"queries"`
	}{Backends: map[string]int{}}
	ass := map[string]bool{}
	for _, f := range r.results {
		e := ff{Fn: f.Key, Obligations: len(f.Obls), Inlined: f.Inlined, Uses: f.Used, Notes: f.Notes, Err: f.Err, Ms: f.WallMs}
		for _, o := range f.Obls {
			if o.done {
				e.LoopInv++
			}
			if o.done || o.Result == "unsat" {
				e.Discharged++
				doc.Backends[o.Backend]++
				continue
			}
			g := o.goal.String()
			if len(g) > 2000 {
				g = g[:2000] + "..."
			}
			e.Failed = append(e.Failed, fo{o.Name, o.Pos, o.Result, o.Backend, g, o.trace})
		}
		for _, a := range f.Assumed {
			ass[a] = true
		}
		doc.Obligations += e.Obligations
		doc.Discharged += e.Discharged
		doc.Functions = append(doc.Functions, e)
	}
	doc.Assumed = keysOf(ass)
	doc.SolverS = float64(totalMs) / 1000
	doc.WallS = wall.Seconds()
	doc.Queries = nQueries
	b, _ := json.MarshalIndent(doc, "", " ")
	os.WriteFile(file, b, 0o644)
}
