package main

import (
	"slices"
	"fmt"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

func newExec(p *Prog, sp *Spec, key string) *Exec {
	x := &Exec{p: p, sp: sp, fnKey: key, tags: map[string]int{}, tagTypes: map[int]types.Type{}, ufs: map[string]string{}, consts: map[string]Sort{},
		heapDefs: map[string]*Term{}, heapInit: map[string]*Term{}, used: map[string]bool{}, assumed: map[string]bool{}, inlined: map[string]bool{},
		strLits: map[string]bool{}, noted: map[string]bool{}, cbs: map[string]string{}, cellTypes: map[string]types.Type{}, params: map[string]SV{}, globals: map[string]bool{}, maxPaths: 4000}
	// fixed tags for the common types keep the scripts stable
	for _, b := range []types.BasicKind{types.Bool, types.Int, types.String} {
		x.tag(types.Typ[b])
	}
	return x
}

func newState() *State {
	return &State{env: map[ssa.Value]Value{}, heap: map[string]*Term{}, cells: map[string]Value{}, iters: map[string]*Term{}, ghost: map[string]*Term{}, nonnil: map[string]bool{}, esc: map[string]bool{}}
}

// FnResult is the outcome of verifying one function.
type FnResult struct {
	Key     string
	Obls    []*Obl
	Used    []string
	Assumed []string
	Inlined []string
	Notes   []string
	Err     string
	WallMs  int64
	x       *Exec
}

func (r *FnResult) failed() []*Obl {
	var out []*Obl
	for _, o := range r.Obls {
		if !o.done && o.Result != "unsat" {
			out = append(out, o)
		}
	}
	return out
}

func (x *Exec) specAxioms(st *State) {
	for _, a := range x.sp.axioms {
		if a == x.lemma {
			break
		}
		ev := &evCtx{x: x, st: st, env: map[string]SV{}, pkg: a.pkg}
		if a.pkg != "" && x.contract != nil && !x.axiomFor(a) {
			continue
		}
		if strings.HasPrefix(a.name, "_") && x.lemma == nil {
			continue // a definition only the lemmas unfold
		}
		if x.contract != nil && slices.Contains(strings.Fields(x.contract.opts["hide"]), a.label()) {
			continue
		}
		x.axioms = append(x.axioms, ev.bool(a.ex).str)
		if a.lem {
			x.used["lemma "+a.pkg+"."+a.label()] = true
		}
	}
}

// an axiom is in force for the functions of its file's package and of the
// packages that import it, or everywhere when it is declared before any
// package line
func (x *Exec) axiomFor(a *Axiom) bool {
	if a.pkg == x.contract.pkg || a.pkg == "" {
		return true
	}
	if sp, ap := x.p.pkgs[x.contract.pkg], x.p.pkgs[a.pkg]; sp != nil && ap != nil {
		for _, i := range sp.Pkg.Imports() {
			if i == ap.Pkg {
				return true
			}
		}
	}
	return false
}

func (a *Axiom) label() string { n, _, _ := strings.Cut(a.name, " "); return n }

// verifyLemma proves a lemma from the axioms and lemmas stated before it,
// by induction on the variable given as "lemma name @v: ...".
func verifyLemma(p *Prog, sp *Spec, key string) (res *FnResult) {
	t0 := time.Now()
	res = &FnResult{Key: key}
	var a *Axiom
	for _, b := range sp.axioms {
		if b.lem && "lemma "+b.pkg+"."+b.label() == key {
			a = b
		}
	}
	if a == nil {
		res.Err = "no such lemma"
		return
	}
	x := newExec(p, sp, key)
	x.contract = &Contract{pkg: a.pkg, opts: map[string]string{}}
	x.lemma = a
	res.x = x
	st := newState()
	st.next = cst("next!0", SInt)
	x.consts["next!0"] = SInt
	x.specAxioms(st)
	ev := &evCtx{x: x, st: st, env: map[string]SV{}, pkg: a.pkg}
	t := ev.bool(a.ex)
	_, v, ok := strings.Cut(a.name, "@")
	if !ok {
		x.splitGoal(nil, "lemma", t, 0, nil)
	} else {
		v = strings.TrimSpace(v)
		var n *Term
		m := map[string]*Term{}
		nn := ""
		for _, b := range t.vars {
			m[b.name] = x.freshT("sk/"+b.name, b.sort)
			if w, _, _ := strings.Cut(b.name, "?"); w == v {
				n, nn = m[b.name], b.name
			}
		}
		if n == nil {
			res.Err = "no variable " + v
			return
		}
		at := func(e *Term) *Term {
			k := cloneMap(m)
			k[nn] = e
			return subst(t.body, k)
		}
		x.splitGoal([]*Term{lt(n, num(0))}, "negative", at(n), 0, nil)
		x.splitGoal(nil, "base", at(num(0)), 0, nil)
		// the hypothesis holds for all values of the other variables
		hyp := at(n)
		var rest []bvar
		for _, b := range t.vars {
			if b.name != nn {
				rest = append(rest, b)
			}
		}
		if len(rest) > 0 {
			k := map[string]*Term{nn: n}
			var trigs [][]*Term
			for _, tr := range t.trig {
				// terms with the variable of the induction are only needed to find that
				var ts, less []*Term
				txt := ""
				for _, e := range tr {
					f := subst(e, k)
					ts = append(ts, f)
					if f.str == e.str {
						less = append(less, f)
						txt += e.str
					}
				}
				cover := true
				for _, b := range rest {
					cover = cover && strings.Contains(txt, b.name)
				}
				if cover {
					ts = less
				}
				trigs = append(trigs, ts)
			}
			hyp = and(hyp, quant("forall", rest, subst(t.body, k), trigs))
		}
		x.splitGoal([]*Term{le(num(0), n), hyp}, "step", at(add(n, num(1))), 0, nil)
	}
	res.Obls = x.obls
	x.discharge(res)
	res.Used = keysOf(x.used)
	res.WallMs = time.Since(t0).Milliseconds()
	return
}

func verifyFn(p *Prog, sp *Spec, key string) (res *FnResult) {
	t0 := time.Now()
	res = &FnResult{Key: key}
	c := sp.contracts[key]
	x := newExec(p, sp, key)
	x.contract = c
	res.x = x
	defer func() {
		res.WallMs = time.Since(t0).Milliseconds()
		if x.sol != nil {
			x.sol.close()
		}
		res.Used, res.Assumed, res.Inlined, res.Notes = keysOf(x.used), keysOf(x.assumed), keysOf(x.inlined), keysOf(x.noted)
	}()
	base, _, _ := strings.Cut(key, "@")
	fn := p.funcs[base]
	if fn == nil {
		res.Err = "function " + key + " not found in the source"
		return
	}
	if len(fn.Params) != len(c.params) {
		res.Err = fmt.Sprintf("function %s has %d parameters, its contract %d", key, len(fn.Params), len(c.params))
		return
	}
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				res.Err = "unsupported: " + u.msg
				return
			}
			if s, ok := r.(string); ok && strings.HasPrefix(s, "spec:") {
				res.Err = s
				return
			}
			if os.Getenv("GOVC_DEBUG") != "" {
				panic(r)
			}
			res.Err = fmt.Sprint("internal: ", r)
		}
	}()
	x.sol = newSession()
	x.generate(fn, c)
	res.Obls = x.obls
	x.discharge(res)
	if len(res.failed()) == 0 && x.entryInconsistent() {
		res.Err = "vacuous: the preconditions contradict each other"
	}
	return
}

func keysOf(m map[string]bool) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func (x *Exec) generate(fn *ssa.Function, c *Contract) {
	st := newState()
	x.declareUF("embInv", []Sort{SInt}, SInt)
	x.specAxioms(st)
	st.next = cst("next!0", SInt)
	x.consts["next!0"] = SInt
	st.assume(lt(num(0), st.next))
	var args []Value
	tys := sigParams(fn.Signature, nil)
	for i, p := range c.params {
		t := tys[i]
		v := x.fresh(st, p, t)
		writes := false
		for _, w := range c.writes {
			writes = writes || w == p
		}
		if s, ok := v.(*SliceV); ok && writes {
			n := x.newSlice(st, s.seq, s.elem, slen(s.seq))
			n.nilf = s.nilf
			v = n
		}
		args = append(args, v)
		x.params[p] = SV{v: v, gt: t}
	}
	ev := &evCtx{x: x, st: st, env: x.params, pkg: c.pkg}
	for _, r := range c.requires {
		st.assume(ev.bool(r.ex))
	}
	for _, r := range c.entry {
		st.assume(ev.bool(r.ex))
	}
	if c.decreases != nil {
		x.recEntry = ev.term(c.decreases)
	}
	x.entry = st.clone()
	locs := x.modLocs(c)
	outs := x.runFn(st, fn, args, nil)
	if len(outs) == 0 && len(x.obls) == 0 {
		x.fail(x.entry, "no-path", "no execution path reaches the end of the function", fn.Pos())
	}
	for _, o := range outs {
		x.atExit(o, fn, c, locs)
	}
}

func (x *Exec) atExit(o Outcome, fn *ssa.Function, c *Contract, locs map[string]*modLoc) {
	st := o.st
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				x.fail(st, "unsupported", u.msg, fn.Pos())
				return
			}
			panic(r)
		}
	}()
	ev := &evCtx{x: x, st: st, old: x.entry, env: cloneMap(x.params), pkg: c.pkg}
	for i, n := range c.results {
		ev.env[n] = SV{v: o.res[i], gt: fn.Signature.Results().At(i).Type()}
	}
	for _, g := range c.ghosts {
		x.setGhost(st, g.name, ev.term(g.ex))
	}
	for i, h := range c.hints {
		t := ev.bool(h.ex)
		l := h.label
		if l == "" {
			l = fmt.Sprint("hint", i+1)
		}
		x.oblige(st, l, t, fn.Pos())
		st.assume(t)
	}
	// frame
	for _, name := range sortedKeys(st.heap) {
		h := st.heap[name]
		h0 := x.heapVar(x.entry, name, h.sort)
		if h0.str == h.str {
			continue
		}
		l := locs[name]
		if l != nil && l.at == nil {
			continue
		}
		if !strings.HasPrefix(string(h.sort), "(Array Int") || l != nil && l.glob || x.isGlobal(name) {
			x.oblige(st, "frame:"+name, eq(h, h0), fn.Pos())
			continue
		}
		r := x.freshT("r", SInt)
		pre := []*Term{x.isOldRef(r, x.entry.next)}
		if l != nil {
			e0 := *ev
			e0.st = x.entry
			for _, a := range l.at {
				pre = append(pre, not(eq(r, e0.term(a))))
			}
		}
		x.splitGoal(append(st.pc[:len(st.pc):len(st.pc)], pre...), "frame:"+name, eq(sel(h, r), sel(h0, r)), fn.Pos(), st.trace)
	}
	for _, name := range sortedKeys(st.ghost) {
		if l := locs[name]; l != nil {
			continue
		}
		g0, ok := x.entry.ghost[name]
		if !ok {
			g0 = x.ghostInit(name, st.ghost[name].sort)
		}
		x.oblige(st, "frame:ghost "+name, eq(st.ghost[name], g0), fn.Pos())
	}
	for i, e := range c.ensures {
		l := e.label
		if l == "" {
			l = fmt.Sprint(i + 1)
		}
		x.oblige(st, "ensures:"+l, ev.bool(e.ex), fn.Pos())
	}
}

func (x *Exec) isGlobal(name string) bool {
	return x.globals[name]
}

func (x *Exec) discharge(res *FnResult) {
	var wg sync.WaitGroup
	for _, o := range x.obls {
		if o.done {
			continue
		}
		text := x.script(o.pc, o.goal)
		wg.Add(1)
		go func() {
			defer wg.Done()
			r := solve(text, 0)
			o.Result, o.Backend, o.Ms = r.res, r.backend, r.ms
		}()
	}
	wg.Wait()
}

// vacuity: the assumptions at entry must be satisfiable as far as the solver
// can tell, i.e. "false" must not follow from them.
func (x *Exec) entryInconsistent() bool {
	return solve(x.script(x.entry.pc, tFalse), quickSecs).res == "unsat"
}
