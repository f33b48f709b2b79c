package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"math/big"
	"regexp"
	"sort"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// State is a symbolic state of one path.
type State struct {
	env    map[ssa.Value]Value
	heap   map[string]*Term
	cells  map[string]Value
	iters  map[string]*Term
	ghost  map[string]*Term
	next   *Term
	pc     []*Term
	defers []*deferred
	nonnil map[string]bool
	esc    map[string]bool
	active []*loopRun
	trace  []string
}

type deferred struct {
	common *ssa.CallCommon
	fn     Value
	args   []Value
	pos    token.Pos
}

func (st *State) clone() *State {
	c := &State{next: st.next}
	c.env = cloneMap(st.env)
	c.heap = cloneMap(st.heap)
	c.cells = cloneMap(st.cells)
	c.iters = cloneMap(st.iters)
	c.ghost = cloneMap(st.ghost)
	c.nonnil = cloneMap(st.nonnil)
	c.esc = cloneMap(st.esc)
	c.pc = st.pc[:len(st.pc):len(st.pc)]
	c.defers = st.defers[:len(st.defers):len(st.defers)]
	c.active = st.active[:len(st.active):len(st.active)]
	c.trace = st.trace[:len(st.trace):len(st.trace)]
	return c
}

func cloneMap[K comparable, V any](m map[K]V) map[K]V {
	n := make(map[K]V, len(m)+4)
	for k, v := range m {
		n[k] = v
	}
	return n
}

func (st *State) assume(t *Term) {
	if st == nil || t == tTrue {
		return
	}
	if t.op == "and" {
		for _, a := range t.args {
			st.assume(a)
		}
		return
	}
	st.pc = append(st.pc, t)
}

type Outcome struct {
	st  *State
	res []Value
}

// Obl is one proof obligation.
type Obl struct {
	Fn, Name, Pos string
	pc            []*Term
	goal          *Term
	trace         []string
	static        string // non-empty: failed without a solver (unsupported etc.)
	done          bool   // already discharged (loop invariants)
	Result        string
	Backend       string
	Ms            int64
	Model         string
}

// Exec verifies one function.
type Exec struct {
	p         *Prog
	sp        *Spec
	fnKey     string
	contract  *Contract
	tags      map[string]int
	tagTypes  map[int]types.Type
	ufs       map[string]string
	ufOrder   []string
	axioms    []string
	lemma     *Axiom
	consts    map[string]Sort
	ctr       int
	heapDefs  map[string]*Term
	heapInit  map[string]*Term
	obls      []*Obl
	dry       int
	modOnly   int
	entry     *State
	params    map[string]SV
	used      map[string]bool
	assumed   map[string]bool
	inlined   map[string]bool
	stack     []*ssa.Function
	sol       *Session
	strLits   map[string]bool
	litFacts  []*Term
	nInv      int
	pathCnt   int
	noted     map[string]bool
	cbs       map[string]string // func ref term -> contract callback name
	recEntry  *Term
	maxPaths  int
	cellTypes map[string]types.Type
	impls     []implP
	globals   map[string]bool
	casef     bool
}

type Frame struct {
	pend  *pending
	order map[*ssa.BasicBlock]int
	fn    *ssa.Function
	loops map[*ssa.BasicBlock]*Loop
	depth int
}

type Loop struct {
	header *ssa.BasicBlock
	blocks map[*ssa.BasicBlock]bool
}

type loopRun struct {
	L       *Loop
	fr      *Frame
	backs   []*State
	dry     bool
	started bool
}

func findLoops(fn *ssa.Function) map[*ssa.BasicBlock]*Loop {
	loops := map[*ssa.BasicBlock]*Loop{}
	for _, b := range fn.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				l := loops[s]
				if l == nil {
					l = &Loop{header: s, blocks: map[*ssa.BasicBlock]bool{s: true}}
					loops[s] = l
				}
				var stack []*ssa.BasicBlock
				if !l.blocks[b] {
					l.blocks[b] = true
					stack = append(stack, b)
				}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					for _, p := range n.Preds {
						if !l.blocks[p] {
							l.blocks[p] = true
							stack = append(stack, p)
						}
					}
				}
			}
		}
	}
	return loops
}

func (x *Exec) freshT(hint string, s Sort) *Term {
	x.ctr++
	n := fmt.Sprintf("%s!%d", sanitize(hint), x.ctr)
	x.consts[n] = s
	return cst(n, s)
}

func (x *Exec) declareUF(name string, args []Sort, ret Sort) {
	if _, ok := x.ufs[name]; ok {
		return
	}
	as := make([]string, len(args))
	for i, a := range args {
		as[i] = string(a)
	}
	x.ufs[name] = fmt.Sprintf("(declare-fun %s (%s) %s)", name, strings.Join(as, " "), ret)
	x.ufOrder = append(x.ufOrder, name)
}

func (x *Exec) uf(name string, ret Sort, args ...*Term) *Term {
	ss := make([]Sort, len(args))
	for i, a := range args {
		ss[i] = a.sort
	}
	x.declareUF(name, ss, ret)
	return mk(name, ret, args...)
}

func (x *Exec) addAxiom(s string) { x.axioms = append(x.axioms, s) }

// ---------------------------------------------------------------- heap

func (x *Exec) heapVar(st *State, name string, s Sort) *Term {
	if h, ok := st.heap[name]; ok {
		return h
	}
	h, ok := x.heapInit[name]
	if !ok {
		n := sanitize(name) + "!0"
		h = cst(n, s)
		x.consts[n] = s
		x.heapInit[name] = h
	}
	if h.sort != s {
		panic(fmt.Sprintf("heap %s: %s vs %s", name, h.sort, s))
	}
	return h
}

func (x *Exec) heapGet(st *State, name string, s Sort, ref *Term) *Term {
	h := x.heapVar(st, name, arr(SInt, s))
	for {
		d, ok := x.heapDefs[h.op]
		if !ok || len(h.args) > 0 {
			break
		}
		if d.args[1].str == ref.str {
			return d.args[2]
		}
		if !distinctRefs(d.args[1], ref) {
			break
		}
		h = d.args[0]
	}
	return sel(h, ref)
}

func distinctRefs(a, b *Term) bool {
	split := func(t *Term) (string, *big.Int) {
		if t.op == "+" && len(t.args) == 2 && t.args[1].n != nil {
			return t.args[0].str, t.args[1].n
		}
		if t.n != nil {
			return "", t.n
		}
		return t.str, new(big.Int)
	}
	ab, ao := split(a)
	bb, bo := split(b)
	return ab == bb && ao.Cmp(bo) != 0
}

func (x *Exec) heapSet(st *State, name string, ref, v *Term) {
	h := x.heapVar(st, name, arr(SInt, v.sort))
	d := sto(h, ref, v)
	c := x.freshT(name, h.sort)
	x.heapDefs[c.op] = d
	st.heap[name] = c
	st.assume(mk("=", SBool, c, d))
}

func (x *Exec) heapHavoc(st *State, name string, s Sort) *Term {
	c := x.freshT(name, s)
	st.heap[name] = c
	return c
}

func (x *Exec) alloc(st *State) *Term {
	r := st.next
	st.next = add(r, num(1))
	st.nonnil[r.str] = true
	return r
}

func (x *Exec) structBase(t types.Type) string { return x.p.typeName(t) }

// loadLeaves reads all components of a value of type t at heap location base/ref.
func (x *Exec) loadHeap(st *State, base string, ref *Term, t types.Type) Value {
	var ts []*Term
	for _, l := range x.leaves(t) {
		v := x.heapGet(st, base+l.suffix, l.sort, ref)
		if l.typ != nil && v.op == "select" {
			x.loadFacts(st, v, l.typ)
		}
		ts = append(ts, v)
	}
	return x.unflatten(ts, t)
}

func (x *Exec) loadFacts(st *State, v *Term, t types.Type) {
	key := "lf:" + v.str + ":" + st.next.str
	if st.nonnil[key] {
		return
	}
	switch t.Underlying().(type) {
	case *types.Pointer, *types.Map:
		st.nonnil[key] = true
		st.assume(lt(v, st.next))
	case *types.Basic:
		if lo, hi, w := intRange(t); lo != nil && w {
			st.nonnil[key] = true
			st.assume(and(le(bignum(lo), v), le(v, bignum(hi))))
		}
	}
}

func (x *Exec) storeHeap(st *State, base string, ref *Term, v Value, t types.Type) {
	ts := x.flatten(st, v, t)
	x.escape(st, v)
	for i, l := range x.leaves(t) {
		x.heapSet(st, base+l.suffix, ref, ts[i])
	}
}

func (x *Exec) escape(st *State, v Value) {
	switch v := v.(type) {
	case *SliceV:
		if v.cell != nil {
			st.esc[v.cell.id] = true
		}
	case *StructV:
		for _, f := range v.fields {
			x.escape(st, f)
		}
	}
}

// ---------------------------------------------------------------- addresses

func (x *Exec) addrOf(st *State, v Value, elem types.Type) *AddrV {
	switch v := v.(type) {
	case *AddrV:
		return v
	case *Term:
		return &AddrV{kind: "heap", base: x.heapBase(elem), ref: v, typ: elem}
	}
	unsup("address %T", v)
	return nil
}

func (x *Exec) heapBase(elem types.Type) string {
	if x.p.repoStruct(elem) != nil {
		return x.structBase(elem)
	}
	return "cell." + x.p.typeName(elem)
}

func (x *Exec) addrRef(st *State, a *AddrV) *Term {
	switch a.kind {
	case "heap":
		if strings.HasPrefix(a.base, "cell.") {
			return a.ref
		}
		return x.uf("addr/"+sanitize(a.base), SInt, a.ref)
	case "cell":
		// the address of a local variable leaves the function: its content
		// lives in the heap from now on
		unsup("address of local variable %s escapes", a.cell.id)
	case "global":
		return x.uf("addr/"+sanitize(a.base), SInt, num(0))
	}
	unsup("address of kind %s escapes", a.kind)
	return nil
}

func (x *Exec) load(st *State, a *AddrV, fr *Frame, pos token.Pos) Value {
	switch a.kind {
	case "cell":
		v, ok := st.cells[a.cell.id]
		if !ok {
			panic("cell " + a.cell.id)
		}
		return v
	case "heap":
		x.nilCheck(st, a.ref, fr, pos)
		return x.loadHeap(st, a.base, a.ref, a.typ)
	case "elem":
		c := st.cells[a.cell.id].(*Term)
		e := sat(c, a.idx)
		v := x.fromElem(e, a.typ)
		if t, ok := v.(*Term); ok {
			x.elemFacts(st, t, a.typ)
		}
		return v
	case "ro":
		e := sat(a.seq, a.idx)
		v := x.fromElem(e, a.typ)
		if t, ok := v.(*Term); ok {
			x.elemFacts(st, t, a.typ)
		}
		return v
	case "global":
		return x.loadGlobal(st, a)
	}
	panic("load " + a.kind)
}

func (x *Exec) elemFacts(st *State, t *Term, typ types.Type) {
	switch typ.Underlying().(type) {
	case *types.Pointer, *types.Map:
		st.assume(lt(t, st.next))
	case *types.Basic:
		if lo, hi, _ := intRange(typ); lo != nil && t.n == nil {
			st.assume(and(le(bignum(lo), t), le(t, bignum(hi))))
		}
	}
}

func (x *Exec) store(st *State, a *AddrV, v Value, fr *Frame, pos token.Pos) {
	switch a.kind {
	case "cell":
		if s, ok := v.(*SliceV); ok && s.cell == a.cell {
			unsup("self-referring cell")
		}
		if _, ok := a.typ.Underlying().(*types.Array); ok {
			v = v.(*Term)
		}
		st.cells[a.cell.id] = v
	case "heap":
		x.nilCheck(st, a.ref, fr, pos)
		x.storeHeap(st, a.base, a.ref, v, a.typ)
	case "elem":
		if st.esc[a.cell.id] {
			unsup("write to a backing array that has been shared")
		}
		c := st.cells[a.cell.id].(*Term)
		st.cells[a.cell.id] = supd(c, a.idx, x.toElem(st, v, a.typ))
	case "ro":
		unsup("write through a slice not owned here")
	case "global":
		ts := x.flatten(st, v, a.typ)
		for i, l := range x.leaves(a.typ) {
			x.globals[a.base+l.suffix] = true
			st.heap[a.base+l.suffix] = ts[i]
		}
	}
}

func (x *Exec) loadGlobal(st *State, a *AddrV) Value {
	var ts []*Term
	for _, l := range x.leaves(a.typ) {
		x.globals[a.base+l.suffix] = true
		ts = append(ts, x.heapVar(st, a.base+l.suffix, l.sort))
	}
	v := x.unflatten(ts, a.typ)
	x.globalFacts(st, a, v)
	return v
}

func (x *Exec) nilCheck(st *State, ref *Term, fr *Frame, pos token.Pos) {
	if ref.op == "num" && ref.n.Sign() != 0 || st.nonnil[ref.str] || strings.HasPrefix(ref.op, "emb/") {
		return
	}
	x.oblige(st, "nil-deref", not(eq(ref, num(0))), pos)
	st.nonnil[ref.str] = true
	st.assume(not(eq(ref, num(0))))
}

// ---------------------------------------------------------------- obligations

func (x *Exec) posStr(pos token.Pos) string {
	if !pos.IsValid() {
		return ""
	}
	p := x.p.prog.Fset.Position(pos)
	f := p.Filename
	if i := strings.Index(f, "/repo/"); i >= 0 {
		f = f[i+6:]
	}
	return fmt.Sprintf("%s:%d", f, p.Line)
}

func (x *Exec) oblige(st *State, name string, goal *Term, pos token.Pos) {
	if x.dry > 0 || goal == tTrue {
		return
	}
	x.splitGoal(st.pc, name, goal, pos, st.trace)
}

func (x *Exec) splitGoal(pc []*Term, name string, g *Term, pos token.Pos, trace []string) {
	switch {
	case g == tTrue:
		return
	case g.op == "and":
		for i, a := range g.args {
			n := name
			if len(g.args) > 1 {
				n = fmt.Sprintf("%s.%d", name, i+1)
			}
			x.splitGoal(pc, n, a, pos, trace)
		}
		return
	case g.op == "=>":
		x.splitGoal(append(pc[:len(pc):len(pc)], conj(g.args[0])...), name, g.args[1], pos, trace)
		return
	case g.op == "forall":
		if x.isHyp(pc, g) {
			x.obls = append(x.obls, &Obl{Fn: x.fnKey, Name: name, Pos: x.posStr(pos), goal: g, done: true, Result: "unsat", Backend: "hypothesis"})
			return
		}
		m := map[string]*Term{}
		for _, v := range g.vars {
			m[v.name] = x.freshT("sk/"+v.name, v.sort)
		}
		// the terms that trigger the statement as a hypothesis are there for the goal too
		pc = pc[:len(pc):len(pc)]
		for _, tr := range g.trig {
			for _, t := range tr {
				t = subst(t, m)
				if t.sort != SBool {
					pc = append(pc, x.uf("mark/"+sanitize(string(t.sort)), SBool, t))
				}
			}
		}
		x.splitGoal(pc, name, subst(g.body, m), pos, trace)
		return
	case g.op == "=" && g.args[0].sort == SBool && (g.args[0].qv || g.args[1].qv || isConn(g.args[0]) || isConn(g.args[1])):
		a, b := g.args[0], g.args[1]
		x.splitGoal(append(pc[:len(pc):len(pc)], conj(a)...), name+".if", b, pos, trace)
		x.splitGoal(append(pc[:len(pc):len(pc)], conj(b)...), name+".onlyif", a, pos, trace)
		return
	case g.op == "=" && isSeq(g.args[0].sort):
		g = or(mk("=", SBool, g.args[0], g.args[1]), mk(sq("eqs", g.args[0].sort), SBool, g.args[0], g.args[1]))
	case g.op == "ite" && g.sort == SBool:
		x.splitGoal(append(pc[:len(pc):len(pc)], conj(g.args[0])...), name+".then", g.args[1], pos, trace)
		x.splitGoal(append(pc[:len(pc):len(pc)], not(g.args[0])), name+".else", g.args[2], pos, trace)
		return
	}
	x.obls = append(x.obls, &Obl{Fn: x.fnKey, Name: name, Pos: x.posStr(pos), pc: pc, goal: g, trace: trace})
}

// isHyp: the goal is one of the hypotheses, up to the names of bound variables.
func (x *Exec) isHyp(pc []*Term, g *Term) bool {
	a := alpha(g)
	for i := len(pc) - 1; i >= 0; i-- {
		for _, c := range conj(pc[i]) {
			if c.op == "forall" && alpha(c) == a {
				return true
			}
		}
	}
	return false
}

var (
	alphaMu   sync.Mutex
	alphaMemo = map[*Term]string{}
	boundRe   = regexp.MustCompile(`[^\s()]+\?[0-9]+`)
)

// alpha renames the bound variables of a term by order of appearance.
func alpha(t *Term) string {
	alphaMu.Lock()
	defer alphaMu.Unlock()
	if s, ok := alphaMemo[t]; ok {
		return s
	}
	m := map[string]string{}
	s := boundRe.ReplaceAllStringFunc(t.str, func(v string) string {
		n, ok := m[v]
		if !ok {
			n = fmt.Sprintf("?%d", len(m))
			m[v] = n
		}
		return n
	})
	alphaMemo[t] = s
	return s
}

func isConn(t *Term) bool {
	switch t.op {
	case "and", "or", "not", "=>":
		return true
	}
	return false
}

func conj(t *Term) []*Term {
	if t.op == "and" {
		return t.args
	}
	return []*Term{t}
}

func (x *Exec) fail(st *State, name, msg string, pos token.Pos) {
	if x.dry > 0 {
		return
	}
	// an unsupported construct on an unreachable path is no problem
	o := &Obl{Fn: x.fnKey, Name: name, Pos: x.posStr(pos), pc: st.pc, goal: tFalse, trace: append(st.trace[:len(st.trace):len(st.trace)], msg)}
	x.obls = append(x.obls, o)
}

// ---------------------------------------------------------------- running

// pruned: the contract asks for a full feasibility check of the branches that
// compare something with one of the given constants (option prune).
func (x *Exec) pruned(c *Term) bool {
	if x.contract == nil || c.op != "=" {
		return false
	}
	for _, w := range strings.Fields(x.contract.opts["prune"]) {
		for _, a := range c.args {
			if a.n != nil && a.n.String() == w {
				return true
			}
		}
	}
	return false
}

func (x *Exec) feasible(st *State) bool {
	if x.sol == nil {
		return true
	}
	return x.sol.check(x, st.pc) != "unsat"
}

// runFn executes a function body with the given arguments.
func (x *Exec) runFn(st *State, fn *ssa.Function, args, binds []Value) []Outcome {
	if len(fn.Blocks) == 0 {
		unsup("no body for %s", fn)
	}
	for _, f := range x.stack {
		if f == fn {
			unsup("recursive call of %s without a contract", x.p.funcKey(fn))
		}
	}
	if len(x.stack) > 14 {
		unsup("inlining too deep at %s", x.p.funcKey(fn))
	}
	x.stack = append(x.stack, fn)
	defer func() { x.stack = x.stack[:len(x.stack)-1] }()
	fr := &Frame{fn: fn, loops: findLoops(fn), depth: len(x.stack)}
	saveEnv, saveDef, saveAct := st.env, st.defers, st.active
	st.env = map[ssa.Value]Value{}
	st.defers = nil
	for i, p := range fn.Params {
		st.env[p] = args[i]
	}
	for i, p := range fn.FreeVars {
		st.env[p] = binds[i]
	}
	outs := x.run(fr, st, fn.Blocks[0], nil, 0)
	for _, o := range outs {
		o.st.env, o.st.defers, o.st.active = cloneMap(saveEnv), saveDef, saveAct
	}
	return outs
}

func (x *Exec) guard(st *State, pos func() token.Pos, f func() []Outcome) (outs []Outcome) {
	defer func() {
		if r := recover(); r != nil {
			if u, ok := r.(unsupported); ok {
				x.fail(st, "unsupported", u.msg, pos())
				outs = nil
				return
			}
			panic(r)
		}
	}()
	return f()
}

func (x *Exec) run(fr *Frame, st *State, b, prev *ssa.BasicBlock, i int) []Outcome {
	if x.merging() {
		return x.runMerged(fr, st, b, prev, i)
	}
	return x.run1(fr, st, b, prev, i)
}

func (x *Exec) run1(fr *Frame, st *State, b, prev *ssa.BasicBlock, i int) []Outcome {
	pos := token.NoPos
	depth := len(x.stack)
	return x.guard(st, func() token.Pos { x.stack = x.stack[:depth]; return pos }, func() []Outcome {
		for {
			if pastDeadline() {
				panic(unsupported{"time budget used up"})
			}
			if i == 0 {
				// leaving loops?
				for len(st.active) > 0 {
					lr := st.active[len(st.active)-1]
					if lr.fr != fr || lr.L.blocks[b] {
						break
					}
					if lr.dry {
						return nil
					}
					st.active = st.active[:len(st.active)-1]
				}
				if L := fr.loops[b]; L != nil {
					if n := len(st.active); n > 0 && st.active[n-1].fr == fr && st.active[n-1].L == L {
						if st.active[n-1].started {
							x.setPhis(st, b, prev)
							st.active[n-1].backs = append(st.active[n-1].backs, st)
							return nil
						}
						st.active[n-1].started = true
					} else {
						return x.cutLoop(fr, st, L, prev)
					}
				} else {
					x.setPhis(st, b, prev)
				}
			}
			for ; i < len(b.Instrs); i++ {
				ins := b.Instrs[i]
				if ins.Pos().IsValid() {
					pos = ins.Pos()
				}
				switch ins := ins.(type) {
				case *ssa.Phi, *ssa.DebugRef:
				case *ssa.If:
					c := x.val(st, ins.Cond).(*Term)
					if c == tTrue {
						prev, b, i = b, b.Succs[0], -1
					} else if c == tFalse {
						prev, b, i = b, b.Succs[1], -1
					} else {
						x.pathCnt++
						if x.pathCnt > x.maxPaths {
							unsup("too many paths")
						}
						s2 := st.clone()
						st.assume(c)
						s2.assume(not(c))
						line := x.posStr(pos)
						st.trace = append(st.trace, line+" then")
						s2.trace = append(s2.trace, line+" else")
						f1, f2 := x.feasible(st), x.feasible(s2)
						if f1 && x.pruned(c) {
							f1 = solve(x.script(st.pc, tFalse), quickSecs).res != "unsat"
						}
						switch {
						case f1 && f2 && x.merging():
							var out []Outcome
							for k, s := range []*State{st, s2} {
								if !x.arrive(fr, s, b.Succs[k], b) {
									out = append(out, x.run1(fr, s, b.Succs[k], b, 0)...)
								}
							}
							return out
						case f1 && f2:
							out := x.run(fr, st, b.Succs[0], b, 0)
							return append(out, x.run(fr, s2, b.Succs[1], b, 0)...)
						case f1:
							prev, b, i = b, b.Succs[0], -1
						case f2:
							st = s2
							prev, b, i = b, b.Succs[1], -1
						default:
							return nil
						}
					}
				case *ssa.Jump:
					prev, b, i = b, b.Succs[0], -1
				case *ssa.Return:
					var rs []Value
					for _, r := range ins.Results {
						rs = append(rs, x.val(st, r))
					}
					return []Outcome{{st, rs}}
				case *ssa.Panic:
					x.fail(st, "panic", "panic reachable", pos)
					return nil
				case *ssa.RunDefers:
					return x.runDefers(fr, st, b, prev, i+1)
				case *ssa.Defer:
					d := &deferred{common: &ins.Call, pos: pos}
					if !ins.Call.IsInvoke() {
						if _, ok := ins.Call.Value.(*ssa.Builtin); !ok {
							d.fn = x.val(st, ins.Call.Value)
						}
					} else {
						d.fn = x.val(st, ins.Call.Value)
					}
					for _, a := range ins.Call.Args {
						d.args = append(d.args, x.val(st, a))
					}
					st.defers = append(st.defers[:len(st.defers):len(st.defers)], d)
				case *ssa.Lookup:
					alts := x.constLookup(st, ins)
					if alts == nil {
						st.env[ins] = x.instr(fr, st, ins, pos)
						continue
					}
					var all []Outcome
					for _, a := range alts {
						if x.feasible(a.st) {
							a.st.env[ins] = a.v
							all = append(all, x.run(fr, a.st, b, prev, i+1)...)
						}
					}
					return all
				case *ssa.Call:
					var fv Value
					if _, ok := ins.Call.Value.(*ssa.Builtin); !ok {
						fv = x.val(st, ins.Call.Value)
					}
					var args []Value
					for _, a := range ins.Call.Args {
						args = append(args, x.val(st, a))
					}
					outs := x.call(fr, st, &ins.Call, fv, args, pos)
					if x.merging() && len(outs) > 1 {
						outs = x.mergeOutcomes(outs)
					}
					if len(outs) == 1 {
						st = outs[0].st
						st.env[ins] = packResults(outs[0].res, ins.Call.Signature())
						continue
					}
					var all []Outcome
					for _, o := range outs {
						o.st.env[ins] = packResults(o.res, ins.Call.Signature())
						all = append(all, x.run(fr, o.st, b, prev, i+1)...)
					}
					return all
				case *ssa.Store:
					av, vv := x.val(st, ins.Addr), x.val(st, ins.Val)
					if r, ok := av.(*Term); ok {
						if sv, ok := vv.(*StructV); ok && x.p.repoStruct(deref(ins.Addr.Type())) != nil {
							x.nilCheck(st, r, fr, pos)
							x.storeStruct(st, r, sv, deref(ins.Addr.Type()))
							continue
						}
					}
					a := x.addrOf(st, av, deref(ins.Addr.Type()))
					x.store(st, a, vv, fr, pos)
				case *ssa.MapUpdate:
					x.mapUpdate(st, fr, ins, pos)
				case *ssa.Go:
					unsup("go statement")
				case *ssa.Send:
					unsup("channel send")
				case ssa.Value:
					st.env[ins] = x.instr(fr, st, ins, pos)
				default:
					unsup("instruction %T", ins)
				}
				if i == -1 {
					break
				}
			}
			if x.merging() && len(b.Preds) > 1 && x.arrive(fr, st, b, prev) {
				return nil
			}
			i = 0
		}
	})
}

func packResults(rs []Value, sig *types.Signature) Value {
	if sig.Results().Len() == 1 {
		return rs[0]
	}
	return TupleV(rs)
}

func (x *Exec) runDefers(fr *Frame, st *State, b, prev *ssa.BasicBlock, i int) []Outcome {
	if len(st.defers) == 0 {
		return x.run(fr, st, b, prev, i)
	}
	d := st.defers[len(st.defers)-1]
	st.defers = st.defers[: len(st.defers)-1 : len(st.defers)-1]
	rest := st.defers
	var all []Outcome
	douts := x.call(fr, st, d.common, d.fn, d.args, d.pos)
	if x.merging() && len(douts) > 1 {
		for k := range douts {
			douts[k].res = nil
		}
		douts = x.mergeOutcomes(douts)
	}
	for _, o := range douts {
		o.st.defers = rest
		all = append(all, x.runDefers(fr, o.st, b, prev, i)...)
	}
	return all
}

func (x *Exec) setPhis(st *State, b, prev *ssa.BasicBlock) {
	if prev == nil {
		return
	}
	idx := -1
	for k, p := range b.Preds {
		if p == prev {
			idx = k
		}
	}
	vals := map[ssa.Value]Value{}
	for _, ins := range b.Instrs {
		if phi, ok := ins.(*ssa.Phi); ok {
			vals[phi] = x.val(st, phi.Edges[idx])
		} else {
			break
		}
	}
	for k, v := range vals {
		st.env[k] = v
	}
}

func deref(t types.Type) types.Type { return t.Underlying().(*types.Pointer).Elem() }

func (x *Exec) val(st *State, v ssa.Value) Value {
	switch v := v.(type) {
	case *ssa.Const:
		return x.constVal(v)
	case *ssa.Function:
		return &FuncV{fn: v}
	case *ssa.Global:
		return &AddrV{kind: "global", base: x.p.pkgName(v.Pkg.Pkg) + "." + v.Name(), typ: deref(v.Type()), global: v}
	case *ssa.Builtin:
		unsup("builtin value %s", v.Name())
	}
	r, ok := st.env[v]
	if !ok {
		unsup("value %s (%T) not available", v.Name(), v)
	}
	return r
}

func (x *Exec) constVal(c *ssa.Const) Value {
	t := c.Type()
	if c.Value == nil {
		return x.zero(t)
	}
	if types.IsInterface(t) {
		unsup("interface constant")
	}
	if isFloat(t) && constant.Compare(c.Value, token.EQL, constant.MakeInt64(0)) {
		return zeroTerm(SFlt)
	}
	switch c.Value.Kind() {
	case constant.Bool:
		return boolT(constant.BoolVal(c.Value))
	case constant.String:
		return x.strLit(constant.StringVal(c.Value))
	case constant.Int:
		if b, ok := t.Underlying().(*types.Basic); ok && b.Info()&(types.IsFloat|types.IsComplex) != 0 {
			return x.uf("fltc/"+sanitize(c.Value.ExactString()), SFlt)
		}
		n, ok := new(big.Int).SetString(c.Value.ExactString(), 10)
		if !ok {
			unsup("constant %s", c)
		}
		return bignum(n)
	}
	return x.uf("fltc/"+sanitize(c.Value.ExactString()), SFlt)
}

// strLit is the byte sequence of a string literal.
func (x *Exec) strLit(s string) *Term {
	if s == "" {
		return semp(SSeq)
	}
	var t *Term
	bs := []byte(s)
	if len(bs) == 1 {
		return sunit(num(int64(bs[0])))
	}
	name := "lit/" + sanitize(fmt.Sprintf("%x", s))
	t = cst(name, SSeq)
	if !x.strLits[s] {
		x.strLits[s] = true
		x.consts[name] = SSeq
		fs := []*Term{eq(slen(t), num(int64(len(bs))))}
		for i, c := range bs {
			fs = append(fs, eq(sat(t, num(int64(i))), num(int64(c))))
		}
		rs := []rune(s)
		d := mk("dec", SSeq, t)
		fs = append(fs, eq(slen(d), num(int64(len(rs)))))
		for i, c := range rs {
			fs = append(fs, eq(sat(d, num(int64(i))), num(int64(c))))
		}
		fs = append(fs, mk("okS", SBool, t))
		x.litFacts = append(x.litFacts, fs...)
		if x.casef {
			x.caseFacts(s)
		}
		for o := range x.strLits {
			if o != s && len(o) == len(s) {
				x.litFacts = append(x.litFacts, not(eq(t, cst("lit/"+sanitize(fmt.Sprintf("%x", o)), SSeq))))
			}
		}
	}
	return t
}

// caseFacts: what strings.ToLower and strings.ToUpper (run here) make of a literal.
func (x *Exec) caseFacts(s string) {
	t := x.strLit(s)
	x.litFacts = append(x.litFacts, mk("=", SBool, x.uf("strings/lower", SSeq, t), x.strLit(strings.ToLower(s))),
		mk("=", SBool, x.uf("strings/upper", SSeq, t), x.strLit(strings.ToUpper(s))))
}

func (x *Exec) funcRef(f *FuncV) *Term {
	if f.ref == nil {
		if f.fn != nil && len(f.binds) == 0 && f.recv == nil {
			f.ref = x.uf("fun/"+sanitize(x.p.funcKey(f.fn)), SInt)
		} else {
			f.ref = x.freshT("closure", SInt)
		}
	}
	return f.ref
}

func asTerm(v Value) *Term {
	t, ok := v.(*Term)
	if !ok {
		unsup("expected a plain value, got %T", v)
	}
	return t
}

func (x *Exec) instr(fr *Frame, st *State, ins ssa.Value, pos token.Pos) Value {
	switch ins := ins.(type) {
	case *ssa.Alloc:
		t := deref(ins.Type())
		if _, ok := t.Underlying().(*types.Struct); ok {
			r := x.alloc(st)
			x.initStruct(st, r, t)
			return r
		}
		x.ctr++
		c := &Cell{id: fmt.Sprintf("%s#%d", ins.Comment, x.ctr), typ: t}
		if at, ok := t.Underlying().(*types.Array); ok {
			c.n = num(at.Len())
		}
		st.cells[c.id] = x.zero(t)
		x.cellTypes[c.id] = t
		return &AddrV{kind: "cell", cell: c, typ: t}
	case *ssa.BinOp:
		return x.binop(fr, st, ins, pos)
	case *ssa.UnOp:
		return x.unop(fr, st, ins, pos)
	case *ssa.ChangeType:
		return x.val(st, ins.X)
	case *ssa.ChangeInterface:
		return x.val(st, ins.X)
	case *ssa.Convert:
		return x.convert(st, x.val(st, ins.X), ins.X.Type(), ins.Type())
	case *ssa.MultiConvert:
		return x.convert(st, x.val(st, ins.X), ins.X.Type(), ins.Type())
	case *ssa.MakeInterface:
		v := x.val(st, ins.X)
		if a, ok := v.(*AddrV); ok && a.kind == "cell" {
			return a // only known callees take it
		}
		x.escape(st, v)
		return x.box(st, v, ins.X.Type())
	case *ssa.MakeClosure:
		f := &FuncV{fn: ins.Fn.(*ssa.Function)}
		for _, b := range ins.Bindings {
			f.binds = append(f.binds, x.val(st, b))
		}
		return f
	case *ssa.MakeMap:
		return x.makeMap(st, ins.Type().Underlying().(*types.Map))
	case *ssa.MakeSlice:
		n := asTerm(x.val(st, ins.Len))
		if ins.Cap != nil {
			cp := asTerm(x.val(st, ins.Cap))
			x.oblige(st, "make-len", and(le(num(0), n), le(n, cp)), pos)
		}
		el := ins.Type().Underlying().(*types.Slice).Elem()
		s := x.seqSort(el)
		var content *Term
		if n.n != nil && n.n.Sign() == 0 {
			content = semp(s)
		} else {
			ez := x.toElem(st, x.zero(el), el)
			if n.n != nil && n.n.IsInt64() {
				content = srep(ez, n.n.Int64(), s)
			} else {
				content = mk(sq("rep", s), s, ez, n)
			}
		}
		return x.newSlice(st, content, el, n)
	case *ssa.Slice:
		return x.slice(fr, st, ins, pos)
	case *ssa.FieldAddr:
		v := x.val(st, ins.X)
		t := deref(ins.X.Type())
		sttyp := t.Underlying().(*types.Struct)
		f := sttyp.Field(ins.Field)
		ref, ok := v.(*Term)
		if !ok {
			unsup("field of %T", v)
		}
		x.nilCheck(st, ref, fr, pos)
		base := x.structBase(t) + "." + f.Name()
		if _, isst := f.Type().Underlying().(*types.Struct); isst {
			return x.embRef(base, ref)
		}
		return &AddrV{kind: "heap", base: base, ref: ref, typ: f.Type()}
	case *ssa.Field:
		s, ok := x.val(st, ins.X).(*StructV)
		if !ok {
			unsup("field of opaque struct")
		}
		return s.fields[ins.Field]
	case *ssa.IndexAddr:
		v := x.val(st, ins.X)
		idx := asTerm(x.val(st, ins.Index))
		switch v := v.(type) {
		case *SliceV:
			x.oblige(st, "index", and(le(num(0), idx), lt(idx, x.sliceLen(st, v))), pos)
			st.assume(and(le(num(0), idx), lt(idx, x.sliceLen(st, v))))
			if v.cell != nil {
				return &AddrV{kind: "elem", cell: v.cell, idx: add(v.lo, idx), typ: v.elem}
			}
			return &AddrV{kind: "ro", seq: v.seq, idx: idx, typ: v.elem}
		case *AddrV:
			at := deref(ins.X.Type()).Underlying().(*types.Array)
			x.oblige(st, "index", and(le(num(0), idx), lt(idx, num(at.Len()))), pos)
			st.assume(and(le(num(0), idx), lt(idx, num(at.Len()))))
			if v.kind == "cell" {
				return &AddrV{kind: "elem", cell: v.cell, idx: idx, typ: at.Elem()}
			}
			return &AddrV{kind: "ro", seq: x.load(st, v, fr, pos).(*Term), idx: idx, typ: at.Elem()}
		}
		unsup("index of %T", v)
	case *ssa.Index:
		v := x.val(st, ins.X)
		idx := asTerm(x.val(st, ins.Index))
		s := asTerm(v)
		x.oblige(st, "index", and(le(num(0), idx), lt(idx, slen(s))), pos)
		st.assume(and(le(num(0), idx), lt(idx, slen(s))))
		e := sat(s, idx)
		if a, ok := ins.X.Type().Underlying().(*types.Array); ok {
			return x.fromElem(e, a.Elem())
		}
		if e.n == nil {
			st.assume(and(le(num(0), e), le(e, num(255))))
		}
		return e
	case *ssa.Lookup:
		return x.lookup(fr, st, ins, pos)
	case *ssa.Range:
		return x.rangeOver(st, ins)
	case *ssa.Next:
		return x.nextOf(fr, st, ins)
	case *ssa.TypeAssert:
		return x.typeAssert(fr, st, ins, pos)
	case *ssa.Extract:
		return x.val(st, ins.Tuple).(TupleV)[ins.Index]
	case *ssa.Select:
		unsup("select")
	}
	unsup("instruction %T", ins)
	return nil
}

// embRef is the address of a struct-typed field of an object.
func (x *Exec) embRef(base string, ref *Term) *Term {
	name := "emb/" + sanitize(base)
	if _, ok := x.ufs[name]; !ok {
		x.declareUF(name, []Sort{SInt}, SInt)
		x.declareUF("embInv", []Sort{SInt}, SInt)
		x.declareUF("embTag", []Sort{SInt}, SInt)
		x.addAxiom(fmt.Sprintf("(forall ((r Int)) (! (and (= (embInv (%s r)) r) (= (embTag (%s r)) %d) (< (%s r) 0)) :pattern ((%s r))))", name, name, len(x.ufs), name, name))
	}
	return mk(name, SInt, ref)
}

func (x *Exec) initStruct(st *State, r *Term, t types.Type) {
	if x.p.repoStruct(t) == nil {
		n := x.p.typeName(t)
		switch n {
		case "strings.Builder", "bytes.Buffer":
			x.heapSet(st, n+".content", r, semp(SSeq))
		case "atomic.Uint32", "atomic.Int32":
			x.heapSet(st, n+".v", r, num(0))
		}
		return
	}
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		base := x.structBase(t) + "." + f.Name()
		if _, ok := f.Type().Underlying().(*types.Struct); ok {
			x.initStruct(st, x.embRef(base, r), f.Type())
			continue
		}
		x.storeHeap(st, base, r, x.zero(f.Type()), f.Type())
	}
}

func (x *Exec) newSlice(st *State, content *Term, el types.Type, n *Term) *SliceV {
	x.ctr++
	c := &Cell{id: fmt.Sprintf("arr#%d", x.ctr), typ: types.NewSlice(el), n: n}
	st.cells[c.id] = content
	x.cellTypes[c.id] = c.typ
	return &SliceV{nilf: tFalse, cell: c, lo: num(0), hi: n, elem: el}
}

func (x *Exec) slice(fr *Frame, st *State, ins *ssa.Slice, pos token.Pos) Value {
	v := x.val(st, ins.X)
	get := func(s ssa.Value, d *Term) *Term {
		if s == nil {
			return d
		}
		return asTerm(x.val(st, s))
	}
	switch v := v.(type) {
	case *Term: // string (or array pointer held as a ref)
		if _, ok := ins.X.Type().Underlying().(*types.Pointer); ok {
			unsup("slice of array pointer")
		}
		lo := get(ins.Low, num(0))
		hi := get(ins.High, slen(v))
		x.bounds(st, lo, hi, slen(v), pos)
		return ssub(v, lo, hi)
	case *SliceV:
		n := x.sliceLen(st, v)
		lo := get(ins.Low, num(0))
		hi := get(ins.High, n)
		x.bounds(st, lo, hi, n, pos)
		if v.cell != nil {
			return &SliceV{nilf: v.nilf, cell: v.cell, lo: add(v.lo, lo), hi: add(v.lo, hi), elem: v.elem}
		}
		return &SliceV{seq: ssub(v.seq, lo, hi), nilf: v.nilf, elem: v.elem}
	case *AddrV:
		at := deref(ins.X.Type()).Underlying().(*types.Array)
		lo := get(ins.Low, num(0))
		hi := get(ins.High, num(at.Len()))
		x.bounds(st, lo, hi, num(at.Len()), pos)
		if v.kind != "cell" {
			unsup("slice of array field")
		}
		return &SliceV{nilf: tFalse, cell: v.cell, lo: lo, hi: hi, elem: at.Elem()}
	}
	unsup("slice of %T", v)
	return nil
}

func (x *Exec) bounds(st *State, lo, hi, n *Term, pos token.Pos) {
	// slicing up to the capacity is legal Go, but never relied upon here
	g := and(le(num(0), lo), le(lo, hi), le(hi, n))
	x.oblige(st, "slice-bounds", g, pos)
	st.assume(g)
}

func (x *Exec) wrap(t *Term, typ types.Type) *Term {
	lo, hi, w := intRange(typ)
	if !w {
		return t
	}
	if t.n != nil && t.n.Cmp(lo) >= 0 && t.n.Cmp(hi) <= 0 {
		return t
	}
	m := new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))
	if lo.Sign() == 0 {
		return modE(t, bignum(m))
	}
	h := bignum(new(big.Int).Neg(lo))
	return sub(modE(add(t, h), bignum(m)), h)
}

func isFloat(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&(types.IsFloat|types.IsComplex) != 0
}

func (x *Exec) binop(fr *Frame, st *State, ins *ssa.BinOp, pos token.Pos) Value {
	a, b := x.val(st, ins.X), x.val(st, ins.Y)
	switch ins.Op {
	case token.EQL, token.NEQ:
		e := x.equal(st, a, b, ins.X.Type(), ins.Y.Type())
		if ins.Op == token.NEQ {
			e = not(e)
		}
		return e
	}
	p, q := asTerm(a), asTerm(b)
	t := ins.X.Type()
	if p.sort == SSeq {
		switch ins.Op {
		case token.ADD:
			return scat(p, q)
		case token.LSS:
			return x.strlt(p, q)
		case token.GTR:
			return x.strlt(q, p)
		case token.LEQ:
			return not(x.strlt(q, p))
		case token.GEQ:
			return not(x.strlt(p, q))
		}
	}
	if isFloat(t) {
		switch ins.Op {
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return x.uf("flt/cmp"+map[token.Token]string{token.LSS: "lt", token.LEQ: "le", token.GTR: "gt", token.GEQ: "ge"}[ins.Op], SBool, p, q)
		}
		return x.uf("flt/"+map[token.Token]string{token.ADD: "add", token.SUB: "sub", token.MUL: "mul", token.QUO: "div"}[ins.Op], SFlt, p, q)
	}
	switch ins.Op {
	case token.ADD:
		return x.wrap(add(p, q), t)
	case token.SUB:
		return x.wrap(sub(p, q), t)
	case token.MUL:
		return x.wrap(mul(p, q), t)
	case token.QUO, token.REM:
		x.oblige(st, "div-by-zero", not(eq(q, num(0))), pos)
		return x.divmod(ins.Op, p, q, t)
	case token.LSS:
		return lt(p, q)
	case token.LEQ:
		return le(p, q)
	case token.GTR:
		return lt(q, p)
	case token.GEQ:
		return le(q, p)
	case token.SHL:
		if q.n != nil && q.n.IsInt64() && q.n.Int64() < 64 {
			return x.wrap(mul(p, bignum(new(big.Int).Lsh(big.NewInt(1), uint(q.n.Int64())))), t)
		}
	case token.SHR:
		if q.n != nil && q.n.IsInt64() && q.n.Int64() < 64 {
			return divE(p, bignum(new(big.Int).Lsh(big.NewInt(1), uint(q.n.Int64()))))
		}
	case token.AND, token.OR, token.XOR, token.AND_NOT:
		if p.n != nil && q.n == nil && ins.Op != token.AND_NOT {
			p, q = q, p
		}
		if q.n != nil {
			return x.bitop(ins.Op, p, q.n, t)
		}
		if ins.Op == token.XOR {
			break
		}
	}
	unsup("operator %s on %s", ins.Op, t)
	return nil
}

func (x *Exec) divmod(op token.Token, p, q *Term, t types.Type) *Term {
	lo, _, _ := intRange(t)
	unsigned := lo != nil && lo.Sign() == 0
	if unsigned || p.n != nil && q.n != nil && p.n.Sign() >= 0 && q.n.Sign() > 0 {
		if op == token.QUO {
			return divE(p, q)
		}
		return modE(p, q)
	}
	// truncated division
	absq := ite(lt(q, num(0)), sub(num(0), q), q)
	pos := divE(p, absq)
	neg := sub(num(0), divE(sub(num(0), p), absq))
	d := ite(lt(p, num(0)), neg, pos)
	d = ite(lt(q, num(0)), sub(num(0), d), d)
	if op == token.QUO {
		return d
	}
	return sub(p, mul(d, q))
}

// bitop with a constant mask, exact on two's complement integers.
func (x *Exec) bitop(op token.Token, p *Term, m *big.Int, t types.Type) *Term {
	if m.Sign() < 0 {
		// ^c masks: p & ^c = p &^ c
		c := new(big.Int).Not(m)
		switch op {
		case token.AND:
			return x.bitop(token.AND_NOT, p, c, t)
		}
		unsup("negative mask")
	}
	if op == token.AND {
		lo, hi, _ := intRange(t)
		if lo != nil && lo.Sign() == 0 {
			// a mask above half of an unsigned type is a &^ of its complement
			c := new(big.Int).Sub(hi, m)
			if c.BitLen() < m.BitLen() && c.Sign() >= 0 {
				return x.bitop(token.AND_NOT, p, c, t)
			}
		}
	}
	if m.BitLen() > 40 {
		unsup("wide mask")
	}
	res := num(0)
	if op != token.AND {
		res = p
	}
	for i := 0; i < m.BitLen(); i++ {
		if m.Bit(i) == 0 {
			continue
		}
		w := bignum(new(big.Int).Lsh(big.NewInt(1), uint(i)))
		bit := modE(divE(p, w), num(2))
		switch op {
		case token.AND:
			res = add(res, mul(w, bit))
		case token.OR:
			res = add(res, mul(w, sub(num(1), bit)))
		case token.AND_NOT:
			res = sub(res, mul(w, bit))
		case token.XOR:
			res = add(res, mul(w, sub(num(1), mul(num(2), bit))))
		}
	}
	return res
}

func (x *Exec) equal(st *State, a, b Value, ta, tb types.Type) *Term {
	if types.IsInterface(ta) != types.IsInterface(tb) {
		if types.IsInterface(ta) {
			b = x.box(st, b, tb)
		} else {
			a = x.box(st, a, ta)
		}
		return eq(asTerm(a), asTerm(b))
	}
	switch v := a.(type) {
	case *SliceV:
		return v.nilf // only comparable to nil
	case *FuncV:
		if t, ok := b.(*Term); ok && t.n != nil && t.n.Sign() == 0 {
			return tFalse
		}
		return eq(x.funcRef(v), asTerm(b))
	case *StructV:
		w := b.(*StructV)
		var cs []*Term
		u := v.typ.Underlying().(*types.Struct)
		for i := range v.fields {
			cs = append(cs, x.equal(st, v.fields[i], w.fields[i], u.Field(i).Type(), u.Field(i).Type()))
		}
		return and(cs...)
	case *AddrV:
		if t, ok := b.(*Term); ok && t.n != nil && t.n.Sign() == 0 {
			return tFalse
		}
		unsup("address comparison")
	}
	if s, ok := b.(*SliceV); ok {
		return s.nilf
	}
	if f, ok := b.(*FuncV); ok {
		return eq(asTerm(a), x.funcRef(f))
	}
	if _, ok := b.(*AddrV); ok {
		unsup("address comparison")
	}
	p, q := asTerm(a), asTerm(b)
	if p.sort == SVal && (p.op == "nilV" || q.op == "nilV") {
		if q.op == "nilV" {
			p, q = q, p
		}
		// v == nil
		switch q.op {
		case "boxI", "boxB", "boxS", "boxL", "boxV", "boxF", "boxW":
			return tFalse
		}
		if strings.HasPrefix(q.op, "box/") {
			return tFalse
		}
		return eq(q, p)
	}
	if isSeq(p.sort) {
		if r := x.litCompare(p, q); r != nil {
			return r
		}
		if p.op == sq("emp", p.sort) {
			p, q = q, p
		}
		if q.op == sq("emp", q.sort) {
			return eq(slen(p), num(0))
		}
		return seqEq(p, q)
	}
	return eq(p, q)
}

func (x *Exec) litCompare(p, q *Term) *Term {
	ps, ok1 := x.litOf(p)
	qs, ok2 := x.litOf(q)
	if ok1 && ok2 {
		return boolT(ps == qs)
	}
	return nil
}

func (x *Exec) litOf(p *Term) (string, bool) {
	switch {
	case p.op == "emp_I":
		return "", true
	case p.op == "unit_I" && p.args[0].n != nil:
		return string([]byte{byte(p.args[0].n.Int64())}), true
	case strings.HasPrefix(p.op, "lit/"):
		var out []byte
		fmt.Sscanf(p.op[4:], "%x", &out)
		return string(out), true
	}
	return "", false
}

func (x *Exec) unop(fr *Frame, st *State, ins *ssa.UnOp, pos token.Pos) Value {
	v := x.val(st, ins.X)
	switch ins.Op {
	case token.MUL:
		t := deref(ins.X.Type())
		if r, ok := v.(*Term); ok {
			if x.p.repoStruct(t) != nil {
				x.nilCheck(st, r, fr, pos)
				return x.loadStruct(st, r, t)
			}
		}
		a := x.addrOf(st, v, t)
		r := x.load(st, a, fr, pos)
		if s, ok := r.(*SliceV); ok && (a.kind == "heap" || a.kind == "cell") {
			c := *s
			c.origin = a
			return &c
		}
		return r
	case token.NOT:
		return not(asTerm(v))
	case token.SUB:
		if isFloat(ins.X.Type()) {
			return x.uf("flt/neg", SFlt, asTerm(v))
		}
		return x.wrap(sub(num(0), asTerm(v)), ins.X.Type())
	case token.XOR:
		lo, hi, _ := intRange(ins.X.Type())
		if lo != nil && lo.Sign() == 0 {
			return sub(bignum(hi), asTerm(v))
		}
		return sub(num(-1), asTerm(v))
	}
	unsup("operator %s", ins.Op)
	return nil
}

func (x *Exec) loadStruct(st *State, r *Term, t types.Type) Value {
	u := t.Underlying().(*types.Struct)
	s := &StructV{typ: t}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		base := x.structBase(t) + "." + f.Name()
		if _, ok := f.Type().Underlying().(*types.Struct); ok {
			if x.p.repoStruct(f.Type()) != nil {
				s.fields = append(s.fields, x.loadStruct(st, x.embRef(base, r), f.Type()))
			} else {
				s.fields = append(s.fields, x.heapGet(st, base, SInt, r))
			}
			continue
		}
		s.fields = append(s.fields, x.loadHeap(st, base, r, f.Type()))
	}
	return s
}

func (x *Exec) storeStruct(st *State, r *Term, v *StructV, t types.Type) {
	u := t.Underlying().(*types.Struct)
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		base := x.structBase(t) + "." + f.Name()
		if sv, ok := v.fields[i].(*StructV); ok {
			x.storeStruct(st, x.embRef(base, r), sv, f.Type())
			continue
		}
		x.storeHeap(st, base, r, v.fields[i], f.Type())
	}
}

func (x *Exec) convert(st *State, v Value, from, to types.Type) Value {
	fu, tu := from.Underlying(), to.Underlying()
	isStr := func(t types.Type) bool {
		b, ok := t.(*types.Basic)
		return ok && b.Info()&types.IsString != 0
	}
	elem := func(t types.Type) types.BasicKind {
		if s, ok := t.(*types.Slice); ok {
			if b, ok := s.Elem().Underlying().(*types.Basic); ok {
				return b.Kind()
			}
		}
		return types.Invalid
	}
	switch {
	case isStr(fu) && elem(tu) == types.Int32:
		d := mk("dec", SSeq, asTerm(v))
		return x.newSlice(st, d, tu.(*types.Slice).Elem(), slen(d))
	case isStr(fu) && elem(tu) == types.Uint8:
		return x.newSlice(st, asTerm(v), tu.(*types.Slice).Elem(), slen(asTerm(v)))
	case isStr(tu) && elem(fu) == types.Int32:
		return mk("enc", SSeq, x.seqOf(st, v.(*SliceV)))
	case isStr(tu) && elem(fu) == types.Uint8:
		return x.seqOf(st, v.(*SliceV))
	case isStr(tu) && isStr(fu):
		return v
	case isStr(tu): // string(rune)
		return mk("enc", SSeq, sunit(asTerm(v)))
	}
	fb, ok1 := fu.(*types.Basic)
	tb, ok2 := tu.(*types.Basic)
	if ok1 && ok2 {
		fi, ti := fb.Info()&types.IsInteger != 0, tb.Info()&types.IsInteger != 0
		switch {
		case fi && ti:
			flo, fhi, _ := intRange(from)
			tlo, thi, tw := intRange(to)
			if flo.Cmp(tlo) >= 0 && fhi.Cmp(thi) <= 0 {
				return v
			}
			_ = tw
			t := asTerm(v)
			if t.n != nil && t.n.Cmp(tlo) >= 0 && t.n.Cmp(thi) <= 0 {
				return t
			}
			m := new(big.Int).Add(new(big.Int).Sub(thi, tlo), big.NewInt(1))
			if tlo.Sign() == 0 {
				return modE(t, bignum(m))
			}
			h := bignum(new(big.Int).Neg(tlo))
			return sub(modE(add(t, h), bignum(m)), h)
		case fi && !ti:
			return x.uf("i2f", SFlt, asTerm(v))
		case !fi && ti:
			r := x.uf("f2i/"+x.p.typeName(to), SInt, asTerm(v))
			x.typeFacts(st, r, to)
			return r
		default:
			return x.uf("f2f/"+x.p.typeName(to), SFlt, asTerm(v))
		}
	}
	unsup("conversion %s -> %s", from, to)
	return nil
}

// ---------------------------------------------------------------- maps

func (x *Exec) mapNames(mt *types.Map) (base string, ks Sort) {
	return "map<" + x.p.typeName(mt.Key()) + ">" + x.p.typeName(mt.Elem()), x.sortOf(mt.Key())
}

func (x *Exec) mapDom(st *State, m *Term, mt *types.Map) *Term {
	base, ks := x.mapNames(mt)
	return x.heapGet(st, base+".dom", arr(ks, SBool), m)
}

func (x *Exec) mapVals(st *State, m *Term, mt *types.Map) []*Term {
	base, ks := x.mapNames(mt)
	var out []*Term
	for _, l := range x.leaves(mt.Elem()) {
		out = append(out, x.heapGet(st, base+".val"+l.suffix, arr(ks, l.sort), m))
	}
	return out
}

func constArr(k, v Sort, e *Term) *Term {
	s := arr(k, v)
	return mk("(as const "+string(s)+")", s, e)
}

func (x *Exec) makeMap(st *State, mt *types.Map) *Term {
	r := x.alloc(st)
	base, ks := x.mapNames(mt)
	x.heapSet(st, base+".dom", r, constArr(ks, SBool, tFalse))
	for _, l := range x.leaves(mt.Elem()) {
		x.heapSet(st, base+".val"+l.suffix, r, x.freshT("mapval", arr(ks, l.sort)))
	}
	if x.ownsMaps(mt) {
		x.heapSet(st, "map.own", r, semp(SSeqS))
	}
	return r
}

func (x *Exec) mapUpdate(st *State, fr *Frame, ins *ssa.MapUpdate, pos token.Pos) {
	m := asTerm(x.val(st, ins.Map))
	mt := ins.Map.Type().Underlying().(*types.Map)
	if !st.nonnil[m.str] {
		x.oblige(st, "nil-map-write", not(eq(m, num(0))), pos)
		st.assume(not(eq(m, num(0))))
	}
	k := x.flatten(st, x.val(st, ins.Key), mt.Key())[0]
	v := x.val(st, ins.Value)
	x.escape(st, v)
	base, _ := x.mapNames(mt)
	x.heapSet(st, base+".dom", m, sto(x.mapDom(st, m, mt), k, tTrue))
	olds := x.mapVals(st, m, mt)
	for i, l := range x.leaves(mt.Elem()) {
		x.heapSet(st, base+".val"+l.suffix, m, sto(olds[i], k, x.flatten(st, v, mt.Elem())[i]))
	}
	if x.ownsMaps(mt) {
		b := x.flatten(st, v, mt.Elem())[0]
		y := x.unbox(b, mt).(*Term)
		if y.str != num(0).str {
			is := x.isTag(b, mt)
			x.heapSet(st, "map.own", y, ite(is, scat(x.heapGet(st, "map.own", SSeqS, m), sunit(k)), x.heapGet(st, "map.own", SSeqS, y)))
		}
	}
}

// ownsMaps: with option own, the ghost field own of a map[string]any holds
// the names it was stored under, from the map it hangs in: make sets it to
// none, m[k] = v sets own(v) to own(m), k when v is such a map.
func (x *Exec) ownsMaps(mt *types.Map) bool {
	if x.contract == nil {
		return false
	}
	if _, ok := x.contract.opts["own"]; !ok {
		return false
	}
	b, ok := mt.Key().Underlying().(*types.Basic)
	return ok && b.Kind() == types.String && types.IsInterface(mt.Elem())
}

func (x *Exec) lookup(fr *Frame, st *State, ins *ssa.Lookup, pos token.Pos) Value {
	if b, ok := ins.X.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsString != 0 {
		s, idx := asTerm(x.val(st, ins.X)), asTerm(x.val(st, ins.Index))
		x.oblige(st, "index", and(le(num(0), idx), lt(idx, slen(s))), pos)
		st.assume(and(le(num(0), idx), lt(idx, slen(s))))
		e := sat(s, idx)
		if e.n == nil {
			st.assume(and(le(num(0), e), le(e, num(255))))
		}
		return e
	}
	m := asTerm(x.val(st, ins.X))
	mt := ins.X.Type().Underlying().(*types.Map)
	k := x.flatten(st, x.val(st, ins.Index), mt.Key())[0]
	var ok *Term
	if m.n != nil && m.n.Sign() == 0 {
		ok = tFalse
	} else {
		ok = sel(x.mapDom(st, m, mt), k)
		if !st.nonnil[m.str] {
			ok = and(not(eq(m, num(0))), ok)
		}
	}
	zs := x.flatten(st, x.zero(mt.Elem()), mt.Elem())
	vs := x.mapVals(st, m, mt)
	var out []*Term
	for i, l := range x.leaves(mt.Elem()) {
		e := sel(vs[i], k)
		if l.typ != nil {
			x.elemFacts(st, e, l.typ)
		}
		out = append(out, ite(ok, e, zs[i]))
	}
	v := x.unflatten(out, mt.Elem())
	if ins.CommaOk {
		return TupleV{v, ok}
	}
	return v
}

type alt struct {
	st *State
	v  Value
}

// constLookup: with option splitmap, a lookup in a constant map is one path
// per value of the map and one for a missing key.
func (x *Exec) constLookup(st *State, ins *ssa.Lookup) []alt {
	if x.contract == nil {
		return nil
	}
	if _, ok := x.contract.opts["splitmap"]; !ok {
		return nil
	}
	u, ok := ins.X.(*ssa.UnOp)
	if !ok {
		return nil
	}
	g, ok := u.X.(*ssa.Global)
	if !ok {
		return nil
	}
	c := x.p.constGlobals()[g]
	mt, _ := ins.X.Type().Underlying().(*types.Map)
	if c == nil || !c.isMap || mt == nil || types.IsInterface(mt.Key()) || len(x.leaves(mt.Elem())) != 1 {
		return nil
	}
	k := x.flatten(st, x.val(st, ins.Index), mt.Key())[0]
	byVal := map[string][]*Term{}
	vals := map[string]*Term{}
	var order []string
	var none []*Term
	for i, kc := range c.keys {
		kt, vt := x.flatten(st, x.constVal(kc), mt.Key()), x.flatten(st, x.constVal(c.vals[i]), mt.Elem())
		if len(kt) != 1 || len(vt) != 1 {
			return nil
		}
		id := vt[0].str
		if _, ok := vals[id]; !ok {
			order = append(order, id)
			vals[id] = vt[0]
		}
		e := mk("=", SBool, k, kt[0])
		byVal[id] = append(byVal[id], e)
		none = append(none, not(e))
	}
	pack := func(t, ok *Term) Value {
		v := x.unflatten([]*Term{t}, mt.Elem())
		if ins.CommaOk {
			return TupleV{v, ok}
		}
		return v
	}
	var out []alt
	for _, id := range order {
		s := st.clone()
		s.assume(or(byVal[id]...))
		out = append(out, alt{s, pack(vals[id], tTrue)})
	}
	s := st.clone()
	s.assume(and(none...))
	return append(out, alt{s, pack(x.flatten(s, x.zero(mt.Elem()), mt.Elem())[0], tFalse)})
}

func (x *Exec) rangeOver(st *State, ins *ssa.Range) Value {
	mt, ok := ins.X.Type().Underlying().(*types.Map)
	if !ok {
		unsup("range over %s", ins.X.Type())
	}
	x.ctr++
	m := asTerm(x.val(st, ins.X))
	_, ks := x.mapNames(mt)
	it := &IterV{id: fmt.Sprintf("iter#%d", x.ctr), m: m, mt: mt, dom0: x.mapDom(st, m, mt)}
	st.iters[it.id] = constArr(ks, SBool, tFalse)
	return it
}

func (x *Exec) nextOf(fr *Frame, st *State, ins *ssa.Next) Value {
	it := x.val(st, ins.Iter).(*IterV)
	_, ks := x.mapNames(it.mt)
	ok := x.freshT("ok", SBool)
	k := x.freshT("k", ks)
	x.typeFacts(st, k, it.mt.Key())
	vis := st.iters[it.id]
	dom := x.mapDom(st, it.m, it.mt)
	isNil := eq(it.m, num(0))
	if st.nonnil[it.m.str] {
		isNil = tFalse
	}
	st.assume(imp(ok, and(not(isNil), sel(dom, k), not(sel(vis, k)))))
	q := fmt.Sprintf("q?%d", x.ctr)
	qv := cst(q, ks)
	st.assume(imp(not(ok), or(isNil, quant("forall", []bvar{{q, ks}}, imp(and(sel(dom, qv), sel(it.dom0, qv)), sel(vis, qv)), [][]*Term{{sel(vis, qv)}, {sel(dom, qv)}, {sel(it.dom0, qv)}}))))
	nv := x.freshT("visited", arr(ks, SBool))
	st.assume(mk("=", SBool, nv, ite(ok, sto(vis, k, tTrue), vis)))
	st.iters[it.id] = nv
	vs := x.mapVals(st, it.m, it.mt)
	var out []*Term
	for i, l := range x.leaves(it.mt.Elem()) {
		e := sel(vs[i], k)
		if l.typ != nil {
			x.elemFacts(st, e, l.typ)
		}
		out = append(out, e)
	}
	return TupleV{ok, x.unflatten([]*Term{k}, it.mt.Key()), x.unflatten(out, it.mt.Elem())}
}

func (x *Exec) implPred(v *Term, it *types.Interface, name types.Type) *Term {
	if it.Empty() {
		return not(eq(v, cst("nilV", SVal)))
	}
	tg := x.tagOf(v)
	if tg.n != nil {
		if tg.n.Sign() == 0 {
			return tFalse
		}
		t := x.tagTypes[int(tg.n.Int64())]
		return boolT(types.Implements(t, it))
	}
	p := "impl/" + sanitize(x.p.typeName(name))
	if _, ok := x.ufs[p]; !ok {
		x.declareUF(p, []Sort{SInt}, SBool)
		x.impls = append(x.impls, implP{p, it})
		x.addAxiom(fmt.Sprintf("(not (%s 0))", p))
		ids := make([]int, 0)
		for id := range x.tagTypes {
			ids = append(ids, id)
		}
		sort.Ints(ids)
		for _, id := range ids {
			if types.Implements(x.tagTypes[id], it) {
				x.addAxiom(fmt.Sprintf("(%s %d)", p, id))
			} else {
				x.addAxiom(fmt.Sprintf("(not (%s %d))", p, id))
			}
		}
	}
	return mk(p, SBool, tg)
}

func (x *Exec) typeAssert(fr *Frame, st *State, ins *ssa.TypeAssert, pos token.Pos) Value {
	v := asTerm(x.val(st, ins.X))
	t := ins.AssertedType
	var ok *Term
	var res Value
	if it, isI := t.Underlying().(*types.Interface); isI {
		ok = x.implPred(v, it, t)
		if types.Implements(ins.X.Type(), it) {
			ok = not(eq(v, cst("nilV", SVal)))
		}
		res = v
	} else {
		ok = x.isTag(v, t)
		res = x.unbox(v, t)
		for i, l := range x.leaves(t) {
			if l.typ == nil {
				continue
			}
			ts := x.flatten(st, res, t)
			if lo, hi, _ := intRange(l.typ); lo != nil && ts[i].n == nil && l.sort == SInt {
				st.assume(imp(ok, and(le(bignum(lo), ts[i]), le(ts[i], bignum(hi)))))
			}
			switch l.typ.Underlying().(type) {
			case *types.Pointer, *types.Map:
				st.assume(imp(ok, lt(ts[i], st.next)))
			}
		}
		if s, isS := res.(*SliceV); isS {
			st.assume(imp(ok, imp(s.nilf, eq(slen(s.seq), num(0)))))
		}
	}
	if !ins.CommaOk {
		x.oblige(st, "type-assertion", ok, pos)
		st.assume(ok)
		return res
	}
	zs := x.flatten(st, x.zero(t), t)
	rs := x.flatten(st, res, t)
	out := make([]*Term, len(rs))
	for i := range rs {
		out[i] = ite(ok, rs[i], zs[i])
	}
	return TupleV{x.unflatten(out, t), ok}
}

type implP struct {
	name string
	it   *types.Interface
}
