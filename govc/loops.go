package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// loop modification set
type modSet struct {
	heap  map[string]bool
	cells map[string]bool
	iters map[string]bool
	ghost map[string]bool
	next  bool
	phi   map[ssa.Value]string // kind of havoc of a slice phi: same, own, seq
	keep  map[ssa.Value]bool   // phis never changed
}

func headerPhis(b *ssa.BasicBlock) []*ssa.Phi {
	var out []*ssa.Phi
	for _, ins := range b.Instrs {
		p, ok := ins.(*ssa.Phi)
		if !ok {
			break
		}
		out = append(out, p)
	}
	return out
}

// havocLoop turns an entry state into an arbitrary-iteration state.
func (x *Exec) havocLoop(init *State, L *Loop, ms *modSet) *State {
	st := init.clone()
	if ms.next {
		n := x.freshT("next", SInt)
		st.assume(le(init.next, n))
		st.next = n
	}
	for _, name := range sortedKeys(ms.heap) {
		if h, ok := init.heap[name]; ok {
			x.heapHavoc(st, name, h.sort)
		} else if h, ok := x.heapInit[name]; ok {
			x.heapHavoc(st, name, h.sort)
		}
	}
	for _, name := range sortedKeys(ms.ghost) {
		s := x.ghostSort(init, name)
		st.ghost[name] = x.freshT("ghost/"+name, s)
	}
	for _, id := range sortedKeys(ms.iters) {
		st.iters[id] = x.freshT("visited", init.iters[id].sort)
	}
	for _, id := range sortedKeys(ms.cells) {
		switch v := init.cells[id].(type) {
		case *Term:
			n := x.freshT("cell", v.sort)
			if isSeq(v.sort) && strings.HasPrefix(id, "arr#") {
				st.assume(eq(slen(n), slen(v)))
			}
			st.cells[id] = n
			if t := x.cellTypes[id]; t != nil {
				x.typeFacts(st, n, t)
			}
		case *SliceV:
			q := x.freshT("cell", x.seqSort(v.elem))
			nl := x.freshT("nil", SBool)
			s := &SliceV{seq: q, nilf: nl, elem: v.elem}
			x.sliceFacts(st, s)
			st.cells[id] = s
		case *StructV:
			st.cells[id] = x.fresh(st, "cell", v.typ)
		default:
			unsup("loop modifies a variable holding %T", v)
		}
	}
	for _, phi := range headerPhis(L.header) {
		if ms.keep[phi] {
			continue
		}
		iv := init.env[phi]
		switch v := iv.(type) {
		case *SliceV:
			switch ms.phi[phi] {
			case "same":
				lo, hi := x.freshT("lo", SInt), x.freshT("hi", SInt)
				c := st.cells[v.cell.id].(*Term)
				st.assume(and(le(num(0), lo), le(lo, hi), le(hi, slen(c))))
				st.env[phi] = &SliceV{nilf: v.nilf, cell: v.cell, lo: lo, hi: hi, elem: v.elem}
			case "own":
				q := x.freshT(phi.Comment, x.seqSort(v.elem))
				s := x.newSlice(st, q, v.elem, slen(q))
				s.nilf = x.freshT("nil", SBool)
				st.assume(imp(s.nilf, eq(slen(q), num(0))))
				st.env[phi] = s
			default:
				st.env[phi] = x.fresh(st, phi.Comment, phi.Type())
			}
		case *AddrV:
			unsup("loop variable holding an address")
		case *FuncV:
			st.env[phi] = x.freshT("func", SInt)
		default:
			st.env[phi] = x.fresh(st, phi.Comment, phi.Type())
		}
	}
	return st
}

func (x *Exec) ghostSort(st *State, name string) Sort {
	if name == "$log" {
		return SSeqV
	}
	if g, ok := st.ghost[name]; ok {
		return g.sort
	}
	return x.stySort(x.parseType(x.sp.ghostPkg[name], x.sp.ghosts[name]))
}

func sameVal(a, b Value) bool {
	switch a := a.(type) {
	case *Term:
		t, ok := b.(*Term)
		return ok && t.str == a.str
	case *SliceV:
		t, ok := b.(*SliceV)
		if !ok {
			return false
		}
		if a.cell != nil || t.cell != nil {
			return a.cell == t.cell && a.lo.str == t.lo.str && a.hi.str == t.hi.str
		}
		return a.seq.str == t.seq.str && a.nilf.str == t.nilf.str
	case *FuncV:
		return a == b
	case *AddrV:
		t, ok := b.(*AddrV)
		return ok && (a == t || a.kind == t.kind && a.cell == t.cell && a.base == t.base && sameT(a.ref, t.ref) && sameT(a.idx, t.idx) && sameT(a.seq, t.seq))
	case *StructV:
		t, ok := b.(*StructV)
		if !ok {
			return false
		}
		for i := range a.fields {
			if !sameVal(a.fields[i], t.fields[i]) {
				return false
			}
		}
		return true
	case TupleV:
		t, ok := b.(TupleV)
		if !ok || len(a) != len(t) {
			return false
		}
		for i := range a {
			if !sameVal(a[i], t[i]) {
				return false
			}
		}
		return true
	}
	return a == b
}

func sameT(a, b *Term) bool {
	if a == nil || b == nil {
		return a == b
	}
	return a.str == b.str
}

// diff adds to ms what changed between the header state h and the back state b.
func (x *Exec) diffLoop(ms *modSet, L *Loop, init, h, b *State) bool {
	ch := false
	add := func(m map[string]bool, k string) {
		if !m[k] {
			m[k] = true
			ch = true
		}
	}
	for k, v := range b.heap {
		if o := h.heap[k]; o == nil {
			if i := x.heapInit[k]; i == nil || i.str != v.str {
				add(ms.heap, k)
			}
		} else if o.str != v.str {
			add(ms.heap, k)
		}
	}
	for k, v := range b.ghost {
		if o := h.ghost[k]; o == nil || o.str != v.str {
			add(ms.ghost, k)
		}
	}
	for k, v := range h.cells {
		if _, ok := init.cells[k]; !ok {
			continue
		}
		if !sameVal(v, b.cells[k]) {
			add(ms.cells, k)
		}
	}
	for k, v := range h.iters {
		if b.iters[k].str != v.str {
			add(ms.iters, k)
		}
	}
	if b.next.str != h.next.str && !ms.next {
		ms.next, ch = true, true
	}
	for _, phi := range headerPhis(L.header) {
		hv, bv := h.env[phi], b.env[phi]
		if ms.keep[phi] && !sameVal(hv, bv) {
			delete(ms.keep, phi)
			ch = true
		}
		if hs, ok := hv.(*SliceV); ok && !ms.keep[phi] {
			bs, ok := bv.(*SliceV)
			k := ms.phi[phi]
			nk := k
			if k == "same" && (!ok || bs.cell != hs.cell) {
				nk = "own"
			}
			if (nk == "own" || k == "own") && !(ok && (bs.cell != nil && !b.esc[bs.cell.id] || bs == hs)) {
				nk = "seq"
			}
			if nk != k {
				ms.phi[phi] = nk
				ch = true
			}
		}
	}
	return ch
}

// runBody executes the loop body once from header state st; returns the states
// at the back edges (and, if final, the outcomes of everything after the loop).
func (x *Exec) runBody(fr *Frame, st *State, L *Loop, dry bool) ([]*State, []Outcome) {
	n := len(headerPhis(L.header))
	lr := &loopRun{L: L, fr: fr, dry: dry, started: n > 0}
	st.active = append(st.active[:len(st.active):len(st.active)], lr)
	outs := x.run(fr, st, L.header, nil, n)
	if x.merging() {
		lr.backs = x.mergeStates(lr.backs, L.header)
	}
	return lr.backs, outs
}

type cand struct {
	name string
	f    func(st *State) *Term
	must bool
}

func (x *Exec) cutLoop(fr *Frame, st *State, L *Loop, prev *ssa.BasicBlock) []Outcome {
	x.setPhis(st, L.header, prev)
	init := st.clone()
	ms := &modSet{heap: map[string]bool{}, cells: map[string]bool{}, iters: map[string]bool{}, ghost: map[string]bool{}, phi: map[ssa.Value]string{}, keep: map[ssa.Value]bool{}}
	for _, phi := range headerPhis(L.header) {
		ms.keep[phi] = true
		if s, ok := init.env[phi].(*SliceV); ok {
			switch {
			case s.cell != nil:
				ms.phi[phi] = "same"
			case s.nilf == tTrue || s.seq.op == sq("emp", s.seq.sort):
				ms.phi[phi] = "own"
			default:
				ms.phi[phi] = "seq"
			}
		}
	}
	x.dry++
	x.modOnly++
	for round := 0; ; round++ {
		if round > 20 {
			x.dry--
			x.modOnly--
			unsup("loop modification set does not stabilise")
		}
		h := x.havocLoop(init, L, ms)
		hs := h.clone()
		backs, _ := x.runBody(fr, h, L, true)
		ch := false
		for _, b := range backs {
			if x.diffLoop(ms, L, init, hs, b) {
				ch = true
			}
		}
		if !ch {
			break
		}
	}
	x.modOnly--
	x.dry--

	var cands []cand
	if x.modOnly == 0 {
		cands = x.houdini(fr, init, L, ms)
	}
	h := x.havocLoop(init, L, ms)
	for _, c := range cands {
		h.assume(c.f(h))
	}
	// remember where the cells of "own" slices live
	_, outs := x.runBody(fr, h, L, false)
	return outs
}

func (x *Exec) houdini(fr *Frame, init *State, L *Loop, ms *modSet) []cand {
	cands := x.candidates(fr, init, L, ms)
	pos := L.header.Instrs[0].Pos()
	if !pos.IsValid() {
		for _, i := range L.header.Instrs {
			if i.Pos().IsValid() {
				pos = i.Pos()
				break
			}
		}
	}
	// initially
	var goals []goalReq
	for _, c := range cands {
		goals = append(goals, goalReq{pc: init.pc, goal: c.f(init), must: c.must})
	}
	ok := x.proveAll(goals)
	var keep []cand
	for i, c := range cands {
		if ok[i] {
			keep = append(keep, c)
		} else if c.must {
			x.noted["loop "+x.posStr(pos)+": invariant "+c.name+" does not hold on entry"] = true
		}
	}
	cands = keep
	for round := 0; ; round++ {
		h := x.havocLoop(init, L, ms)
		for _, c := range cands {
			h.assume(c.f(h))
		}
		x.dry++
		backs, _ := x.runBody(fr, h, L, true)
		x.dry--
		goals = goals[:0]
		var owner []int
		for _, b := range backs {
			for i, c := range cands {
				goals = append(goals, goalReq{pc: b.pc, goal: c.f(b), trace: b.trace, must: c.must})
				owner = append(owner, i)
			}
		}
		ok := x.proveAll(goals)
		bad := map[int]bool{}
		for i := range goals {
			if !ok[i] {
				if !bad[owner[i]] && cands[owner[i]].must {
					x.noted["loop "+x.posStr(pos)+": invariant "+cands[owner[i]].name+" not preserved along "+strings.Join(goals[i].trace, ", ")] = true
				}
				bad[owner[i]] = true
			}
		}
		if len(bad) == 0 {
			if x.dry == 0 {
				for i := range cands {
					x.obls = append(x.obls, &Obl{Fn: x.fnKey, Name: "loop-invariant:" + cands[i].name, Pos: x.posStr(pos), done: true, Result: "unsat", Backend: "z3"})
				}
				x.nInv += len(cands)
			}
			return cands
		}
		keep = nil
		for i, c := range cands {
			if !bad[i] {
				keep = append(keep, c)
			}
		}
		cands = keep
		if len(cands) == 0 {
			return nil
		}
	}
}

// candidates builds the candidate invariants of a loop.
func (x *Exec) candidates(fr *Frame, init *State, L *Loop, ms *modSet) []cand {
	var out []cand
	addC := func(name string, f func(st *State) *Term) { out = append(out, cand{name: name, f: f}) }
	// integer phis: bounds
	var ints []*ssa.Phi
	for _, phi := range headerPhis(L.header) {
		if ms.keep[phi] {
			continue
		}
		if b, ok := phi.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
			ints = append(ints, phi)
		}
		if s, ok := init.env[phi].(*SliceV); ok && ms.phi[phi] == "same" {
			phi := phi
			get := func(st *State) *SliceV { return st.env[phi].(*SliceV) }
			addC("lo>=init", func(st *State) *Term { return le(s.lo, get(st).lo) })
			addC("hi==init", func(st *State) *Term { return eq(s.hi, get(st).hi) })
			addC("lo==init", func(st *State) *Term { return eq(s.lo, get(st).lo) })
			addC("hi<=init", func(st *State) *Term { return le(get(st).hi, s.hi) })
		}
	}
	for _, phi := range ints {
		phi := phi
		iv := asTerm(init.env[phi])
		get := func(st *State) *Term { return asTerm(st.env[phi]) }
		nm := phi.Comment
		if nm == "" {
			nm = phi.Name()
		}
		addC(nm+">=init", func(st *State) *Term { return le(iv, get(st)) })
		addC(nm+"<=init", func(st *State) *Term { return le(get(st), iv) })
		if iv.n == nil || iv.n.Sign() > 0 {
			addC(nm+">=0", func(st *State) *Term { return le(num(0), get(st)) })
			addC(nm+">=-1", func(st *State) *Term { return le(num(-1), get(st)) })
		}
		for _, bnd := range x.loopBounds(fr, init, L, ms) {
			bnd := bnd
			addC(nm+"<=bound", func(st *State) *Term { return le(get(st), bnd(st)) })
			addC(nm+"<bound", func(st *State) *Term { return lt(get(st), bnd(st)) })
		}
	}
	// counters that move together
	for i, a := range ints {
		for _, b := range ints[:i] {
			a, b := a, b
			a0, b0 := asTerm(init.env[a]), asTerm(init.env[b])
			addC("step", func(st *State) *Term {
				return eq(add(asTerm(st.env[a]), b0), add(asTerm(st.env[b]), a0))
			})
		}
	}
	// objects that existed before the loop keep their fields
	if ms.next {
		for _, name := range sortedKeys(ms.heap) {
			name := name
			h0, ok := init.heap[name]
			if !ok {
				h0 = x.heapInit[name]
			}
			if h0 == nil || !strings.HasPrefix(string(h0.sort), "(Array Int") {
				continue
			}
			addC("frame:"+name, func(st *State) *Term {
				x.ctr++
				q := fmt.Sprintf("r?%d", x.ctr)
				r := cst(q, SInt)
				h := x.heapVar(st, name, h0.sort)
				return quant("forall", []bvar{{q, SInt}}, imp(x.isOldRef(r, init.next), eq(sel(h, r), sel(h0, r))), [][]*Term{{sel(h, r)}})
			})
		}
	}
	// objects that existed when the function was entered keep their fields
	if x.entry != nil && x.entry.next.str != init.next.str {
		for _, name := range sortedKeys(ms.heap) {
			h0, ok := init.heap[name]
			if !ok {
				h0 = x.heapInit[name]
			}
			if h0 == nil || !strings.HasPrefix(string(h0.sort), "(Array Int") {
				continue
			}
			addC("frame0:"+name, func(st *State) *Term {
				x.ctr++
				q := fmt.Sprintf("r?%d", x.ctr)
				r := cst(q, SInt)
				h := x.heapVar(st, name, h0.sort)
				return quant("forall", []bvar{{q, SInt}}, imp(x.isOldRef(r, x.entry.next), eq(sel(h, r), sel(h0, r))), [][]*Term{{sel(h, r)}})
			})
		}
	}
	// only what the contract allows to change has changed
	if x.contract != nil && x.entry != nil {
		locs := x.modLocs(x.contract)
		e0 := &evCtx{x: x, st: x.entry, env: x.params, pkg: x.contract.pkg}
		for _, name := range sortedKeys(ms.heap) {
			l := locs[name]
			if l == nil || len(l.at) == 0 || l.glob || l.ghost {
				continue
			}
			h0 := x.heapVar(x.entry, name, arr(SInt, l.sort))
			addC("frame1:"+name, func(st *State) *Term {
				x.ctr++
				q := fmt.Sprintf("r?%d", x.ctr)
				r := cst(q, SInt)
				pre := []*Term{x.isOldRef(r, x.entry.next)}
				for _, a := range l.at {
					pre = append(pre, not(eq(r, e0.term(a))))
				}
				h := x.heapVar(st, name, h0.sort)
				return quant("forall", []bvar{{q, SInt}}, imp(and(pre...), eq(sel(h, r), sel(h0, r))), [][]*Term{{sel(h, r)}})
			})
		}
	}
	// contract templates
	if x.contract != nil {
		for i, inv := range x.contract.invs {
			lbl := inv.label
			if lbl == "" {
				lbl = fmt.Sprint(i + 1)
			}
			for _, bind := range x.holeBinds(inv.ex, fr, init, L, ms) {
				bind := bind
				inv := inv
				f := func(st *State) *Term {
					ev := &evCtx{x: x, st: st, old: x.entry, init: init, env: cloneMap(x.params), pkg: x.contract.pkg}
					x.localNames(ev, st, L)
					for n, g := range bind {
						ev.env[n] = g(st)
					}
					return ev.bool(inv.ex)
				}
				// a template that does not apply here is no candidate
				if !x.applies(f, init) {
					continue
				}
				out = append(out, cand{name: lbl, f: f, must: true})
			}
		}
	}
	// dedupe by initial formula and havoc formula
	return out
}

func (x *Exec) applies(f func(st *State) *Term, st *State) (ok bool) {
	defer func() {
		if r := recover(); r != nil {
			ok = false
		}
	}()
	f(st)
	return true
}

// loopBounds finds expressions compared with something inside the loop.
func (x *Exec) loopBounds(fr *Frame, init *State, L *Loop, ms *modSet) []func(st *State) *Term {
	var out []func(st *State) *Term
	seen := map[string]bool{}
	var blocks []*ssa.BasicBlock
	for b := range L.blocks {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	add := func(v ssa.Value) {
		switch v := v.(type) {
		case *ssa.Const:
			if _, ok := x.constVal(v).(*Term); ok && v.Value != nil {
				if b, ok := v.Type().Underlying().(*types.Basic); ok && b.Info()&types.IsInteger != 0 {
					t := x.constVal(v).(*Term)
					if !seen[t.str] {
						seen[t.str] = true
						out = append(out, func(*State) *Term { return t })
					}
				}
			}
			return
		case *ssa.Phi:
			if v.Block() == L.header && !ms.keep[v] {
				if !seen[v.Name()] {
					seen[v.Name()] = true
					out = append(out, func(st *State) *Term { return asTerm(st.env[v]) })
				}
				return
			}
		case *ssa.Call:
			if b, ok := v.Call.Value.(*ssa.Builtin); ok && b.Name() == "len" && len(v.Call.Args) == 1 {
				a := v.Call.Args[0]
				if iv, ok := init.env[a]; ok {
					if !seen["len:"+a.Name()] {
						seen["len:"+a.Name()] = true
						_ = iv
						out = append(out, func(st *State) *Term {
							switch s := st.env[a].(type) {
							case *SliceV:
								return x.sliceLen(st, s)
							case *Term:
								if isSeq(s.sort) {
									return slen(s)
								}
							}
							return num(0)
						})
					}
					return
				}
			}
		}
		if iv, ok := init.env[v]; ok {
			if t, ok := iv.(*Term); ok && t.sort == SInt {
				if !seen[t.str] {
					seen[t.str] = true
					out = append(out, func(*State) *Term { return t })
				}
			}
		}
	}
	for _, b := range blocks {
		for _, ins := range b.Instrs {
			if bo, ok := ins.(*ssa.BinOp); ok {
				switch bo.Op {
				case token.LSS, token.LEQ, token.GTR, token.GEQ, token.NEQ, token.EQL:
					if bt, ok := bo.X.Type().Underlying().(*types.Basic); ok && bt.Info()&types.IsInteger != 0 {
						add(bo.X)
						add(bo.Y)
					}
				}
			}
		}
	}
	if len(out) > 6 {
		out = out[:6]
	}
	return out
}

// localNames makes the variables of the loop known by their name in the source.
func (x *Exec) localNames(ev *evCtx, st *State, L *Loop) {
	for _, phi := range headerPhis(L.header) {
		if n := phi.Comment; n != "" {
			if _, ok := ev.env[n]; !ok {
				ev.env[n] = SV{v: st.env[phi], gt: phi.Type()}
			}
		}
	}
	for id, v := range st.cells {
		if i := strings.Index(id, "#"); i > 0 && !strings.HasPrefix(id, "arr#") {
			if _, ok := ev.env[id[:i]]; !ok {
				ev.env[id[:i]] = SV{v: v, gt: x.cellTypes[id]}
			}
		}
	}
}

type holeVal func(st *State) SV

// holeBinds enumerates the instantiations of the $holes of a template.
func (x *Exec) holeBinds(e *Ex, fr *Frame, init *State, L *Loop, ms *modSet) []map[string]holeVal {
	holes := map[string]string{}
	var order []string
	var walk func(e *Ex)
	walk = func(e *Ex) {
		if e == nil {
			return
		}
		if e.op == "id" && strings.HasPrefix(e.name, "$") && len(e.vars) == 1 {
			if _, ok := holes[e.name]; !ok {
				holes[e.name] = e.vars[0].typ
				order = append(order, e.name)
			}
		}
		for _, a := range e.args {
			walk(a)
		}
		for _, tr := range e.trigs {
			for _, a := range tr {
				walk(a)
			}
		}
	}
	walk(e)
	binds := []map[string]holeVal{{}}
	for _, h := range order {
		opts := x.holeOptions(holes[h], init, L, ms)
		var nb []map[string]holeVal
		for _, b := range binds {
			for _, o := range opts {
				m := cloneMap(b)
				m[h] = o
				nb = append(nb, m)
			}
		}
		binds = nb
		if len(binds) > 64 {
			binds = binds[:64]
		}
	}
	return binds
}

func (x *Exec) holeOptions(typ string, init *State, L *Loop, ms *modSet) []holeVal {
	var out []holeVal
	if typ == "visited" {
		for _, id := range sortedKeys(ms.iters) {
			id := id
			k, _ := arrParts(init.iters[id].sort)
			kt := sty{gt: tyStr}
			if k == SInt {
				kt = sty{gt: tyInt}
			}
			out = append(out, func(st *State) SV {
				return SV{v: st.iters[id], ar: &arrTy{kt, sty{gt: tyBool}}}
			})
		}
		return out
	}
	if typ == "made" { // a map[string]any made before the loop
		seen := map[string]*Term{}
		gt := x.parseType(x.contract.pkg, "gomap[string]any").gt
		for v, t := range init.env {
			if _, ok := v.(*ssa.MakeMap); ok && types.Identical(v.Type().Underlying(), gt.Underlying()) {
				if tm, ok := t.(*Term); ok {
					seen[tm.str] = tm
				}
			}
		}
		for _, k := range sortedKeys(seen) {
			tm := seen[k]
			out = append(out, func(st *State) SV { return SV{v: tm, gt: gt} })
		}
		return out
	}
	if typ == "list" { // a []string that the loop reads and does not change
		seen := map[string]*SliceV{}
		for b := range L.blocks {
			for _, ins := range b.Instrs {
				var ops [8]*ssa.Value
				for _, o := range ins.Operands(ops[:0]) {
					if *o == nil || (*o).Type() == nil || !types.Identical((*o).Type().Underlying(), types.NewSlice(tyStr)) {
						continue
					}
					if phi, ok := (*o).(*ssa.Phi); ok && phi.Block() == L.header && !ms.keep[phi] {
						continue
					}
					if v, ok := init.env[*o].(*SliceV); ok && v.seq != nil {
						seen[v.seq.str] = v
					}
				}
			}
		}
		for _, k := range sortedKeys(seen) {
			v := seen[k]
			out = append(out, func(st *State) SV { return SV{v: v, gt: types.NewSlice(tyStr)} })
		}
		return out
	}
	if typ == "text" { // a string that the loop reads and does not change
		texts, seen := map[string]*Term{}, map[string]bool{}
		for b := range L.blocks {
			for _, ins := range b.Instrs {
				var ops [8]*ssa.Value
				for _, o := range ins.Operands(ops[:0]) {
					if *o == nil || (*o).Type() == nil {
						continue
					}
					bt, ok := (*o).Type().Underlying().(*types.Basic)
					if !ok || bt.Kind() != types.String {
						continue
					}
					if _, c := (*o).(*ssa.Const); c {
						continue
					}
					if phi, ok := (*o).(*ssa.Phi); ok && phi.Block() == L.header && !ms.keep[phi] {
						continue
					}
					if tm, ok := init.env[*o].(*Term); ok {
						seen[tm.str] = true
						tm := tm
						if _, dup := texts[tm.str]; !dup {
							texts[tm.str] = tm
						}
					}
				}
			}
		}
		for _, k := range sortedKeys(seen) {
			tm := texts[k]
			out = append(out, func(st *State) SV { return SV{v: tm, gt: tyStr} })
		}
		return out
	}
	if typ == "pos" { // a loop variable of type int, itself only
		for _, phi := range headerPhis(L.header) {
			if !ms.keep[phi] && types.Identical(phi.Type(), types.Typ[types.Int]) {
				out = append(out, func(st *State) SV { return SV{v: st.env[phi], gt: tyInt} })
			}
		}
		return out
	}
	want := x.parseType(x.contract.pkg, typ)
	match := func(t types.Type) bool {
		if types.Identical(t, want.gt) {
			return true
		}
		if want.gt == tyInt {
			b, ok := t.Underlying().(*types.Basic)
			return ok && b.Info()&types.IsInteger != 0
		}
		return x.p.typeName(t) == x.p.typeName(want.gt)
	}
	wantSeq := typ == "seq" || typ == "seqs" || typ == "vals" || strings.HasPrefix(typ, "[]")
	for _, phi := range headerPhis(L.header) {
		phi := phi
		if ms.keep[phi] {
			continue
		}
		t := phi.Type()
		ok := match(t)
		if !ok && wantSeq {
			if s, isS := t.Underlying().(*types.Slice); isS {
				ok = x.seqSort(s.Elem()) == x.stySort(want)
			}
		}
		if !ok {
			continue
		}
		gt := t
		if want.gt == tyInt {
			gt = tyInt
		}
		out = append(out, func(st *State) SV { return SV{v: st.env[phi], gt: gt} })
		if want.gt == tyInt {
			out = append(out, func(st *State) SV { return SV{v: add(asTerm(st.env[phi]), num(1)), gt: gt} })
		}
	}
	for _, id := range sortedKeys(ms.cells) {
		id := id
		t := x.cellTypes[id]
		if t == nil {
			continue
		}
		ok := match(t)
		if !ok && wantSeq {
			if s, isS := t.Underlying().(*types.Slice); isS {
				ok = x.seqSort(s.Elem()) == x.stySort(want)
			}
		}
		if ok {
			out = append(out, func(st *State) SV { return SV{v: st.cells[id], gt: t} })
		}
	}
	if _, isP := want.gt.(*types.Pointer); isP {
		seen := map[string]bool{}
		var vs []ssa.Value
		for v := range init.env {
			vs = append(vs, v)
		}
		sort.Slice(vs, func(i, j int) bool { return vs[i].Name() < vs[j].Name() })
		for _, v := range vs {
			tm, ok := init.env[v].(*Term)
			if !ok || seen[tm.str] || !match(v.Type()) {
				continue
			}
			if phi, ok := v.(*ssa.Phi); ok && phi.Block() == L.header && !ms.keep[phi] {
				continue
			}
			seen[tm.str] = true
			gt := v.Type()
			out = append(out, func(st *State) SV { return SV{v: tm, gt: gt} })
		}
	}
	return out
}
