package main

import (
	"os"
	"sort"

	"golang.org/x/tools/go/ssa"
)

// State merging (option merge): the states that reach a join point of the
// control-flow graph are combined into one. What differs becomes a fresh
// constant defined by (ite selector a b); the facts of one side are guarded by
// the selector. Selectors are the branch condition, or a fresh boolean.

type pending struct {
	states map[*ssa.BasicBlock][]*State
}

func (x *Exec) merging() bool {
	if x.contract == nil {
		return false
	}
	_, ok := x.contract.opts["merge"]
	ok = ok || os.Getenv("GOVC_MERGE") != ""
	return ok
}

// rpo numbers the blocks in reverse postorder, loop bodies before loop exits.
func (fr *Frame) rpo(b *ssa.BasicBlock) int {
	if fr.order == nil {
		fr.order = map[*ssa.BasicBlock]int{}
		n := len(fr.fn.Blocks)
		seen := map[*ssa.BasicBlock]bool{}
		var dfs func(b *ssa.BasicBlock)
		dfs = func(b *ssa.BasicBlock) {
			seen[b] = true
			for i := len(b.Succs) - 1; i >= 0; i-- {
				if !seen[b.Succs[i]] {
					dfs(b.Succs[i])
				}
			}
			n--
			fr.order[b] = n
		}
		dfs(fr.fn.Blocks[0])
	}
	return fr.order[b]
}

// arrive hands a state over to block b; false: the block is a loop header and
// is to be entered directly.
func (x *Exec) arrive(fr *Frame, st *State, b, prev *ssa.BasicBlock) bool {
	if fr.loops[b] != nil {
		return false
	}
	for len(st.active) > 0 {
		lr := st.active[len(st.active)-1]
		if lr.fr != fr || lr.L.blocks[b] {
			break
		}
		if lr.dry {
			return true
		}
		st.active = st.active[:len(st.active)-1]
	}
	x.setPhis(st, b, prev)
	fr.pend.states[b] = append(fr.pend.states[b], st)
	return true
}

func (x *Exec) runMerged(fr *Frame, st *State, b, prev *ssa.BasicBlock, i int) []Outcome {
	save := fr.pend
	fr.pend = &pending{states: map[*ssa.BasicBlock][]*State{}}
	defer func() { fr.pend = save }()
	outs := x.run1(fr, st, b, prev, i)
	for len(fr.pend.states) > 0 {
		var nb *ssa.BasicBlock
		for c := range fr.pend.states {
			if nb == nil || fr.rpo(c) < fr.rpo(nb) {
				nb = c
			}
		}
		sts := fr.pend.states[nb]
		delete(fr.pend.states, nb)
		for _, s := range x.mergeStates(sts, nb) {
			outs = append(outs, x.run1(fr, s, nb, nil, len(headerPhis(nb)))...)
		}
	}
	return outs
}

func (x *Exec) mergeStates(sts []*State, b *ssa.BasicBlock) []*State {
	var out []*State
next:
	for _, s := range sts {
		for k, o := range out {
			if m := x.merge2(o, s, b, nil, nil, nil); m != nil {
				out[k] = m
				continue next
			}
		}
		out = append(out, s)
	}
	return out
}

func (x *Exec) mergeOutcomes(outs []Outcome) []Outcome {
	var res []Outcome
next:
	for _, o := range outs {
		for k, p := range res {
			if len(p.res) != len(o.res) {
				continue
			}
			rs := make([]Value, len(p.res))
			if m := x.merge2(p.st, o.st, nil, p.res, o.res, rs); m != nil {
				res[k] = Outcome{m, rs}
				continue next
			}
		}
		res = append(res, o)
	}
	return res
}

type merger struct {
	x    *Exec
	a, b *State
	m    *State
	sel  *Term
	defs []*Term
}

func (g *merger) term(p, q *Term) (*Term, bool) {
	if p.str == q.str {
		return p, true
	}
	if p.sort != q.sort {
		return nil, false
	}
	k := g.x.freshT("mrg", p.sort)
	g.defs = append(g.defs, imp(g.sel, mk("=", SBool, k, p)), imp(not(g.sel), mk("=", SBool, k, q)))
	return k, true
}

func (g *merger) val(p, q Value) (Value, bool) {
	if sameVal(p, q) {
		return p, true
	}
	switch p := p.(type) {
	case *Term:
		if q, ok := q.(*Term); ok {
			return g.term2(p, q)
		}
	case *SliceV:
		q, ok := q.(*SliceV)
		if !ok {
			return nil, false
		}
		if p.cell != nil && p.cell == q.cell {
			lo, _ := g.term(p.lo, q.lo)
			hi, _ := g.term(p.hi, q.hi)
			n := *p
			n.lo, n.hi = lo, hi
			return &n, true
		}
		ps, qs := g.x.seqOf(g.a, p), g.x.seqOf(g.b, q)
		g.x.escape(g.m, p)
		g.x.escape(g.m, q)
		s, ok := g.term(ps, qs)
		if !ok {
			return nil, false
		}
		nf := func(s *SliceV) *Term {
			if s.nilf == nil {
				return tFalse
			}
			return s.nilf
		}
		n, ok := g.term(nf(p), nf(q))
		if !ok {
			return nil, false
		}
		return &SliceV{seq: s, nilf: n, elem: p.elem}, true
	case *StructV:
		q, ok := q.(*StructV)
		if !ok || len(p.fields) != len(q.fields) {
			return nil, false
		}
		n := &StructV{typ: p.typ}
		for i := range p.fields {
			v, ok := g.val(p.fields[i], q.fields[i])
			if !ok {
				return nil, false
			}
			n.fields = append(n.fields, v)
		}
		return n, true
	case TupleV:
		q, ok := q.(TupleV)
		if !ok || len(p) != len(q) {
			return nil, false
		}
		var n TupleV
		for i := range p {
			v, ok := g.val(p[i], q[i])
			if !ok {
				return nil, false
			}
			n = append(n, v)
		}
		return n, true
	case *AddrV:
		q, ok := q.(*AddrV)
		if ok && p.kind == "heap" && q.kind == "heap" && p.base == q.base {
			r, ok := g.term(p.ref, q.ref)
			if !ok {
				return nil, false
			}
			n := *p
			n.ref = r
			return &n, true
		}
	}
	return nil, false
}

func (g *merger) term2(p, q *Term) (Value, bool) {
	t, ok := g.term(p, q)
	if !ok {
		return nil, false
	}
	return t, true
}

// merge2 combines two states; nil where they cannot be combined. The first
// instructions of b are its phis: those have to be combinable.
func (x *Exec) merge2(a, b *State, blk *ssa.BasicBlock, ra, rb, rs []Value) *State {
	if len(a.defers) != len(b.defers) || len(a.active) != len(b.active) {
		return nil
	}
	for i := range a.defers {
		if a.defers[i] != b.defers[i] {
			return nil
		}
	}
	for i := range a.active {
		if a.active[i] != b.active[i] {
			return nil
		}
	}
	n := 0
	for n < len(a.pc) && n < len(b.pc) && a.pc[n] == b.pc[n] {
		n++
	}
	sa, sb := a.pc[n:], b.pc[n:]
	m := a.clone()
	g := &merger{x: x, a: a, b: b, m: m}
	if len(sa) > 0 && len(sb) > 0 && (not(sa[0]).str == sb[0].str || not(sb[0]).str == sa[0].str) {
		g.sel = sa[0]
		if sa[0].op == "not" {
			g.sel = sb[0]
			a, b, sa, sb, ra, rb = b, a, sb, sa, rb, ra
			g.a, g.b = a, b
		}
		sa, sb = sa[1:], sb[1:]
	} else {
		g.sel = x.freshT("sel", SBool)
	}
	m.pc = a.pc[:n:n]
	m.esc = cloneMap(a.esc)
	for k := range b.esc {
		m.esc[k] = true
	}
	m.nonnil = map[string]bool{}
	for k := range a.nonnil {
		if b.nonnil[k] {
			m.nonnil[k] = true
		}
	}
	for i := range ra {
		v, ok := g.val(ra[i], rb[i])
		if !ok {
			return nil
		}
		rs[i] = v
	}
	m.env = map[ssa.Value]Value{}
	var keys []ssa.Value
	for k := range a.env {
		if _, ok := b.env[k]; ok {
			keys = append(keys, k)
		}
	}
	sort.Slice(keys, func(i, j int) bool {
		p, q := keys[i], keys[j]
		if p.Name() != q.Name() {
			return p.Name() < q.Name()
		}
		return p.Pos() < q.Pos()
	})
	for _, k := range keys {
		v, ok := g.val(a.env[k], b.env[k])
		if ok {
			m.env[k] = v
			continue
		}
		if phi, isPhi := k.(*ssa.Phi); isPhi && blk != nil && phi.Block() == blk {
			return nil
		}
	}
	m.cells = cloneMap(a.cells)
	for _, k := range sortedKeys(b.cells) {
		v := b.cells[k]
		if o, ok := m.cells[k]; ok {
			w, ok := g.val(o, v)
			if !ok {
				return nil
			}
			m.cells[k] = w
		} else {
			m.cells[k] = v
		}
	}
	terms := func(p, q map[string]*Term, def func(k string, o *Term) *Term) (map[string]*Term, bool) {
		r := map[string]*Term{}
		all := map[string]bool{}
		for k := range p {
			all[k] = true
		}
		for k := range q {
			all[k] = true
		}
		for _, k := range sortedKeys(all) {
			u, ok1 := p[k]
			v, ok2 := q[k]
			if !ok1 {
				u = def(k, v)
			}
			if !ok2 {
				v = def(k, u)
			}
			if u == nil || v == nil {
				if u == nil {
					u = v
				}
				r[k] = u
				continue
			}
			t, ok := g.term(u, v)
			if !ok {
				return nil, false
			}
			r[k] = t
		}
		return r, true
	}
	none := func(string, *Term) *Term { return nil }
	var ok bool
	if m.heap, ok = terms(a.heap, b.heap, func(k string, o *Term) *Term { return x.heapVar(newState(), k, o.sort) }); !ok {
		return nil
	}
	if m.iters, ok = terms(a.iters, b.iters, none); !ok {
		return nil
	}
	if m.ghost, ok = terms(a.ghost, b.ghost, none); !ok {
		return nil
	}
	for k := range m.ghost {
		_, ok1 := a.ghost[k]
		_, ok2 := b.ghost[k]
		if ok1 != ok2 {
			return nil
		}
	}
	if m.next, ok = g.term(a.next, b.next); !ok {
		return nil
	}
	guard := func(sel *Term, fs []*Term) {
		for _, f := range fs {
			if f.op == "=" && len(f.args) == 2 {
				if d, ok := x.heapDefs[f.args[0].op]; ok && d == f.args[1] {
					m.assume(f)
					continue
				}
			}
			m.assume(imp(sel, f))
		}
	}
	guard(g.sel, sa)
	guard(not(g.sel), sb)
	for _, d := range g.defs {
		m.assume(d)
	}
	k := 0
	for k < len(a.trace) && k < len(b.trace) && a.trace[k] == b.trace[k] {
		k++
	}
	m.trace = append(a.trace[:k:k], "joined")
	return m
}
