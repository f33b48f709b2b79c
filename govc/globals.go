package main

import (
	"go/constant"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// constGlobal is a package-level variable that is written only by the
// initialisation of its package, and never handed out in a way that lets
// anybody change what it refers to.
type constGlobal struct {
	keys, vals []*ssa.Const // a map literal
	isMap      bool
	val        *ssa.Const // a plain value
	nonNil     bool       // an interface or pointer made at initialisation
}

func constOf(v ssa.Value) *ssa.Const {
	switch v := v.(type) {
	case *ssa.Const:
		return v
	case *ssa.Convert:
		return constOf(v.X)
	case *ssa.ChangeType:
		return constOf(v.X)
	}
	return nil
}

// globalsOf scans the program once for the variables of that kind.
func (p *Prog) constGlobals() map[*ssa.Global]*constGlobal {
	if p.consts != nil {
		return p.consts
	}
	bad := map[*ssa.Global]bool{}
	inits := map[*ssa.Global][]ssa.Value{}
	var scan func(f *ssa.Function, isInit bool)
	seen := map[*ssa.Function]bool{}
	scan = func(f *ssa.Function, isInit bool) {
		if f == nil || seen[f] {
			return
		}
		seen[f] = true
		for _, a := range f.AnonFuncs {
			scan(a, false)
		}
		for _, b := range f.Blocks {
			for _, ins := range b.Instrs {
				if st, ok := ins.(*ssa.Store); ok {
					if g, ok := st.Addr.(*ssa.Global); ok {
						if isInit && g.Pkg == f.Pkg {
							inits[g] = append(inits[g], st.Val)
						} else {
							bad[g] = true
						}
						if g2, ok := st.Val.(*ssa.Global); ok {
							bad[g2] = true
						}
						continue
					}
				}
				if u, ok := ins.(*ssa.UnOp); ok {
					if g, ok := u.X.(*ssa.Global); ok {
						if _, isMap := u.Type().Underlying().(*types.Map); isMap {
							for _, r := range *u.Referrers() {
								switch r := r.(type) {
								case *ssa.Lookup, *ssa.Range, *ssa.DebugRef:
								case *ssa.Call:
									if bi, ok := r.Call.Value.(*ssa.Builtin); !ok || bi.Name() != "len" {
										bad[g] = true
									}
								default:
									bad[g] = true
								}
							}
						}
						continue
					}
				}
				var ops [8]*ssa.Value
				for _, o := range ins.Operands(ops[:0]) {
					if g, ok := (*o).(*ssa.Global); ok {
						bad[g] = true // its address is taken
					}
				}
			}
		}
	}
	for _, name := range sortedKeys(p.pkgs) {
		sp := p.pkgs[name]
		for _, n := range sortedKeys(sp.Members) {
			if f, ok := sp.Members[n].(*ssa.Function); ok {
				scan(f, n == "init" && f.Synthetic != "")
			}
		}
	}
	for _, k := range sortedKeys(p.funcs) {
		scan(p.funcs[k], false)
		if o := p.funcs[k].Origin(); o != nil {
			scan(o, false)
		}
	}
	out := map[*ssa.Global]*constGlobal{}
	for g, vs := range inits {
		if bad[g] || len(vs) != 1 {
			continue
		}
		switch v := vs[0].(type) {
		case *ssa.MakeMap:
			c := &constGlobal{isMap: true}
			ok := true
			for _, r := range *v.Referrers() {
				switch r := r.(type) {
				case *ssa.MapUpdate:
					k, e := constOf(r.Key), constOf(r.Value)
					if r.Map != v || k == nil || e == nil {
						ok = false
						break
					}
					c.keys, c.vals = append(c.keys, k), append(c.vals, e)
				case *ssa.Store, *ssa.DebugRef:
				default:
					ok = false
				}
			}
			if ok {
				out[g] = c
			}
		default:
			if k := constOf(v); k != nil {
				out[g] = &constGlobal{val: k}
			} else if c, ok := v.(*ssa.Call); ok && c.Call.StaticCallee() != nil && c.Call.StaticCallee().Name() == "New" && strings.HasSuffix(c.Call.StaticCallee().Pkg.Pkg.Path(), "errors") {
				out[g] = &constGlobal{nonNil: true}
			}
		}
	}
	p.consts = out
	return out
}

// globalFacts adds what is known about the value of a package-level variable
// that is never written after package initialisation.
func (x *Exec) globalFacts(st *State, a *AddrV, v Value) {
	g := a.global
	if g == nil {
		return
	}
	c := x.p.constGlobals()[g]
	if c == nil {
		return
	}
	conv := func(k *ssa.Const, t types.Type) []*Term {
		if types.IsInterface(t) {
			return nil
		}
		if k.Value != nil && k.Value.Kind() == constant.Float {
			return nil
		}
		return x.flatten(st, x.constVal(k), t)
	}
	switch {
	case c.isMap:
		mt := a.typ.Underlying().(*types.Map)
		m := asTerm(v)
		dom := x.mapDom(st, m, mt)
		vs := x.mapVals(st, m, mt)
		_, ks := x.mapNames(mt)
		q := cst("k?g", ks)
		var any []*Term
		var facts []*Term
		for i, k := range c.keys {
			kt, vt := conv(k, mt.Key()), conv(c.vals[i], mt.Elem())
			if len(kt) != 1 || len(vt) != len(vs) {
				return
			}
			any = append(any, mk("=", SBool, q, kt[0]))
			facts = append(facts, sel(dom, kt[0]))
			for j := range vs {
				facts = append(facts, eq(sel(vs[j], kt[0]), vt[j]))
			}
		}
		st.nonnil[m.str] = true
		st.assume(not(eq(m, num(0))))
		st.assume(lt(m, st.next))
		for _, f := range facts {
			st.assume(f)
		}
		st.assume(quant("forall", []bvar{{"k?g", ks}}, imp(sel(dom, q), or(any...)), [][]*Term{{sel(dom, q)}}))
	case c.val != nil:
		if ts := conv(c.val, a.typ); ts != nil {
			for i, t := range x.flatten(st, v, a.typ) {
				if t.sort != SFlt {
					st.assume(mk("=", SBool, t, ts[i]))
				}
			}
		}
	case c.nonNil:
		st.assume(not(eq(asTerm(v), cst("nilV", SVal))))
	}
}
