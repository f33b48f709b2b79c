package main

import (
	"crypto/sha256"
	"encoding/hex"
	"golang.org/x/tools/go/ssa"

	"fmt"
	"go/constant"
	"go/types"
	"math/big"
	"strconv"
	"strings"
)

// SV is a value of the specification language.
type SV struct {
	v  Value
	gt types.Type // Go type, nil for ghost arrays
	ar *arrTy
}

type arrTy struct{ k, v sty }

// sty is a type of the specification language.
type sty struct {
	gt types.Type
	ar *arrTy
}

var (
	tyInt  = types.Typ[types.Int]
	tyBool = types.Typ[types.Bool]
	tyStr  = types.Typ[types.String]
)

func (x *Exec) stySort(t sty) Sort {
	if t.ar != nil {
		return arr(x.stySort(t.ar.k), x.stySort(t.ar.v))
	}
	if s, ok := t.gt.Underlying().(*types.Slice); ok {
		return x.seqSort(s.Elem())
	}
	return x.sortOf(t.gt)
}

// parseType resolves a type name of a spec in package pkg.
func (x *Exec) parseType(pkg, s string) sty {
	s = strings.TrimSpace(s)
	switch s {
	case "int":
		return sty{gt: tyInt}
	case "bool":
		return sty{gt: tyBool}
	case "seq", "string":
		return sty{gt: tyStr}
	case "seqs":
		return sty{gt: types.NewSlice(tyStr)}
	case "vals":
		return sty{gt: types.NewSlice(x.p.any)}
	case "any":
		return sty{gt: x.p.any}
	}
	if strings.HasPrefix(s, "map[") {
		d := 0
		for i, c := range s {
			if c == '[' {
				d++
			}
			if c == ']' {
				d--
				if d == 0 {
					return sty{ar: &arrTy{x.parseType(pkg, s[4:i]), x.parseType(pkg, s[i+1:])}}
				}
			}
		}
	}
	if strings.HasPrefix(s, "gomap[") {
		i := strings.Index(s, "]")
		return sty{gt: types.NewMap(x.parseType(pkg, s[6:i]).gt, x.parseType(pkg, s[i+1:]).gt)}
	}
	if strings.HasPrefix(s, "[]") {
		return sty{gt: types.NewSlice(x.parseType(pkg, s[2:]).gt)}
	}
	if strings.HasPrefix(s, "*") {
		return sty{gt: types.NewPointer(x.parseType(pkg, s[1:]).gt)}
	}
	if b := types.Universe.Lookup(s); b != nil {
		if tn, ok := b.(*types.TypeName); ok {
			return sty{gt: tn.Type()}
		}
	}
	pk, n := pkg, s
	if i := strings.LastIndex(s, "."); i >= 0 {
		pk, n = s[:i], s[i+1:]
	}
	if sp := x.p.pkgs[pk]; sp != nil {
		if o := sp.Pkg.Scope().Lookup(n); o != nil {
			return sty{gt: x.p.instantiate(o.Type())}
		}
	}
	for _, sp := range x.p.prog.AllPackages() {
		if sp.Pkg.Name() == pk || sp.Pkg.Path() == pk {
			if o := sp.Pkg.Scope().Lookup(n); o != nil {
				return sty{gt: x.p.instantiate(o.Type())}
			}
		}
	}
	panic(fmt.Sprintf("spec: unknown type %q in package %s", s, pkg))
}

type evCtx struct {
	x    *Exec
	st   *State
	old  *State
	init *State
	env  map[string]SV
	pkg  string
	dep  int
}

func (c *evCtx) with(n string, v SV) *evCtx {
	d := *c
	d.env = cloneMap(c.env)
	d.env[n] = v
	return &d
}

func (c *evCtx) at(st *State) *evCtx {
	d := *c
	d.st = st
	return &d
}

func sv(t *Term, gt types.Type) SV { return SV{v: t, gt: gt} }

func (c *evCtx) bool(e *Ex) *Term {
	t := c.term(e)
	if t.sort != SBool {
		panic(fmt.Sprintf("spec: %s is not a bool", e.src))
	}
	return t
}

func (c *evCtx) term(e *Ex) *Term { return c.asTerm(c.eval(e)) }

func (c *evCtx) asTerm(s SV) *Term {
	switch v := s.v.(type) {
	case *Term:
		return v
	case *SliceV:
		return c.x.seqOf(c.st, v)
	case *FuncV:
		return c.x.funcRef(v)
	case *AddrV:
		return c.x.addrRef(c.st, v)
	}
	panic(fmt.Sprintf("spec: %T is not a plain value", s.v))
}

func (c *evCtx) ghost(n string) *Term {
	if g, ok := c.st.ghost[n]; ok {
		return g
	}
	ty := c.x.parseType(c.x.sp.ghostPkg[n], c.x.sp.ghosts[n])
	return c.x.ghostInit(n, c.x.stySort(ty))
}

func (x *Exec) ghostInit(n string, s Sort) *Term {
	name := "ghost/" + sanitize(n) + "!0"
	x.consts[name] = s
	return cst(name, s)
}

func (x *Exec) logOf(st *State) *Term {
	if g, ok := st.ghost["$log"]; ok {
		return g
	}
	return x.ghostInit("$log", SSeqV)
}

func (c *evCtx) eval(e *Ex) SV {
	x := c.x
	switch e.op {
	case "int":
		n, ok := new(big.Int).SetString(e.name, 10)
		if !ok {
			panic("spec: int " + e.name)
		}
		return sv(bignum(n), tyInt)
	case "str":
		return sv(x.strLit(e.name), tyStr)
	case "id":
		return c.ident(e)
	case "old":
		if c.old == nil {
			panic("spec: old() not available in " + e.src)
		}
		return c.at(c.old).eval(e.args[0])
	case "un":
		t := c.term(e.args[0])
		if e.name == "!" {
			return sv(not(t), tyBool)
		}
		return sv(sub(num(0), t), tyInt)
	case "ite":
		a, b := c.eval(e.args[1]), c.eval(e.args[2])
		return SV{v: ite(c.bool(e.args[0]), c.asTerm(a), c.asTerm(b)), gt: a.gt, ar: a.ar}
	case "let":
		return c.with(e.name, c.eval(e.args[0])).eval(e.args[1])
	case "bin":
		return c.bin(e)
	case "quant":
		return c.quant(e)
	case "field":
		return c.field(c.eval(e.args[0]), e.name, e)
	case "index":
		b := c.eval(e.args[0])
		i := c.eval(e.args[1])
		it := c.asTerm(i)
		if b.ar != nil {
			r := sel(c.asTerm(b), it)
			return SV{v: r, gt: b.ar.v.gt, ar: b.ar.v.ar}
		}
		switch u := b.gt.Underlying().(type) {
		case *types.Map:
			mt := u
			return SV{v: x.unflatten(selAll(x.mapVals(c.st, c.asTerm(b), mt), it), mt.Elem()), gt: mt.Elem()}
		case *types.Slice:
			return SV{v: x.fromElem(sat(c.asTerm(b), it), u.Elem()), gt: u.Elem()}
		case *types.Array:
			return SV{v: x.fromElem(sat(c.asTerm(b), it), u.Elem()), gt: u.Elem()}
		}
		return sv(sat(c.asTerm(b), it), tyInt)
	case "slice":
		b := c.eval(e.args[0])
		t := c.asTerm(b)
		lo, hi := num(0), slen(t)
		if e.args[1] != nil {
			lo = c.term(e.args[1])
		}
		if e.args[2] != nil {
			hi = c.term(e.args[2])
		}
		return sv(ssub(t, lo, hi), b.gt)
	case "call":
		return c.call(e)
	}
	panic("spec: eval " + e.op)
}

func selAll(as []*Term, k *Term) []*Term {
	out := make([]*Term, len(as))
	for i, a := range as {
		out[i] = sel(a, k)
	}
	return out
}

func (c *evCtx) ident(e *Ex) SV {
	if v, ok := c.env[e.name]; ok {
		return v
	}
	x := c.x
	switch e.name {
	case "true":
		return sv(tTrue, tyBool)
	case "false":
		return sv(tFalse, tyBool)
	case "nil":
		return sv(cst("nilV", SVal), x.p.any)
	case "next":
		return sv(c.st.next, tyInt)
	case "log":
		return sv(x.logOf(c.st), types.NewSlice(x.p.any))
	case "emp":
		return sv(semp(SSeq), tyStr)
	}
	if ty, ok := x.sp.ghosts[e.name]; ok {
		t := x.parseType(x.sp.ghostPkg[e.name], ty)
		return SV{v: c.ghost(e.name), gt: t.gt, ar: t.ar}
	}
	if sp := x.p.pkgs[c.pkg]; sp != nil {
		switch o := sp.Pkg.Scope().Lookup(e.name).(type) {
		case *types.Const:
			return c.constant(o.Val(), o.Type())
		case *types.Var:
			a := &AddrV{kind: "global", base: x.p.pkgName(o.Pkg()) + "." + o.Name(), typ: o.Type()}
			a.global, _ = sp.Members[o.Name()].(*ssa.Global)
			return SV{v: x.loadGlobal(c.st, a), gt: o.Type()}
		}
	}
	panic("spec: unknown name " + e.name)
}

func (c *evCtx) constant(v constant.Value, t types.Type) SV {
	switch v.Kind() {
	case constant.Bool:
		return sv(boolT(constant.BoolVal(v)), t)
	case constant.String:
		return sv(c.x.strLit(constant.StringVal(v)), t)
	case constant.Int:
		n, _ := new(big.Int).SetString(v.ExactString(), 10)
		return sv(bignum(n), t)
	}
	panic("spec: constant")
}

func (c *evCtx) field(b SV, name string, e *Ex) SV {
	x := c.x
	if s, ok := b.v.(*StructV); ok {
		u := s.typ.Underlying().(*types.Struct)
		for i := 0; i < u.NumFields(); i++ {
			if u.Field(i).Name() == name {
				return SV{v: s.fields[i], gt: u.Field(i).Type()}
			}
		}
		panic("spec: no field " + name)
	}
	pt, ok := b.gt.Underlying().(*types.Pointer)
	if !ok {
		panic(fmt.Sprintf("spec: .%s of %s", name, b.gt))
	}
	ref := c.asTerm(b)
	u, ok := pt.Elem().Underlying().(*types.Struct)
	if !ok {
		panic("spec: . of non-struct " + name)
	}
	for i := 0; i < u.NumFields(); i++ {
		f := u.Field(i)
		if f.Name() != name {
			continue
		}
		base := x.structBase(pt.Elem()) + "." + name
		if _, ok := f.Type().Underlying().(*types.Struct); ok {
			return sv(x.embRef(base, ref), types.NewPointer(f.Type()))
		}
		return SV{v: x.heapRead(c.st, base, ref, f.Type()), gt: f.Type()}
	}
	panic(fmt.Sprintf("spec: no field %s in %s", name, pt.Elem()))
}

// heapRead is loadHeap without side facts.
func (x *Exec) heapRead(st *State, base string, ref *Term, t types.Type) Value {
	var ts []*Term
	for _, l := range x.leaves(t) {
		ts = append(ts, x.heapGet(st, base+l.suffix, l.sort, ref))
	}
	return x.unflatten(ts, t)
}

func (c *evCtx) eqT(a, b SV) *Term {
	s, ok1 := a.v.(*StructV)
	w, ok2 := b.v.(*StructV)
	if ok1 && ok2 {
		fs, gs := c.x.flatten(c.st, s, s.typ), c.x.flatten(c.st, w, w.typ)
		var cs []*Term
		for i := range fs {
			cs = append(cs, eq(fs[i], gs[i]))
		}
		return and(cs...)
	}
	p, q := c.asTerm(a), c.asTerm(b)
	if p.sort == SInt && q.sort == SVal && q.op == "nilV" {
		q = num(0)
	}
	if q.sort == SInt && p.sort == SVal && p.op == "nilV" {
		p = num(0)
	}
	if isSeq(p.sort) && p.sort == q.sort {
		if q.op == sq("emp", q.sort) {
			return eq(slen(p), num(0))
		}
		if p.op == sq("emp", p.sort) {
			return eq(slen(q), num(0))
		}
	}
	if p.sort != q.sort {
		panic(fmt.Sprintf("spec: comparing %s (%s) with %s (%s)", p, p.sort, q, q.sort))
	}
	return eq(p, q)
}

func (c *evCtx) bin(e *Ex) SV {
	switch e.name {
	case "&&":
		return sv(and(c.bool(e.args[0]), c.bool(e.args[1])), tyBool)
	case "||":
		return sv(or(c.bool(e.args[0]), c.bool(e.args[1])), tyBool)
	case "==>":
		a := c.bool(e.args[0])
		if a == tFalse {
			return sv(tTrue, tyBool)
		}
		return sv(imp(a, c.bool(e.args[1])), tyBool)
	case "<==>":
		return sv(eq(c.bool(e.args[0]), c.bool(e.args[1])), tyBool)
	case "==":
		return sv(c.eqT(c.eval(e.args[0]), c.eval(e.args[1])), tyBool)
	case "!=":
		return sv(not(c.eqT(c.eval(e.args[0]), c.eval(e.args[1]))), tyBool)
	}
	a, b := c.eval(e.args[0]), c.eval(e.args[1])
	p, q := c.asTerm(a), c.asTerm(b)
	switch e.name {
	case "<":
		return sv(lt(p, q), tyBool)
	case "<=":
		return sv(le(p, q), tyBool)
	case ">":
		return sv(lt(q, p), tyBool)
	case ">=":
		return sv(le(q, p), tyBool)
	case "+":
		if isSeq(p.sort) {
			return sv(scat(p, q), a.gt)
		}
		return sv(add(p, q), tyInt)
	case "-":
		return sv(sub(p, q), tyInt)
	case "*":
		return sv(mul(p, q), tyInt)
	case "/":
		return sv(divE(p, q), tyInt)
	case "%":
		return sv(modE(p, q), tyInt)
	case "&", "|", "&^":
		tk := map[string]int{"&": 0, "|": 1, "&^": 2}[e.name]
		if q.n == nil {
			panic("spec: mask must be constant")
		}
		return sv(c.x.bitop(bitTok[tk], p, q.n, types.Typ[types.Uint64]), tyInt)
	}
	panic("spec: operator " + e.name)
}

func (c *evCtx) quant(e *Ex) SV {
	x := c.x
	d := *c
	d.env = cloneMap(c.env)
	var vs []bvar
	for _, v := range e.vars {
		ty := x.parseType(c.pkg, v.typ)
		x.ctr++
		n := fmt.Sprintf("%s?%d", v.name, x.ctr)
		s := x.stySort(ty)
		vs = append(vs, bvar{n, s})
		var val Value = cst(n, s)
		d.env[v.name] = SV{v: val, gt: ty.gt, ar: ty.ar}
	}
	body := d.bool(e.args[0])
	var trigs [][]*Term
	for _, tr := range e.trigs {
		var g []*Term
		for _, t := range tr {
			tm := d.term(t)
			if tm.op == "and" { // has(m, k) of a map that may be nil
				tm = tm.args[len(tm.args)-1]
			}
			g = append(g, tm)
		}
		trigs = append(trigs, g)
	}
	return sv(quant(e.name, vs, body, trigs), tyBool)
}

func (c *evCtx) strArg(e *Ex) string {
	if e.op != "str" {
		panic("spec: string literal expected")
	}
	return e.name
}

func (c *evCtx) call(e *Ex) SV {
	x := c.x
	if d, ok := x.sp.defs[e.name]; ok {
		if len(d.params) != len(e.args) {
			panic(fmt.Sprintf("spec: %s takes %d arguments", e.name, len(d.params)))
		}
		if c.dep > 40 {
			panic("spec: recursive def " + e.name)
		}
		n := &evCtx{x: x, st: c.st, old: c.old, init: c.init, pkg: d.pkg, env: map[string]SV{}, dep: c.dep + 1}
		for i, p := range d.params {
			a := c.eval(e.args[i])
			if p.typ != "" {
				ty := x.parseType(d.pkg, p.typ)
				if t, ok := a.v.(*Term); ok && t.op == "nilV" && ty.gt != nil && x.stySort(ty) == SInt {
					a.v = num(0)
				}
				a.gt, a.ar = ty.gt, ty.ar
			}
			n.env[p.name] = a
		}
		if x.contract != nil && x.isOpaque(e.name+"*") {
			if r, ok := x.opaqueArgs(n, d, e.name); ok {
				return r
			}
		}
		r := n.eval(d.body)
		if x.contract != nil && x.isOpaque(e.name) {
			if t, ok := r.v.(*Term); ok && t.sort == SBool {
				r.v = x.opaque(e.name, t)
			}
		}
		return r
	}
	if f, ok := x.sp.fns[e.name]; ok {
		var as []*Term
		for _, a := range e.args {
			as = append(as, c.term(a))
		}
		ty := x.parseType(c.pkg, f.ret)
		return SV{v: x.uf("fn/"+f.name, x.stySort(ty), as...), gt: ty.gt, ar: ty.ar}
	}
	arg := func(i int) *Term { return c.term(e.args[i]) }
	switch e.name {
	case "len":
		a := c.eval(e.args[0])
		if s, ok := a.v.(*SliceV); ok {
			return sv(x.sliceLen(c.st, s), tyInt)
		}
		if a.gt != nil {
			if mt, ok := a.gt.Underlying().(*types.Map); ok {
				return sv(mk("setLen", SInt, x.mapDom(c.st, c.asTerm(a), mt)), tyInt)
			}
		}
		return sv(slen(c.asTerm(a)), tyInt)
	case "dec", "enc":
		return sv(mk(e.name, SSeq, arg(0)), tyStr)
	case "okS", "okR":
		return sv(mk(e.name, SBool, arg(0)), tyBool)
	case "pfx":
		return sv(spfx(arg(0), arg(1)), tyBool)
	case "eqs":
		return sv(seqEq(arg(0), arg(1)), tyBool)
	case "unit":
		a := c.eval(e.args[0])
		t := c.asTerm(a)
		u := sunit(t)
		switch u.sort {
		case SSeq:
			return sv(u, tyStr)
		case SSeqS:
			return sv(u, types.NewSlice(tyStr))
		}
		return sv(u, types.NewSlice(x.p.any))
	case "cat":
		a := c.eval(e.args[0])
		t := c.asTerm(a)
		for _, b := range e.args[1:] {
			t = scat(t, c.term(b))
		}
		return sv(t, a.gt)
	case "typed": // typed(e, "type")
		ty := x.parseType(c.pkg, c.strArg(e.args[1]))
		return SV{v: arg(0), gt: ty.gt, ar: ty.ar}
	case "is":
		ty := x.parseType(c.pkg, c.strArg(e.args[1]))
		return sv(x.isTag(arg(0), ty.gt), tyBool)
	case "unbox":
		ty := x.parseType(c.pkg, c.strArg(e.args[1]))
		return SV{v: x.unbox(arg(0), ty.gt), gt: ty.gt}
	case "box":
		ty := x.parseType(c.pkg, c.strArg(e.args[1]))
		a := c.eval(e.args[0])
		var v Value = a.v
		if _, ok := v.(*SliceV); ok {
		} else if _, ok := ty.gt.Underlying().(*types.Slice); ok {
			v = &SliceV{seq: c.asTerm(a), nilf: tFalse, elem: ty.gt.Underlying().(*types.Slice).Elem()}
		}
		return sv(x.box(c.st, v, ty.gt), x.p.any)
	case "zero": // the zero value of the type of its argument
		a := c.eval(e.args[0])
		return SV{v: x.zero(a.gt), gt: a.gt}
	case "wrap": // conversion to an integer type
		ty := x.parseType(c.pkg, c.strArg(e.args[1]))
		t := c.asTerm(c.eval(e.args[0]))
		lo, hi, _ := intRange(ty.gt)
		m, h := bignum(new(big.Int).Add(new(big.Int).Sub(hi, lo), big.NewInt(1))), bignum(new(big.Int).Neg(lo))
		if lo.Sign() == 0 {
			return SV{v: modE(t, m), gt: ty.gt}
		}
		return SV{v: sub(modE(add(t, h), m), h), gt: ty.gt}
	case "isnil": // nil-ness of a slice
		a := c.eval(e.args[0])
		if s, ok := a.v.(*SliceV); ok {
			return sv(s.nilf, tyBool)
		}
		panic("spec: isnil of non-slice")
	case "upd":
		a := c.eval(e.args[0])
		return SV{v: sto(c.asTerm(a), arg(1), arg(2)), gt: a.gt, ar: a.ar}
	case "has":
		a := c.eval(e.args[0])
		if a.ar != nil {
			return sv(sel(c.asTerm(a), arg(1)), tyBool)
		}
		mt := a.gt.Underlying().(*types.Map)
		m := c.asTerm(a)
		return sv(and(not(eq(m, num(0))), sel(x.mapDom(c.st, m, mt), arg(1))), tyBool)
	case "dom": // domain of a Go map as a ghost set
		a := c.eval(e.args[0])
		mt := a.gt.Underlying().(*types.Map)
		return SV{v: x.mapDom(c.st, c.asTerm(a), mt), ar: &arrTy{sty{gt: mt.Key()}, sty{gt: tyBool}}}
	case "alloced":
		t := arg(0)
		return sv(and(lt(num(0), t), lt(t, c.st.next)), tyBool)
	case "isnew":
		t := arg(0)
		return sv(and(le(c.old.next, t), lt(t, c.st.next)), tyBool)
	case "mnames": // the names a map was stored under
		return SV{v: x.heapGet(c.st, "map.own", SSeqS, arg(0)), gt: x.parseType(c.pkg, "seqs").gt}
	case "content":
		a := c.eval(e.args[0])
		n := x.p.typeName(a.gt.Underlying().(*types.Pointer).Elem())
		return sv(x.heapGet(c.st, n+".content", SSeq, c.asTerm(a)), tyStr)
	case "aval":
		a := c.eval(e.args[0])
		n := x.p.typeName(a.gt.Underlying().(*types.Pointer).Elem())
		return sv(x.heapGet(c.st, n+".v", SInt, c.asTerm(a)), tyInt)
	case "deref":
		a := c.eval(e.args[0])
		el := a.gt.Underlying().(*types.Pointer).Elem()
		if ad, ok := a.v.(*AddrV); ok {
			return SV{v: x.load(c.st, ad, nil, 0), gt: el}
		}
		return SV{v: x.heapRead(c.st, "cell."+x.p.typeName(el), c.asTerm(a), el), gt: el}
	case "ev":
		as := []*Term{c.term(e.args[0])}
		for _, a := range e.args[1:] {
			v := c.eval(a)
			as = append(as, x.evArg(c.st, v.v, v.gt))
		}
		return sv(x.event(as), x.p.any)
	case "init":
		if c.init == nil {
			panic("spec: init() outside of a loop invariant")
		}
		return c.at(c.init).eval(e.args[0])
	case "implements":
		ty := x.parseType(c.pkg, c.strArg(e.args[1]))
		return sv(x.implPred(arg(0), ty.gt.Underlying().(*types.Interface), ty.gt), tyBool)
	case "tag":
		return sv(x.tagOf(arg(0)), tyInt)
	case "fun":
		// the reference of a declared function
		f := x.p.funcs[c.strArg(e.args[0])]
		if f == nil {
			panic("spec: fun " + c.strArg(e.args[0]))
		}
		return sv(x.funcRef(&FuncV{fn: f}), tyInt)
	case "addr":
		return sv(c.term(e.args[0]), tyInt)
	case "bytein":
		t := arg(0)
		var cs []*Term
		for _, r := range c.strArg(e.args[1]) {
			cs = append(cs, eq(t, num(int64(r))))
		}
		return sv(or(cs...), tyBool)
	case "prop": // prop("name", args...): uninterpreted predicate
		var as []*Term
		for _, a := range e.args[1:] {
			as = append(as, c.term(a))
		}
		return sv(x.uf("prop/"+c.strArg(e.args[0]), SBool, as...), tyBool)
	case "strlt":
		return sv(x.strlt(arg(0), arg(1)), tyBool)
	case "pow2":
		n, _ := strconv.Atoi(e.args[0].name)
		return sv(bignum(new(big.Int).Lsh(big.NewInt(1), uint(n))), tyInt)
	}
	panic("spec: unknown function " + e.name)
}

// evArg encodes a callback argument for the event log.
func (x *Exec) evArg(st *State, v Value, t types.Type) *Term {
	if tm, ok := v.(*Term); ok && t != nil {
		if types.IsInterface(t) {
			return tm
		}
		switch tm.sort {
		case SInt:
			return mk("boxI", SVal, num(-1), tm)
		case SBool:
			return mk("boxB", SVal, num(-1), tm)
		case SSeq:
			return mk("boxS", SVal, num(-1), tm)
		}
	}
	if s, ok := v.(*SliceV); ok {
		t := x.seqOf(st, s)
		switch t.sort {
		case SSeq:
			return mk("boxS", SVal, num(-1), t)
		case SSeqS:
			return mk("boxL", SVal, num(-1), t)
		case SSeqV:
			return mk("boxV", SVal, num(-1), t)
		}
	}
	return x.box(st, v, t)
}

func (x *Exec) event(as []*Term) *Term {
	name := fmt.Sprintf("ev%d", len(as)-1)
	if _, ok := x.ufs[name]; !ok {
		ss := []Sort{SInt}
		decl, call, body := "(f Int)", "("+name+" f", ""
		x.declareUF("evf", []Sort{SVal}, SInt)
		for i := range as[1:] {
			ss = append(ss, SVal)
			decl += fmt.Sprintf("(a%d Val)", i)
			call += fmt.Sprintf(" a%d", i)
			x.declareUF(fmt.Sprintf("eva%d", i), []Sort{SVal}, SVal)
		}
		call += ")"
		body = "(= (evf " + call + ") f)"
		for i := range as[1:] {
			body += fmt.Sprintf(" (= (eva%d %s) a%d)", i, call, i)
		}
		x.declareUF(name, ss, SVal)
		x.addAxiom(fmt.Sprintf("(forall (%s) (! (and %s) :pattern (%s)))", decl, body, call))
	}
	return mk(name, SVal, as...)
}

// option opaque NAME ...: the definition is a predicate of the ground terms
// (heap included) its meaning depends on; nothing else is known of it.
func (x *Exec) isOpaque(name string) bool {
	for _, w := range strings.Fields(x.contract.opts["opaque"]) {
		if w == name {
			return true
		}
	}
	return false
}

// option opaque NAME*: a predicate of its arguments (which may be bound
// variables) and of the heap its meaning depends on.
func (x *Exec) opaqueArgs(n *evCtx, d *Def, name string) (SV, bool) {
	var as, ps []*Term
	for i, p := range d.params {
		a := n.env[p.name]
		t, ok := a.v.(*Term)
		if s, isS := a.v.(*SliceV); isS && p.typ != "" && !strings.HasPrefix(p.typ, "[]") {
			t, ok = x.seqOf(n.st, s), true
		}
		if !ok {
			return SV{}, false
		}
		as = append(as, t)
		ph := cst(fmt.Sprintf("opqarg!%d", i), t.sort)
		ps = append(ps, ph)
		a.v = ph
		n.env[p.name] = a
	}
	r := n.eval(d.body)
	t, ok := r.v.(*Term)
	if !ok || t.sort != SBool {
		return SV{}, false
	}
	o := x.opaque(name, t)
	if o == t {
		return SV{}, false
	}
	args := append([]*Term{}, as...)
	for _, a := range o.args {
		if !strings.HasPrefix(a.str, "opqarg!") {
			args = append(args, a)
		}
	}
	r.v = x.uf(o.op+"/args", SBool, args...)
	return r, true
}

func (x *Exec) opaque(name string, t *Term) *Term {
	var sb strings.Builder
	var params []*Term
	pos := map[string]int{}
	vars := map[string]int{}
	bound := 0
	var walk func(t *Term)
	walk = func(t *Term) {
		if t.body != nil {
			sb.WriteString("(Q " + t.op)
			for _, v := range t.vars {
				vars[v.name] = len(vars)
				fmt.Fprintf(&sb, " v%d:%s", vars[v.name], v.sort)
			}
			sb.WriteString(" ")
			bound++
			walk(t.body)
			bound--
			sb.WriteString(")")
			return
		}
		if t.n != nil {
			sb.WriteString(t.str)
			return
		}
		if !strings.Contains(t.str, "?") && (len(t.args) == 0 || !strings.Contains(t.str, "opqarg!")) && (t.sort != SBool || len(t.args) == 0) {
			if t.op == "true" || t.op == "false" {
				sb.WriteString(t.op)
				return
			}
			i, ok := pos[t.str]
			if !ok {
				i = len(params)
				pos[t.str] = i
				params = append(params, t)
			}
			fmt.Fprintf(&sb, "%%%d", i)
			return
		}
		if len(t.args) == 0 {
			if i, ok := vars[t.str]; ok {
				fmt.Fprintf(&sb, "v%d", i)
				return
			}
			bound = -1000 // a variable bound outside
			return
		}
		sb.WriteString("(" + t.op)
		for _, a := range t.args {
			sb.WriteString(" ")
			walk(a)
		}
		sb.WriteString(")")
	}
	walk(t)
	if bound != 0 || len(params) == 0 {
		return t
	}
	h := sha256.Sum256([]byte(sb.String()))
	uf := "opq/" + name + "/" + hex.EncodeToString(h[:6])
	if x.ufs[uf] == "" {
		// allocation only grows what is allocated
		for i, p := range params {
			if !isNext(p) || !monotone(t, p.str, true) {
				continue
			}
			var vs, a, b []string
			for j, q := range params {
				vs = append(vs, fmt.Sprintf("(p?%d %s)", j, q.sort))
				a = append(a, fmt.Sprintf("p?%d", j))
				b = append(b, fmt.Sprintf("p?%d", j))
			}
			vs = append(vs, "(q? Int)")
			b[i] = "q?"
			at, bt := "("+uf+" "+strings.Join(a, " ")+")", "("+uf+" "+strings.Join(b, " ")+")"
			x.axioms = append(x.axioms, fmt.Sprintf("(forall (%s) (! (=> (and %s (<= p?%d q?)) %s) :pattern (%s %s)))", strings.Join(vs, " "), at, i, bt, at, bt))
		}
	}
	return x.uf(uf, SBool, params...)
}

func isNext(t *Term) bool {
	return t.sort == SInt && strings.Contains(t.str, "next!") && !strings.Contains(t.str, "select")
}

// monotone: growing v can only turn t from false to true (pol) resp. from
// true to false.
func monotone(t *Term, v string, pol bool) bool {
	if !strings.Contains(t.str, v) {
		return true
	}
	if t.body != nil {
		return monotone(t.body, v, pol)
	}
	switch t.op {
	case "and", "or":
		for _, a := range t.args {
			if !monotone(a, v, pol) {
				return false
			}
		}
		return true
	case "=>":
		return monotone(t.args[0], v, !pol) && monotone(t.args[1], v, pol)
	case "not":
		return monotone(t.args[0], v, !pol)
	case "<", "<=":
		if len(t.args) == 2 && t.args[1].str == v && !strings.Contains(t.args[0].str, v) {
			return pol
		}
		if len(t.args) == 2 && t.args[0].str == v && !strings.Contains(t.args[1].str, v) {
			return !pol
		}
	}
	return false
}
