package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

var bitTok = []token.Token{token.AND, token.OR, token.AND_NOT}

func one(st *State, rs ...Value) []Outcome { return []Outcome{{st, rs}} }

// call executes a call; for an interface call fv is the receiver.
func (x *Exec) call(fr *Frame, st *State, cc *ssa.CallCommon, fv Value, args []Value, pos token.Pos) []Outcome {
	if b, ok := cc.Value.(*ssa.Builtin); ok {
		return x.builtin(fr, st, b, cc, args, pos)
	}
	if cc.IsInvoke() {
		return x.invoke(fr, st, cc, asTerm(fv), args, pos)
	}
	switch f := fv.(type) {
	case *FuncV:
		return x.callFn(fr, st, f.fn, args, f.binds, pos)
	case *Term:
		return x.callOpaque(fr, st, cc, f, args, pos)
	}
	unsup("call of %T", fv)
	return nil
}

func (x *Exec) results(st *State, hint string, sig *types.Signature) []Value {
	var rs []Value
	for i := 0; i < sig.Results().Len(); i++ {
		rs = append(rs, x.fresh(st, hint, sig.Results().At(i).Type()))
	}
	return rs
}

// callOpaque calls a function value the verifier knows nothing about: the call
// is logged; it is assumed not to touch the data structures under contract.
func (x *Exec) callOpaque(fr *Frame, st *State, cc *ssa.CallCommon, f *Term, args []Value, pos token.Pos) []Outcome {
	x.nilCheck(st, f, fr, pos)
	sig := cc.Signature()
	as := []*Term{f}
	for i, a := range args {
		x.escape(st, a)
		as = append(as, x.evArg(st, a, sig.Params().At(i).Type()))
	}
	x.assumed["callback: a function value passed in by the caller does not modify the structures under contract"] = true
	e := x.event(as)
	x.setGhost(st, "$log", scat(x.logOf(st), sunit(e)))
	return one(st, x.results(st, "cb", sig)...)
}

func (x *Exec) setGhost(st *State, name string, v *Term) {
	c := x.freshT("ghost/"+name, v.sort)
	st.assume(mk("=", SBool, c, v))
	st.ghost[name] = c
}

func (x *Exec) ifaceName(t types.Type) string {
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() == nil {
			return n.Obj().Name()
		}
		return x.p.pkgName(n.Obj().Pkg()) + "." + n.Obj().Name()
	}
	return ""
}

func (x *Exec) invoke(fr *Frame, st *State, cc *ssa.CallCommon, recv *Term, args []Value, pos token.Pos) []Outcome {
	name := x.ifaceName(cc.Value.Type())
	m := cc.Method
	tg := x.tagOf(recv)
	var t types.Type
	if tg.n != nil && tg.n.Sign() != 0 {
		t = x.tagTypes[int(tg.n.Int64())]
	} else if d, ok := x.sp.dispatch[name]; ok {
		pk := ""
		if i := strings.Index(name, "."); i >= 0 {
			pk = name[:i]
		}
		t = x.parseType(pk, d).gt
		g := x.isTag(recv, t)
		x.oblige(st, "dispatch:"+name, g, pos)
		st.assume(g)
		st.assume(eq(recv, x.box(st, x.unbox(recv, t), t)))
	}
	if t != nil {
		f := x.p.prog.LookupMethod(t, m.Pkg(), m.Name())
		if f == nil {
			// a type parameter among the type arguments: the generic method itself
			k, q := "", t
			if pt, ok := types.Unalias(t).(*types.Pointer); ok {
				k, q = "*", pt.Elem()
			}
			if n, ok := types.Unalias(q).(*types.Named); ok && n.Obj().Pkg() != nil {
				f = x.p.funcs[x.p.pkgName(n.Obj().Pkg())+".("+k+n.Obj().Name()+")."+m.Name()]
			}
		}
		if f == nil {
			unsup("no method %s on %s", m.Name(), t)
		}
		rv := x.unbox(recv, t)
		if tm, ok := rv.(*Term); ok {
			x.typeFacts(st, tm, t)
		}
		return x.callFn(fr, st, f, append([]Value{rv}, args...), nil, pos)
	}
	x.oblige(st, "nil-deref", not(eq(recv, cst("nilV", SVal))), pos)
	st.assume(not(eq(recv, cst("nilV", SVal))))
	key := name
	if i := strings.LastIndex(name, "."); i >= 0 {
		key = name[:i] + ".(" + name[i+1:] + ")." + m.Name()
	} else {
		key = "(" + name + ")." + m.Name()
	}
	if c, key := x.contractOf(key); c != nil {
		return x.applyContract(fr, st, c, key, m.Type().(*types.Signature), cc.Value.Type(), append([]Value{recv}, args...), pos)
	}
	if m.Name() == "Error" && name == "error" {
		return one(st, x.uf("errtext", SSeq, recv))
	}
	if x.noop(m.Pkg()) {
		return one(st, x.results(st, m.Name(), m.Type().(*types.Signature))...)
	}
	unsup("interface call %s without contract", key)
	return nil
}

func (x *Exec) noop(pk *types.Package) bool {
	if pk == nil {
		return false
	}
	switch pk.Path() {
	case "sync", "log", "log/slog", "github.com/hedzr/logg/slog", "gopkg.in/hedzr/errors.v3":
		return pk.Path() != "gopkg.in/hedzr/errors.v3"
	}
	return false
}

func (x *Exec) isRepo(fn *ssa.Function) bool {
	for f := fn; f != nil; f = f.Parent() {
		o := f
		if g := f.Origin(); g != nil {
			o = g
		}
		if o.Pkg != nil && x.p.paths[o.Pkg.Pkg.Path()] {
			return true
		}
	}
	return false
}

// contractOf gives the contract of a function: within a contract variant
// (name@variant) that of the same variant, if there is one.
func (x *Exec) contractOf(key string) (*Contract, string) {
	if _, v, ok := strings.Cut(x.fnKey, "@"); ok {
		if c := x.sp.contracts[key+"@"+v]; c != nil {
			return c, key + "@" + v
		}
	}
	return x.sp.contracts[key], key
}

func (x *Exec) callFn(fr *Frame, st *State, fn *ssa.Function, args, binds []Value, pos token.Pos) []Outcome {
	key := x.p.funcKey(fn)
	m := x.sp.models[key]
	if x.contract != nil {
		for _, w := range strings.Fields(x.contract.opts["model"]) {
			if a, b, _ := strings.Cut(w, "="); a == key {
				m = b
			}
		}
	}
	if m != "" {
		f := x.p.funcs[m]
		if f == nil {
			unsup("model %s of %s not found", m, key)
		}
		x.assumed["model: "+key+" behaves as "+m+" (lemmas/)"] = true
		return x.runFn(st, f, args, nil)
	}
	if outs, ok := x.model(fr, st, key, fn, args, pos); ok {
		return outs
	}
	if c, key := x.contractOf(key); c != nil && !x.inlines(key) && len(c.params) == len(fn.Params) && len(c.results) <= fn.Signature.Results().Len() && fn.Parent() == nil && !isWrapper(fn) {
		return x.applyContract(fr, st, c, key, fn.Signature, nil, args, pos)
	} else if c != nil && c.extern && len(fn.Blocks) == 0 {
		return x.applyContract(fr, st, c, key, fn.Signature, nil, args, pos)
	}
	if len(fn.Blocks) > 0 && (x.isRepo(fn) || fn.Synthetic != "") {
		if !isWrapper(fn) {
			x.inlined[key] = true
		}
		return x.runFn(st, fn, args, binds)
	}
	if fn.Pkg != nil && x.noop(fn.Pkg.Pkg) || fn.Object() != nil && x.noop(fn.Object().Pkg()) {
		x.assumed["no-op for the properties: package "+fn.Object().Pkg().Path()] = true
		return one(st, x.results(st, fn.Name(), fn.Signature)...)
	}
	unsup("call of %s: no contract, no model, no body", key)
	return nil
}

func isWrapper(fn *ssa.Function) bool {
	return fn.Synthetic != "" && !strings.Contains(fn.Synthetic, "instance") && !strings.Contains(fn.Synthetic, "instantiation")
}

// ---------------------------------------------------------------- builtins

func (x *Exec) builtin(fr *Frame, st *State, b *ssa.Builtin, cc *ssa.CallCommon, args []Value, pos token.Pos) []Outcome {
	switch b.Name() {
	case "len":
		switch v := args[0].(type) {
		case *SliceV:
			return one(st, x.sliceLen(st, v))
		case *Term:
			if mt, ok := cc.Args[0].Type().Underlying().(*types.Map); ok {
				n := mk("setLen", SInt, x.mapDom(st, v, mt))
				if mt.Key().Underlying() != types.Typ[types.String] {
					n = x.freshT("maplen", SInt)
					st.assume(le(num(0), n))
				}
				if st.nonnil[v.str] {
					return one(st, n)
				}
				return one(st, ite(eq(v, num(0)), num(0), n))
			}
			return one(st, slen(v))
		case *AddrV:
			if at, ok := v.typ.Underlying().(*types.Array); ok {
				return one(st, num(at.Len()))
			}
		}
	case "cap":
		if v, ok := args[0].(*SliceV); ok {
			c := x.freshT("cap", SInt)
			st.assume(le(x.sliceLen(st, v), c))
			return one(st, c)
		}
	case "append":
		a, ok := args[0].(*SliceV)
		if !ok {
			unsup("append to %T", args[0])
		}
		var bs, bn *Term
		switch b := args[1].(type) {
		case *SliceV:
			bs, bn = x.seqOf(st, b), b.nilf
			_ = bn
		case *Term: // append([]byte, string...)
			bs = b
		}
		as := x.seqOf(st, a)
		cont := scat(as, bs)
		r := x.newSlice(st, cont, a.elem, add(x.sliceLen(st, a), slenOf(x, st, args[1], bs)))
		r.nilf = and(a.nilf, eq(slen(bs), num(0)))
		if r.nilf != tFalse && bs.op == sq("unit", bs.sort) {
			r.nilf = tFalse
		}
		// the appended-to array may be shared with the result
		if a.cell != nil {
			st.esc[a.cell.id] = true
			x.assumed["append: the old backing array is not written through the new slice"] = true
		}
		x.escapeAll(args[1])
		return one(st, r)
	case "copy":
		d, ok := args[0].(*SliceV)
		if !ok || d.cell == nil {
			unsup("copy into a slice not owned here")
		}
		if st.esc[d.cell.id] {
			unsup("copy into a shared array")
		}
		var src *Term
		switch s := args[1].(type) {
		case *SliceV:
			src = x.seqOf(st, s)
		case *Term:
			src = s
		}
		dl, sl := x.sliceLen(st, d), slen(src)
		n := ite(lt(dl, sl), dl, sl)
		nv := x.freshT("n", SInt)
		st.assume(eq(nv, n))
		c := st.cells[d.cell.id].(*Term)
		nc := scat(ssub(c, num(0), d.lo), scat(ssub(src, num(0), nv), ssub(c, add(d.lo, nv), slen(c))))
		st.cells[d.cell.id] = nc
		return one(st, nv)
	case "delete":
		m := asTerm(args[0])
		mt := cc.Args[0].Type().Underlying().(*types.Map)
		k := x.flatten(st, args[1], mt.Key())[0]
		base, _ := x.mapNames(mt)
		x.heapSet(st, base+".dom", m, sto(x.mapDom(st, m, mt), k, tFalse))
		return one(st)
	case "min", "max":
		r := asTerm(args[0])
		for _, a := range args[1:] {
			t := asTerm(a)
			if r.sort != SInt {
				unsup("min/max of %s", r.sort)
			}
			if b.Name() == "min" {
				r = ite(lt(t, r), t, r)
			} else {
				r = ite(lt(r, t), t, r)
			}
		}
		return one(st, r)
	case "print", "println":
		return one(st)
	case "recover":
		return one(st, cst("nilV", SVal))
	case "ssa:wrapnilchk":
		return one(st, args[0])
	case "clear":
	}
	unsup("builtin %s", b.Name())
	return nil
}

func slenOf(x *Exec, st *State, v Value, t *Term) *Term {
	if s, ok := v.(*SliceV); ok {
		return x.sliceLen(st, s)
	}
	return slen(t)
}

func (x *Exec) escapeAll(v Value) {
	// elements copied by append are values; nothing of the source array is shared
}

// ---------------------------------------------------------------- models

func (x *Exec) model(fr *Frame, st *State, key string, fn *ssa.Function, args []Value, pos token.Pos) ([]Outcome, bool) {
	nilErr := cst("nilV", SVal)
	buf := func(typ string) ([]Outcome, bool) {
		name := typ + ".content"
		r := asTerm(args[0])
		x.nilCheck(st, r, fr, pos)
		c := x.heapGet(st, name, SSeq, r)
		set := func(t *Term) { x.heapSet(st, name, r, t) }
		switch key[strings.LastIndex(key, ".")+1:] {
		case "WriteString":
			set(scat(c, asTerm(args[1])))
			return one(st, slen(asTerm(args[1])), nilErr), true
		case "Write":
			s := x.seqOf(st, args[1].(*SliceV))
			set(scat(c, s))
			return one(st, slen(s), nilErr), true
		case "WriteRune":
			e := mk("enc", SSeq, sunit(asTerm(args[1])))
			set(scat(c, e))
			return one(st, slen(e), nilErr), true
		case "WriteByte":
			set(scat(c, sunit(asTerm(args[1]))))
			return one(st, nilErr), true
		case "String":
			return one(st, c), true
		case "Bytes":
			return one(st, &SliceV{seq: c, nilf: tFalse, elem: types.Typ[types.Uint8]}), true
		case "Len":
			return one(st, slen(c)), true
		case "Cap":
			k := x.freshT("cap", SInt)
			st.assume(le(slen(c), k))
			return one(st, k), true
		case "Reset":
			set(semp(SSeq))
			return one(st), true
		case "Grow":
			return one(st), true
		case "Truncate":
			n := asTerm(args[1])
			x.oblige(st, "truncate", and(le(num(0), n), le(n, slen(c))), pos)
			set(ssub(c, num(0), n))
			return one(st), true
		}
		return nil, false
	}
	switch {
	case strings.HasPrefix(key, "strings.(*Builder)."):
		return buf("strings.Builder")
	case strings.HasPrefix(key, "bytes.(*Buffer)."):
		return buf("bytes.Buffer")
	case strings.HasPrefix(key, "atomic.(*"):
		typ := "atomic." + key[len("atomic.(*"):strings.Index(key, ")")]
		name := typ + ".v"
		r := asTerm(args[0])
		x.nilCheck(st, r, fr, pos)
		so := SInt
		if typ == "atomic.Bool" {
			so = SBool
		}
		var cur *Term = x.heapGet(st, name, so, r)
		switch fn.Name() {
		case "Load":
			return one(st, cur), true
		case "Store":
			x.heapSet(st, name, r, asTerm(args[1]))
			return one(st), true
		case "Swap":
			x.heapSet(st, name, r, asTerm(args[1]))
			return one(st, cur), true
		case "Add":
			n := x.wrap(add(cur, asTerm(args[1])), fn.Signature.Results().At(0).Type())
			x.heapSet(st, name, r, n)
			return one(st, n), true
		case "CompareAndSwap":
			ok := eq(cur, asTerm(args[1]))
			x.heapSet(st, name, r, ite(ok, asTerm(args[2]), cur))
			return one(st, ok), true
		}
	case strings.HasPrefix(key, "atomic.") && len(args) > 0:
		a, ok := args[0].(*AddrV)
		if !ok {
			return nil, false
		}
		n := fn.Name()
		switch {
		case strings.HasPrefix(n, "Load"):
			return one(st, x.load(st, a, fr, pos)), true
		case strings.HasPrefix(n, "Store"):
			x.store(st, a, args[1], fr, pos)
			return one(st), true
		case strings.HasPrefix(n, "Add"):
			v := x.wrap(add(asTerm(x.load(st, a, fr, pos)), asTerm(args[1])), a.typ)
			x.store(st, a, v, fr, pos)
			return one(st, v), true
		case strings.HasPrefix(n, "CompareAndSwap"):
			cur := asTerm(x.load(st, a, fr, pos))
			ok := eq(cur, asTerm(args[1]))
			x.store(st, a, ite(ok, asTerm(args[2]), cur), fr, pos)
			return one(st, ok), true
		case strings.HasPrefix(n, "Swap"):
			cur := x.load(st, a, fr, pos)
			x.store(st, a, args[1], fr, pos)
			return one(st, cur), true
		}
	case key == "sync.(*Pool).Get":
		g := ""
		if a, ok := args[0].(*AddrV); ok {
			g = a.base
		} else if t, ok := args[0].(*Term); ok {
			g = strings.TrimSuffix(t.op, "!0")
			if strings.HasPrefix(t.op, "globref/") {
				g = t.op[8:]
			}
		}
		ty, ok := x.sp.pools[g]
		if !ok {
			unsup("pool %s", g)
		}
		pk := g[:strings.LastIndex(g, ".")]
		pt := x.parseType(pk, ty).gt
		el := pt.Underlying().(*types.Pointer).Elem()
		r := x.alloc(st)
		if n := x.p.typeName(el); n != "strings.Builder" && n != "bytes.Buffer" {
			x.assumed["sync.Pool: Get returns an object nobody else uses, with arbitrary contents"] = true
			return one(st, x.box(st, r, pt)), true
		}
		x.initStruct(st, r, el)
		x.assumed["sync.Pool: Get returns an object in its reset state (Put of a reset object is checked at every Put)"] = true
		return one(st, x.box(st, r, pt)), true
	case key == "sync.(*Pool).Put":
		v := asTerm(args[1])
		tg := x.tagOf(v)
		if tg.n == nil {
			unsup("pool put of unknown type")
		}
		t := x.tagTypes[int(tg.n.Int64())]
		el := t.Underlying().(*types.Pointer).Elem()
		r := asTerm(x.unbox(v, t))
		n := x.p.typeName(el)
		if n == "strings.Builder" || n == "bytes.Buffer" {
			x.oblige(st, "pool-put-empty", eq(slen(x.heapGet(st, n+".content", SSeq, r)), num(0)), pos)
			return one(st), true
		}
		return one(st), true
	case key == "sync.(*Once).Do":
		unsup("once")
	case key == "utf8.RuneCountInString":
		return one(st, slen(mk("dec", SSeq, asTerm(args[0])))), true
	case key == "utf8.RuneLen":
		return one(st, slen(mk("enc", SSeq, sunit(asTerm(args[0]))))), true
	case key == "strings.ToLower" || key == "strings.ToUpper":
		if !x.casef {
			x.casef = true
			for _, s := range sortedKeys(x.strLits) {
				x.caseFacts(s)
			}
		}
		return one(st, x.uf("strings/"+strings.ToLower(key[10:]), SSeq, asTerm(args[0]))), true
	case key == "fmt.Sprintf" || key == "fmt.Sprint" || key == "fmt.Sprintln":
		x.assumed["fmt.Sprintf yields some text"] = true
		return one(st, x.freshT("text", SSeq)), true
	case key == "errors.New" || key == "fmt.Errorf":
		e := x.freshT("err", SVal)
		st.assume(not(eq(e, cst("nilV", SVal))))
		x.assumed["errors.New, fmt.Errorf return a non-nil error"] = true
		return one(st, e), true
	case key == "sort.Strings" || key == "slices.Sort" && len(args) == 1:
		v, ok := args[0].(*SliceV)
		if !ok || x.seqSort(v.elem) != SSeqS {
			return nil, false
		}
		x.assumed[key+" puts the elements of its argument in ascending order"] = true
		x.sortInPlace(st, v, fr, pos)
		return one(st), true
	case key == "strings.TrimSpace":
		v := asTerm(args[0])
		lo, hi, i := x.freshT("lo", SInt), x.freshT("hi", SInt), x.boundInt()
		st.assume(and(le(num(0), lo), le(lo, hi), le(hi, slen(v))))
		e := sat(v, i.term())
		st.assume(quant("forall", []bvar{i}, imp(and(le(num(0), i.term()), lt(i.term(), slen(v)), lt(num(32), e), lt(e, num(127))), and(le(lo, i.term()), lt(i.term(), hi))), [][]*Term{{e}}))
		// trigger terms for the ends
		st.assume(imp(lt(num(0), slen(v)), and(le(num(0), sat(v, num(0))), le(num(0), sat(v, sub(slen(v), num(1)))))))
		x.assumed["strings.TrimSpace cuts only blanks off both ends"] = true
		return one(st, ssub(v, lo, hi)), true
	case key == "strings.TrimRight":
		lit, ok := x.litOf(asTerm(args[1]))
		if !ok || !ascii(lit) {
			return nil, false
		}
		v := asTerm(args[0])
		k, i := x.freshT("k", SInt), x.boundInt()
		in := func(e *Term) *Term { return oneOf(e, lit) }
		st.assume(and(le(num(0), k), le(k, slen(v))))
		e := sat(v, i.term())
		st.assume(quant("forall", []bvar{i}, imp(and(le(k, i.term()), lt(i.term(), slen(v))), in(e)), [][]*Term{{e}}))
		st.assume(imp(lt(num(0), k), not(in(sat(v, sub(k, num(1)))))))
		x.assumed["strings.TrimRight cuts off the longest end made of the cutset"] = true
		return one(st, ssub(v, num(0), k)), true
	case key == "strings.ContainsRune" || key == "strings.Contains":
		v, r := asTerm(args[0]), asTerm(args[1])
		if key == "strings.Contains" {
			lit, ok := x.litOf(r)
			if !ok || len(lit) != 1 || !ascii(lit) {
				return nil, false
			}
			r = num(int64(lit[0]))
		}
		x.assumed["strings.ContainsRune, strings.Contains tell whether the character occurs"] = true
		if lit, ok := x.litOf(v); ok && ascii(lit) {
			return one(st, oneOf(r, lit)), true
		}
		if r.n == nil || r.n.Int64() >= 128 || r.n.Sign() < 0 {
			return nil, false
		}
		w, i := x.freshT("at", SInt), x.boundInt()
		b := x.freshT("contains", SBool)
		e := sat(v, i.term())
		st.assume(imp(b, and(le(num(0), w), lt(w, slen(v)), eq(sat(v, w), r))))
		st.assume(imp(not(b), quant("forall", []bvar{i}, imp(and(le(num(0), i.term()), lt(i.term(), slen(v))), not(eq(e, r))), [][]*Term{{e}})))
		return one(st, b), true
	case key == "utf8.DecodeLastRuneInString":
		v := asTerm(args[0])
		r, n := x.freshT("rune", SInt), x.freshT("size", SInt)
		last := sat(v, sub(slen(v), num(1)))
		st.assume(and(le(num(0), n), le(n, num(4)), le(n, slen(v)), le(num(0), r), le(r, num(0x10ffff))))
		st.assume(ite(eq(slen(v), num(0)), and(eq(r, num(0xfffd)), eq(n, num(0))), ite(lt(last, num(128)), and(eq(r, last), eq(n, num(1))), and(le(num(128), r), le(num(1), n)))))
		x.assumed["utf8.DecodeLastRuneInString: an ASCII byte at the end is the last rune, any other end gives a larger rune"] = true
		return one(st, r, n), true
	case key == "strings.HasPrefix":
		return one(st, spfx(asTerm(args[1]), asTerm(args[0]))), true
	case key == "strings.HasSuffix":
		s, p := asTerm(args[0]), asTerm(args[1])
		return one(st, and(le(slen(p), slen(s)), seqEq(ssub(s, sub(slen(s), slen(p)), slen(s)), p))), true
	case key == "json.Unmarshal":
		a, ok := args[1].(*AddrV)
		if !ok {
			return nil, false
		}
		x.store(st, a, x.fresh(st, "json", a.typ), nil, 0)
		x.assumed["encoding/json.Unmarshal puts some value into its target and returns some error"] = true
		return one(st, x.fresh(st, "err", types.Universe.Lookup("error").Type())), true
	case key == "strings.CutPrefix":
		s, p := asTerm(args[0]), asTerm(args[1])
		return one(st, ite(spfx(p, s), ssub(s, slen(p), slen(s)), s), spfx(p, s)), true
	case key == "strings.LastIndex":
		s, p := asTerm(args[0]), asTerm(args[1])
		w, i := x.freshT("last", SInt), x.boundInt()
		e := sat(s, i.term())
		st.assume(and(le(num(-1), w), le(w, slen(s))))
		st.assume(imp(le(num(0), w), and(le(add(w, slen(p)), slen(s)), seqEq(ssub(s, w, add(w, slen(p))), p))))
		st.assume(imp(eq(slen(p), num(1)), quant("forall", []bvar{i}, imp(and(lt(w, i.term()), lt(i.term(), slen(s))), not(eq(e, sat(p, num(0))))), [][]*Term{{e}})))
		x.assumed["strings.LastIndex gives the last place where the text occurs"] = true
		return one(st, w), true
	case key == "strings.TrimPrefix":
		s, p := asTerm(args[0]), asTerm(args[1])
		return one(st, ite(spfx(p, s), ssub(s, slen(p), slen(s)), s)), true
	case key == "strings.TrimSuffix":
		s, p := asTerm(args[0]), asTerm(args[1])
		return one(st, ite(and(le(slen(p), slen(s)), seqEq(ssub(s, sub(slen(s), slen(p)), slen(s)), p)), ssub(s, num(0), sub(slen(s), slen(p))), s)), true
	}
	return nil, false
}

// ---------------------------------------------------------------- contracts

func sigParams(sig *types.Signature, recv types.Type) []types.Type {
	var out []types.Type
	if recv != nil {
		out = append(out, recv)
	} else if sig.Recv() != nil {
		out = append(out, sig.Recv().Type())
	}
	for i := 0; i < sig.Params().Len(); i++ {
		out = append(out, sig.Params().At(i).Type())
	}
	return out
}

type modLoc struct {
	name  string
	sort  Sort // element sort (or whole sort for globals)
	glob  bool
	ghost bool
	at    []*Ex // nil: anything
	isNew bool  // only new objects
}

// modLocs resolves the modifies clauses of a contract.
func (x *Exec) modLocs(c *Contract) map[string]*modLoc {
	out := map[string]*modLoc{}
	put := func(name string, s Sort, it ModItem, glob, ghost bool) {
		m := out[name]
		if m == nil {
			m = &modLoc{name: name, sort: s, glob: glob, ghost: ghost, isNew: true}
			m.at = []*Ex{}
			out[name] = m
		}
		switch {
		case it.at == nil:
			m.at, m.isNew = nil, false
		case it.at.op == "id" && it.at.name == "new":
		default:
			if m.at != nil {
				m.at = append(m.at, it.at)
			}
		}
	}
	for _, it := range c.modifies {
		n := it.name
		switch {
		case n == "log":
			put("$log", SSeqV, it, false, true)
			continue
		case n == "alloc":
			continue
		case n == "own":
			put("map.own", SSeqS, it, false, false)
			continue
		case n == "Builder":
			put("strings.Builder.content", SSeq, it, false, false)
			continue
		case n == "Buffer":
			put("bytes.Buffer.content", SSeq, it, false, false)
			continue
		case strings.HasPrefix(n, "atomic."):
			put(n+".v", SInt, it, false, false)
			continue
		case strings.HasPrefix(n, "cell."):
			ty := x.parseType(c.pkg, n[5:]).gt
			for _, l := range x.leaves(ty) {
				put("cell."+x.p.typeName(ty)+l.suffix, l.sort, it, false, false)
			}
			continue
		case strings.HasPrefix(n, "gomap<"):
			kv := strings.SplitN(n[6:], ">", 2)
			mt := types.NewMap(x.parseType(c.pkg, kv[0]).gt, x.parseType(c.pkg, kv[1]).gt)
			base, ks := x.mapNames(mt)
			put(base+".dom", arr(ks, SBool), it, false, false)
			for _, l := range x.leaves(mt.Elem()) {
				put(base+".val"+l.suffix, arr(ks, l.sort), it, false, false)
			}
			continue
		}
		if g, ok := x.sp.ghosts[n]; ok {
			put(n, x.stySort(x.parseType(x.sp.ghostPkg[n], g)), it, false, true)
			continue
		}
		// [pkg.]T.field, or a global variable
		parts := strings.Split(n, ".")
		pk := c.pkg
		if len(parts) == 3 {
			pk, parts = parts[0], parts[1:]
		}
		if len(parts) == 2 {
			t := x.parseType(pk, parts[0]).gt
			u, ok := t.Underlying().(*types.Struct)
			if !ok {
				panic("spec: modifies " + n)
			}
			found := false
			for i := 0; i < u.NumFields(); i++ {
				f := u.Field(i)
				if f.Name() != parts[1] && parts[1] != "*" {
					continue
				}
				found = true
				if _, ok := f.Type().Underlying().(*types.Struct); ok {
					continue
				}
				for _, l := range x.leaves(f.Type()) {
					put(x.structBase(t)+"."+f.Name()+l.suffix, l.sort, it, false, false)
				}
			}
			if !found {
				panic("spec: modifies " + n)
			}
			continue
		}
		if o, ok := x.p.pkgs[pk].Pkg.Scope().Lookup(n).(*types.Var); ok {
			for _, l := range x.leaves(o.Type()) {
				put(x.p.pkgName(o.Pkg())+"."+n+l.suffix, l.sort, it, true, false)
			}
			continue
		}
		panic("spec: modifies " + n)
	}
	return out
}

func (x *Exec) isOldRef(r, next *Term) *Term {
	x.declareUF("embInv", []Sort{SInt}, SInt)
	return and(lt(r, next), imp(lt(r, num(0)), lt(mk("embInv", SInt, r), next)))
}

func (x *Exec) applyContract(fr *Frame, st *State, c *Contract, key string, sig *types.Signature, recv types.Type, args []Value, pos token.Pos) []Outcome {
	if c.extern || c.trusted {
		x.assumed["contract "+key] = true
	} else {
		x.used[key] = true
	}
	ev := &evCtx{x: x, st: st, env: map[string]SV{}, pkg: c.pkg}
	tys := sigParams(sig, recv)
	for i, p := range c.params {
		if i < len(args) {
			ev.env[p] = SV{v: args[i], gt: tys[i]}
		}
	}
	for i, r := range c.requires {
		l := r.label
		if l == "" {
			l = fmt.Sprint(i + 1)
		}
		x.oblige(st, "pre:"+key+"/"+l, ev.bool(r.ex), pos)
	}
	for _, r := range c.requires {
		st.assume(ev.bool(r.ex))
	}
	if key == x.fnKey && c.decreases != nil && x.recEntry != nil {
		m := ev.term(c.decreases)
		x.oblige(st, "decreases", and(le(num(0), m), lt(m, x.recEntry)), pos)
	}
	if c.pure {
		var flat []*Term
		for i, a := range args {
			fs := x.flatten(st, a, tys[i])
			if _, ok := tys[i].Underlying().(*types.Slice); ok {
				fs = fs[:1]
			}
			flat = append(flat, fs...)
		}
		var rs []Value
		for i := 0; i < sig.Results().Len(); i++ {
			t := sig.Results().At(i).Type()
			var ts []*Term
			for _, l := range x.leaves(t) {
				name := fmt.Sprintf("pure/%s/%d%s", sanitize(key), i, sanitize(l.suffix))
				r := x.uf(name, l.sort, flat...)
				if l.typ != nil {
					x.typeFacts(st, r, l.typ)
				}
				ts = append(ts, r)
			}
			v := x.unflatten(ts, t)
			x.sliceFacts(st, v)
			rs = append(rs, v)
			if i < len(c.results) {
				ev.env[c.results[i]] = SV{v: v, gt: t}
			}
		}
		for _, e := range c.ensures {
			st.assume(ev.bool(e.ex))
		}
		return one(st, rs...)
	}
	old := st.clone()
	ev.old = old
	locs := x.modLocs(c)
	// new objects
	if !c.extern || len(locs) > 0 {
		nx := x.freshT("next", SInt)
		st.assume(le(st.next, nx))
		st.next = nx
	}
	oldEv := *ev
	oldEv.st = old
	for _, name := range sortedKeys(locs) {
		l := locs[name]
		switch {
		case l.ghost:
			st.ghost[name] = x.freshT("ghost/"+name, l.sort)
		case l.glob:
			st.heap[name] = x.freshT(name, l.sort)
		case l.at == nil:
			x.heapVar(st, name, arr(SInt, l.sort))
			x.heapHavoc(st, name, arr(SInt, l.sort))
		case l.isNew || true:
			h := x.heapVar(st, name, arr(SInt, l.sort))
			var pts []*Term
			for _, a := range l.at {
				pts = append(pts, oldEv.term(a))
			}
			if !l.isNew || hasNew(c, x, name) {
				n := x.heapHavoc(st, name, arr(SInt, l.sort))
				q := fmt.Sprintf("r?%d", x.ctr)
				r := cst(q, SInt)
				conds := []*Term{x.isOldRef(r, old.next)}
				for _, p := range pts {
					conds = append(conds, not(eq(r, p)))
				}
				st.assume(quant("forall", []bvar{{q, SInt}}, imp(and(conds...), eq(sel(n, r), sel(h, r))), [][]*Term{{sel(n, r)}}))
			} else {
				for _, p := range pts {
					x.heapSet(st, name, p, x.freshT(name+"/at", l.sort))
				}
			}
		}
	}
	for _, w := range c.writes {
		for i, p := range c.params {
			if p != w {
				continue
			}
			s, ok := args[i].(*SliceV)
			if !ok || s.cell == nil {
				unsup("%s writes into its argument %s, a slice not owned here", key, p)
			}
			if st.esc[s.cell.id] {
				unsup("%s writes into its argument %s, a shared array", key, p)
			}
			cc := st.cells[s.cell.id].(*Term)
			mid := x.freshT("written", cc.sort)
			st.assume(eq(slen(mid), x.sliceLen(st, s)))
			st.cells[s.cell.id] = scat(ssub(cc, num(0), s.lo), scat(mid, ssub(cc, s.hi, slen(cc))))
			// the view reads back as the written part
			st.assume(mk("=", SBool, x.seqOf(st, s), mid))
		}
	}
	rs := x.results(st, "r/"+key, sig)
	for i, n := range c.results {
		ev.env[n] = SV{v: rs[i], gt: sig.Results().At(i).Type()}
	}
	for _, e := range c.ensures {
		st.assume(ev.bool(e.ex))
	}
	return one(st, rs...)
}

// hasNew: does the contract also allow new objects at heap name?
func hasNew(c *Contract, x *Exec, name string) bool {
	for _, it := range c.modifies {
		if it.at != nil && it.at.op == "id" && it.at.name == "new" {
			d := *c
			d.modifies = []ModItem{{name: it.name}}
			if _, ok := x.modLocs(&d)[name]; ok {
				return true
			}
		}
	}
	return false
}

// strlt is the byte order of strings.
func (x *Exec) strlt(a, b *Term) *Term {
	if _, ok := x.ufs["strlt"]; !ok {
		x.declareUF("strlt", []Sort{SSeq, SSeq}, SBool)
		x.addAxiom("(forall ((a SeqI)) (! (not (strlt a a)) :pattern ((strlt a a))))")
		x.addAxiom("(forall ((a SeqI) (b SeqI)) (! (=> (strlt a b) (not (strlt b a))) :pattern ((strlt a b))))")
		x.addAxiom("(forall ((a SeqI) (b SeqI)) (! (or (strlt a b) (strlt b a) (= a b)) :pattern ((strlt a b))))")
		x.addAxiom("(forall ((a SeqI) (b SeqI) (c SeqI)) (! (=> (and (strlt a b) (strlt b c)) (strlt a c)) :pattern ((strlt a b) (strlt b c))))")
	}
	return mk("strlt", SBool, a, b)
}

// sorted is the sorted rearrangement of a list of strings.
func (x *Exec) sorted(s *Term) *Term {
	if _, ok := x.ufs["sortS"]; !ok {
		x.strlt(semp(SSeq), semp(SSeq))
		x.declareUF("sortS", []Sort{SSeqS}, SSeqS)
		x.declareUF("sortP", []Sort{SSeqS, SInt}, SInt) // where the i-th of the sorted list was
		x.declareUF("sortQ", []Sort{SSeqS, SInt}, SInt) // where the i-th of the list goes
		x.addAxiom("(forall ((s SeqS)) (! (= (len_S (sortS s)) (len_S s)) :pattern ((sortS s))))")
		x.addAxiom("(forall ((s SeqS) (i Int)) (! (=> (and (<= 0 i) (< i (len_S s))) (and (<= 0 (sortP s i)) (< (sortP s i) (len_S s)) (= (at_S (sortS s) i) (at_S s (sortP s i))) (= (sortQ s (sortP s i)) i))) :pattern ((at_S (sortS s) i))))")
		x.addAxiom("(forall ((s SeqS) (i Int)) (! (=> (and (<= 0 i) (< i (len_S s))) (and (<= 0 (sortQ s i)) (< (sortQ s i) (len_S s)) (= (at_S (sortS s) (sortQ s i)) (at_S s i)) (= (sortP s (sortQ s i)) i))) :pattern ((sortS s) (at_S s i))))")
		x.addAxiom("(forall ((s SeqS) (i Int) (j Int)) (! (=> (and (<= 0 i) (< i j) (< j (len_S s))) (not (strlt (at_S (sortS s) j) (at_S (sortS s) i)))) :pattern ((at_S (sortS s) i) (at_S (sortS s) j))))")
	}
	return mk("sortS", SSeqS, s)
}

func (x *Exec) sortInPlace(st *State, v *SliceV, fr *Frame, pos token.Pos) {
	r := x.sorted(x.seqOf(st, v))
	if v.cell != nil {
		if st.esc[v.cell.id] {
			unsup("sorting a shared array")
		}
		c := st.cells[v.cell.id].(*Term)
		st.cells[v.cell.id] = scat(ssub(c, num(0), v.lo), scat(r, ssub(c, v.hi, slen(c))))
		st.assume(mk("=", SBool, x.seqOf(st, v), r))
		return
	}
	if v.origin == nil {
		unsup("sorting a slice not owned here")
	}
	now, ok := x.load(st, v.origin, fr, pos).(*SliceV)
	if !ok || now.seq == nil || now.seq.str != v.seq.str {
		unsup("sorting a slice no longer held by its variable")
	}
	x.assumed["a slice kept in a field or variable is not shared with another one when sorted in place"] = true
	x.store(st, v.origin, &SliceV{seq: r, nilf: v.nilf, elem: v.elem}, fr, pos)
}

func (x *Exec) boundInt() bvar {
	x.ctr++
	return bvar{fmt.Sprintf("q?%d", x.ctr), SInt}
}

func ascii(s string) bool {
	for i := 0; i < len(s); i++ {
		if s[i] >= 128 {
			return false
		}
	}
	return true
}

func oneOf(e *Term, lit string) *Term {
	var cs []*Term
	for i := 0; i < len(lit); i++ {
		cs = append(cs, eq(e, num(int64(lit[i]))))
	}
	return or(cs...)
}

func (b bvar) term() *Term {
	t := cst(b.name, b.sort)
	t.qv = true
	return t
}

// inlines: the contract asks for the body of a callee (option inline).
func (x *Exec) inlines(key string) bool {
	if x.contract == nil {
		return false
	}
	for _, w := range strings.Fields(x.contract.opts["inline"]) {
		if key == w || strings.HasSuffix(key, "."+w) {
			return true
		}
	}
	return false
}
