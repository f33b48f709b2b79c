package main

import (
	"fmt"
	"go/types"
	"math/big"

	"golang.org/x/tools/go/ssa"
)

// Value is a symbolic value: *Term, *SliceV, *StructV, TupleV, *AddrV, *FuncV, *IterV.
type Value any

// SliceV is a slice: a sequence value, or a view [lo,hi) of a local cell.
type SliceV struct {
	seq, nilf *Term
	cell      *Cell
	lo, hi    *Term
	elem      types.Type
	origin    *AddrV // the variable this value was just read from
}

type StructV struct {
	typ    types.Type
	fields []Value
}

type TupleV []Value

type Cell struct {
	id  string
	typ types.Type // type of the content
	n   *Term      // length of the array, where known
}

// AddrV is an address other than a struct reference.
type AddrV struct {
	kind   string // cell, heap, elem, ro, global
	cell   *Cell
	base   string // heap name
	ref    *Term
	seq    *Term
	idx    *Term
	typ    types.Type // type stored there
	global *ssa.Global
}

type FuncV struct {
	fn    *ssa.Function
	binds []Value
	recv  Value // bound method through an interface
	ref   *Term
}

type IterV struct {
	id   string
	m    *Term
	mt   *types.Map
	dom0 *Term
}

type unsupported struct{ msg string }

func unsup(f string, a ...any) { panic(unsupported{fmt.Sprintf(f, a...)}) }

// leaf is one SMT component of a Go type.
type leaf struct {
	suffix string
	sort   Sort
	typ    types.Type
}

func intRange(t types.Type) (lo, hi *big.Int, wrap bool) {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return nil, nil, false
	}
	two := func(n uint) *big.Int { return new(big.Int).Lsh(big.NewInt(1), n) }
	one := big.NewInt(1)
	switch b.Kind() {
	case types.Uint8:
		return big.NewInt(0), new(big.Int).Sub(two(8), one), true
	case types.Uint16:
		return big.NewInt(0), new(big.Int).Sub(two(16), one), true
	case types.Uint32:
		return big.NewInt(0), new(big.Int).Sub(two(32), one), true
	case types.Uint64, types.Uint, types.Uintptr:
		return big.NewInt(0), new(big.Int).Sub(two(64), one), true
	case types.Int8:
		return new(big.Int).Neg(two(7)), new(big.Int).Sub(two(7), one), true
	case types.Int16:
		return new(big.Int).Neg(two(15)), new(big.Int).Sub(two(15), one), true
	case types.Int32:
		return new(big.Int).Neg(two(31)), new(big.Int).Sub(two(31), one), false
	case types.Int64:
		return new(big.Int).Neg(two(63)), new(big.Int).Sub(two(63), one), true
	case types.Int, types.UntypedInt, types.UntypedRune:
		return new(big.Int).Neg(two(63)), new(big.Int).Sub(two(63), one), false
	}
	return nil, nil, false
}

func (x *Exec) sortOf(t types.Type) Sort {
	l := x.leaves(t)
	if len(l) != 1 {
		unsup("type %s has %d components", t, len(l))
	}
	return l[0].sort
}

func (x *Exec) leaves(t types.Type) []leaf {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsString != 0:
			return []leaf{{"", SSeq, t}}
		case u.Info()&types.IsBoolean != 0:
			return []leaf{{"", SBool, t}}
		case u.Info()&types.IsInteger != 0:
			return []leaf{{"", SInt, t}}
		case u.Info()&(types.IsFloat|types.IsComplex) != 0:
			return []leaf{{"", SFlt, t}}
		case u.Kind() == types.UntypedNil:
			return []leaf{{"", SVal, t}}
		case u.Kind() == types.UnsafePointer:
			return []leaf{{"", SInt, t}}
		}
	case *types.Pointer, *types.Map, *types.Signature, *types.Chan:
		return []leaf{{"", SInt, t}}
	case *types.Interface:
		return []leaf{{"", SVal, t}}
	case *types.Slice:
		return []leaf{{"", x.seqSort(u.Elem()), t}, {"$nil", SBool, nil}}
	case *types.Array:
		return []leaf{{"", x.seqSort(u.Elem()), t}}
	case *types.Struct:
		if x.p.repoStruct(t) == nil {
			return []leaf{{"", SInt, t}}
		}
		var out []leaf
		for i := 0; i < u.NumFields(); i++ {
			for _, l := range x.leaves(u.Field(i).Type()) {
				out = append(out, leaf{"." + u.Field(i).Name() + l.suffix, l.sort, l.typ})
			}
		}
		return out
	case *types.Tuple:
		var out []leaf
		for i := 0; i < u.Len(); i++ {
			out = append(out, x.leaves(u.At(i).Type())...)
		}
		return out
	}
	unsup("type %s", t)
	return nil
}

// seqSort is the sort of sequences of elem.
func (x *Exec) seqSort(elem types.Type) Sort {
	l := x.leaves(elem)
	if len(l) == 1 {
		switch l[0].sort {
		case SInt:
			return SSeq
		case SSeq:
			return SSeqS
		}
	}
	return SSeqV
}

// toElem encodes a value of type t as an element of a sequence of t.
func (x *Exec) toElem(st *State, v Value, t types.Type) *Term {
	l := x.leaves(t)
	if len(l) == 1 {
		switch l[0].sort {
		case SInt, SSeq, SVal:
			return x.flatten(st, v, t)[0]
		}
	}
	return x.box(st, v, t)
}

func (x *Exec) fromElem(e *Term, t types.Type) Value {
	l := x.leaves(t)
	if len(l) == 1 {
		switch l[0].sort {
		case SInt, SSeq, SVal:
			return e
		}
	}
	return x.unbox(e, t)
}

// flatten turns a value of type t into its components.
func (x *Exec) flatten(st *State, v Value, t types.Type) []*Term {
	switch v := v.(type) {
	case *Term:
		if _, ok := t.Underlying().(*types.Slice); ok {
			return []*Term{v, tFalse}
		}
		return []*Term{v}
	case *SliceV:
		return []*Term{x.seqOf(st, v), v.nilf}
	case *StructV:
		var out []*Term
		u := v.typ.Underlying().(*types.Struct)
		for i, f := range v.fields {
			out = append(out, x.flatten(st, f, u.Field(i).Type())...)
		}
		return out
	case *FuncV:
		return []*Term{x.funcRef(v)}
	case *AddrV:
		return []*Term{x.addrRef(st, v)}
	case TupleV:
		var out []*Term
		u := t.(*types.Tuple)
		for i, f := range v {
			out = append(out, x.flatten(st, f, u.At(i).Type())...)
		}
		return out
	}
	unsup("flatten %T", v)
	return nil
}

func (x *Exec) unflatten(ts []*Term, t types.Type) Value {
	v, rest := x.unflat(ts, t)
	if len(rest) != 0 {
		panic("unflatten")
	}
	return v
}

func (x *Exec) unflat(ts []*Term, t types.Type) (Value, []*Term) {
	switch u := t.Underlying().(type) {
	case *types.Slice:
		return &SliceV{seq: ts[0], nilf: ts[1], elem: u.Elem()}, ts[2:]
	case *types.Struct:
		if x.p.repoStruct(t) == nil {
			break
		}
		s := &StructV{typ: t}
		for i := 0; i < u.NumFields(); i++ {
			var f Value
			f, ts = x.unflat(ts, u.Field(i).Type())
			s.fields = append(s.fields, f)
		}
		return s, ts
	case *types.Tuple:
		var s TupleV
		for i := 0; i < u.Len(); i++ {
			var f Value
			f, ts = x.unflat(ts, u.At(i).Type())
			s = append(s, f)
		}
		return s, ts
	}
	return ts[0], ts[1:]
}

func zeroTerm(s Sort) *Term {
	switch s {
	case SInt:
		return num(0)
	case SBool:
		return tFalse
	case SVal:
		return cst("nilV", SVal)
	case SSeq, SSeqS, SSeqV:
		return semp(s)
	case SFlt:
		return cst("zeroF", SFlt)
	}
	panic("zero of " + string(s))
}

func (x *Exec) zero(t types.Type) Value {
	if a, ok := t.Underlying().(*types.Array); ok {
		ez := x.toElem(nil, x.zero(a.Elem()), a.Elem())
		s := x.seqSort(a.Elem())
		return srep(ez, a.Len(), s)
	}
	var ts []*Term
	for _, l := range x.leaves(t) {
		if l.suffix == "$nil" || len(l.suffix) > 4 && l.suffix[len(l.suffix)-4:] == "$nil" {
			ts = append(ts, tTrue)
			continue
		}
		if l.typ != nil {
			if a, ok := l.typ.Underlying().(*types.Array); ok {
				_ = a
				ts = append(ts, x.zero(l.typ).(*Term))
				continue
			}
		}
		ts = append(ts, zeroTerm(l.sort))
	}
	return x.unflatten(ts, t)
}

// fresh makes an unconstrained value of type t (with its type's range facts).
func (x *Exec) fresh(st *State, hint string, t types.Type) Value {
	var ts []*Term
	for _, l := range x.leaves(t) {
		c := x.freshT(hint+l.suffix, l.sort)
		ts = append(ts, c)
		if l.typ != nil {
			x.typeFacts(st, c, l.typ)
		}
	}
	v := x.unflatten(ts, t)
	x.sliceFacts(st, v)
	return v
}

func (x *Exec) sliceFacts(st *State, v Value) {
	switch v := v.(type) {
	case *SliceV:
		if v.nilf != tFalse && v.nilf != tTrue {
			st.assume(imp(v.nilf, eq(slen(v.seq), num(0))))
		}
	case *StructV:
		for _, f := range v.fields {
			x.sliceFacts(st, f)
		}
	case TupleV:
		for _, f := range v {
			x.sliceFacts(st, f)
		}
	}
}

func (x *Exec) typeFacts(st *State, c *Term, t types.Type) {
	if st == nil || c.n != nil {
		return
	}
	if lo, hi, _ := intRange(t); lo != nil && c.sort == SInt {
		st.assume(and(le(bignum(lo), c), le(c, bignum(hi))))
	}
	switch u := t.Underlying().(type) {
	case *types.Array:
		st.assume(eq(slen(c), num(u.Len())))
	case *types.Pointer, *types.Map:
		st.assume(lt(c, st.next))
		if _, ok := u.(*types.Map); ok {
			st.assume(le(num(0), c))
		}
	}
}

func (x *Exec) seqOf(st *State, s *SliceV) *Term {
	if s.cell == nil {
		return s.seq
	}
	c := st.cells[s.cell.id].(*Term)
	if s.cell.n != nil && s.lo.n != nil && s.lo.n.Sign() == 0 && s.hi.str == s.cell.n.str {
		return c
	}
	return ssub(c, s.lo, s.hi)
}

func (x *Exec) sliceLen(st *State, s *SliceV) *Term {
	if s.cell == nil {
		return slen(s.seq)
	}
	return sub(s.hi, s.lo)
}

// tag returns the type tag term of a concrete type.
func (x *Exec) tag(t types.Type) *Term {
	n := x.p.typeName(t)
	if id, ok := x.tags[n]; ok {
		return num(int64(id))
	}
	id := len(x.tags) + 1
	x.tags[n] = id
	x.tagTypes[id] = t
	if ls := x.leaves(t); len(ls) == 1 {
		f := map[Sort]string{SInt: "I", SBool: "B", SSeq: "S", SSeqS: "L", SSeqV: "V", SFlt: "F", SVal: "W"}[ls[0].sort]
		x.addAxiom(fmt.Sprintf("(forall ((v Val)) (! (=> (= (tagV v) %d) (= v (box%s %d (un%s v)))) :pattern ((un%s v))))", id, f, id, f, f))
	}
	for _, ip := range x.impls {
		if types.Implements(t, ip.it) {
			x.addAxiom(fmt.Sprintf("(%s %d)", ip.name, id))
		} else {
			x.addAxiom(fmt.Sprintf("(not (%s %d))", ip.name, id))
		}
	}
	return num(int64(id))
}

func (x *Exec) box(st *State, v Value, t types.Type) *Term {
	if types.IsInterface(t) {
		return v.(*Term)
	}
	tg := x.tag(t)
	ls := x.leaves(t)
	ts := x.flatten(st, v, t)
	if len(ls) == 1 {
		switch ls[0].sort {
		case SInt:
			return mk("boxI", SVal, tg, ts[0])
		case SBool:
			return mk("boxB", SVal, tg, ts[0])
		case SSeq:
			return mk("boxS", SVal, tg, ts[0])
		case SSeqS:
			return mk("boxL", SVal, tg, ts[0])
		case SSeqV:
			return mk("boxV", SVal, tg, ts[0])
		case SFlt:
			return mk("boxF", SVal, tg, ts[0])
		case SVal:
			return mk("boxW", SVal, tg, ts[0])
		}
	}
	name := x.structBox(t, ls)
	return mk(name, SVal, ts...)
}

// structBox declares the boxing function of a multi-component type.
func (x *Exec) structBox(t types.Type, ls []leaf) string {
	name := "box/" + sanitize(x.p.typeName(t))
	if _, ok := x.ufs[name]; ok {
		return name
	}
	var args []Sort
	decl, call, rec := "", "("+name, ""
	for i, l := range ls {
		args = append(args, l.sort)
		decl += fmt.Sprintf("(a%d %s)", i, l.sort)
		call += fmt.Sprintf(" a%d", i)
	}
	call += ")"
	x.declareUF(name, args, SVal)
	tg := x.tag(t)
	body := fmt.Sprintf("(= (tagV %s) %s)", call, tg)
	for i, l := range ls {
		u := fmt.Sprintf("un/%s/%d", sanitize(x.p.typeName(t)), i)
		x.declareUF(u, []Sort{SVal}, l.sort)
		body += fmt.Sprintf(" (= (%s %s) a%d)", u, call, i)
		rec += fmt.Sprintf(" (%s v)", u)
	}
	x.addAxiom(fmt.Sprintf("(forall (%s) (! (and %s) :pattern (%s)))", decl, body, call))
	x.addAxiom(fmt.Sprintf("(forall ((v Val)) (! (=> (= (tagV v) %s) (= v (%s%s))) :pattern ((un/%s/0 v))))", tg, name, rec, sanitize(x.p.typeName(t))))
	return name
}

func (x *Exec) unbox(v *Term, t types.Type) Value {
	if types.IsInterface(t) {
		return v
	}
	ls := x.leaves(t)
	if len(ls) == 1 {
		f := map[Sort]string{SInt: "I", SBool: "B", SSeq: "S", SSeqS: "L", SSeqV: "V", SFlt: "F", SVal: "W"}[ls[0].sort]
		if v.op == "box"+f && v.args[0].str == x.tag(t).str {
			return x.unflatten([]*Term{v.args[1]}, t)
		}
		return x.unflatten([]*Term{mk("un"+f, ls[0].sort, v)}, t)
	}
	name := x.structBox(t, ls)
	if v.op == name {
		return x.unflatten(v.args, t)
	}
	var ts []*Term
	for i, l := range ls {
		ts = append(ts, mk(fmt.Sprintf("un/%s/%d", sanitize(x.p.typeName(t)), i), l.sort, v))
	}
	return x.unflatten(ts, t)
}

// isTag: does v hold the concrete type t?
func (x *Exec) isTag(v *Term, t types.Type) *Term {
	return eq(x.tagOf(v), x.tag(t))
}

func (x *Exec) tagOf(v *Term) *Term {
	switch v.op {
	case "boxI", "boxB", "boxS", "boxL", "boxV", "boxF", "boxW":
		return v.args[0]
	case "nilV":
		return num(0)
	}
	for id, t := range x.tagTypes {
		if ls := x.leaves(t); len(ls) > 1 && v.op == "box/"+sanitize(x.p.typeName(t)) {
			return num(int64(id))
		}
	}
	return mk("tagV", SInt, v)
}
