package main

import (
	"fmt"
	"math/big"
	"sort"
	"strings"
)

// Sort is an SMT sort name.
type Sort string

const (
	SInt  Sort = "Int"
	SBool Sort = "Bool"
	SVal  Sort = "Val"
	SSeq  Sort = "SeqI" // sequences of Int: strings, []rune, []byte, []*T
	SSeqS Sort = "SeqS" // sequences of SeqI
	SSeqV Sort = "SeqV" // sequences of Val
	SFlt  Sort = "Flt"
)

func arr(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// arrElem returns the element sort of an array sort.
func arrParts(s Sort) (k, v Sort) {
	str := string(s)
	str = strings.TrimSuffix(strings.TrimPrefix(str, "(Array "), ")")
	depth := 0
	for i, c := range str {
		switch c {
		case '(':
			depth++
		case ')':
			depth--
		case ' ':
			if depth == 0 {
				return Sort(str[:i]), Sort(str[i+1:])
			}
		}
	}
	panic("bad array sort " + string(s))
}

func seqElem(s Sort) Sort {
	switch s {
	case SSeq:
		return SInt
	case SSeqS:
		return SSeq
	case SSeqV:
		return SVal
	}
	panic("not a seq sort: " + string(s))
}

func seqSuffix(s Sort) string { return strings.TrimPrefix(string(s), "Seq") }

// Term is an immutable SMT term.
type Term struct {
	op   string
	args []*Term
	sort Sort
	str  string
	n    *big.Int // integer constant
	qv   bool     // contains a quantifier
	vars []bvar   // quantifiers
	body *Term
	trig [][]*Term
}

func (t *Term) String() string { return t.str }

func mk(op string, s Sort, args ...*Term) *Term {
	t := &Term{op: op, args: args, sort: s}
	if len(args) == 0 {
		t.str = op
	} else {
		var sb strings.Builder
		sb.WriteByte('(')
		sb.WriteString(op)
		for _, a := range args {
			sb.WriteByte(' ')
			sb.WriteString(a.str)
			t.qv = t.qv || a.qv
		}
		sb.WriteByte(')')
		t.str = sb.String()
	}
	return t
}

var (
	tTrue  = mk("true", SBool)
	tFalse = mk("false", SBool)
)

func num(i int64) *Term { return bignum(big.NewInt(i)) }
func bignum(n *big.Int) *Term {
	t := &Term{op: "num", sort: SInt, n: new(big.Int).Set(n)}
	if n.Sign() < 0 {
		t.str = "(- " + new(big.Int).Neg(n).String() + ")"
	} else {
		t.str = n.String()
	}
	return t
}
func boolT(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}
func cst(name string, s Sort) *Term { return mk(name, s) }

func not(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.op == "not":
		return a.args[0]
	}
	return mk("not", SBool, a)
}

func and(as ...*Term) *Term {
	var out []*Term
	seen := map[string]bool{}
	for _, a := range as {
		if a == tTrue || seen[a.str] {
			continue
		}
		if a == tFalse {
			return tFalse
		}
		if a.op == "and" {
			for _, x := range a.args {
				if !seen[x.str] {
					seen[x.str] = true
					out = append(out, x)
				}
			}
			continue
		}
		seen[a.str] = true
		out = append(out, a)
	}
	if len(out) == 0 {
		return tTrue
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("and", SBool, out...)
}

func or(as ...*Term) *Term {
	var out []*Term
	for _, a := range as {
		if a == tFalse {
			continue
		}
		if a == tTrue {
			return tTrue
		}
		out = append(out, a)
	}
	if len(out) == 0 {
		return tFalse
	}
	if len(out) == 1 {
		return out[0]
	}
	return mk("or", SBool, out...)
}

func imp(a, b *Term) *Term {
	if a == tTrue {
		return b
	}
	if a == tFalse || b == tTrue {
		return tTrue
	}
	if b == tFalse {
		return not(a)
	}
	return mk("=>", SBool, a, b)
}

func ite(c, a, b *Term) *Term {
	if c == tTrue {
		return a
	}
	if c == tFalse {
		return b
	}
	if a.str == b.str {
		return a
	}
	if a.sort == SBool && a == tTrue && b == tFalse {
		return c
	}
	return mk("ite", a.sort, c, a, b)
}

func eq(a, b *Term) *Term {
	if a.str == b.str {
		return tTrue
	}
	if a.n != nil && b.n != nil {
		return boolT(a.n.Cmp(b.n) == 0)
	}
	if a.sort == SBool {
		if a == tTrue {
			return b
		}
		if b == tTrue {
			return a
		}
		if a == tFalse {
			return not(b)
		}
		if b == tFalse {
			return not(a)
		}
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("eq sorts differ: %s:%s vs %s:%s", a.str, a.sort, b.str, b.sort))
	}
	return mk("=", SBool, a, b)
}

func add(a, b *Term) *Term {
	if a.n != nil && b.n != nil {
		return bignum(new(big.Int).Add(a.n, b.n))
	}
	if a.n != nil && a.n.Sign() == 0 {
		return b
	}
	if b.n != nil && b.n.Sign() == 0 {
		return a
	}
	// (x + c1) + c2
	if b.n != nil && a.op == "+" && len(a.args) == 2 && a.args[1].n != nil {
		return add(a.args[0], bignum(new(big.Int).Add(a.args[1].n, b.n)))
	}
	return mk("+", SInt, a, b)
}
func sub(a, b *Term) *Term {
	if b.n != nil {
		return add(a, bignum(new(big.Int).Neg(b.n)))
	}
	if a.str == b.str {
		return num(0)
	}
	return mk("-", SInt, a, b)
}
func mul(a, b *Term) *Term {
	if a.n != nil && b.n != nil {
		return bignum(new(big.Int).Mul(a.n, b.n))
	}
	if a.n != nil && a.n.Cmp(big.NewInt(1)) == 0 {
		return b
	}
	if b.n != nil && b.n.Cmp(big.NewInt(1)) == 0 {
		return a
	}
	return mk("*", SInt, a, b)
}
func cmpT(op string, a, b *Term) *Term {
	if a.n != nil && b.n != nil {
		c := a.n.Cmp(b.n)
		switch op {
		case "<":
			return boolT(c < 0)
		case "<=":
			return boolT(c <= 0)
		case ">":
			return boolT(c > 0)
		case ">=":
			return boolT(c >= 0)
		}
	}
	if a.str == b.str {
		return boolT(op == "<=" || op == ">=")
	}
	return mk(op, SBool, a, b)
}
func lt(a, b *Term) *Term { return cmpT("<", a, b) }
func le(a, b *Term) *Term { return cmpT("<=", a, b) }

// divE and modE are SMT (Euclidean, positive divisor: floor) division.
func divE(a, b *Term) *Term {
	if a.n != nil && b.n != nil && b.n.Sign() > 0 {
		return bignum(new(big.Int).Div(a.n, b.n))
	}
	return mk("div", SInt, a, b)
}
func modE(a, b *Term) *Term {
	if a.n != nil && b.n != nil && b.n.Sign() > 0 {
		return bignum(new(big.Int).Mod(a.n, b.n))
	}
	return mk("mod", SInt, a, b)
}

func sel(a, i *Term) *Term {
	_, v := arrParts(a.sort)
	// select over a literal store chain
	if a.op == "store" && a.args[1].str == i.str {
		return a.args[2]
	}
	return mk("select", v, a, i)
}
func sto(a, i, v *Term) *Term { return mk("store", a.sort, a, i, v) }

// sequences

func sq(f string, s Sort) string { return f + "_" + seqSuffix(s) }

// units lists the elements of a literal list (a concatenation of units).
func units(s *Term) []*Term {
	switch s.op {
	case sq("unit", s.sort):
		return []*Term{s.args[0]}
	case sq("cat", s.sort):
		if s.args[0].op == sq("unit", s.sort) {
			if r := units(s.args[1]); r != nil {
				return append([]*Term{s.args[0].args[0]}, r...)
			}
		}
	}
	return nil
}

func listOf(es []*Term, s Sort) *Term {
	r := semp(s)
	for i := len(es) - 1; i >= 0; i-- {
		r = scat(sunit(es[i]), r)
	}
	return r
}

func srep(e *Term, n int64, s Sort) *Term {
	if n > 0 && n <= 8 {
		es := make([]*Term, n)
		for i := range es {
			es[i] = e
		}
		return listOf(es, s)
	}
	return mk(sq("rep", s), s, e, num(n))
}

func smallIdx(i *Term, n int) bool {
	return i.n != nil && i.n.Sign() >= 0 && i.n.IsInt64() && i.n.Int64() < int64(n)
}

func slen(s *Term) *Term {
	if u := units(s); u != nil {
		return num(int64(len(u)))
	}
	if s.op == sq("emp", s.sort) {
		return num(0)
	}
	if s.op == sq("unit", s.sort) {
		return num(1)
	}
	return mk(sq("len", s.sort), SInt, s)
}
func sat(s, i *Term) *Term {
	if s.op == sq("unit", s.sort) && i.n != nil && i.n.Sign() == 0 {
		return s.args[0]
	}
	if i.n != nil {
		if u := units(s); smallIdx(i, len(u)) {
			return u[i.n.Int64()]
		}
	}
	return mk(sq("at", s.sort), seqElem(s.sort), s, i)
}
func semp(s Sort) *Term { return mk(sq("emp", s), s) }
func scat(a, b *Term) *Term {
	if a.op == sq("emp", a.sort) {
		return b
	}
	if b.op == sq("emp", b.sort) {
		return a
	}
	// right-associate
	if a.op == sq("cat", a.sort) {
		return scat(a.args[0], scat(a.args[1], b))
	}
	return mk(sq("cat", a.sort), a.sort, a, b)
}
func ssub(s, l, h *Term) *Term {
	if l.str == h.str {
		return semp(s.sort)
	}
	if l.n != nil && l.n.Sign() == 0 && h.str == slen(s).str {
		return s
	}
	if l.n != nil && h.n != nil {
		if u := units(s); u != nil && smallIdx(l, len(u)) && smallIdx(h, len(u)+1) && l.n.Cmp(h.n) < 0 {
			return listOf(u[l.n.Int64():h.n.Int64()], s.sort)
		}
	}
	return mk(sq("sub", s.sort), s.sort, s, l, h)
}
func sunit(e *Term) *Term {
	var s Sort
	switch e.sort {
	case SInt:
		s = SSeq
	case SSeq:
		s = SSeqS
	case SVal:
		s = SSeqV
	default:
		panic("unit of " + string(e.sort))
	}
	return mk(sq("unit", s), s, e)
}
func supd(s, i, v *Term) *Term {
	if i.n != nil {
		if u := units(s); smallIdx(i, len(u)) {
			c := append([]*Term{}, u...)
			c[i.n.Int64()] = v
			return listOf(c, s.sort)
		}
	}
	return mk(sq("upd", s.sort), s.sort, s, i, v)
}
func seqEq(a, b *Term) *Term {
	if a.str == b.str {
		return tTrue
	}
	return mk(sq("eqs", a.sort), SBool, a, b)
}
func spfx(a, b *Term) *Term { return mk(sq("pfx", a.sort), SBool, a, b) }

func isSeq(s Sort) bool { return s == SSeq || s == SSeqS || s == SSeqV }

// subst replaces free constants by name.
func subst(t *Term, m map[string]*Term) *Term {
	if len(m) == 0 {
		return t
	}
	if t.body != nil {
		tr := make([][]*Term, len(t.trig))
		for i, g := range t.trig {
			for _, x := range g {
				tr[i] = append(tr[i], subst(x, m))
			}
		}
		return quant(t.op, t.vars, subst(t.body, m), tr)
	}
	if len(t.args) == 0 {
		if r, ok := m[t.op]; ok && t.n == nil {
			return r
		}
		return t
	}
	ch := false
	na := make([]*Term, len(t.args))
	for i, a := range t.args {
		na[i] = subst(a, m)
		if na[i] != a {
			ch = true
		}
	}
	if !ch {
		return t
	}
	return rebuild(t.op, t.sort, na)
}

func rebuild(op string, s Sort, a []*Term) *Term {
	switch op {
	case "not":
		return not(a[0])
	case "and":
		return and(a...)
	case "or":
		return or(a...)
	case "=>":
		return imp(a[0], a[1])
	case "ite":
		return ite(a[0], a[1], a[2])
	case "=":
		return eq(a[0], a[1])
	case "+":
		if len(a) == 2 {
			return add(a[0], a[1])
		}
	case "<", "<=", ">", ">=":
		return cmpT(op, a[0], a[1])
	}
	return mk(op, s, a...)
}

type bvar struct {
	name string
	sort Sort
}

// quant builds a quantified formula with optional triggers (each a multi-pattern).
func quant(kind string, vs []bvar, body *Term, trigs [][]*Term) *Term {
	if body == tTrue || body == tFalse {
		return body
	}
	var sb strings.Builder
	sb.WriteString("(" + kind + " (")
	for i, v := range vs {
		if i > 0 {
			sb.WriteByte(' ')
		}
		fmt.Fprintf(&sb, "(%s %s)", v.name, v.sort)
	}
	sb.WriteString(") ")
	if len(trigs) > 0 {
		sb.WriteString("(! " + body.str)
		for _, tr := range trigs {
			sb.WriteString(" :pattern (")
			for i, t := range tr {
				if i > 0 {
					sb.WriteByte(' ')
				}
				sb.WriteString(t.str)
			}
			sb.WriteByte(')')
		}
		sb.WriteByte(')')
	} else {
		sb.WriteString(body.str)
	}
	sb.WriteByte(')')
	return &Term{op: kind, sort: SBool, str: sb.String(), qv: true, vars: vs, body: body, trig: trigs}
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}
