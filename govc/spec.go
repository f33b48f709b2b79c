package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"unicode"
)

// ---------------------------------------------------------------- expressions

type Ex struct {
	op    string // ident,int,str,char,call,index,slice,field,unary,binary,quant,ite,let,old
	name  string
	args  []*Ex
	vars  []qvar
	trigs [][]*Ex
	src   string
}

type qvar struct{ name, typ string }

type tok struct{ k, s string }

func lex(src string) ([]tok, error) {
	var out []tok
	rs := []rune(src)
	for i := 0; i < len(rs); {
		c := rs[i]
		switch {
		case unicode.IsSpace(c):
			i++
		case unicode.IsLetter(c) || c == '_' || c == '$':
			j := i + 1
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_' || rs[j] == '\'') {
				j++
			}
			out = append(out, tok{"id", string(rs[i:j])})
			i = j
		case unicode.IsDigit(c):
			j := i
			for j < len(rs) && (unicode.IsDigit(rs[j])) {
				j++
			}
			out = append(out, tok{"int", string(rs[i:j])})
			i = j
		case c == '"':
			j := i + 1
			for j < len(rs) && rs[j] != '"' {
				if rs[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(string(rs[i : j+1]))
			if err != nil {
				return nil, err
			}
			out = append(out, tok{"str", s})
			i = j + 1
		case c == '\'':
			j := i + 1
			for j < len(rs) && rs[j] != '\'' {
				if rs[j] == '\\' {
					j++
				}
				j++
			}
			s, err := strconv.Unquote(string(rs[i : j+1]))
			if err != nil {
				return nil, err
			}
			out = append(out, tok{"int", fmt.Sprint([]rune(s)[0])})
			i = j + 1
		default:
			matched := false
			for _, o := range []string{"<==>", "==>", "::", ":=", "==", "!=", "<=", ">=", "&&", "||", "&^"} {
				if strings.HasPrefix(string(rs[i:min(len(rs), i+4)]), o) {
					out = append(out, tok{"op", o})
					i += len(o)
					matched = true
					break
				}
			}
			if !matched {
				out = append(out, tok{"op", string(c)})
				i++
			}
		}
	}
	return append(out, tok{"eof", ""}), nil
}

type parser struct {
	t   []tok
	p   int
	src string
}

func parseEx(src string) (e *Ex, err error) {
	ts, err := lex(src)
	if err != nil {
		return nil, fmt.Errorf("%v in %q", err, src)
	}
	p := &parser{t: ts, src: src}
	defer func() {
		if r := recover(); r != nil {
			e, err = nil, fmt.Errorf("spec parse error: %v in %q", r, src)
		}
	}()
	e = p.expr(0)
	if p.cur().k != "eof" {
		panic("unexpected " + p.cur().s)
	}
	e.src = src
	return e, nil
}

func (p *parser) cur() tok { return p.t[p.p] }
func (p *parser) is(s string) bool {
	return p.cur().s == s && (p.cur().k == "op" || p.cur().k == "id")
}
func (p *parser) eat(s string) {
	if !p.is(s) {
		panic("expected " + s + " got " + p.cur().s)
	}
	p.p++
}

var binPrec = map[string]int{"<==>": 1, "==>": 2, "?": 3, "||": 4, "&&": 5, "==": 6, "!=": 6, "<": 6, "<=": 6, ">": 6, ">=": 6, "in": 6, "+": 7, "-": 7, "|": 7, "*": 8, "/": 8, "%": 8, "&": 8, "&^": 8}

func (p *parser) expr(minp int) *Ex {
	l := p.unary()
	for {
		op := p.cur().s
		pr, ok := binPrec[op]
		if !ok || (p.cur().k != "op" && op != "in") || pr < minp {
			return l
		}
		p.p++
		if op == "?" {
			a := p.expr(3)
			p.eat(":")
			b := p.expr(3)
			l = &Ex{op: "ite", args: []*Ex{l, a, b}}
			continue
		}
		np := pr + 1
		if op == "==>" {
			np = pr
		}
		r := p.expr(np)
		l = &Ex{op: "bin", name: op, args: []*Ex{l, r}}
	}
}

func (p *parser) typ() string {
	s := ""
	for {
		c := p.cur()
		if c.s == "*" || c.s == "[" || c.s == "]" || c.s == "." {
			s += c.s
			p.p++
			continue
		}
		if c.k == "id" {
			s += c.s
			p.p++
			m := strings.TrimPrefix(s, "go")
			if p.is(".") || (m == "map" && p.is("[")) || strings.HasPrefix(m, "map[") && strings.HasSuffix(m, "]") && !p.is(",") {
				continue
			}
			if strings.HasPrefix(m, "map[") && !strings.Contains(m, "]") {
				continue
			}
			return s
		}
		panic("bad type near " + c.s)
	}
}

func (p *parser) unary() *Ex {
	c := p.cur()
	switch {
	case c.k == "op" && (c.s == "!" || c.s == "-"):
		p.p++
		return &Ex{op: "un", name: c.s, args: []*Ex{p.unary()}}
	case c.k == "id" && (c.s == "forall" || c.s == "exists"):
		p.p++
		e := &Ex{op: "quant", name: c.s}
		for {
			n := p.cur().s
			p.p++
			t := p.typ()
			e.vars = append(e.vars, qvar{n, t})
			if p.is(",") {
				p.p++
				continue
			}
			break
		}
		p.eat("::")
		for p.is("{") {
			p.p++
			var tr []*Ex
			for {
				tr = append(tr, p.expr(0))
				if p.is(",") {
					p.p++
					continue
				}
				break
			}
			p.eat("}")
			e.trigs = append(e.trigs, tr)
		}
		e.args = []*Ex{p.expr(0)}
		return e
	case c.k == "id" && c.s == "let":
		p.p++
		n := p.cur().s
		p.p++
		p.eat(":=")
		v := p.expr(0)
		p.eat("in_")
		b := p.expr(0)
		return &Ex{op: "let", name: n, args: []*Ex{v, b}}
	}
	return p.postfix(p.primary())
}

func (p *parser) primary() *Ex {
	c := p.cur()
	p.p++
	switch c.k {
	case "int":
		return &Ex{op: "int", name: c.s}
	case "str":
		return &Ex{op: "str", name: c.s}
	case "id":
		e := &Ex{op: "id", name: c.s}
		if strings.HasPrefix(c.s, "$") && p.is(":") && p.t[p.p+1].k != "op" {
			p.p++
			e.vars = []qvar{{c.s, p.typ()}}
		} else if strings.HasPrefix(c.s, "$") && p.is(":") {
			p.p++
			e.vars = []qvar{{c.s, p.typ()}}
		}
		return e
	case "op":
		if c.s == "(" {
			e := p.expr(0)
			p.eat(")")
			return e
		}
	}
	panic("unexpected " + c.s)
}

func (p *parser) postfix(e *Ex) *Ex {
	for {
		switch {
		case p.is("("):
			p.p++
			call := &Ex{op: "call", name: e.name}
			if e.op != "id" {
				panic("call of non-name")
			}
			for !p.is(")") {
				call.args = append(call.args, p.expr(0))
				if p.is(",") {
					p.p++
				}
			}
			p.eat(")")
			if call.name == "old" {
				call.op = "old"
			}
			e = call
		case p.is("["):
			p.p++
			var lo, hi *Ex
			if !p.is(":") {
				lo = p.expr(0)
			}
			if p.is(":") {
				p.p++
				if !p.is("]") {
					hi = p.expr(0)
				}
				p.eat("]")
				e = &Ex{op: "slice", args: []*Ex{e, lo, hi}}
			} else {
				p.eat("]")
				e = &Ex{op: "index", args: []*Ex{e, lo}}
			}
		case p.is("."):
			p.p++
			e = &Ex{op: "field", name: p.cur().s, args: []*Ex{e}}
			p.p++
		default:
			return e
		}
	}
}

// ---------------------------------------------------------------- spec files

type Clause struct {
	label string
	src   string
	ex    *Ex
}

type ModItem struct {
	name string // "radix.nodeS.path", ghost name, "alloc", "log"
	at   *Ex    // optional point
}

type Contract struct {
	pkg       string // package name
	name      string // "(*nodeS).split" or "fn"
	params    []string
	results   []string
	requires  []Clause
	ensures   []Clause
	modifies  []ModItem
	writes    []string // slice parameters whose elements may be written
	ghosts    []ghostUpd
	hints     []Clause
	entry     []Clause
	invs      []Clause
	decreases *Ex
	extern    bool
	pure      bool
	trusted   bool
	foreach   bool
	optional  bool
	opts      map[string]string
	file      string
}

type ghostUpd struct {
	name string
	ex   *Ex
}

type Def struct {
	name   string
	params []qvar
	body   *Ex
	pkg    string
}

type FnDecl struct {
	name string
	args []string
	ret  string
}

type Axiom struct {
	name string
	ex   *Ex
	pkg  string
	lem  bool
}

type Spec struct {
	ghosts    map[string]string // name -> type
	ghostPkg  map[string]string // name -> package it is declared in
	defs      map[string]*Def
	fns       map[string]*FnDecl
	axioms    []*Axiom
	contracts map[string]*Contract // pkgname + "." + name
	dispatch  map[string]string    // iface -> concrete
	pools     map[string]string    // global -> type
	models    map[string]string    // external function -> Go stand-in of its behaviour
	roots     map[string][]string  // property -> functions
	order     []string
}

func newSpec() *Spec {
	return &Spec{ghosts: map[string]string{}, ghostPkg: map[string]string{}, defs: map[string]*Def{}, fns: map[string]*FnDecl{}, contracts: map[string]*Contract{}, dispatch: map[string]string{}, pools: map[string]string{}, models: map[string]string{}, roots: map[string][]string{}}
}

var clauseKW = map[string]bool{"requires": true, "ensures": true, "modifies": true, "writes": true, "ghost": true, "hint": true, "entry": true, "inv": true, "decreases": true, "option": true}

func (sp *Spec) load(dir string) error {
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	for _, f := range files {
		if err := sp.loadFile(f); err != nil {
			return fmt.Errorf("%s: %w", f, err)
		}
	}
	return nil
}

func splitTop(s string, sep rune) []string {
	var out []string
	depth, last := 0, 0
	for i, c := range s {
		switch c {
		case '(', '[', '{':
			depth++
		case ')', ']', '}':
			depth--
		case sep:
			if depth == 0 {
				out = append(out, strings.TrimSpace(s[last:i]))
				last = i + 1
			}
		}
	}
	if strings.TrimSpace(s[last:]) != "" {
		out = append(out, strings.TrimSpace(s[last:]))
	}
	return out
}

func (sp *Spec) loadFile(file string) error {
	b, err := os.ReadFile(file)
	if err != nil {
		return err
	}
	// logical lines
	var lines []string
	for _, l := range strings.Split(string(b), "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		if strings.TrimSpace(l) == "" {
			continue
		}
		first := strings.Fields(l)[0]
		if l[0] != ' ' && l[0] != '\t' || clauseKW[first] {
			lines = append(lines, l)
		} else if len(lines) > 0 {
			lines[len(lines)-1] += " " + strings.TrimSpace(l)
		}
	}
	pkg := ""
	var cur *Contract
	var curs []*Contract
	for _, l := range lines {
		top := l[0] != ' ' && l[0] != '\t'
		kw, rest, _ := strings.Cut(strings.TrimSpace(l), " ")
		rest = strings.TrimSpace(rest)
		fail := func(err error) error { return fmt.Errorf("%v\n  in: %s", err, l) }
		if top {
			cur, curs = nil, nil
			switch kw {
			case "package":
				pkg = rest
			case "ghost":
				n, t, _ := strings.Cut(rest, " ")
				sp.ghosts[n] = strings.TrimSpace(t)
				sp.ghostPkg[n] = pkg
			case "dispatch":
				a, c, _ := strings.Cut(rest, "->")
				sp.dispatch[strings.TrimSpace(a)] = strings.TrimSpace(c)
			case "model":
				a, c, _ := strings.Cut(rest, "->")
				sp.models[strings.TrimSpace(a)] = strings.TrimSpace(c)
			case "pool":
				a, c, _ := strings.Cut(rest, "->")
				sp.pools[strings.TrimSpace(a)] = strings.TrimSpace(c)
			case "property":
				id, fs, _ := strings.Cut(rest, ":")
				id = strings.TrimSpace(id)
				for _, f := range splitTop(fs, ',') {
					if !strings.Contains(f, ".") || strings.HasPrefix(f, "(") {
						f = pkg + "." + f
					}
					sp.roots[id] = append(sp.roots[id], f)
				}
			case "fn":
				i, j := strings.Index(rest, "("), strings.LastIndex(rest, ")")
				sp.fns[rest[:i]] = &FnDecl{rest[:i], splitTop(rest[i+1:j], ','), strings.TrimSpace(rest[j+1:])}
			case "def":
				h, body, ok := strings.Cut(rest, ":=")
				if !ok {
					return fail(fmt.Errorf("def without :="))
				}
				i, j := strings.Index(h, "("), strings.LastIndex(h, ")")
				d := &Def{name: strings.TrimSpace(h[:i]), pkg: pkg}
				for _, a := range splitTop(h[i+1:j], ',') {
					n, t, _ := strings.Cut(a, " ")
					d.params = append(d.params, qvar{n, strings.TrimSpace(t)})
				}
				if d.body, err = parseEx(body); err != nil {
					return fail(err)
				}
				sp.defs[d.name] = d
			case "axiom", "lemma":
				n, body, _ := strings.Cut(rest, ":")
				e, err := parseEx(body)
				if err != nil {
					return fail(err)
				}
				sp.axioms = append(sp.axioms, &Axiom{strings.TrimSpace(n), e, pkg, kw == "lemma"})
			case "func", "extern", "pure", "trusted", "foreach":
				flags := map[string]bool{}
				for kw != "func" {
					flags[kw] = true
					if rest == "" {
						return fail(fmt.Errorf("func expected"))
					}
					kw, rest, _ = strings.Cut(rest, " ")
					rest = strings.TrimSpace(rest)
				}
				// name may be a {A|B|C} family: Get{Int|Bool}
				for _, h := range expandFamily(rest) {
					c, err := parseHeader(h)
					if err != nil {
						return fail(err)
					}
					c.pkg = pkg
					if i := strings.Index(c.name, "::"); i >= 0 {
						c.pkg, c.name = c.name[:i], c.name[i+2:]
					}
					c.extern, c.pure, c.trusted, c.foreach = flags["extern"], flags["pure"], flags["trusted"], flags["foreach"]
					c.file = filepath.Base(file)
					if o := sp.contracts[c.pkg+"."+c.name]; o != nil {
						return fail(fmt.Errorf("%s has a contract in %s already", h, o.file))
					}
					sp.contracts[c.pkg+"."+c.name] = c
					sp.order = append(sp.order, c.pkg+"."+c.name)
					curs = append(curs, c)
					cur = c
				}
			default:
				return fail(fmt.Errorf("unknown item %q", kw))
			}
			continue
		}
		if cur == nil {
			return fail(fmt.Errorf("clause outside func"))
		}
		for _, cur := range curs {
			r := rest
			if m, ok := cur.opts["$family"]; ok {
				r = strings.ReplaceAll(r, "$F", m)
			}
			mkClause := func(s string) (Clause, error) {
				label := ""
				if i := strings.Index(s, ": "); i > 0 && i < 24 && isIdent(s[:i]) {
					label, s = s[:i], s[i+2:]
				}
				e, err := parseEx(s)
				return Clause{label, s, e}, err
			}
			switch kw {
			case "requires", "ensures", "hint", "inv", "entry":
				c, err := mkClause(r)
				if err != nil {
					return fail(err)
				}
				switch kw {
				case "requires":
					cur.requires = append(cur.requires, c)
				case "ensures":
					cur.ensures = append(cur.ensures, c)
				case "hint":
					cur.hints = append(cur.hints, c)
				case "entry":
					cur.entry = append(cur.entry, c)
				case "inv":
					cur.invs = append(cur.invs, c)
				}
			case "modifies":
				for _, m := range splitTop(r, ',') {
					it := ModItem{name: m}
					if i := strings.Index(m, "["); i > 0 {
						e, err := parseEx(m[i+1 : len(m)-1])
						if err != nil {
							return fail(err)
						}
						it = ModItem{m[:i], e}
					}
					cur.modifies = append(cur.modifies, it)
				}
			case "writes":
				cur.writes = append(cur.writes, splitTop(r, ',')...)
			case "ghost":
				n, e, _ := strings.Cut(r, ":=")
				ex, err := parseEx(e)
				if err != nil {
					return fail(err)
				}
				cur.ghosts = append(cur.ghosts, ghostUpd{strings.TrimSpace(n), ex})
			case "decreases":
				e, err := parseEx(r)
				if err != nil {
					return fail(err)
				}
				cur.decreases = e
			case "option":
				k, v, _ := strings.Cut(r, " ")
				cur.opts[k] = v
			default:
				return fail(fmt.Errorf("unknown clause %q", kw))
			}
		}
	}
	return nil
}

func isIdent(s string) bool {
	for i, c := range s {
		if !(unicode.IsLetter(c) || c == '_' || c == '-' || i > 0 && unicode.IsDigit(c)) {
			return false
		}
	}
	return s != ""
}

func expandFamily(h string) []string {
	i := strings.Index(h, "{")
	if i < 0 {
		return []string{h}
	}
	j := strings.Index(h, "}")
	var out []string
	for _, a := range strings.Split(h[i+1:j], "|") {
		a = strings.TrimSpace(a)
		out = append(out, "\x00"+a+"\x00"+h[:i]+a+h[j+1:])
	}
	return out
}

func parseHeader(h string) (*Contract, error) {
	c := &Contract{opts: map[string]string{}}
	if strings.HasPrefix(h, "\x00") {
		p := strings.SplitN(h, "\x00", 3)
		c.opts["$family"] = p[1]
		h = p[2]
	}
	// (*T).name(a, b) (x, y)   or  name(a) (x)
	off := 0
	if strings.HasPrefix(h, "(") {
		off = strings.Index(h, ")") + 1
	}
	if i := strings.Index(h, "::("); i >= 0 {
		off = i + 3 + strings.Index(h[i+3:], ")") + 1
	}
	i := off + strings.Index(h[off:], "(")
	j := i + strings.Index(h[i:], ")")
	if i < off || j < i {
		return nil, fmt.Errorf("bad header %q", h)
	}
	c.name = strings.TrimSpace(h[:i])
	c.params = splitTop(h[i+1:j], ',')
	r := strings.TrimSpace(h[j+1:])
	if strings.HasPrefix(r, "(") {
		c.results = splitTop(strings.Trim(r, "()"), ',')
	}
	return c, nil
}
