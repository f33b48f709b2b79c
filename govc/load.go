package main

import (
	"fmt"
	"go/types"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// Prog is the program under verification: the packages of /repo, loaded from
// its current working tree and turned into SSA form.
type Prog struct {
	prog   *ssa.Program
	pkgs   map[string]*ssa.Package // by package name
	paths  map[string]bool         // import paths of the packages whose bodies we have
	funcs  map[string]*ssa.Function
	any    types.Type
	consts map[*ssa.Global]*constGlobal
}

// loadProg loads the packages; the Go files under lemmas/<dir>/ (functions that
// call the code under verification and state what must follow) are added to
// the package in <dir>. They add functions, they replace nothing.
func loadProg(dir, lemmas string, patterns []string) (*Prog, error) {
	cfg := &packages.Config{Dir: dir, Mode: packages.LoadSyntax, Overlay: map[string][]byte{}}
	err := filepath.WalkDir(lemmas, func(f string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() || !strings.HasSuffix(f, ".go") {
			return nil
		}
		rel, err := filepath.Rel(lemmas, f)
		if err != nil {
			return err
		}
		b, err := os.ReadFile(f)
		cfg.Overlay[filepath.Join(dir, filepath.Dir(rel), "zz_verif_"+filepath.Base(f))] = b
		return err
	})
	if err != nil {
		return nil, err
	}
	ps, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	for _, p := range ps {
		for _, e := range p.Errors {
			return nil, fmt.Errorf("load: %v", e)
		}
	}
	prog, pkgs := ssautil.Packages(ps, ssa.InstantiateGenerics)
	p := &Prog{prog: prog, pkgs: map[string]*ssa.Package{}, paths: map[string]bool{}, funcs: map[string]*ssa.Function{}}
	p.any = types.Universe.Lookup("any").Type()
	for _, sp := range pkgs {
		if sp != nil {
			name := sp.Pkg.Name()
			if _, dup := p.pkgs[name]; dup {
				name = sp.Pkg.Path()
			}
			p.pkgs[name] = sp
			p.paths[sp.Pkg.Path()] = true
		}
	}
	prog.Build()
	for _, name := range sortedKeys(p.pkgs) {
		p.index(p.pkgs[name])
	}
	p.instances()
	p.constGlobals()
	return p, nil
}

// instances: a function with a type set as constraint ([]byte | string) is
// verified as the instance the program uses.
func (p *Prog) instances() {
	var fs []*ssa.Function
	for f := range ssautil.AllFunctions(p.prog) {
		if o := f.Origin(); o != nil && o != f && o.Signature.Recv() == nil && o.Pkg != nil && p.paths[o.Pkg.Pkg.Path()] {
			fs = append(fs, f)
		}
	}
	sort.Slice(fs, func(i, j int) bool { return fs[i].String() > fs[j].String() })
	for _, f := range fs {
		tp := f.Origin().TypeParams()
		for i := 0; i < tp.Len(); i++ {
			if it, ok := tp.At(i).Constraint().Underlying().(*types.Interface); ok && !it.IsMethodSet() && !it.IsComparable() {
				p.funcs[p.funcKey(f)] = f
			}
		}
	}
}

func (p *Prog) instantiate(t types.Type) types.Type {
	if n, ok := t.(*types.Named); ok && n.TypeParams().Len() > 0 && n.TypeArgs().Len() == 0 {
		args := make([]types.Type, n.TypeParams().Len())
		for i := range args {
			args[i] = p.any
		}
		if it, err := types.Instantiate(nil, n, args, false); err == nil {
			return it
		}
	}
	return t
}

func (p *Prog) index(sp *ssa.Package) {
	names := make([]string, 0)
	for n := range sp.Members {
		names = append(names, n)
	}
	sort.Strings(names)
	for _, n := range names {
		switch m := sp.Members[n].(type) {
		case *ssa.Function:
			p.funcs[p.pkgName(sp.Pkg)+"."+n] = m
		case *ssa.Type:
			t := p.instantiate(m.Type())
			for _, rt := range []types.Type{t, types.NewPointer(t)} {
				if types.IsInterface(t) {
					continue
				}
				ms := p.prog.MethodSets.MethodSet(rt)
				for i := 0; i < ms.Len(); i++ {
					s := ms.At(i)
					if len(s.Index()) > 1 {
						continue // promoted
					}
					f := p.prog.MethodValue(s)
					if f == nil || f.Synthetic != "" && !strings.Contains(f.Synthetic, "instance") {
						continue
					}
					p.funcs[p.funcKey(f)] = f
				}
			}
		}
	}
}

func (p *Prog) pkgName(pk *types.Package) string {
	if pk == nil {
		return ""
	}
	if sp := p.pkgs[pk.Name()]; sp != nil && sp.Pkg.Path() != pk.Path() {
		return pk.Path()
	}
	return pk.Name()
}

// funcKey is the contract key of a function: pkg.(*T).name or pkg.name.
func (p *Prog) funcKey(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	pk := ""
	if f.Pkg != nil {
		pk = p.pkgName(f.Pkg.Pkg)
	} else if f.Object() != nil {
		pk = p.pkgName(f.Object().Pkg())
	}
	if f.Parent() != nil {
		return p.funcKey(f.Parent()) + "$" + f.Name()
	}
	if r := f.Signature.Recv(); r != nil {
		return pk + "." + recvName(r.Type()) + "." + f.Name()
	}
	return pk + "." + f.Name()
}

func recvName(t types.Type) string {
	star := ""
	if pt, ok := t.(*types.Pointer); ok {
		star, t = "*", pt.Elem()
	}
	n := "?"
	if nt, ok := types.Unalias(t).(*types.Named); ok {
		n = nt.Obj().Name()
	}
	return "(" + star + n + ")"
}

// typeName is a short stable name of a type, type arguments stripped.
func (p *Prog) typeName(t types.Type) string {
	switch t := types.Unalias(t).(type) {
	case *types.Named:
		if t.Obj().Pkg() == nil {
			return t.Obj().Name()
		}
		return p.pkgName(t.Obj().Pkg()) + "." + t.Obj().Name()
	case *types.Pointer:
		return "*" + p.typeName(t.Elem())
	case *types.Slice:
		return "<>" + p.typeName(t.Elem())
	case *types.Array:
		return fmt.Sprintf("<%d>%s", t.Len(), p.typeName(t.Elem()))
	case *types.Map:
		return "map<" + p.typeName(t.Key()) + ">" + p.typeName(t.Elem())
	case *types.Basic:
		switch t.Kind() {
		case types.Uint8:
			return "uint8"
		case types.Int32:
			return "int32"
		}
		return t.Name()
	case *types.Interface:
		if t.Empty() {
			return "any"
		}
		return "iface/" + sanitize(t.String())
	case *types.Signature:
		return "func"
	}
	return sanitize(t.String())
}

func sanitize(s string) string {
	return strings.Map(func(r rune) rune {
		switch {
		case r == '[':
			return '<'
		case r == ']':
			return '>'
		case r < 128 && (r == '_' || r == '.' || r == '/' || r == '*' || r == '<' || r == '>' || r == '-' || r == '!' || r == '$' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z'):
			return r
		}
		return '~'
	}, s)
}

// repoStruct returns the struct underlying t if it is one whose fields we
// model (declared in the repository, or anonymous).
func (p *Prog) repoStruct(t types.Type) *types.Struct {
	st, ok := t.Underlying().(*types.Struct)
	if !ok {
		return nil
	}
	if n, ok := types.Unalias(t).(*types.Named); ok {
		if n.Obj().Pkg() == nil || !p.paths[n.Obj().Pkg().Path()] {
			return nil
		}
	}
	return st
}
