package store_test

import (
	"flag"
	"fmt"
	"math/rand"
	"os"
	"reflect"
	"sort"
	"strings"
	"testing"

	"github.com/hedzr/store"
	"github.com/hedzr/store/internal/ctx"
	"github.com/hedzr/store/internal/cvt"
	"github.com/hedzr/store/providers/env"
	"github.com/hedzr/store/providers/flags"
	"github.com/hedzr/store/radix"
)

// ---------------------------------------------------------------- R14

type vTestStringer struct{ s string }

func (v vTestStringer) String() string { return v.s }

func vNormVal(r *rand.Rand, depth int) any {
	if depth <= 0 {
		return []any{1, "s", 2.5, nil, []int{1, 2}, true, map[string]int{"q": 1}}[r.Intn(7)]
	}
	switch r.Intn(5) {
	case 0:
		m := map[any]any{}
		for i := r.Intn(4); i > 0; i-- {
			m[[]any{"a", "b", 3, 4.5, true, vTestStringer{"st"}, int64(9)}[r.Intn(7)]] = vNormVal(r, depth-1)
		}
		return m
	case 1:
		m := map[string]any{}
		for i := r.Intn(4); i > 0; i-- {
			m[[]string{"a", "b", "c", "k.d"}[r.Intn(4)]] = vNormVal(r, depth-1)
		}
		return m
	case 2:
		var s []any
		for i := r.Intn(4); i > 0; i-- {
			v := vNormVal(r, depth-1)
			if _, nested := v.([]any); nested {
				v = 5 // arrays directly inside arrays are values of their own
			}
			s = append(s, v)
		}
		return s
	}
	return vNormVal(r, 0)
}

func vNormOracle(v any) any {
	switch z := v.(type) {
	case map[any]any:
		o := map[string]any{}
		for k, x := range z {
			o[fmt.Sprintf("%v", k)] = vNormOracle(x)
		}
		return o
	case map[string]any:
		o := map[string]any{}
		for k, x := range z {
			o[k] = vNormOracle(x)
		}
		return o
	case []any:
		if z == nil {
			return z
		}
		o := make([]any, len(z))
		for i, x := range z {
			o[i] = vNormOracle(x)
		}
		return o
	}
	return v
}

func TestVerif_R14(t *testing.T) {
	r := vStart(t, "R14", "flat maps of up to 10 keys none a section of another, three delimiters; nested maps of any kind to depth 4")
	for i := 0; i < vScale(20000, 400000) && !r.over(); i++ {
		rnd := rand.New(rand.NewSource(vSeed()*1000003 + int64(i)))
		delim := []string{".", "/", "::"}[rnd.Intn(3)]
		flat := map[string]any{}
		want := map[string]any{}
		ks := vIndep(rnd, rnd.Intn(11))
		if rnd.Intn(3) == 0 { // deeper keys, empty names
			ks = nil
		next:
			for n := 1 + rnd.Intn(6); n > 0; n-- {
				var names []string
				for m := 1 + rnd.Intn(6); m > 0; m-- {
					names = append(names, []string{"", "a", "b", "c", "ab", "é"}[rnd.Intn(6)])
				}
				k := strings.Join(names, ".")
				for _, o := range ks {
					if o == k || strings.HasPrefix(o, k+".") || strings.HasPrefix(k, o+".") {
						continue next
					}
				}
				ks = append(ks, k)
			}
		}
		for j, k := range ks {
			var v any = j
			if rnd.Intn(8) == 0 {
				v = nil
			}
			names := strings.Split(k, ".")
			flat[strings.Join(names, delim)] = v
			cur := want
			for _, n := range names[:len(names)-1] {
				m, ok := cur[n].(map[string]any)
				if !ok {
					m = map[string]any{}
					cur[n] = m
				}
				cur = m
			}
			cur[names[len(names)-1]] = v
		}
		keep := fmt.Sprint(flat)
		r.one(map[string]any{"delimiter": delim, "flat": flat}, func() string {
			got := cvt.Deflate(flat, delim)
			if !reflect.DeepEqual(got, want) {
				return fmt.Sprintf("Deflate gives %v, want %v", got, want)
			}
			if fmt.Sprint(flat) != keep {
				return "Deflate changed its argument"
			}
			return ""
		})
		m := map[string]any{}
		for j := rnd.Intn(5); j > 0; j-- {
			m[[]string{"x", "y", "z", "w.v", ""}[rnd.Intn(5)]] = vNormVal(rnd, 1+rnd.Intn(4))
		}
		wantN := vNormOracle(m)
		text := fmt.Sprintf("%#v", m)
		// equal texts of different keys may collide: not a case
		r.one(map[string]any{"map": text}, func() string {
			calls := 0
			var w func(string, any)
			if rnd.Intn(2) == 0 {
				w = func(string, any) { calls++ }
			}
			got := cvt.Normalize(m, w)
			if !reflect.DeepEqual(any(got), wantN) {
				return fmt.Sprintf("Normalize gives %v, want %v", got, wantN)
			}
			return ""
		})
	}
}

// ---------------------------------------------------------------- R15

func TestVerif_R15(t *testing.T) {
	r := vStart(t, "R15", "random sequences of up to 12 additions (single and in a row), complete and broken off iterations, resets")
	names := []string{"k1", "k2", "k10", "a", "b", "Z", "zz", "é", "k", "_"}
	for i := 0; i < vScale(30000, 600000) && !r.over(); i++ {
		rnd := rand.New(rand.NewSource(vSeed()*1000003 + int64(i)))
		c := ctx.TODO()
		model := map[string]any{}
		var log []string
		for n := 1 + rnd.Intn(12); n > 0; n-- {
			switch rnd.Intn(5) {
			case 0:
				k := names[rnd.Intn(len(names))]
				c = ctx.WithValue(c, k, n)
				model[k] = n
				log = append(log, fmt.Sprintf("WithValue(%q,%d)", k, n))
				if rnd.Intn(2) == 0 {
					c.Reset()
				}
			case 1:
				var args []any
				for m := rnd.Intn(4); m > 0; m-- {
					k := names[rnd.Intn(len(names))]
					if rnd.Intn(4) == 0 {
						args = append(args, vTestStringer{k}, n*10+m)
					} else {
						args = append(args, k, n*10+m)
					}
					model[k] = n*10 + m
				}
				c = ctx.WithValues(c, args...)
				log = append(log, fmt.Sprintf("WithValues(%v)", args))
				if rnd.Intn(2) == 0 {
					c.Reset()
				}
			case 2:
				c.Reset()
				log = append(log, "Reset")
			case 3: // broken off
				m := rnd.Intn(4)
				log = append(log, fmt.Sprintf("Next %d times", m))
				for ; m > 0 && c.Next(); m-- {
				}
				if rnd.Intn(2) == 0 {
					c.Reset()
					log = append(log, "Reset")
				}
			case 4:
				log = append(log, "iterate")
				r.one(map[string]any{"steps": log}, func() string {
					var got []string
					c.Reset()
					for c.Next() {
						k, v := c.Entry()
						if k != c.Key() || !vEq(v, c.Value()) {
							return fmt.Sprintf("Entry is %q,%v but Key is %q and Value %v", k, v, c.Key(), c.Value())
						}
						got = append(got, fmt.Sprintf("%s=%v", k, v))
						if len(got) > 100 {
							return "iteration does not end"
						}
					}
					if c.Next() {
						return "iteration goes on after its end"
					}
					var want []string
					for _, k := range vSorted(model) {
						want = append(want, fmt.Sprintf("%s=%v", k, model[k]))
					}
					if !vEq(got, want) {
						return fmt.Sprintf("iteration yields %v, want %v", got, want)
					}
					if c.NamesCount() != len(model) {
						return fmt.Sprintf("NamesCount is %d, want %d", c.NamesCount(), len(model))
					}
					return ""
				})
				c.Reset()
			}
		}
	}
}

// ---------------------------------------------------------------- R16

func TestVerif_R16(t *testing.T) {
	r := vStart(t, "R16", "every operation code, every case variant of every name and alias, every text of up to 3 letters, random texts")
	ops := []store.Op{store.OpCreate, store.OpWrite, store.OpRemove, store.OpRename, store.OpChmod, store.OpNone}
	alias := map[string]store.Op{"create": store.OpCreate, "new": store.OpCreate, "modify": store.OpWrite, "write": store.OpWrite, "rename": store.OpRename,
		"remove": store.OpRemove, "delete": store.OpRemove, "rm": store.OpRemove, "chmod": store.OpChmod, "none": store.OpNone}
	seen := map[string]store.Op{}
	for _, o := range ops {
		r.one(map[string]any{"op": uint32(o)}, func() string {
			op := o
			b, err := op.MarshalText()
			if err != nil || len(b) == 0 {
				return fmt.Sprintf("MarshalText gives %q, %v", b, err)
			}
			if p, dup := seen[strings.ToLower(string(b))]; dup {
				return fmt.Sprintf("%q names both %d and %d", b, p, o)
			}
			seen[strings.ToLower(string(b))] = o
			for _, start := range append([]store.Op{99}, ops...) {
				got := start
				if err := got.UnmarshalText(b); err != nil || got != o {
					return fmt.Sprintf("%q is read back as %d, %v", b, got, err)
				}
			}
			if op != o {
				return "MarshalText changed the code"
			}
			return ""
		})
	}
	one := func(s string) {
		r.one(map[string]any{"text": s}, func() string {
			got := store.Op(77)
			err := got.UnmarshalText([]byte(s))
			want, ok := alias[strings.ToLower(s)]
			if ok && (err != nil || got != want) {
				return fmt.Sprintf("%q is read as %d, %v, want %d", s, got, err, want)
			}
			if !ok && (err == nil || got != 77) {
				return fmt.Sprintf("%q names no operation but is read as %d, %v", s, got, err)
			}
			return ""
		})
	}
	one("")
	abc := "abcdefghijklmnopqrstuvwxyz0 ."
	for _, a := range abc {
		one(string(a))
		for _, b := range abc {
			one(string(a) + string(b))
			for _, c := range abc {
				one(string(a) + string(b) + string(c))
			}
		}
	}
	for n := range alias {
		for m := 0; m < 1<<len(n); m++ {
			b := []byte(n)
			for i := range b {
				if m>>i&1 == 1 {
					b[i] -= 32
				}
			}
			one(string(b))
		}
		for i := range n {
			one(n[:i])
			one(n[i:])
			one(n + n[:i])
			one(n[:i] + "x" + n[i:])
		}
		one(n + " ")
		one(" " + n)
	}
}

// ---------------------------------------------------------------- R17

type vStreamer interface {
	Keys() ([]string, error)
	Count() int
	Has(string) bool
	Next() (string, bool)
	Value(string) (any, bool)
	MustValue(string) any
	Read() (map[string]store.ValPkg, error)
}

func vProvider(p vStreamer, want map[string]any) string {
	keys, err := p.Keys()
	if err != nil {
		return fmt.Sprintf("Keys reports %v", err)
	}
	if p.Count() != len(want) || len(keys) != len(want) {
		return fmt.Sprintf("Count is %d and Keys has %d, want %d", p.Count(), len(keys), len(want))
	}
	var got []string
	for {
		k, eol := p.Next()
		if eol {
			if k != "" {
				return "a key is yielded at the end"
			}
			break
		}
		got = append(got, k)
		if len(got) > len(want)+5 {
			return fmt.Sprintf("iteration goes on after all %d keys: %q", len(want), got[len(got)-5:])
		}
		v, ok := p.Value(k)
		if w, is := want[k]; !is || !ok || !vEq(v, w) || !vEq(p.MustValue(k), w) || !p.Has(k) {
			return fmt.Sprintf("key %q has value %v,%v and Has %v, want %v,%v", k, v, ok, p.Has(k), w, is)
		}
	}
	if _, eol := p.Next(); !eol {
		return "iteration goes on after its end"
	}
	sorted := append([]string{}, got...)
	sort.Strings(sorted)
	for i, k := range vSorted(want) {
		if i >= len(sorted) || sorted[i] != k {
			return fmt.Sprintf("iteration yields %q, want each of %q once", sorted, vSorted(want))
		}
	}
	for _, k := range []string{"", "no.such.key", "vft", "VFT"} {
		if _, is := want[k]; !is {
			if v, ok := p.Value(k); ok || v != nil || p.Has(k) || p.MustValue(k) != nil {
				return fmt.Sprintf("key %q is not held but reported with %v", k, v)
			}
		}
	}
	for k := range want {
		for _, q := range []string{k + "x", strings.ToUpper(k), k[:len(k)-1]} {
			if _, is := want[q]; !is && p.Has(q) {
				return fmt.Sprintf("key %q is not held but reported", q)
			}
		}
	}
	m, err := p.Read()
	if err == nil && len(m) != len(want) {
		return fmt.Sprintf("Read gives %d entries, want %d", len(m), len(want))
	}
	return ""
}

func TestVerif_R17(t *testing.T) {
	r := vStart(t, "R17", "environments of up to 8 variables and up to 8 flags, options prefix, stripped, lower case, store prefix, key callback; names that fall together in lower case")
	names := []string{"VFT_A", "VFT_B", "VFT_a", "vft_A", "VFT_LONG_NAME", "VFT_", "VFT_X_Y", "VFT_Z9", "OTHER_A", "VF", "VFT_é"}
	old := os.Environ()
	defer func() {
		os.Clearenv()
		for _, p := range old {
			if k, v, ok := strings.Cut(p, "="); ok && k != "" {
				_ = os.Setenv(k, v)
			}
		}
	}()
	oldFlags := flag.CommandLine
	defer func() { flag.CommandLine = oldFlags }()
	for i := 0; i < vScale(6000, 120000) && !r.over(); i++ {
		rnd := rand.New(rand.NewSource(vSeed()*1000003 + int64(i)))
		os.Clearenv()
		flag.CommandLine = flag.NewFlagSet("x", flag.ContinueOnError)
		set := map[string]string{}
		fset := map[string]int{}
		for n := rnd.Intn(9); n > 0; n-- {
			k := names[rnd.Intn(len(names))]
			set[k] = fmt.Sprintf("v%d=%d", n, rnd.Intn(3))
			if rnd.Intn(6) == 0 {
				set[k] = ""
			}
			_ = os.Setenv(k, set[k])
			if _, is := fset[k]; !is {
				fset[k] = n
				flag.CommandLine.Int(k, n, "usage")
			}
		}
		prefix, stripped, lower, spre, cb := "", "", rnd.Intn(2) == 0, "", rnd.Intn(3) == 0
		var eo []env.Opt
		var fo []flags.Opt
		if rnd.Intn(2) == 0 {
			prefix = "VFT_"
			if rnd.Intn(2) == 0 {
				stripped = []string{"VFT_", "vft_"}[rnd.Intn(2)]
				eo = append(eo, env.WithPrefix(prefix, stripped))
				fo = append(fo, flags.WithPrefix(prefix, stripped))
			} else {
				eo = append(eo, env.WithPrefix(prefix))
				fo = append(fo, flags.WithPrefix(prefix))
			}
		}
		eo, fo = append(eo, env.WithLowerCase(lower), env.WithUnderlineToDot(false)), append(fo, flags.WithLowerCase(lower), flags.WithUnderlineToDot(false))
		if rnd.Intn(3) == 0 {
			spre = "app.cmd"
			eo, fo = append(eo, env.WithStorePrefix(spre)), append(fo, flags.WithStorePrefix(spre))
		}
		f := func(k string) string { return "<" + k + ">" }
		if cb {
			eo, fo = append(eo, env.WithKeyCB(f)), append(fo, flags.WithKeyCB(f))
		}
		key := func(k string) (string, bool) {
			if prefix != "" && !strings.HasPrefix(k, prefix) {
				return "", false
			}
			if lower {
				k = strings.ToLower(k)
			}
			k = strings.TrimPrefix(k, stripped)
			if cb {
				k = f(k)
			}
			if spre != "" {
				k = spre + "." + k
			}
			return k, true
		}
		want, fwant, several := map[string]any{}, map[string]any{}, map[string]bool{}
		for k, v := range set {
			if kk, ok := key(k); ok {
				_, dup := want[kk]
				several[kk] = dup || several[kk]
				want[kk] = v
				fwant[kk] = fset[k]
			}
		}
		in := map[string]any{"vars": set, "prefix": prefix, "stripped": stripped, "lower": lower, "store_prefix": spre, "callback": cb}
		r.one(in, func() string {
			p := env.New(eo...)
			for k := range several { // which of several names wins is not fixed
				if several[k] {
					want[k], _ = p.Value(k)
				}
			}
			if _, empty := want[""]; empty {
				return ""
			}
			if m := vProvider(p, want); m != "" {
				return "env: " + m
			}
			fp := flags.New(fo...)
			for k := range several {
				if several[k] {
					fwant[k], _ = fp.Value(k)
				}
			}
			for k := range fwant {
				v, _ := fp.Value(k)
				if rv := reflect.ValueOf(v); rv.IsValid() && rv.CanInt() && !several[k] && rv.Int() == int64(fwant[k].(int)) {
					fwant[k] = v // a flag value type of its own
				}
			}
			if m := vProvider(fp, fwant); m != "" {
				return "flags: " + m
			}
			return ""
		})
	}
}

// ---------------------------------------------------------------- R18

func TestVerif_R18(t *testing.T) {
	r := vStart(t, "R18", "random sets of up to 9 keys of up to 5 names over small alphabets, queries of up to 6 names, prefixes, trie and store")
	segs := []string{"a", "b", "ab", "a-b", "name", "na", "k"}
	mk := func(rnd *rand.Rand, n int) string {
		var p []string
		for ; n > 0; n-- {
			p = append(p, segs[rnd.Intn(len(segs))])
		}
		return strings.Join(p, ".")
	}
	type q interface {
		Get(path string) (any, bool)
	}
	for i := 0; i < vScale(20000, 400000) && !r.over(); i++ {
		rnd := rand.New(rand.NewSource(vSeed()*1000003 + int64(i)))
		keys := map[string]any{}
		for n := 1 + rnd.Intn(9); n > 0; n-- {
			keys[mk(rnd, 1+rnd.Intn(5))] = n
		}
		var base, up q
		prefix := ""
		if rnd.Intn(3) == 0 {
			prefix = mk(rnd, 1+rnd.Intn(2))
		}
		if rnd.Intn(2) == 0 {
			tr := radix.NewTrie[any]()
			for _, k := range vSorted(keys) {
				tr.Set(k, keys[k])
			}
			if prefix != "" {
				tr.SetPrefix(prefix)
			}
			base, up = tr.N(), tr.BR()
		} else {
			st := store.New()
			for _, k := range vSorted(keys) {
				st.Set(k, keys[k])
			}
			if prefix != "" {
				st.SetPrefix(prefix)
			}
			base, up = st.N(), st.BR()
		}
		present := func(k string) bool {
			if _, ok := keys[k]; ok {
				return true
			}
			for o := range keys {
				if strings.HasPrefix(o, k+".") {
					return true
				}
			}
			return false
		}
		for n := 0; n < 12; n++ {
			query := mk(rnd, 1+rnd.Intn(6))
			full := vJoin(".", prefix, query)
			r.one(map[string]any{"keys": keys, "prefix": prefix, "query": query}, func() string {
				want, ok := keys[full]
				sect := false
				w := full
				for !ok {
					if present(w) {
						sect = true
						break
					}
					a := strings.Split(w, ".")
					if len(a) <= 2 {
						break
					}
					a = append(a[:len(a)-2:len(a)-2], a[len(a)-1])
					w = strings.Join(a, ".")
					want, ok = keys[w]
				}
				g, found := up.Get(query)
				if !sect && (found != ok || !vEq(g, want)) {
					return fmt.Sprintf("upward lookup of %q gives %v,%v, want %v,%v", full, g, found, want, ok)
				}
				if sect && g != nil {
					return fmt.Sprintf("upward lookup of %q meets the section %q but gives %v", full, w, g)
				}
				want, ok = keys[full]
				g, found = base.Get(query)
				if ok != found && !present(full) || !vEq(g, want) {
					return fmt.Sprintf("normal lookup of %q gives %v,%v, want %v,%v", full, g, found, want, ok)
				}
				return ""
			})
		}
	}
}
