package store_test

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
)

func vWholeState(t vTarget, m *vModel) string {
	got := map[string]int{}
	bad := ""
	t.Walk("", func(path, fragment string, n radix.Node[any]) {
		if !n.IsLeaf() {
			return
		}
		if n.Key() != path {
			bad = fmt.Sprintf("Walk presents key %q as %q", n.Key(), path)
		}
		if !strings.HasSuffix(path, fragment) {
			bad = fmt.Sprintf("Walk presents fragment %q of %q", fragment, path)
		}
		got[path]++
		e := m.m[path]
		if e == nil {
			bad = fmt.Sprintf("Walk presents %q, which is not stored", path)
		} else if !vEq(n.Data(), e.val) || n.Description() != e.desc || n.Comment() != e.comment || !vEq(n.Tag(), e.tag) || n.Modified() != e.modified {
			bad = fmt.Sprintf("Walk presents %q as %v (%q %q %v modified=%v), want %v (%q %q %v modified=%v)", path, n.Data(), n.Description(), n.Comment(), n.Tag(), n.Modified(), e.val, e.desc, e.comment, e.tag, e.modified)
		}
	})
	if bad != "" {
		return bad
	}
	for k := range m.m {
		if got[k] != 1 {
			return fmt.Sprintf("Walk presents %q %d times", k, got[k])
		}
	}
	return ""
}

// R05: histories over several copies; Dst says which copy works
func vRunDup(h vHist) (string, int) {
	ts, ms := []vTarget{vNew(h.Target, h.Delim, h.Prefix)}, []*vModel{vNewModel(h.Delim)}
	qs := vQueries(h.Keys, h.Delim)
	n := 0
	for _, o := range h.Ops {
		i := o.Dst % len(ts)
		if o.Op == "dup" || o.Op == "clone" {
			c := vDup(ts[i], o.Op)
			if c.Prefix() != ts[i].Prefix() || c.Delimiter() != ts[i].Delimiter() || c.RecursiveMode() != ts[i].RecursiveMode() {
				return fmt.Sprintf("copy has prefix %q delimiter %q mode %v, origin %q %q %v", c.Prefix(), c.Delimiter(), c.RecursiveMode(), ts[i].Prefix(), ts[i].Delimiter(), ts[i].RecursiveMode()), n
			}
			ts, ms = append(ts, c), append(ms, ms[i].clone())
		} else if s := vApply(ts[i], ms[i], h.Prefix, o); s != "" {
			return fmt.Sprintf("copy %d: %s", i, s), n
		}
		for j := range ts {
			n++
			if s := vWholeState(ts[j], ms[j]); s != "" {
				return fmt.Sprintf("after %v, copy %d: %s", o, j, s), n
			}
		}
	}
	for j := range ts {
		s, c := vState(ts[j], ms[j], h.Prefix, qs)
		n += c
		if s != "" {
			return fmt.Sprintf("copy %d: %s", j, s), n
		}
	}
	return "", n
}

func TestVerif_R05(t *testing.T) {
	r := vStart(t, "R05", "histories of up to 16 operations over up to 4 copies and up to 8 keys (random); slice and map values checked for sharing")
	rnd := rand.New(rand.NewSource(vSeed()))
	for i := 0; i < vScale(4000, 80000) && !r.over(); i++ {
		d := []string{".", ".", "/"}[rnd.Intn(3)]
		keys := vKeys(rnd, d, 2+rnd.Intn(6))
		h := vHist{Target: vTargets[i%3], Delim: d, Keys: keys}
		if i%4 == 3 {
			h.Prefix = []string{"p", "app" + d + "srv"}[rnd.Intn(2)]
		}
		h.Ops = vRandOps(rnd, keys, vQueries(keys, d), 2+rnd.Intn(14), []string{"set", "set", "set", "remove", "comment", "tag", "setnode", "setempty", "modify", "setdata", "update", "dup", "clone"})
		for j := range h.Ops {
			h.Ops[j].Dst = rnd.Intn(4)
		}
		r.hist(h, vRunDup)
	}
	// values of slice and map kinds are not shared either
	for _, target := range vTargets {
		r.one("sharing "+target, func() string {
			a := vNew(target, ".", "")
			a.Set("s", []string{"x", "y"})
			a.Set("m", map[string]any{"k": 1, "n": map[string]any{"z": 2}})
			a.Set("i", []int{1, 2, 3})
			a.Set("t", []any{1, "x"})
			b := vDup(a, "clone")
			check := func(w vTarget) string {
				for k, want := range map[string]any{"s": []string{"x", "y"}, "m": map[string]any{"k": 1, "n": map[string]any{"z": 2}}, "i": []int{1, 2, 3}, "t": []any{1, "x"}} {
					if got := w.MustGet(k); fmt.Sprintf("%v", got) != fmt.Sprintf("%v", want) {
						return fmt.Sprintf("%q reads %#v in the copy, want %#v", k, got, want)
					}
				}
				return ""
			}
			if s := check(b); s != "" {
				return s
			}
			a.MustGet("s").([]string)[0] = "changed"
			a.MustGet("m").(map[string]any)["k"] = "changed"
			a.MustGet("i").([]int)[2] = 99
			return check(b)
		})
	}
	// later changes of options of a copy do not show in the origin
	r.one("options", func() string {
		a := store.New(store.WithPrefix("p"))
		a.Set("k", 1)
		b := a.Dup()
		b.SetPrefix("q")
		b.SetDelimiter('/')
		if a.Prefix() != "p" || a.Delimiter() != '.' || a.MustGet("k") != 1 {
			return "changing the prefix or delimiter of the copy changes the origin"
		}
		return ""
	})
}

// ---------------------------------------------------------------- R06

func TestVerif_R06(t *testing.T) {
	r := vStart(t, "R06", "histories of up to 14 operations through views with up to 3 joined prefixes (random)")
	rnd := rand.New(rand.NewSource(vSeed()))
	parts := []string{"", "p", "a", "ab", "app", "é", "世"}
	for i := 0; i < vScale(5000, 100000) && !r.over(); i++ {
		d := []string{".", ".", "/"}[rnd.Intn(3)]
		keys := vKeys(rnd, d, 2+rnd.Intn(5))
		h := vHist{Target: vTargets[i%3], Delim: d, Keys: keys}
		h.Ops = vRandOps(rnd, keys, vQueries(keys, d), 2+rnd.Intn(12), []string{"set", "set", "set", "remove", "comment", "tag", "setnode", "setempty", "setex", "update", "setdata"})
		for j := range h.Ops {
			h.Ops[j].Dst = rnd.Intn(5)
			n := rnd.Intn(4)
			for k := 0; k < n; k++ {
				h.Ops[j].Keys = append(h.Ops[j].Keys, parts[rnd.Intn(len(parts))])
			}
		}
		r.hist(h, vRunViews)
	}
}

func vJoinAll(d string, parts ...string) string {
	var a []string
	for _, p := range parts {
		if p != "" {
			a = append(a, p)
		}
	}
	return strings.Join(a, d)
}

func vRunViews(h vHist) (string, int) {
	d := h.Delim
	whole, m := vNew(h.Target, d, ""), vNewModel(d)
	n := 0
	prefixes := map[string]bool{"": true}
	for _, o := range h.Ops {
		var v vTarget
		var want string
		switch o.Dst {
		case 0: // one view
			v, want = vWithPrefix(whole, o.Keys...), vJoinAll(d, o.Keys...)
		case 1: // nested views
			v = whole
			for i, k := range o.Keys {
				was := v.Prefix()
				nv := vWithPrefix(v, k)
				if v.Prefix() != was {
					return fmt.Sprintf("making a view changes the prefix of %d to %q", i, v.Prefix()), n
				}
				v = nv
			}
			want = vJoinAll(d, o.Keys...)
		case 2: // replaced
			v, want = vWithPrefixReplaced(vWithPrefix(whole, "zz"), o.Keys...), vJoinAll(d, o.Keys...)
		case 3:
			v, want = vWithPrefix(whole, "zz"), vJoinAll(d, o.Keys...)
			v.SetPrefix(o.Keys...)
		case 4: // a view of a view, and the modes
			v, want = vWithPrefix(vWithPrefix(whole, o.Keys...), "q"), vJoinAll(d, append(append([]string{}, o.Keys...), "q")...)
			switch z := v.(type) {
			case radix.Trie[any]:
				v = []radix.Trie[any]{z, z.N(), z.R()}[len(o.Key)%3]
			case store.Store:
				v = []store.Store{z, z.N(), z.R()}[len(o.Key)%3]
			}
		}
		if v.Prefix() != want || v.Delimiter() != whole.Delimiter() {
			return fmt.Sprintf("view of %q has prefix %q delimiter %q, want %q", o.Keys, v.Prefix(), v.Delimiter(), want), n
		}
		if whole.Prefix() != "" {
			return fmt.Sprintf("making a view changes the prefix of its origin to %q", whole.Prefix()), n
		}
		prefixes[want] = true
		n++
		if s := vApply(v, m, want, o); s != "" {
			return fmt.Sprintf("through the view %q: %s", want, s), n
		}
		for _, p := range vSorted(prefixes) {
			for _, q := range h.Keys {
				n += 2
				if s := vRead(vWithPrefixReplaced(whole, p), m, p, q); s != "" {
					return fmt.Sprintf("after %v through %q, read through the view %q: %s", o, want, p, s), n
				}
				if s := vRead(whole, m, "", vJoin(d, p, q)); s != "" {
					return fmt.Sprintf("after %v through %q, read from the whole: %s", o, want, s), n
				}
			}
		}
		if s := vWholeState(whole, m); s != "" {
			return fmt.Sprintf("after %v through %q: %s", o, want, s), n
		}
		if s := vMaps(v, m, want, ""); s != "" {
			return fmt.Sprintf("after %v, view %q: %s", o, want, s), n
		}
	}
	return "", n
}

// ---------------------------------------------------------------- R07

// vMaps compares the map views of path q seen through a target with prefix p.
func vMaps(t vTarget, m *vModel, p, q string) string {
	d := m.d
	k := vJoin(d, p, q)
	want, rel := map[string]any{}, map[string]any{}
	for f, e := range m.m {
		switch {
		case k == "":
			want[f], rel[f] = e.val, e.val
		case f == k:
			want[f], rel[f[strings.LastIndex(f, d)+1:]] = e.val, e.val
		case strings.HasPrefix(f, k+d):
			want[f] = e.val
			rel[f[len(k)+len(d):]] = e.val
		}
	}
	flat, err := t.GetR(q)
	if err != nil {
		return fmt.Sprintf("GetR(%q): %v", q, err)
	}
	if s := vSameMap(flat, want); s != "" {
		return fmt.Sprintf("GetR(%q) = %v, want %v: %s", q, flat, want, s)
	}
	if m.m[k] != nil || vConflict(m, k) {
		return "" // a key that is an ancestor of another has no place in a nested map
	}
	for _, o := range [][]radix.MOpt[any]{nil, {radix.WithoutFlattenKeys[any](true)}} {
		mm, err := t.GetM(q, o...)
		if err != nil {
			return fmt.Sprintf("GetM(%q): %v", q, err)
		}
		got := map[string]any{}
		vFlatten(got, "", d, mm)
		if s := vSameMap(got, rel); s != "" {
			return fmt.Sprintf("GetM(%q) (%d options) = %v, want %v: %s", q, len(o), mm, rel, s)
		}
	}
	mm, err := t.GetM(q, radix.WithFilter(func(n radix.Node[any]) bool { return len(n.Key())%2 == 0 }))
	if err != nil {
		return fmt.Sprintf("GetM(%q): %v", q, err)
	}
	got, frel := map[string]any{}, map[string]any{}
	vFlatten(got, "", d, mm)
	for x, v := range rel {
		if len(vJoin(d, k, x))%2 == 0 {
			frel[x] = v
		}
	}
	if s := vSameMap(got, frel); s != "" {
		return fmt.Sprintf("GetM(%q) with a filter = %v, want %v: %s", q, mm, frel, s)
	}
	return ""
}

// vConflict: some key beneath k is an ancestor of another one
func vConflict(m *vModel, k string) bool {
	for _, a := range m.beneath2(k) {
		if m.section(a) {
			return true
		}
	}
	return false
}

func (m *vModel) beneath2(k string) []string {
	if k == "" {
		return vSorted(m.m)
	}
	return m.beneath(k)
}

func vFlatten(out map[string]any, at, d string, m map[string]any) {
	for k, v := range m {
		f := k
		if at != "" {
			f = at + d + k
		}
		if mm, ok := v.(map[string]any); ok {
			vFlatten(out, f, d, mm)
		} else {
			out[f] = v
		}
	}
}

func vSameMap(got, want map[string]any) string {
	for k, v := range want {
		g, ok := got[k]
		if !ok {
			return fmt.Sprintf("%q is missing", k)
		}
		if !vEq(g, v) {
			return fmt.Sprintf("%q is %v, want %v", k, g, v)
		}
	}
	for k := range got {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("%q does not belong there", k)
		}
	}
	return ""
}

func vRunEnum(h vHist) (string, int) {
	t, m := vNew(h.Target, h.Delim, h.Prefix), vNewModel(h.Delim)
	n := 0
	for _, o := range h.Ops {
		if s := vApply(t, m, h.Prefix, o); s != "" {
			return s, n
		}
		n++
		if s := vWholeState(t, m); s != "" {
			return fmt.Sprintf("after %v: %s", o, s), n
		}
	}
	if h.Prefix != "" { // neighbours of the prefix, outside of it
		t.SetPrefix("")
		for i, k := range []string{h.Prefix + "x", h.Prefix + "x" + h.Delim + "y", "zz" + h.Delim + h.Prefix} {
			if s := vApply(t, m, "", vOp{Op: "set", Key: k, Val: 1000 + i}); s != "" {
				return s, n
			}
		}
		t.SetPrefix(h.Prefix)
	}
	if s := vMaps(t, m, h.Prefix, ""); s != "" {
		return s, n
	}
	for _, q := range vQueries(h.Keys, h.Delim) {
		n++
		k := vJoin(h.Delim, h.Prefix, q)
		if m.ever[k] && !m.section(k) && m.m[k] == nil {
			continue
		}
		if len(m.beneath(k)) == 0 {
			if mm, _ := t.GetM(q); len(mm) > 0 {
				return fmt.Sprintf("GetM(%q) = %v where nothing is stored", q, mm), n
			}
			if mm, _ := t.GetR(q); len(mm) > 0 {
				return fmt.Sprintf("GetR(%q) = %v where nothing is stored", q, mm), n
			}
			continue
		}
		if s := vMaps(t, m, h.Prefix, q); s != "" {
			return s, n
		}
	}
	return "", n
}

func TestVerif_R07(t *testing.T) {
	r := vStart(t, "R07", "trees of up to 14 writes and removals over up to 8 keys (random); every prefix of a key asked for")
	vRandom(r, vScale(4000, 80000), []string{"set", "set", "set", "setnode", "remove", "setempty"}, vRunEnum)
}
