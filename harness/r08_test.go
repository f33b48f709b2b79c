package store_test

import (
	"fmt"
	"math/rand"
	"strconv"
	"testing"

	"github.com/hedzr/store"
)

type vMergeCase struct {
	Target  string         `json:"target"`
	Flatten bool           `json:"flatten"`
	Delim   string         `json:"delim"`
	Prefix  string         `json:"prefix"`
	At      string         `json:"at"`
	Before  []string       `json:"before"`
	Data    map[string]any `json:"-"`
	Text    string         `json:"data"`
}

func vNest(r *rand.Rand, depth int, isStore bool) map[string]any {
	m := map[string]any{}
	for n := r.Intn(4); n >= 0; n-- {
		m[vSegs[r.Intn(len(vSegs))]] = vNestVal(r, depth, isStore)
	}
	return m
}

func vNestVal(r *rand.Rand, depth int, isStore bool) any {
	c := r.Intn(13)
	if depth <= 0 && c < 7 {
		c = 7 + r.Intn(6)
	}
	switch c {
	case 0, 1, 2:
		return vNest(r, depth-1, isStore)
	case 3:
		out := []map[string]any{}
		if r.Intn(8) == 0 {
			for n := 0; n < 12; n++ {
				out = append(out, map[string]any{"i": n})
			}
			return out
		}
		for n := r.Intn(3); n > 0; n-- {
			out = append(out, vNest(r, depth-1, isStore))
		}
		return out
	case 4, 5:
		out := []any{}
		if r.Intn(8) == 0 {
			for n := 0; n < 12; n++ {
				out = append(out, n)
			}
			return out
		}
		for n := r.Intn(4); n > 0; n-- {
			out = append(out, vNestVal(r, depth-1, isStore))
		}
		return out
	case 6:
		if isStore {
			switch r.Intn(3) {
			case 0:
				m := map[any]any{}
				for k, v := range vNest(r, depth-1, isStore) {
					m[k] = v
				}
				if r.Intn(2) == 0 {
					m[7] = "seven"
				}
				return m
			case 1:
				return store.ValPkg{Value: vNestVal(r, depth-1, isStore), Desc: "d", Comment: "c"}
			default:
				if r.Intn(4) == 0 {
					out := []map[any]any{}
					for n := 0; n < 12; n++ {
						out = append(out, map[any]any{"i": n})
					}
					return out
				}
				return []map[any]any{{"k": vNestVal(r, depth-1, isStore)}, {"l": 1, 3: true}}
			}
		}
		return []string{"x", "y"}
	case 7:
		return []string{"a", "b"}
	case 8:
		return 3.25
	case 9:
		return "text"
	case 10:
		return r.Intn(3) == 0
	case 11:
		return nil
	}
	return r.Intn(100)
}

// vLeaves is what merging v at path k has to write; dup: two values for one key.
func vLeaves(out map[string]any, d, k string, v any, isStore, flatten bool) (dup bool) {
	put := func(k string, v any) {
		if _, ok := out[k]; ok {
			dup = true
		}
		out[k] = v
	}
	switch z := v.(type) {
	case map[string]any:
		for n, x := range z {
			dup = vLeaves(out, d, vJoin(d, k, n), x, isStore, flatten) || dup
		}
		return
	case []map[string]any:
		if flatten {
			for i, x := range z {
				dup = vLeaves(out, d, vJoin(d, k, strconv.Itoa(i)), x, isStore, flatten) || dup
			}
			return
		}
	case []any:
		if flatten {
			for i, x := range z {
				dup = vLeaves(out, d, vJoin(d, k, strconv.Itoa(i)), x, isStore, flatten) || dup
			}
			return
		}
	case map[any]any:
		if isStore {
			for n, x := range z {
				dup = vLeaves(out, d, vJoin(d, k, fmt.Sprint(n)), x, isStore, flatten) || dup
			}
			return
		}
	case []map[any]any:
		if isStore && flatten {
			for i, x := range z {
				dup = vLeaves(out, d, vJoin(d, k, strconv.Itoa(i)), x, isStore, flatten) || dup
			}
			return
		}
	case store.ValPkg:
		if isStore {
			return vLeaves(out, d, k, z.Value, isStore, flatten)
		}
	}
	put(k, v)
	return
}

func vRunMerge(c vMergeCase) string {
	isStore := c.Target == "store"
	t := vNew(c.Target, c.Delim, "")
	if isStore {
		t = store.New(store.WithDelimiter([]rune(c.Delim)[0]), store.WithFlattenSlice(c.Flatten))
	}
	root := t
	m := vNewModel(c.Delim)
	for i, k := range c.Before {
		if s := vApply(root, m, "", vOp{Op: "set", Key: k, Val: 1000 + i}); s != "" {
			return s
		}
	}
	if c.Prefix != "" {
		t = vWithPrefix(root, c.Prefix)
	}
	leaves := map[string]any{}
	at := vJoin(c.Delim, c.Prefix, c.At)
	if vLeaves(leaves, c.Delim, at, c.Data, isStore, c.Flatten || !isStore) {
		return ""
	}
	if err := t.Merge(c.At, c.Data); err != nil {
		return fmt.Sprintf("Merge: %v", err)
	}
	for k, v := range leaves {
		e, _ := m.put(k)
		e.val = v
	}
	for k, e := range m.m {
		v, ok := root.Get(k)
		if !ok || !vEq(v, e.val) {
			return fmt.Sprintf("after Merge(%q) Get(%q) = %v, %v; want %v", c.At, k, v, ok, e.val)
		}
	}
	got := map[string]any{}
	if got, _ = root.GetR(""); len(got) != len(m.m) && len(m.m) > 0 {
		return fmt.Sprintf("after Merge(%q) the tree holds %v, want the keys %v", c.At, vSorted(got), vSorted(m.m))
	}
	return ""
}

func TestVerif_R08(t *testing.T) {
	r := vStart(t, "R08", "random nested maps (depth up to 4, up to 4 entries per level; maps, slices, value packs, scalars) merged at up to 3 names below up to 2 prefix names, with up to 6 keys stored before")
	rnd := rand.New(rand.NewSource(vSeed()))
	for i := 0; i < vScale(20000, 300000) && !r.over(); i++ {
		d := []string{".", ".", "/", "_"}[rnd.Intn(4)]
		c := vMergeCase{Target: vTargets[i%3], Flatten: rnd.Intn(2) == 0, Delim: d}
		if rnd.Intn(2) == 0 {
			c.Prefix = []string{"p", "app" + d + "srv", "é"}[rnd.Intn(3)]
		}
		if rnd.Intn(3) > 0 {
			c.At = vKey(rnd, d, 0)
		}
		c.Before = vKeys(rnd, d, rnd.Intn(6))
		c.Data = vNest(rnd, 3, c.Target == "store")
		c.Text = fmt.Sprintf("%#v", c.Data)
		r.one(c, func() string { return vRunMerge(c) })
	}
}
