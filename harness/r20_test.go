package store_test

import (
	"fmt"
	"math/rand"
	"strings"
	"testing"

	"github.com/hedzr/store/radix"
)

type vRouteCase struct {
	Delim string   `json:"delim"`
	Route []string `json:"route"`
	Path  []string `json:"path"`
	Kv    bool     `json:"kv"`
	Lead  bool     `json:"lead"`
}

// TestVerif_R20: a tree of one route.
func TestVerif_R20(t *testing.T) {
	r := vStart(t, "R20", "one route of up to 5 segments (literals, names, a catch-all at the end), paths of up to 6 segments of up to 5 runes; Locate and Query, with and without a binding map (random)")
	rnd := rand.New(rand.NewSource(vSeed()))
	lits := []string{"a", "ab", "abc", "b", "x", "users", "é", "世", "ba", "aa", "abd"}
	names := []string{"n", "id", "name", "x", "a", "é"}
	for it := 0; it < vScale(60000, 1500000) && !r.over(); it++ {
		c := vRouteCase{Delim: []string{"/", "/", "."}[rnd.Intn(3)], Kv: rnd.Intn(8) != 0, Lead: rnd.Intn(4) != 0}
		n := 1 + rnd.Intn(5)
		for i := 0; i < n; i++ {
			switch {
			case (i > 0 || c.Lead) && i == n-1 && rnd.Intn(4) == 0:
				c.Route = append(c.Route, "*"+names[rnd.Intn(len(names))])
			case (i > 0 || c.Lead) && rnd.Intn(2) == 0:
				c.Route = append(c.Route, ":"+names[rnd.Intn(len(names))])
			default:
				c.Route = append(c.Route, lits[rnd.Intn(len(lits))])
			}
		}
		m := n
		if rnd.Intn(3) == 0 {
			m = 1 + rnd.Intn(6)
		}
		for i := 0; i < m; i++ {
			switch {
			case i < n && c.Route[i][0] != ':' && c.Route[i][0] != '*' && rnd.Intn(6) != 0:
				c.Path = append(c.Path, c.Route[i])
			case i < n && rnd.Intn(12) == 0: // longer or shorter than the literal
				c.Path = append(c.Path, strings.TrimLeft(c.Route[i], ":*")+[]string{"", "x", "ab"}[rnd.Intn(3)])
			default:
				c.Path = append(c.Path, lits[rnd.Intn(len(lits))])
			}
		}
		r.one(c, func() string { m, _ := vRoute(c); return m })
	}
}

func vRoute(c vRouteCase) (string, int) {
	rt, pt := strings.Join(c.Route, c.Delim), strings.Join(c.Path, c.Delim)
	if c.Lead {
		rt, pt = c.Delim+rt, c.Delim+pt
	}
	tr := radix.NewTrie[any]()
	tr.SetDelimiter([]rune(c.Delim)[0])
	tr.Set(rt, 17)
	want, ok := map[string]string{}, true
	for i, s := range c.Route {
		if i >= len(c.Path) {
			ok = false
			break
		}
		if s[0] == '*' {
			want[s[1:]] = strings.Join(c.Path[i:], c.Delim)
			break
		}
		if s[0] == ':' {
			want[s[1:]] = c.Path[i]
		} else if s != c.Path[i] {
			ok = false
			break
		}
		if i == len(c.Route)-1 && len(c.Path) > len(c.Route) {
			ok = false
		}
	}
	check := func(how string, found bool, d any, kv radix.KVPair) string {
		if found != ok {
			return fmt.Sprintf("%s(%q) on the route %q: found is %v, want %v", how, pt, rt, found, ok)
		}
		if !ok {
			return ""
		}
		if d != 17 {
			return fmt.Sprintf("%s(%q) on the route %q yields %v, want 17", how, pt, rt, d)
		}
		if kv == nil {
			return ""
		}
		for k, v := range want {
			if kv[k] != v {
				return fmt.Sprintf("%s(%q) on the route %q binds %q to %q, want %q", how, pt, rt, k, kv[k], v)
			}
		}
		if len(kv) != len(want) {
			return fmt.Sprintf("%s(%q) on the route %q binds %v, want %v", how, pt, rt, kv, want)
		}
		return ""
	}
	var kv radix.KVPair
	if c.Kv {
		kv = radix.KVPair{}
	}
	d, _, found, _ := tr.Query(pt, kv)
	if m := check("Query", found, d, kv); m != "" {
		return m, 1
	}
	if c.Kv {
		kv = radix.KVPair{}
	}
	nd, branch, partial, found := tr.Locate(pt, kv)
	_, _ = branch, partial
	d = nil
	if found && nd != nil {
		d = nd.Data()
	}
	if m := check("Locate", found, d, kv); m != "" {
		return m, 2
	}
	return "", 2
}
