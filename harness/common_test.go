// Executable form of the contracts: bounded cross-check of the real code and
// search for a concrete failing input. Public API only. Package store_test is
// compiled into /repo by an overlay, nothing is written there.
package store_test

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync/atomic"
	"testing"
	"time"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
)

type vOp struct {
	Op   string `json:"op"`
	Key  string `json:"key,omitempty"`
	Arg  string `json:"arg,omitempty"`
	Val  any    `json:"val,omitempty"`
	Dst  int    `json:"dst,omitempty"`
	Keys []string `json:"keys,omitempty"`
}

func (o vOp) String() string {
	b, _ := json.Marshal(o)
	return string(b)
}

type vHist struct {
	Target string   `json:"target"`
	Delim  string   `json:"delim"`
	Prefix string   `json:"prefix,omitempty"`
	Keys   []string `json:"keys"`
	Ops    []vOp    `json:"ops"`
}

type vResult struct {
	Property string `json:"property"`
	Cases    int    `json:"cases"`
	Checks   int    `json:"checks"`
	Bound    string `json:"bound"`
	Failed   bool   `json:"failed"`
	Message  string `json:"message,omitempty"`
	Input    any    `json:"input,omitempty"`
}

func vSeed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		n = 1
	}
	return n
}

func vThorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

func vBudget() time.Duration {
	n, err := strconv.Atoi(os.Getenv("VERIF_SECS"))
	if err != nil || n <= 0 {
		n = 20
	}
	return time.Duration(n) * time.Second
}

// vScale picks the number of cases.
func vScale(quick, thorough int) int {
	if vThorough() {
		return thorough
	}
	if quick >= 1000 {
		quick *= 3 // numbers of cases, not depths
	}
	return quick
}

type vRun struct {
	t     *testing.T
	res   vResult
	start time.Time
	cur   atomic.Pointer[vCur]
}

type vCur struct {
	input any
	at    time.Time
}

// watch reports an input on which the code under test does not come to an end.
func (r *vRun) watch() {
	for {
		time.Sleep(time.Second)
		if c := r.cur.Load(); c != nil && time.Since(c.at) > 12*time.Second {
			res := vResult{Property: r.res.Property, Bound: r.res.Bound, Failed: true, Message: "no answer within 12 s", Input: c.input}
			b, _ := json.MarshalIndent(res, "", "  ")
			fmt.Printf("VERIF-FAIL %s: %s\n", res.Property, b)
			if f := os.Getenv("VERIF_OUT"); f != "" {
				_ = os.WriteFile(f, b, 0o644)
			}
			os.Exit(1)
		}
	}
}

func (r *vRun) enter(input any) {
	r.cur.Store(&vCur{input, time.Now()})
	if f := os.Getenv("VERIF_TRACE"); f != "" {
		b, _ := json.Marshal(input)
		_ = os.WriteFile(f, b, 0o644)
	}
}

func vStart(t *testing.T, prop, bound string) *vRun {
	r := &vRun{t: t, start: time.Now()}
	r.res.Property, r.res.Bound = prop, bound
	t.Cleanup(r.flush)
	go r.watch()
	return r
}

func (r *vRun) flush() {
	if f := os.Getenv("VERIF_OUT"); f != "" {
		b, _ := json.MarshalIndent(r.res, "", "  ")
		_ = os.WriteFile(f, b, 0o644)
	}
}

func (r *vRun) over() bool { return time.Since(r.start) > vBudget() }

func (r *vRun) fail(input any, format string, args ...any) {
	r.t.Helper()
	r.res.Failed, r.res.Message, r.res.Input = true, fmt.Sprintf(format, args...), input
	b, _ := json.Marshal(input)
	r.t.Fatalf("VERIF-FAIL %s: %s\n  input: %s", r.res.Property, r.res.Message, b)
}

// guard turns a panic of the code under test into a message.
func vGuard(f func() string) (msg string) {
	defer func() {
		if e := recover(); e != nil {
			st := string(debug.Stack())
			if len(st) > 3000 {
				st = st[:3000]
			}
			msg = fmt.Sprintf("panic: %v\n%s", e, st)
		}
	}()
	return f()
}

// hist runs histories and shrinks the first one that fails.
func (r *vRun) hist(h vHist, run func(h vHist) (string, int)) {
	r.t.Helper()
	n := 0
	do := func(h vHist) string {
		r.enter(h)
		return vGuard(func() string { m, c := run(h); n = c; return m })
	}
	msg := do(h)
	r.res.Cases++
	r.res.Checks += n
	if msg == "" {
		return
	}
	for ch := true; ch; {
		ch = false
		for i := len(h.Ops) - 1; i >= 0; i-- {
			h2 := h
			h2.Ops = append(append([]vOp{}, h.Ops[:i]...), h.Ops[i+1:]...)
			if m := do(h2); m != "" {
				h, msg, ch = h2, m, true
			}
		}
	}
	for i := len(h.Keys) - 1; i >= 0; i-- {
		h2 := h
		h2.Keys = append(append([]string{}, h.Keys[:i]...), h.Keys[i+1:]...)
		if m := do(h2); m != "" {
			h, msg = h2, m
		}
	}
	r.fail(h, "%s", msg)
}

func (r *vRun) one(input any, f func() string) {
	r.t.Helper()
	r.res.Cases++
	r.res.Checks++
	r.enter(input)
	if m := vGuard(f); m != "" {
		r.fail(input, "%s", m)
	}
}

// ---------------------------------------------------------------- keys

var vSegs = []string{"a", "ab", "abc", "abd", "b", "app", "apple", "apk", "d", "debug", "dump", "é", "éa", "世", "世界", "😀", "x-y", "0", "10", "1"}

const vAlpha = "aab.b.cé.世"

func vKey(r *rand.Rand, d string, style int) string {
	switch style {
	case 0:
		n := 1 + r.Intn(4)
		var a []string
		for i := 0; i < n; i++ {
			a = append(a, vSegs[r.Intn(len(vSegs))])
		}
		return strings.Join(a, d)
	case 1:
		al := []rune(strings.ReplaceAll(vAlpha, ".", d))
		for {
			n := 1 + r.Intn(7)
			var b []rune
			for i := 0; i < n; i++ {
				b = append(b, al[r.Intn(len(al))])
			}
			s := string(b)
			if strings.HasPrefix(s, d) || strings.HasSuffix(s, d) || strings.Contains(s, d+d) {
				continue
			}
			return s
		}
	case 2: // deep chains of the same names
		n := 1 + r.Intn(6)
		return strings.TrimSuffix(strings.Repeat("a"+d, n), d)
	default: // two-letter alphabet
		for {
			n := 1 + r.Intn(5)
			s := ""
			for i := 0; i < n; i++ {
				s += []string{"a", "b", d, "a"}[r.Intn(4)]
			}
			if strings.HasPrefix(s, d) || strings.HasSuffix(s, d) || strings.Contains(s, d+d) {
				continue
			}
			return s
		}
	}
}

func vKeys(r *rand.Rand, d string, n int) []string {
	m := map[string]bool{}
	if r.Intn(12) == 0 { // many children at one point
		stem := []string{"", "a", "ab" + d + "c", "app" + d, "é"}[r.Intn(5)]
		for i := 0; i < 40 && len(m) < n+3; i++ {
			m[stem+[]string{"a", "b", "c", "d", "e", "f", "é", "世", "x" + d + "y", "a" + d + "b", "bc"}[r.Intn(11)]] = true
		}
		return vSorted(m)
	}
	st := r.Intn(5)
	for i := 0; i < 200 && len(m) < n; i++ {
		s := st
		if st == 4 {
			s = r.Intn(4)
		}
		m[vKey(r, d, s)] = true
	}
	return vSorted(m)
}

func vSorted[V any](m map[string]V) []string {
	var out []string
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// vQueries lists paths worth asking for: the keys, what leads to them, and near misses.
func vQueries(keys []string, d string) []string {
	m := map[string]bool{}
	add := func(s string) {
		if s != "" && !strings.HasSuffix(s, d) && !strings.HasPrefix(s, d) {
			m[s] = true
		}
	}
	for _, k := range keys {
		rs := []rune(k)
		for i := 1; i <= len(rs); i++ {
			add(string(rs[:i]))
		}
		add(k + "x")
		add(k + d + "x")
		add(k + d + "x" + d + "y")
		rs[len(rs)-1] = 'z'
		add(string(rs))
		add("z" + k)
		add(string([]rune(k)[1:]))
	}
	return vSorted(m)
}

// ---------------------------------------------------------------- target

// vTarget is what tries and stores have in common.
type vTarget interface {
	Set(path string, data any) (radix.Node[any], any)
	Get(path string) (any, bool)
	MustGet(path string) any
	Has(path string) bool
	Remove(path string) bool
	Merge(pathAt string, data map[string]any) error
	SetEx(path string, data any, cb radix.OnSetEx[any]) any
	Update(path string, cb func(node radix.Node[any], old any))
	GetEx(path string, cb func(node radix.Node[any], data any, branch bool, kvpair radix.KVPair))
	SetComment(path, description, comment string) bool
	SetTag(path string, tag any) bool
	GetDesc(path string) (string, error)
	MustGetDesc(path string) string
	GetTag(path string) (any, error)
	MustGetTag(path string) any
	GetComment(path string) (string, error)
	MustGetComment(path string) string
	Walk(path string, cb func(path, fragment string, node radix.Node[any]))
	GetM(path string, opt ...radix.MOpt[any]) (map[string]any, error)
	GetR(path string, defaultVal ...map[string]any) (map[string]any, error)
	Prefix() string
	Delimiter() rune
	SetPrefix(newPrefix ...string)
	RecursiveMode() radix.RecusiveMode
}

var (
	_ vTarget = (radix.Trie[any])(nil)
	_ vTarget = (store.Store)(nil)
)

func vNew(target, delim, prefix string) vTarget {
	d := []rune(delim)[0]
	var t vTarget
	switch target {
	case "trie":
		tr := radix.NewTrie[any]()
		tr.SetDelimiter(d)
		t = tr
	case "trieby":
		t = radix.NewTrieBy[any](d)
	default:
		t = store.New(store.WithDelimiter(d))
	}
	if prefix != "" {
		t.SetPrefix(prefix)
	}
	return t
}

func vWithPrefix(t vTarget, p ...string) vTarget {
	switch z := t.(type) {
	case radix.Trie[any]:
		return z.WithPrefix(p...)
	case store.Store:
		return z.WithPrefix(p...)
	}
	panic("target")
}

func vWithPrefixReplaced(t vTarget, p ...string) vTarget {
	switch z := t.(type) {
	case radix.Trie[any]:
		return z.WithPrefixReplaced(p...)
	case store.Store:
		return z.WithPrefixReplaced(p...)
	}
	panic("target")
}

func vDup(t vTarget, how string) vTarget {
	switch z := t.(type) {
	case radix.Trie[any]:
		return z.Dup()
	case store.Store:
		if how == "clone" {
			return z.Clone()
		}
		return z.Dup()
	}
	panic("target")
}

// ---------------------------------------------------------------- model

type vEnt struct {
	val           any
	desc, comment string
	tag           any
	modified      bool
}

type vModel struct {
	d    string
	m    map[string]*vEnt
	ever map[string]bool // ancestor sections of keys stored so far
}

func vNewModel(d string) *vModel {
	return &vModel{d: d, m: map[string]*vEnt{}, ever: map[string]bool{}}
}

func (m *vModel) clone() *vModel {
	n := vNewModel(m.d)
	for k, e := range m.m {
		c := *e
		n.m[k] = &c
	}
	for k := range m.ever {
		n.ever[k] = true
	}
	return n
}

func (m *vModel) put(k string) (e *vEnt, isNew bool) {
	e = m.m[k]
	if e == nil {
		e, isNew = &vEnt{}, true
		m.m[k] = e
		a := strings.Split(k, m.d)
		for i := 1; i < len(a); i++ {
			m.ever[strings.Join(a[:i], m.d)] = true
		}
	}
	return
}

// section: some stored key lies beneath k
func (m *vModel) section(k string) bool {
	for q := range m.m {
		if strings.HasPrefix(q, k+m.d) {
			return true
		}
	}
	return false
}

func (m *vModel) beneath(k string) []string {
	var out []string
	for q := range m.m {
		if q == k || strings.HasPrefix(q, k+m.d) {
			out = append(out, q)
		}
	}
	sort.Strings(out)
	return out
}

func vEq(a, b any) bool { return fmt.Sprintf("%T|%#v", a, a) == fmt.Sprintf("%T|%#v", b, b) }

func vJoin(d, p, k string) string {
	switch {
	case p == "":
		return k
	case k == "":
		return p
	}
	return p + d + k
}

// vApply performs one operation on the target and on the model (p is the
// target's prefix) and compares what it returns.
func vApply(t vTarget, m *vModel, p string, o vOp) string {
	d, k := m.d, vJoin(m.d, p, o.Key)
	_, isStore := t.(store.Store)
	former := m.m[k]
	var oldv any
	if former != nil {
		oldv = former.val
	}
	node := func(n radix.Node[any], v any) string {
		if n == nil {
			return fmt.Sprintf("%v returns no node", o)
		}
		if n.Key() != k || !vEq(n.Data(), v) || !n.IsLeaf() || n.IsBranch() {
			return fmt.Sprintf("%v returns node key=%q data=%v leaf=%v, want key=%q data=%v", o, n.Key(), n.Data(), n.IsLeaf(), k, v)
		}
		return ""
	}
	old := func(got any) string {
		if !vEq(got, oldv) {
			return fmt.Sprintf("%v returns old value %v, want %v", o, got, oldv)
		}
		return ""
	}
	switch o.Op {
	case "set":
		n, got := t.Set(o.Key, o.Val)
		e, _ := m.put(k)
		e.val = o.Val
		if isStore {
			e.modified = true
		}
		if s := old(got); s != "" {
			return s
		}
		return node(n, o.Val)
	case "insert":
		tr, ok := t.(radix.Trie[any])
		if !ok {
			return ""
		}
		got := tr.Insert(o.Key, o.Val)
		e, _ := m.put(k)
		e.val = o.Val
		return old(got)
	case "setex":
		calls := 0
		s := ""
		got := t.SetEx(o.Key, o.Val, func(path string, oldData any, n radix.Node[any], trie radix.Trie[any]) {
			calls++
			if path != k || !vEq(oldData, oldv) {
				s = fmt.Sprintf("%v calls back with path=%q old=%v, want %q %v", o, path, oldData, k, oldv)
			} else {
				s = node(n, o.Val)
			}
		})
		e, _ := m.put(k)
		e.val = o.Val
		if s != "" {
			return s
		}
		if calls != 1 {
			return fmt.Sprintf("%v calls back %d times", o, calls)
		}
		return old(got)
	case "setnode":
		tr, ok := t.(radix.Trie[any])
		if !ok {
			return ""
		}
		num, _ := strconv.Atoi(o.Arg)
		notes := []string{"desc " + o.Arg, "comment " + o.Arg, "more " + o.Arg, "and more"}[:(num+2)%5]
		n, got := tr.SetNode(o.Key, o.Val, "tag "+o.Arg, notes...)
		e, _ := m.put(k)
		e.val, e.tag = o.Val, "tag "+o.Arg
		if len(notes) > 0 {
			e.desc = notes[0]
		}
		if len(notes) > 1 {
			e.comment = strings.Join(notes[1:], "\n")
		}
		if s := old(got); s != "" {
			return s
		}
		return node(n, o.Val)
	case "setempty":
		tr, ok := t.(radix.Trie[any])
		if !ok {
			return ""
		}
		got := tr.SetEmpty(o.Key)
		e, _ := m.put(k)
		e.val, e.tag = nil, nil
		return old(got)
	case "update":
		calls, s := 0, ""
		t.Update(o.Key, func(n radix.Node[any], got any) {
			calls++
			if s = old(got); s == "" {
				if s = node(n, oldv); s == "" && o.Val != nil {
					n.SetData(o.Val)
				}
			}
		})
		e, _ := m.put(k)
		if o.Val != nil {
			e.val = o.Val
		}
		if s == "" && calls != 1 {
			return fmt.Sprintf("%v calls back %d times", o, calls)
		}
		return s
	case "remove", "removeex":
		// what lies beneath a mere section is removed as a whole or not at all
		var removed bool
		s := ""
		gone := m.beneath(k)
		rx, ok := t.(interface {
			RemoveEx(path string) (nodeRemoved, parent radix.Node[any], removed bool)
		})
		if o.Op == "removeex" && ok {
			var n radix.Node[any]
			n, _, removed = rx.RemoveEx(o.Key)
			if removed && former != nil {
				if n == nil || n.Key() != k || !vEq(n.Data(), oldv) {
					s = fmt.Sprintf("%v hands back %v, want key %q value %v", o, n, k, oldv)
				}
			}
		} else {
			removed = t.Remove(o.Key)
		}
		if former != nil && !removed {
			return fmt.Sprintf("%v of a stored key reports failure", o)
		}
		if len(gone) == 0 && removed && !m.stale(k) {
			return fmt.Sprintf("%v of a path not stored reports success", o)
		}
		if removed {
			for _, q := range gone {
				delete(m.m, q)
			}
		}
		return s
	case "comment":
		ok := t.SetComment(o.Key, "d"+o.Arg, "c"+o.Arg)
		if former != nil {
			if !ok {
				return fmt.Sprintf("%v of a stored key reports failure", o)
			}
			former.desc, former.comment = "d"+o.Arg, "c"+o.Arg
		} else if ok && !m.stale(k) && !m.section(k) {
			return fmt.Sprintf("%v of a path not stored reports success", o)
		} else if ok {
			// a section holds the comment: nothing is claimed about it
			m.noteSection(k)
		}
	case "tag":
		ok := t.SetTag(o.Key, "t"+o.Arg)
		if former != nil {
			if !ok {
				return fmt.Sprintf("%v of a stored key reports failure", o)
			}
			former.tag = "t" + o.Arg
		} else if ok && !m.stale(k) && !m.section(k) {
			return fmt.Sprintf("%v of a path not stored reports success", o)
		} else if ok {
			m.noteSection(k)
		}
	case "modify":
		t.GetEx(o.Key, func(n radix.Node[any], data any, branch bool, kv radix.KVPair) {
			if n != nil && former != nil {
				n.SetModified(o.Arg == "1")
				former.modified = o.Arg == "1"
			}
		})
	case "toggle":
		t.GetEx(o.Key, func(n radix.Node[any], data any, branch bool, kv radix.KVPair) {
			if n != nil && former != nil {
				n.ToggleModified()
				former.modified = !former.modified
			}
		})
	case "setdata":
		t.GetEx(o.Key, func(n radix.Node[any], data any, branch bool, kv radix.KVPair) {
			if n != nil && former != nil {
				n.SetData(o.Val)
				former.val = o.Val
			}
		})
	}
	_ = d
	return ""
}

// stale: k was an ancestor section of a key stored before and removed since
func (m *vModel) stale(k string) bool { return m.ever[k] && m.m[k] == nil }

func (m *vModel) noteSection(k string) { m.ever["\x00"+k] = true }

// vRead compares every lookup of the path q (relative to the prefix p).
func vRead(t vTarget, m *vModel, p, q string) string {
	k := vJoin(m.d, p, q)
	e := m.m[k]
	v, found := t.Get(q)
	mv := t.MustGet(q)
	has := t.Has(q)
	desc, derr := t.GetDesc(q)
	com, cerr := t.GetComment(q)
	tag, terr := t.GetTag(q)
	tr, isTrie := t.(radix.Trie[any])
	var mod bool
	var exKey string
	var exVal any
	calls := 0
	t.GetEx(q, func(n radix.Node[any], data any, branch bool, kv radix.KVPair) {
		calls++
		if n != nil {
			mod, exKey, exVal = n.Modified(), n.Key(), data
		}
	})
	if e != nil {
		switch {
		case !found || !vEq(v, e.val):
			return fmt.Sprintf("Get(%q) = %v, %v; want %v, true", q, v, found, e.val)
		case !vEq(mv, e.val):
			return fmt.Sprintf("MustGet(%q) = %v; want %v", q, mv, e.val)
		case !has:
			return fmt.Sprintf("Has(%q) = false for a stored key", q)
		case derr != nil || desc != e.desc || t.MustGetDesc(q) != e.desc:
			return fmt.Sprintf("description of %q = %q, %v; want %q", q, desc, derr, e.desc)
		case cerr != nil || com != e.comment || t.MustGetComment(q) != e.comment:
			return fmt.Sprintf("comment of %q = %q, %v; want %q", q, com, cerr, e.comment)
		case terr != nil || !vEq(tag, e.tag) || !vEq(t.MustGetTag(q), e.tag):
			return fmt.Sprintf("tag of %q = %v, %v; want %v", q, tag, terr, e.tag)
		case calls != 1 || exKey != k || !vEq(exVal, e.val):
			return fmt.Sprintf("GetEx(%q) calls back %d times with key=%q data=%v; want key=%q data=%v", q, calls, exKey, exVal, k, e.val)
		case mod != e.modified:
			return fmt.Sprintf("modified state of %q = %v; want %v", q, mod, e.modified)
		}
		if isTrie {
			data, branch, ok, err := tr.Query(q, nil)
			if !ok || branch || err != nil || !vEq(data, e.val) {
				return fmt.Sprintf("Query(%q) = %v, branch=%v, found=%v, %v; want %v", q, data, branch, ok, err, e.val)
			}
			if !tr.Search(q) || !tr.HasPart(q) {
				return fmt.Sprintf("Search/HasPart(%q) = false for a stored key", q)
			}
			n, branch, part, ok := tr.Locate(q, nil)
			if !ok || branch || part || n == nil || n.Key() != k || !vEq(n.Data(), e.val) {
				return fmt.Sprintf("Locate(%q) does not find the stored key", q)
			}
		} else if st, ok := t.(store.Store); ok {
			n, branch, part, ok := st.Locate(q, nil)
			if !ok || branch || part || n == nil || n.Key() != k || !vEq(n.Data(), e.val) {
				return fmt.Sprintf("Locate(%q) does not find the stored key", q)
			}
		}
		return ""
	}
	if v != nil || mv != nil {
		return fmt.Sprintf("Get/MustGet(%q) = %v/%v for a path that is not stored", q, v, mv)
	}
	switch {
	case m.section(k):
		if !has {
			return fmt.Sprintf("Has(%q) = false for a section holding %v", q, m.beneath(k))
		}
		if isTrie && !tr.Search(q) {
			return fmt.Sprintf("Search(%q) = false for a section holding %v", q, m.beneath(k))
		}
	case m.ever[k]:
		// a section whose keys were all removed
	default:
		if found || has || derr == nil || cerr == nil || terr == nil || calls != 0 {
			return fmt.Sprintf("path %q is not stored but reported present (Get %v, Has %v, GetDesc err %v, GetComment err %v, GetTag err %v, GetEx calls %d)", q, found, has, derr, cerr, terr, calls)
		}
		if t.MustGetDesc(q) != "" || t.MustGetComment(q) != "" || t.MustGetTag(q) != nil {
			return fmt.Sprintf("path %q is not stored but has metadata", q)
		}
		if isTrie {
			if data, _, ok, err := tr.Query(q, nil); ok || err == nil || data != nil {
				return fmt.Sprintf("Query(%q) = %v, found=%v, err=%v for a path that is not stored", q, data, ok, err)
			}
			if tr.Search(q) {
				return fmt.Sprintf("Search(%q) = true for a path that is not stored", q)
			}
		}
	}
	return ""
}

// vState compares the whole state.
func vState(t vTarget, m *vModel, p string, queries []string) (string, int) {
	n := 0
	for _, q := range queries {
		n++
		if s := vRead(t, m, p, q); s != "" {
			return s, n
		}
	}
	return "", n
}

func vRandOps(r *rand.Rand, keys, queries []string, n int, kinds []string) []vOp {
	var ops []vOp
	for i := 0; i < n; i++ {
		k := kinds[r.Intn(len(kinds))]
		key := keys[r.Intn(len(keys))]
		if (k == "remove" || k == "removeex" || k == "comment" || k == "tag") && r.Intn(4) == 0 {
			key = queries[r.Intn(len(queries))]
		}
		o := vOp{Op: k, Key: key, Arg: strconv.Itoa(r.Intn(2))}
		switch k {
		case "set", "insert", "setex", "setnode", "setdata":
			o.Val = vVal(r, i)
			if o.Op == "setnode" {
				o.Arg = strconv.Itoa(r.Intn(100))
			}
		case "update":
			if r.Intn(3) > 0 {
				o.Val = vVal(r, i)
			}
		case "comment", "tag":
			o.Arg = strconv.Itoa(i)
		}
		ops = append(ops, o)
	}
	return ops
}

func vVal(r *rand.Rand, i int) any {
	switch r.Intn(6) {
	case 0:
		return fmt.Sprintf("v%d", i)
	case 1:
		return i%2 == 0
	case 2:
		return ""
	case 3:
		return 0
	}
	return i
}
