package store_test

import (
	"context"
	"errors"
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"testing"
	"time"

	"github.com/hedzr/store"
	"github.com/hedzr/store/radix"
)

// ---------------------------------------------------------------- providers

type vProv struct {
	codec   store.Codec
	pos     string
	m       map[string]store.ValPkg
	readErr error
	bytes   []byte
	bErr    error
	written [][]byte
}

func (p *vProv) Read() (map[string]store.ValPkg, error) { return p.m, p.readErr }
func (p *vProv) GetCodec() store.Codec                  { return p.codec }
func (p *vProv) GetPosition() string                    { return p.pos }
func (p *vProv) WithCodec(c store.Codec)                { p.codec = c }
func (p *vProv) WithPosition(s string)                  { p.pos = s }

type vOnce struct{ vProv }

func (p *vOnce) ReadBytes() ([]byte, error) { return p.bytes, p.bErr }
func (p *vOnce) Write(b []byte) error       { p.written = append(p.written, b); return nil }

type vStream struct {
	vProv
	keys []string
	at   int
}

func (p *vStream) Keys() ([]string, error) { return p.keys, nil }
func (p *vStream) Count() int              { return len(p.keys) }
func (p *vStream) Has(k string) bool       { _, ok := p.m[k]; return ok }
func (p *vStream) Next() (string, bool) {
	if p.at >= len(p.keys) {
		return "", true
	}
	p.at++
	return p.keys[p.at-1], false
}
func (p *vStream) Value(k string) (any, bool)              { v, ok := p.m[k]; return v.Value, ok }
func (p *vStream) MustValue(k string) any                  { return p.m[k].Value }
func (p *vStream) Read() (map[string]store.ValPkg, error) { return nil, store.ErrNotImplemented }

type vCodec struct {
	out map[string]any
	err error
	got []map[string]any
}

func (c *vCodec) Marshal(m map[string]any) ([]byte, error) { c.got = append(c.got, m); return []byte("x"), nil }
func (c *vCodec) Unmarshal([]byte) (map[string]any, error) { return c.out, c.err }

func vFlat(prefix string, m map[string]any, out map[string]any) {
	for k, v := range m {
		if s, ok := v.(map[string]any); ok && len(s) > 0 {
			vFlat(prefix+k+".", s, out)
			continue
		}
		out[prefix+k] = v
	}
}

func vNested(flat map[string]any) map[string]any {
	out := map[string]any{}
	for k, v := range flat {
		cur := out
		parts := strings.Split(k, ".")
		for _, p := range parts[:len(parts)-1] {
			n, ok := cur[p].(map[string]any)
			if !ok {
				n = map[string]any{}
				cur[p] = n
			}
			cur = n
		}
		cur[parts[len(parts)-1]] = v
	}
	return out
}

// vIndep are keys none of which is a section of another.
func vIndep(r *rand.Rand, n int) []string {
	var out []string
next:
	for i := 0; i < 4*n && len(out) < n; i++ {
		k := vKey(r, ".", r.Intn(3))
		if k == "" || strings.Contains(k, "..") || k[0] == '.' || k[len(k)-1] == '.' || strings.ContainsAny(k, " ") {
			continue
		}
		for _, o := range out {
			if o == k || strings.HasPrefix(o, k+".") || strings.HasPrefix(k, o+".") {
				continue next
			}
		}
		out = append(out, k)
	}
	return out
}

// vPool is a value for the i-th operation: kind 0 is new at every operation, the others are special values.
func vPool(i, kind int) any {
	switch kind {
	case 1:
		return nil
	case 2:
		return 0
	case 3:
		return ""
	case 4:
		return false
	case 5:
		return true
	case 6:
		return "same"
	case 7:
		return []string{"x", "y"}
	case 8:
		return []any{}
	case 9:
		return time.Duration(i)
	case 10:
		return -1.5
	case 11:
		return []byte{}
	}
	return i*10 + 1
}

type vMark struct {
	v   any
	mod bool
}

func vModified(s store.Store, k string) (mod, found bool) {
	s.GetEx(k, func(node radix.Node[any], _ any, branch bool, _ radix.KVPair) {
		if node != nil && !branch {
			mod, found = node.Modified(), true
		}
	})
	return
}

func vLoadHist(h vHist) (string, int) {
	var flags []bool
	s := store.New(store.WithOnNewHandlers(func(_ string, _ any, l bool) { flags = append(flags, l) }),
		store.WithOnChangeHandlers(func(_ string, _, _ any, l bool) { flags = append(flags, l) }))
	model := map[string]*vMark{}
	write := func(k string, v any, loading bool) {
		e := model[k]
		if e == nil {
			e = &vMark{}
			model[k] = e
		}
		e.v = v
		if !loading {
			e.mod = true
		}
	}
	checks := 0
	ctx := context.Background()
	var wr store.Writeable
	var codec *vCodec
	var once *vOnce
	for i, o := range h.Ops {
		val := vPool(i, o.Dst)
		pfx := ""
		if o.Arg != "" {
			pfx = o.Arg + "."
		}
		switch o.Op {
		case "set":
			s.Set(o.Key, val)
			write(o.Key, val, false)
		case "wset":
			ran := 0
			s.WithinLoading(func() {
				ran++
				s.Set(o.Key, val)
				s.WithinLoading(func() {})
				_, _ = s.Load(ctx, store.WithProvider(&vProv{readErr: errors.New("inner")}))
				if len(o.Keys) > 0 {
					s.Set(o.Keys[0], val)
				}
			})
			if ran != 1 {
				return fmt.Sprintf("op %d: WithinLoading ran its function %d times", i, ran), checks
			}
			write(o.Key, val, true)
			if len(o.Keys) > 0 {
				write(o.Keys[0], val, true)
			}
		case "wpanic":
			func() {
				defer func() { _ = recover() }()
				s.WithinLoading(func() { s.Set(o.Key, val); panic("user") })
			}()
			write(o.Key, val, true)
		case "merge":
			_ = s.Merge("", vNested(map[string]any{o.Key: val}))
			write(o.Key, val, false)
		case "remove":
			s.Remove(o.Key)
			delete(model, o.Key)
		case "loadread", "loadbytes", "loadstream", "loaderr", "loadbin", "loadcodec":
			flat := map[string]any{}
			for j, k := range o.Keys {
				flat[k] = i*100 + j
				if j == 0 && o.Dst > 0 {
					flat[k] = vPool(i, o.Dst)
				}
			}
			c := &vCodec{}
			opts := []store.LoadOpt{}
			if o.Arg != "" {
				opts = append(opts, store.WithStorePrefix(o.Arg))
			}
			ok := true
			switch o.Op {
			case "loadread":
				p := &vProv{m: map[string]store.ValPkg{}}
				for k, v := range flat {
					p.m[k] = store.ValPkg{Value: v, Desc: "d" + k, Comment: "c", Tag: i}
				}
				opts = append(opts, store.WithProvider(p))
			case "loadbytes":
				c.out = vNested(flat)
				p := &vOnce{vProv{readErr: store.ErrNotImplemented, bytes: []byte("b")}}
				opts = append(opts, store.WithProvider(p), store.WithCodec(c))
				once = p
			case "loadstream":
				p := &vStream{keys: o.Keys}
				p.m = map[string]store.ValPkg{}
				for k, v := range flat {
					p.m[k] = store.ValPkg{Value: v}
				}
				opts = append(opts, store.WithProvider(p), store.WithCodec(c))
			case "loaderr":
				ok = false
				opts = append(opts, store.WithProvider(&vProv{readErr: errors.New("boom")}))
			case "loadbin":
				ok = false
				opts = append(opts, store.WithProvider(&vOnce{vProv{readErr: store.ErrNotImplemented, bErr: errors.New("boom")}}), store.WithCodec(c))
			case "loadcodec":
				ok = false
				c.err = errors.New("boom")
				opts = append(opts, store.WithProvider(&vOnce{vProv{readErr: store.ErrNotImplemented, bytes: []byte("b")}}), store.WithCodec(c))
			}
			w, err := s.Load(ctx, opts...)
			if (err == nil) != ok {
				return fmt.Sprintf("op %d %s: Load returned error %v", i, o.Op, err), checks
			}
			if ok {
				for k, v := range flat {
					write(pfx+k, v, true)
				}
			}
			if o.Op == "loadbytes" && w != nil && o.Arg == "" {
				wr, codec = w, c
			} else if o.Op == "loadbytes" {
				once = nil
				wr, codec = nil, nil
			}
			if o.Op == "loadread" {
				for k := range flat {
					if d, _ := s.GetDesc(pfx + k); d != "d"+k {
						return fmt.Sprintf("op %d: description of %q is %q after loading", i, pfx+k, d), checks
					}
				}
			}
		case "save":
			if wr == nil || once == nil {
				continue
			}
			n, nw := len(codec.got), len(once.written)
			if err := wr.Save(ctx); err != nil {
				return fmt.Sprintf("op %d: Save reports %v", i, err), checks
			}
			want := map[string]any{}
			for k, e := range model {
				if e.mod {
					want[k] = e.v
				}
			}
			if len(want) == 0 {
				if len(codec.got) != n || len(once.written) != nw {
					return fmt.Sprintf("op %d: Save wrote something although nothing was modified", i), checks
				}
				break
			}
			if len(codec.got) != n+1 || len(once.written) != nw+1 {
				return fmt.Sprintf("op %d: Save encoded %d and wrote %d times, want 1", i, len(codec.got)-n, len(once.written)-nw), checks
			}
			got := map[string]any{}
			vFlat("", codec.got[n], got)
			checks++
			if !vEq(vSortedKV(got), vSortedKV(want)) {
				return fmt.Sprintf("op %d: Save wrote %v, modified keys are %v", i, vSortedKV(got), vSortedKV(want)), checks
			}
		}
		// the loading state has ended: a probe write is a user write
		flags = nil
		pk := "zz-probe"
		n, _ := s.Set(pk, i)
		checks++
		if n == nil || !n.Modified() || len(flags) != 1 || flags[0] {
			return fmt.Sprintf("op %d %s: a user write afterwards is not marked as modified (still loading: %v)", i, o.Op, flags), checks
		}
		s.Remove(pk)
		for k, e := range model {
			mod, found := vModified(s, k)
			checks++
			if !found || mod != e.mod {
				return fmt.Sprintf("op %d %s: key %q modified=%v found=%v, want modified=%v", i, o.Op, k, mod, found, e.mod), checks
			}
			if v, ok := s.Get(k); !ok || !vEq(v, e.v) {
				return fmt.Sprintf("op %d %s: key %q reads %v,%v, want %v", i, o.Op, k, v, ok, e.v), checks
			}
		}
	}
	return "", checks
}

func vSortedKV(m map[string]any) (out []string) {
	for k, v := range m {
		out = append(out, fmt.Sprintf("%s=%v", k, v))
	}
	sort.Strings(out)
	return
}

func TestVerif_R10(t *testing.T) {
	r := vStart(t, "R10", "random histories of up to 14 writes, loads of every provider kind and outcome, nested loads, saves over up to 8 keys")
	kinds := []string{"set", "set", "wset", "wpanic", "merge", "remove", "loadread", "loadbytes", "loadbytes", "loadstream", "loaderr", "loadbin", "loadcodec", "save", "save"}
	for i := 0; i < vScale(20000, 400000) && !r.over(); i++ {
		rnd := rand.New(rand.NewSource(vSeed()*1000003 + int64(i)))
		keys := vIndep(rnd, 2+rnd.Intn(7))
		if len(keys) == 0 {
			continue
		}
		h := vHist{Target: "store", Delim: ".", Keys: keys}
		for n := 1 + rnd.Intn(14); n > 0; n-- {
			o := vOp{Op: kinds[rnd.Intn(len(kinds))], Key: keys[rnd.Intn(len(keys))]}
			for _, k := range keys {
				if rnd.Intn(3) == 0 {
					o.Keys = append(o.Keys, k)
				}
			}
			if rnd.Intn(3) == 0 {
				o.Dst = rnd.Intn(12)
			}
			if strings.HasPrefix(o.Op, "load") && o.Op != "loadbytes" && rnd.Intn(4) == 0 {
				o.Arg = "px.q"
			}
			h.Ops = append(h.Ops, o)
		}
		r.hist(h, vLoadHist)
	}
}

// ---------------------------------------------------------------- handlers

func vHandlerHist(h vHist) (string, int) {
	type call struct {
		id        int
		kind, key string
		val, old  any
		loading   bool
	}
	var calls []call
	var opts []store.Opt
	nh := h.Ops[0].Dst
	var ns []store.OnNewHandler
	var cs []store.OnChangeHandler
	var ds []store.OnDeleteHandler
	for i := 0; i < nh; i++ {
		ns = append(ns, func(p string, v any, l bool) { calls = append(calls, call{i, "new", p, v, nil, l}) })
		cs = append(cs, func(p string, v, old any, l bool) { calls = append(calls, call{i, "change", p, v, old, l}) })
		ds = append(ds, func(p string, v any, l bool) { calls = append(calls, call{i, "delete", p, v, nil, l}) })
	}
	if h.Ops[0].Arg == "nil" {
		ns, cs, ds = append([]store.OnNewHandler{nil}, ns...), append(cs, nil), append([]store.OnDeleteHandler{nil}, ds...)
	}
	if h.Ops[0].Arg == "split" && nh > 1 {
		opts = append(opts, store.WithOnNewHandlers(ns[:1]...), store.WithOnNewHandlers(ns[1:]...),
			store.WithOnChangeHandlers(cs[:1]...), store.WithOnChangeHandlers(cs[1:]...),
			store.WithOnDeleteHandlers(ds[:1]...), store.WithOnDeleteHandlers(ds[1:]...))
	} else {
		opts = append(opts, store.WithOnNewHandlers(ns...), store.WithOnChangeHandlers(cs...), store.WithOnDeleteHandlers(ds...))
	}
	s := store.New(opts...)
	model := map[string]any{}
	checks := 0
	for i, o := range h.Ops[1:] {
		calls = nil
		loading := o.Arg == "loading"
		do := func(f func()) {
			if loading {
				s.WithinLoading(f)
			} else {
				f()
			}
		}
		var want []call
		val := vPool(i, o.Dst)
		switch o.Op {
		case "set":
			old, ok := model[o.Key]
			for j := 0; j < nh; j++ {
				if ok {
					want = append(want, call{j, "change", o.Key, val, old, loading})
				} else {
					want = append(want, call{j, "new", o.Key, val, nil, loading})
				}
			}
			do(func() { s.Set(o.Key, val) })
			model[o.Key] = val
		case "read":
			do(func() { s.Get(o.Key); s.Has(o.Key); s.GetM(""); s.Locate(o.Key, nil) })
		case "remove":
			old, ok := model[o.Key]
			sect := false
			var below []string
			for k := range model {
				if strings.HasPrefix(k, o.Key+".") {
					sect = true
					below = append(below, k)
				}
			}
			if sect && !ok {
				continue // a mere section: see R03
			}
			if !ok && s.Has(o.Key) {
				continue // a section left empty by earlier removals: see R03
			}
			if ok {
				for j := 0; j < nh; j++ {
					want = append(want, call{j, "delete", o.Key, old, nil, loading})
				}
			}
			if rx, is := s.(interface {
				RemoveEx(path string) (nodeRemoved, nodeParent radix.Node[any], removed bool)
			}); is && h.Ops[0].Key == "ex" {
				do(func() { rx.RemoveEx(o.Key) })
			} else {
				do(func() { s.Remove(o.Key) })
			}
			delete(model, o.Key)
			for _, k := range below {
				delete(model, k)
			}
		}
		checks++
		if fmt.Sprintf("%#v", calls) != fmt.Sprintf("%#v", want) {
			return fmt.Sprintf("op %d %v: handlers called: %+v, want %+v", i, o, calls, want), checks
		}
	}
	return "", checks
}

func TestVerif_R11(t *testing.T) {
	r := vStart(t, "R11", "random histories of up to 20 direct writes and removals over up to 10 keys, up to 5 handlers of each kind, within and without loading")
	for i := 0; i < vScale(20000, 400000) && !r.over(); i++ {
		rnd := rand.New(rand.NewSource(vSeed()*1000003 + int64(i)))
		var keys []string
		for _, k := range vKeys(rnd, ".", 2+rnd.Intn(9)) {
			if !strings.Contains(k, " ") && k != "" && !strings.HasSuffix(k, ".") && !strings.HasPrefix(k, ".") && !strings.Contains(k, "..") {
				keys = append(keys, k)
			}
		}
		if len(keys) == 0 {
			continue
		}
		h := vHist{Target: "store", Delim: ".", Keys: keys}
		h.Ops = append(h.Ops, vOp{Op: "handlers", Key: []string{"", "ex"}[rnd.Intn(2)], Dst: rnd.Intn(6), Arg: []string{"", "nil", "split"}[rnd.Intn(3)]})
		for n := 1 + rnd.Intn(20); n > 0; n-- {
			o := vOp{Op: "set", Key: keys[rnd.Intn(len(keys))]}
			switch rnd.Intn(9) {
			case 0, 1, 2:
				o.Op = "remove"
			case 3:
				o.Op = "read"
			}
			if rnd.Intn(4) == 0 {
				o.Arg = "loading"
			}
			if rnd.Intn(2) == 0 {
				o.Dst = rnd.Intn(12)
			}
			h.Ops = append(h.Ops, o)
		}
		r.hist(h, func(h vHist) (string, int) {
			if len(h.Ops) == 0 || h.Ops[0].Op != "handlers" {
				return "", 0
			}
			return vHandlerHist(h)
		})
	}
}

// ---------------------------------------------------------------- watched changes

type vChange struct {
	op   store.Op
	kv   []vOp
	at   int
	ends int
}

func (c *vChange) Next() (string, any, bool) {
	if c.at >= len(c.kv) {
		c.ends++
		return "", nil, false
	}
	c.at++
	return c.kv[c.at-1].Key, c.kv[c.at-1].Val, true
}
func (c *vChange) Path() string             { return "" }
func (c *vChange) Op() store.Op             { return c.op }
func (c *vChange) Has(op store.Op) bool     { return c.op&op != 0 }
func (c *vChange) Timestamp() time.Time     { return time.Time{} }
func (c *vChange) Provider() store.Provider { return nil }

type vWatch struct {
	vProv
	cb     func(event any, err error)
	closed int
}

func (p *vWatch) Watch(_ context.Context, cb func(event any, err error)) error { p.cb = cb; return nil }
func (p *vWatch) Close()                                                        { p.closed++ }

func vWatchHist(h vHist) (string, int) {
	s := store.New(store.WithWatchEnable(true))
	w := &vWatch{}
	w.m = map[string]store.ValPkg{}
	model := map[string]any{}
	for i, k := range h.Keys {
		if i%2 == 0 {
			w.m[k] = store.ValPkg{Value: i}
			model[k] = i
		}
	}
	if _, err := s.Load(context.Background(), store.WithProvider(w)); err != nil || w.cb == nil {
		return fmt.Sprintf("Load of a watchable provider: error %v, watching %v", err, w.cb != nil), 0
	}
	checks := 0
	for i, o := range h.Ops {
		c := &vChange{op: store.Op(o.Dst)}
		for j, k := range o.Keys {
			v := any(i*100 + j)
			if o.Arg == "special" {
				v = vPool(i, (i+j)%12)
			}
			c.kv = append(c.kv, vOp{Key: k, Val: v})
		}
		var err error
		switch o.Op {
		case "error":
			err = errors.New("watch failed")
			w.cb(c, err)
		case "foreign":
			w.cb("not a change", nil)
		case "nil":
			w.cb(nil, nil)
		default:
			w.cb(c, nil)
			switch {
			case c.op&(store.OpCreate|store.OpWrite) != 0:
				for _, kv := range c.kv {
					model[kv.Key] = kv.Val
				}
			case c.op&store.OpRemove != 0:
				for _, kv := range c.kv {
					for k := range model {
						if strings.HasPrefix(k, kv.Key+".") {
							delete(model, k)
						}
					}
					delete(model, kv.Key)
				}
			}
			if c.op&(store.OpCreate|store.OpWrite|store.OpRemove|store.OpRename|store.OpChmod) != 0 && (c.at != len(c.kv) || c.ends != 1) {
				return fmt.Sprintf("event %d: %d of %d pairs consumed, end seen %d times", i, c.at, len(c.kv), c.ends), checks
			}
		}
		if err != nil && c.at != 0 {
			return fmt.Sprintf("event %d: %d pairs of a failed event consumed", i, c.at), checks
		}
		for _, k := range h.Keys {
			checks++
			v, ok := s.Get(k)
			mv, mok := model[k]
			if ok != mok || ok && !vEq(v, mv) {
				return fmt.Sprintf("event %d %v: key %q reads %v,%v, want %v,%v", i, o, k, v, ok, mv, mok), checks
			}
		}
	}
	return "", checks
}

func TestVerif_R19(t *testing.T) {
	r := vStart(t, "R19", "random histories of up to 8 events of every combination of operations, up to 5 pairs each, over up to 8 keys none a section of another")
	for i := 0; i < vScale(20000, 400000) && !r.over(); i++ {
		rnd := rand.New(rand.NewSource(vSeed()*1000003 + int64(i)))
		keys := vIndep(rnd, 2+rnd.Intn(7))
		if len(keys) == 0 {
			continue
		}
		h := vHist{Target: "store", Delim: ".", Keys: keys}
		for n := 1 + rnd.Intn(8); n > 0; n-- {
			o := vOp{Op: []string{"event", "event", "event", "event", "error", "foreign", "nil"}[rnd.Intn(7)]}
			if rnd.Intn(3) > 0 {
				o.Dst = 1 << rnd.Intn(5)
			} else {
				o.Dst = rnd.Intn(64)
			}
			if rnd.Intn(3) == 0 {
				o.Arg = "special"
			}
			for m := rnd.Intn(6); m > 0; m-- {
				o.Keys = append(o.Keys, keys[rnd.Intn(len(keys))])
			}
			h.Ops = append(h.Ops, o)
		}
		r.hist(h, vWatchHist)
	}
}
