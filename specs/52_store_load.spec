package store


def sok(s *storeS) := okd(tr(s).delimiter) && slive(s) && s.parent == 0 && wf(tr(s)) && plain(tr(s).delimiter) && tr(s).recursiveMode == 0
def tree(s *storeS) := wf(tr(s)) && plain(tr(s).delimiter) && tr(s).root == old(tr(s).root)

func privateSetter(ss, position, k, v, creating, onSet) ()
  option merge
  requires sok(ss) && pth(position, tr(ss).delimiter) && pth(k, tr(ss).delimiter)
  modifies radix.nodeS.path, radix.nodeS.pathS, radix.nodeS.children, radix.nodeS.nType, radix.nodeS.description, radix.nodeS.comment, radix.nodeS.tag, radix.nodeS.data, alloc, M, log
  modifies radix.nodeS.rw[new], Buffer[new], storeS.*[new], radix.trieS.*[new], atomic.Uint32[new]
  entry j: position != "" && k != "" ==> pth(cat(position, cat(unit(tr(ss).delimiter), k)), tr(ss).delimiter)
  ensures tree: tree(ss)
  ensures kept: kept(dec(join2(tr(ss).delimiter, position, k)))
  ensures added: added(dec(join2(tr(ss).delimiter, position, k)))
  ensures val: stored(dec(join2(tr(ss).delimiter, position, k))) && hasdata(M[dec(join2(tr(ss).delimiter, position, k))]) && M[dec(join2(tr(ss).delimiter, position, k))].data == v
  ensures unmarked: ss.loading == 1 ==> unmarked()

extern func errors::New(args) (e)
  ensures e != nil
extern func errors::(Error).Attach(e, errs) ()
extern func errors::(Error).Defer(e, err) ()
extern func evendeep::(*Cvt).String(c, data) (r)
  ensures is(data, "string") ==> r == unbox(data, "string")
  ensures r == cvString(data)

// every name in a map is a path without blanks and wildcards
def names(d int) := (forall m gomap[string]any, k seq :: {has(m, k)} has(m, k) ==> pth(k, d)) && (forall m gomap[string]ValPkg, k seq :: {has(m, k)} has(m, k) ==> pth(k, d)) && (forall m gomap[any]any, k any :: {has(m, k)} has(m, k) ==> is(k, "string") && pth(unbox(k, "string"), d))

fn lslice(any, bool) bool
axiom lslice: forall v any, f bool :: {lslice(v, f)} lslice(v, f) <==> f && (is(v, "[]gomap[string]any") || is(v, "[]gomap[any]any") || is(v, "[]any"))
def parts(J seq, v any, K seq, x any, d int, f bool) := (is(v, "ValPkg") ==> leafat0(J, unbox(v, "ValPkg").Value, K, x)) && (is(v, "gomap[string]any") ==> (exists k seq :: {has(unbox(v, "gomap[string]any"), k)} has(unbox(v, "gomap[string]any"), k) && leafat0(jn(J, dec(k), d), unbox(v, "gomap[string]any")[k], K, x))) && (is(v, "gomap[any]any") ==> (exists k any :: {has(unbox(v, "gomap[any]any"), k)} has(unbox(v, "gomap[any]any"), k) && leafat0(jn(J, dec(unbox(k, "string")), d), unbox(v, "gomap[any]any")[k], K, x))) && (f && is(v, "[]gomap[string]any") ==> (exists i int :: {unbox(v, "[]gomap[string]any")[i]} 0 <= i && i < len(unbox(v, "[]gomap[string]any")) && leafat0(jn(J, itoa(i), d), box(unbox(v, "[]gomap[string]any")[i], "gomap[string]any"), K, x))) && (f && is(v, "[]gomap[any]any") ==> (exists i int :: {unbox(v, "[]gomap[any]any")[i]} 0 <= i && i < len(unbox(v, "[]gomap[any]any")) && leafat0(jn(J, itoa(i), d), box(unbox(v, "[]gomap[any]any")[i], "gomap[any]any"), K, x))) && (f && is(v, "[]any") ==> (exists i int :: {unbox(v, "[]any")[i]} 0 <= i && i < len(unbox(v, "[]any")) && leafat0(jn(J, itoa(i), d), unbox(v, "[]any")[i], K, x))) && (!is(v, "ValPkg") && !is(v, "gomap[string]any") && !is(v, "gomap[any]any") && !lslice(v, f) ==> K == J && x == v)
def RD(d int, f bool) := (forall m gomap[string]any, k seq :: {has(m, k)} has(m, k) ==> k != "" && simple(dec(k), d)) && (forall m gomap[string]ValPkg, k seq :: {has(m, k)} has(m, k) ==> k != "" && simple(dec(k), d)) && (forall m gomap[any]any, k any :: {has(m, k)} has(m, k) ==> unbox(k, "string") != "" && simple(dec(unbox(k, "string")), d)) && (forall J seq, v any, K seq, x any :: {leafat0(J, v, K, x)} leafat0(J, v, K, x) ==> rg(J, K, d)) && (forall J seq, v any, K seq, x any :: {leafat(J, v, K, x)} leafat(J, v, K, x) ==> parts(J, v, K, x, d, f))
func (*storeS).loadMapByValueType(s, ec, position, k, v, creating, onSet) ()
  option opaque Inv Br plain
  requires sok(s) && ec != nil && names(tr(s).delimiter) && pth(position, tr(s).delimiter) && pth(k, tr(s).delimiter)
  requires nested() ==> k != "" && RD(tr(s).delimiter, s.flattenSlice)
  modifies radix.nodeS.path, radix.nodeS.pathS, radix.nodeS.children, radix.nodeS.nType, radix.nodeS.description, radix.nodeS.comment, radix.nodeS.tag, radix.nodeS.data, alloc, M, log
  modifies radix.nodeS.rw[new], Buffer[new], storeS.*[new], radix.trieS.*[new], atomic.Uint32[new]
  entry j: position != "" && k != "" ==> pth(cat(position, cat(unit(tr(s).delimiter), k)), tr(s).delimiter)
  entry dj: dec(join2(tr(s).delimiter, position, k)) == jn(dec(position), dec(k), tr(s).delimiter) && rg(jn(dec(position), dec(k), tr(s).delimiter), jn(dec(position), dec(k), tr(s).delimiter), tr(s).delimiter)
  entry parts: nested() ==> (forall K seq, x any :: {leafat0(jn(dec(position), dec(k), tr(s).delimiter), v, K, x)} leafat0(jn(dec(position), dec(k), tr(s).delimiter), v, K, x) ==> rg(jn(dec(position), dec(k), tr(s).delimiter), K, tr(s).delimiter) && parts(jn(dec(position), dec(k), tr(s).delimiter), v, K, x, tr(s).delimiter, s.flattenSlice))
  inv len($b:[]byte) == 0
  inv sok(s)
  inv tree(s)
  inv kept3(jn(dec(position), dec(k), tr(s).delimiter), tr(s).delimiter)
  inv added3(jn(dec(position), dec(k), tr(s).delimiter), tr(s).delimiter)
  inv s.loading == 1 ==> unmarked()
  inv nested() && is(v, "[]gomap[string]any") ==> (forall i int, K seq, x any :: {leafat0(jn(jn(dec(position), dec(k), tr(s).delimiter), itoa(i), tr(s).delimiter), box(unbox(v, "[]gomap[string]any")[i], "gomap[string]any"), K, x)} 0 <= i && i <= $i:int && i < len(unbox(v, "[]gomap[string]any")) && leafat0(jn(jn(dec(position), dec(k), tr(s).delimiter), itoa(i), tr(s).delimiter), box(unbox(v, "[]gomap[string]any")[i], "gomap[string]any"), K, x) ==> stored(K) && hasdata(M[K]) && M[K].data == x)
  inv nested() && is(v, "[]gomap[any]any") ==> (forall i int, K seq, x any :: {leafat0(jn(jn(dec(position), dec(k), tr(s).delimiter), itoa(i), tr(s).delimiter), box(unbox(v, "[]gomap[any]any")[i], "gomap[any]any"), K, x)} 0 <= i && i <= $i:int && i < len(unbox(v, "[]gomap[any]any")) && leafat0(jn(jn(dec(position), dec(k), tr(s).delimiter), itoa(i), tr(s).delimiter), box(unbox(v, "[]gomap[any]any")[i], "gomap[any]any"), K, x) ==> stored(K) && hasdata(M[K]) && M[K].data == x)
  inv nested() && is(v, "[]any") ==> (forall i int, K seq, x any :: {leafat0(jn(jn(dec(position), dec(k), tr(s).delimiter), itoa(i), tr(s).delimiter), unbox(v, "[]any")[i], K, x)} 0 <= i && i <= $i:int && i < len(unbox(v, "[]any")) && leafat0(jn(jn(dec(position), dec(k), tr(s).delimiter), itoa(i), tr(s).delimiter), unbox(v, "[]any")[i], K, x) ==> stored(K) && hasdata(M[K]) && M[K].data == x)
  ensures tree: tree(s)
  ensures kept: kept3(jn(dec(position), dec(k), tr(s).delimiter), tr(s).delimiter)
  ensures added: added3(jn(dec(position), dec(k), tr(s).delimiter), tr(s).delimiter)
  ensures unmarked: s.loading == 1 ==> unmarked()
  ensures put: nested() ==> put(jn(dec(position), dec(k), tr(s).delimiter), v)

func (*storeS).loadMap(s, m, position, creating, onSet) (err)
  option merge
  option opaque Inv Br plain
  requires sok(s) && names(tr(s).delimiter) && pth(position, tr(s).delimiter)
  requires nested() ==> RD(tr(s).delimiter, s.flattenSlice)
  modifies radix.nodeS.path, radix.nodeS.pathS, radix.nodeS.children, radix.nodeS.nType, radix.nodeS.description, radix.nodeS.comment, radix.nodeS.tag, radix.nodeS.data, alloc, M, log
  modifies radix.nodeS.rw[new], Buffer[new], storeS.*[new], radix.trieS.*[new], atomic.Uint32[new]
  entry parts: nested() ==> (forall K seq, x any :: {leafat0(dec(position), box(m, "gomap[string]any"), K, x)} leafat0(dec(position), box(m, "gomap[string]any"), K, x) ==> rg(dec(position), K, tr(s).delimiter) && parts(dec(position), box(m, "gomap[string]any"), K, x, tr(s).delimiter, s.flattenSlice))
  inv sok(s)
  inv tree(s)
  inv kept3(dec(position), tr(s).delimiter)
  inv added3(dec(position), tr(s).delimiter)
  inv s.loading == 1 ==> unmarked()
  inv nested() ==> (forall k seq, K seq, x any :: {leafat0(jn(dec(position), dec(k), tr(s).delimiter), m[k], K, x)} has($v:visited, k) && has(m, k) && leafat0(jn(dec(position), dec(k), tr(s).delimiter), m[k], K, x) ==> stored(K) && hasdata(M[K]) && M[K].data == x)
  ensures tree: tree(s)
  ensures kept: kept3(dec(position), tr(s).delimiter)
  ensures added: added3(dec(position), tr(s).delimiter)
  ensures unmarked: s.loading == 1 ==> unmarked()
  ensures put: nested() ==> put(dec(position), box(m, "gomap[string]any"))

func (*storeS).loadMapAny(s, m, position, creating, onSet) (err)
  option merge
  option opaque Inv Br plain
  requires sok(s) && names(tr(s).delimiter) && pth(position, tr(s).delimiter)
  requires nested() ==> RD(tr(s).delimiter, s.flattenSlice)
  modifies radix.nodeS.path, radix.nodeS.pathS, radix.nodeS.children, radix.nodeS.nType, radix.nodeS.description, radix.nodeS.comment, radix.nodeS.tag, radix.nodeS.data, alloc, M, log
  modifies radix.nodeS.rw[new], Buffer[new], storeS.*[new], radix.trieS.*[new], atomic.Uint32[new]
  entry parts: nested() ==> (forall K seq, x any :: {leafat0(dec(position), box(m, "gomap[any]any"), K, x)} leafat0(dec(position), box(m, "gomap[any]any"), K, x) ==> rg(dec(position), K, tr(s).delimiter) && parts(dec(position), box(m, "gomap[any]any"), K, x, tr(s).delimiter, s.flattenSlice))
  inv sok(s)
  inv tree(s)
  inv kept3(dec(position), tr(s).delimiter)
  inv added3(dec(position), tr(s).delimiter)
  inv s.loading == 1 ==> unmarked()
  inv nested() ==> (forall k any, K seq, x any :: {leafat0(jn(dec(position), dec(unbox(k, "string")), tr(s).delimiter), m[k], K, x)} has($v:visited, k) && has(m, k) && leafat0(jn(dec(position), dec(unbox(k, "string")), tr(s).delimiter), m[k], K, x) ==> stored(K) && hasdata(M[K]) && M[K].data == x)
  ensures tree: tree(s)
  ensures kept: kept3(dec(position), tr(s).delimiter)
  ensures added: added3(dec(position), tr(s).delimiter)
  ensures unmarked: s.loading == 1 ==> unmarked()
  ensures put: nested() ==> put(dec(position), box(m, "gomap[any]any"))

func (*storeS).Merge(s, pathAt, data) (err)
  option opaque Inv Br plain
  requires sok(s) && names(tr(s).delimiter) && pth(tr(s).prefix, tr(s).delimiter) && pth(pathAt, tr(s).delimiter)
  requires nested() ==> RD(tr(s).delimiter, s.flattenSlice)
  modifies radix.nodeS.path, radix.nodeS.pathS, radix.nodeS.children, radix.nodeS.nType, radix.nodeS.description, radix.nodeS.comment, radix.nodeS.tag, radix.nodeS.data, alloc, M, log
  modifies radix.nodeS.rw[new], Buffer[new], storeS.*[new], radix.trieS.*[new], atomic.Uint32[new]
  entry j: tr(s).prefix != "" && pathAt != "" ==> pth(cat(tr(s).prefix, cat(unit(tr(s).delimiter), pathAt)), tr(s).delimiter)
  entry dj: dec(join2(tr(s).delimiter, tr(s).prefix, pathAt)) == jn(dec(tr(s).prefix), dec(pathAt), tr(s).delimiter)
  ensures tree: tree(s)
  ensures kept: kept3(jn(dec(tr(s).prefix), dec(pathAt), tr(s).delimiter), tr(s).delimiter)
  ensures added: added3(jn(dec(tr(s).prefix), dec(pathAt), tr(s).delimiter), tr(s).delimiter)
  ensures unmarked: s.loading == 1 ==> unmarked()
  ensures put: nested() ==> put(jn(dec(tr(s).prefix), dec(pathAt), tr(s).delimiter), box(data, "gomap[string]any"))

func (*storeS).loadMapDedicated(s, m, position, creating) (err)
  option merge
  option opaque Inv Br plain
  requires sok(s) && names(tr(s).delimiter) && pth(position, tr(s).delimiter)
  requires nested() ==> RD(tr(s).delimiter, s.flattenSlice)
  modifies radix.nodeS.path, radix.nodeS.pathS, radix.nodeS.children, radix.nodeS.nType, radix.nodeS.description, radix.nodeS.comment, radix.nodeS.tag, radix.nodeS.data, alloc, M, log
  modifies radix.nodeS.rw[new], Buffer[new], storeS.*[new], radix.trieS.*[new], atomic.Uint32[new]
  inv sok(s)
  inv tree(s)
  inv kept3(dec(position), tr(s).delimiter)
  inv added3(dec(position), tr(s).delimiter)
  inv s.loading == 1 ==> unmarked()
  inv nested() ==> (forall k seq, K seq, x any :: {leafat0(jn(dec(position), dec(k), tr(s).delimiter), m[k].Value, K, x)} has($v:visited, k) && has(m, k) && leafat0(jn(dec(position), dec(k), tr(s).delimiter), m[k].Value, K, x) ==> stored(K) && hasdata(M[K]) && M[K].data == x)
  ensures tree: tree(s)
  ensures kept: kept3(dec(position), tr(s).delimiter)
  ensures added: added3(dec(position), tr(s).delimiter)
  ensures unmarked: s.loading == 1 ==> unmarked()
  ensures put: nested() ==> (forall k seq :: {has(m, k)} has(m, k) ==> put(jn(dec(position), dec(k), tr(s).delimiter), m[k].Value))

func lemmaWithin(s) (in, after)
  requires s != 0
  modifies storeS.loading
  ensures first: old(s.loading) == 0 ==> in && !after
  ensures nested: old(s.loading) == 1 ==> after
  ensures same: s.loading == old(s.loading)
func lemmaWithinSet(s, k, v) (after)
  requires sok(s) && okS(k) && okS(tr(s).prefix) && noblank(fk(tr(s), k)) && s.loading == 0
  modifies storeS.loading, radix.nodeS.path, radix.nodeS.pathS, radix.nodeS.children, radix.nodeS.nType, radix.nodeS.description, radix.nodeS.comment, radix.nodeS.tag, radix.nodeS.data, alloc, M, log
  modifies radix.nodeS.rw[new], Buffer[new]
  ensures after: !after && s.loading == 0
  ensures val: stored(K_(s, k)) && M[K_(s, k)].data == v
  ensures unmarked: unmarked()

// ---- loading from a provider
extern func store::(Provider).Read(p) (data, err)
extern func store::(OnceProvider).ReadBytes(p) (b, err)
extern func store::(StreamProvider).Next(p) (k, eol)
  ensures !eol ==> pathname(k)
extern func store::(StreamProvider).MustValue(p, k) (v)
extern func store::(Codec).Unmarshal(c, b) (m, err)
extern func store::(Watchable).Watch(w, ctx, cb) (err)
extern func errors::Is(err, target) (b)
def sameview(a *storeS, s *storeS) := sok(a) && a.loading == s.loading && tr(a).root == tr(s).root && tr(a).delimiter == tr(s).delimiter && pth(tr(a).prefix, tr(s).delimiter)
// the load options set fields of the loader and of its (possibly replaced) store view
trusted func newLoader(st, opts) (loader)
  requires sok(st)
  modifies alloc, Loader.*[new], storeS.*[new], storeS.flattenSlice, radix.trieS.*[new], atomic.Uint32[new], Buffer[new]
  ensures isnew(loader) && loader != 0 && (loader.storeS == st || isnew(loader.storeS)) && sameview(loader.storeS, st)
  ensures sok(st)

func (*Loader).tryLoad(s, ctx) (data, bin, err)
  option opaque Inv Br
  requires s != 0 && sok(s.storeS) && pth(tr(s.storeS).prefix, tr(s.storeS).delimiter)
  modifies radix.nodeS.path, radix.nodeS.pathS, radix.nodeS.children, radix.nodeS.nType, radix.nodeS.description, radix.nodeS.comment, radix.nodeS.tag, radix.nodeS.data, alloc, M, log
  modifies radix.nodeS.rw[new], Buffer[new], storeS.*[new], radix.trieS.*[new], atomic.Uint32[new]
  inv sok(s.storeS)
  inv tree(s.storeS)
  inv s.storeS.loading == 1 ==> unmarked()
  ensures tree: sok(s.storeS) && tree(s.storeS)
  ensures unmarked: s.storeS.loading == 1 ==> unmarked()

func (*storeS).Load(s, ctx, opts) (wr, err)
  option merge
  option opaque Inv Br plain
  requires sok(s) && names(tr(s).delimiter) && pth(tr(s).prefix, tr(s).delimiter) && !nested()
  modifies radix.nodeS.path, radix.nodeS.pathS, radix.nodeS.children, radix.nodeS.nType, radix.nodeS.description, radix.nodeS.comment, radix.nodeS.tag, radix.nodeS.data, alloc, M, log
  modifies radix.nodeS.rw[new], Buffer[new], storeS.*[new], radix.trieS.*[new], atomic.Uint32[new]
  modifies storeS.loading, storeS.flattenSlice, storeS.closers, Loader.*[new], cell.*store.Loader
  ensures flag: s.loading == old(s.loading)
  ensures tree: tree(s)
  ensures unmarked: unmarked()
