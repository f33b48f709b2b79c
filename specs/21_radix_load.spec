package radix

// merging a nested map into the tree: the same leaf relation as in the store,
// with the kinds of values the tree takes apart
def tok(s *trieS) := okd(s.delimiter) && live(s) && wf(s) && plain(s.delimiter) && s.recursiveMode == 0 && pth(s.prefix, s.delimiter)
def tnames(d int) := forall m gomap[string]any, k seq :: {has(m, k)} has(m, k) ==> pth(k, d)
def tparts(J seq, v any, K seq, x any, d int) := (is(v, "gomap[string]any") ==> (exists k seq :: {has(unbox(v, "gomap[string]any"), k)} has(unbox(v, "gomap[string]any"), k) && leafat0(jn(J, dec(k), d), unbox(v, "gomap[string]any")[k], K, x))) && (is(v, "[]gomap[string]any") ==> (exists i int :: {unbox(v, "[]gomap[string]any")[i]} 0 <= i && i < len(unbox(v, "[]gomap[string]any")) && leafat0(jn(J, itoa(i), d), box(unbox(v, "[]gomap[string]any")[i], "gomap[string]any"), K, x))) && (is(v, "[]any") ==> (exists i int :: {unbox(v, "[]any")[i]} 0 <= i && i < len(unbox(v, "[]any")) && leafat0(jn(J, itoa(i), d), unbox(v, "[]any")[i], K, x))) && (!is(v, "gomap[string]any") && !is(v, "[]gomap[string]any") && !is(v, "[]any") ==> K == J && x == v)
def TRD(d int) := (forall m gomap[string]any, k seq :: {has(m, k)} has(m, k) ==> k != "" && simple(dec(k), d)) && (forall J seq, v any, K seq, x any :: {leafat0(J, v, K, x)} leafat0(J, v, K, x) ==> rg(J, K, d)) && (forall J seq, v any, K seq, x any :: {leafat(J, v, K, x)} leafat(J, v, K, x) ==> tparts(J, v, K, x, d))
def ttree(s *trieS) := wf(s) && plain(s.delimiter) && s.root == old(s.root)

func (*trieS).loadMapByValueType(s, ec, m, k, v) ()
  option opaque Inv Br plain
  requires tok(s) && ec != nil && tnames(s.delimiter) && pth(k, s.delimiter)
  requires nested() ==> k != "" && TRD(s.delimiter)
  modifies nodeS.path, nodeS.pathS, nodeS.children, nodeS.nType, nodeS.description, nodeS.comment, nodeS.tag, nodeS.data, alloc, M, log
  modifies nodeS.rw[new], Buffer[new], trieS.*[new], atomic.Uint32[new]
  entry j: s.prefix != "" && k != "" ==> pth(cat(s.prefix, cat(unit(s.delimiter), k)), s.delimiter)
  entry dj: dec(fk(s, k)) == jn(dec(s.prefix), dec(k), s.delimiter) && rg(jn(dec(s.prefix), dec(k), s.delimiter), jn(dec(s.prefix), dec(k), s.delimiter), s.delimiter)
  entry parts: nested() ==> (forall K seq, x any :: {leafat0(jn(dec(s.prefix), dec(k), s.delimiter), v, K, x)} leafat0(jn(dec(s.prefix), dec(k), s.delimiter), v, K, x) ==> rg(jn(dec(s.prefix), dec(k), s.delimiter), K, s.delimiter) && tparts(jn(dec(s.prefix), dec(k), s.delimiter), v, K, x, s.delimiter))
  inv len($b:[]byte) == 0
  inv tok(s)
  inv ttree(s)
  inv kept3(jn(dec(s.prefix), dec(k), s.delimiter), s.delimiter)
  inv added3(jn(dec(s.prefix), dec(k), s.delimiter), s.delimiter)
  inv nested() && is(v, "[]gomap[string]any") ==> (forall i int, K seq, x any :: {leafat0(jn(jn(dec(s.prefix), dec(k), s.delimiter), itoa(i), s.delimiter), box(unbox(v, "[]gomap[string]any")[i], "gomap[string]any"), K, x)} 0 <= i && i <= $i:int && i < len(unbox(v, "[]gomap[string]any")) && leafat0(jn(jn(dec(s.prefix), dec(k), s.delimiter), itoa(i), s.delimiter), box(unbox(v, "[]gomap[string]any")[i], "gomap[string]any"), K, x) ==> stored(K) && hasdata(M[K]) && M[K].data == x)
  inv nested() && is(v, "[]any") ==> (forall i int, K seq, x any :: {leafat0(jn(jn(dec(s.prefix), dec(k), s.delimiter), itoa(i), s.delimiter), unbox(v, "[]any")[i], K, x)} 0 <= i && i <= $i:int && i < len(unbox(v, "[]any")) && leafat0(jn(jn(dec(s.prefix), dec(k), s.delimiter), itoa(i), s.delimiter), unbox(v, "[]any")[i], K, x) ==> stored(K) && hasdata(M[K]) && M[K].data == x)
  ensures tree: ttree(s)
  ensures kept: kept3(jn(dec(s.prefix), dec(k), s.delimiter), s.delimiter)
  ensures added: added3(jn(dec(s.prefix), dec(k), s.delimiter), s.delimiter)
  ensures put: nested() ==> put(jn(dec(s.prefix), dec(k), s.delimiter), v)

func (*trieS).loadMap(s, m) (err)
  option merge
  option opaque Inv Br plain
  requires tok(s) && tnames(s.delimiter)
  requires nested() ==> TRD(s.delimiter)
  modifies nodeS.path, nodeS.pathS, nodeS.children, nodeS.nType, nodeS.description, nodeS.comment, nodeS.tag, nodeS.data, alloc, M, log
  modifies nodeS.rw[new], Buffer[new], trieS.*[new], atomic.Uint32[new]
  entry parts: nested() ==> (forall K seq, x any :: {leafat0(dec(s.prefix), box(m, "gomap[string]any"), K, x)} leafat0(dec(s.prefix), box(m, "gomap[string]any"), K, x) ==> rg(dec(s.prefix), K, s.delimiter) && tparts(dec(s.prefix), box(m, "gomap[string]any"), K, x, s.delimiter))
  inv tok(s)
  inv ttree(s)
  inv kept3(dec(s.prefix), s.delimiter)
  inv added3(dec(s.prefix), s.delimiter)
  inv nested() ==> (forall k seq, K seq, x any :: {leafat0(jn(dec(s.prefix), dec(k), s.delimiter), m[k], K, x)} has($v:visited, k) && has(m, k) && leafat0(jn(dec(s.prefix), dec(k), s.delimiter), m[k], K, x) ==> stored(K) && hasdata(M[K]) && M[K].data == x)
  ensures tree: ttree(s)
  ensures kept: kept3(dec(s.prefix), s.delimiter)
  ensures added: added3(dec(s.prefix), s.delimiter)
  ensures put: nested() ==> put(dec(s.prefix), box(m, "gomap[string]any"))

func (*trieS).Merge(s, pathAt, data) (err)
  option opaque Inv Br plain
  requires tok(s) && tnames(s.delimiter) && pth(pathAt, s.delimiter)
  requires nested() ==> TRD(s.delimiter)
  modifies nodeS.path, nodeS.pathS, nodeS.children, nodeS.nType, nodeS.description, nodeS.comment, nodeS.tag, nodeS.data, alloc, M, log
  modifies nodeS.rw[new], Buffer[new], trieS.*[new], atomic.Uint32[new]
  entry j: s.prefix != "" && pathAt != "" ==> pth(cat(s.prefix, cat(unit(s.delimiter), pathAt)), s.delimiter)
  entry dj: dec(join2(s.delimiter, s.prefix, pathAt)) == jn(dec(s.prefix), dec(pathAt), s.delimiter)
  ensures tree: ttree(s)
  ensures kept: kept3(jn(dec(s.prefix), dec(pathAt), s.delimiter), s.delimiter)
  ensures added: added3(jn(dec(s.prefix), dec(pathAt), s.delimiter), s.delimiter)
  ensures put: nested() ==> put(jn(dec(s.prefix), dec(pathAt), s.delimiter), box(data, "gomap[string]any"))
