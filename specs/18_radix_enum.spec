package radix

// a walk from n visits the nodes at and beneath n, each once (see 17: log, P and Q there)
trusted func nodesBeneath(n) (r)
  requires N(n) && I0() && I1() && I2() && I3() && I5()
  modifies P
  ensures each: forall K seq :: {P[K]} {M[K]} M[K] != 0 && need(n, K) && pfx(key(n), K) ==> 0 <= P[K] && P[K] < len(r) && r[P[K]] == M[K]
  ensures only: forall x int :: {r[x]} 0 <= x && x < len(r) ==> N(r[x]) && alloced(r[x]) && pfx(key(n), key(r[x])) && P[key(r[x])] == x

def ends(k seq, d int) := len(k) > 0 && k[len(k)-1] == d
def cutend(k seq, d int) := (ends(k, d) ? k[:len(k)-1] : k)
// k is b or beneath it (as text)
def at(b seq, k seq, d int) := b == "" || k == b || pfx(cat(b, unit(d)), k)

func (*trieS).simpleEndsWith(s, str, ch) (r)
  requires s != 0 && okS(str) && 0 < ch && ch < 128
  ensures r <==> ends(dec(str), ch)

func (*trieS).relativeKey(s, base, key) (rel, ok)
  requires s != 0 && okS(base) && okS(key) && 0 < s.delimiter && s.delimiter < 128
  ensures ok: ok <==> at(cutend(base, s.delimiter), key, s.delimiter)
  ensures rel: ok ==> (cutend(base, s.delimiter) == "" ? rel == key : key == cutend(base, s.delimiter) || key == cat(cutend(base, s.delimiter), cat(unit(s.delimiter), rel)))

// what the map views hold: the keys at b or beneath it, each with its value
def held(s *trieS, b seq, K seq) := stored(K) && !ends(K, s.delimiter) && at(cutend(b, s.delimiter), M[K].pathS, s.delimiter)

func (*trieS).Locate(s, path, kvpair) (node, branch, partialMatched, found)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> found && node == M[dec(fk(s, path))] && !branch && !partialMatched
  ensures found: found ==> N(node) && !partialMatched && (branch <==> !leaf(node)) && (key(node) == dec(fk(s, path)) || key(node) == cat(dec(fk(s, path)), unit(s.delimiter)))
  ensures none: node == 0 ==> !found && !branch && !partialMatched
  ensures cover: found || partialMatched ==> N(node) && (forall K seq :: {M[K]} M[K] != 0 && pfx(dec(fk(s, path)), K) ==> pfx(key(node), K))
  ensures missed: !found && !partialMatched ==> (forall K seq :: {M[K]} M[K] != 0 ==> !pfx(dec(fk(s, path)), K))

def isroot(path seq) := path == "" || path == "." || path == "(root)"
def B(s *trieS, path seq) := (isroot(path) ? s.prefix : fk(s, path))

func (*trieS).GetR(s, path, defaultVal) (ret, err)
  option merge
  option model radix.(*nodeS).Walk=radix.modelWalk
  requires ask(s, path) && !ends(path, s.delimiter)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new], gomap<string>any[new], P
  entry u: forall K seq :: {M[K]} M[K] != 0 ==> u8(B(s, path), M[K].pathS)
  inv forall K seq :: {M[K]} {P[K]} M[K] != 0 && need(s.root, K) && 0 <= P[K] && P[K] < $i:int && held(s, B(s, path), K) ==> has(ret, M[K].pathS) && ret[M[K].pathS] == M[K].data
  inv forall K seq :: {M[K]} {P[K]} M[K] != 0 && need(s.root, K) && 0 <= P[K] && P[K] <= $i:int && held(s, B(s, path), K) ==> has(ret, M[K].pathS) && ret[M[K].pathS] == M[K].data
  inv forall k seq :: {has(ret, k)} has(ret, k) ==> M[dec(k)] != 0 && k == M[dec(k)].pathS && held(s, B(s, path), dec(k))
  inv len(defaultVal) == 0 ==> ret == 0
  ensures all: forall K seq :: {M[K]} M[K] != 0 && need(s.root, K) && held(s, B(s, path), K) ==> has(ret, M[K].pathS) && ret[M[K].pathS] == M[K].data
  ensures only: len(defaultVal) == 0 && ret != 0 ==> (forall k seq :: {has(ret, k)} has(ret, k) ==> M[dec(k)] != 0 && k == M[dec(k)].pathS && held(s, B(s, path), dec(k)))

// the flat map of the whole view: keys relative to the prefix
def rel(s *trieS, k seq) := (cutend(s.prefix, s.delimiter) == "" ? k : k[len(cutend(s.prefix, s.delimiter)) + 1:])
def full(s *trieS, k seq) := (cutend(s.prefix, s.delimiter) == "" ? k : cat(cutend(s.prefix, s.delimiter), cat(unit(s.delimiter), k)))

func (*trieS).GetM(s, path, opts) (ret, err)
  option merge
  option model radix.(*nodeS).Walk=radix.modelWalk
  requires ask(s, path) && isroot(path) && len(opts) == 0
  requires forall K seq :: {M[K]} stored(K) ==> M[K].pathS != cutend(s.prefix, s.delimiter) || s.prefix == ""
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new], gomap<string>any[new], prefixPutter.*[new], P, log
  inv forall K seq :: {M[K]} {P[K]} M[K] != 0 && need(s.root, K) && 0 <= P[K] && P[K] < $i:int && held(s, s.prefix, K) ==> has(ret, rel(s, M[K].pathS)) && ret[rel(s, M[K].pathS)] == M[K].data
  inv forall K seq :: {M[K]} {P[K]} M[K] != 0 && need(s.root, K) && 0 <= P[K] && P[K] <= $i:int && held(s, s.prefix, K) ==> has(ret, rel(s, M[K].pathS)) && ret[rel(s, M[K].pathS)] == M[K].data
  ensures all: forall K seq :: {M[K]} M[K] != 0 && need(s.root, K) && held(s, s.prefix, K) ==> has(ret, rel(s, M[K].pathS)) && ret[rel(s, M[K].pathS)] == M[K].data
  inv forall k seq :: {has(ret, k)} has(ret, k) ==> M[dec(full(s, k))] != 0 && full(s, k) == M[dec(full(s, k))].pathS && held(s, s.prefix, dec(full(s, k)))
  ensures only: forall k seq :: {has(ret, k)} has(ret, k) ==> M[dec(full(s, k))] != 0 && full(s, k) == M[dec(full(s, k))].pathS && held(s, s.prefix, dec(full(s, k)))

func (*trieS).MustR(s, path, defaultVal) (ret)
  requires ask(s, path) && !ends(path, s.delimiter)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new], gomap<string>any[new], P
  ensures all: forall K seq :: {M[K]} M[K] != 0 && need(s.root, K) && held(s, B(s, path), K) ==> has(ret, M[K].pathS) && ret[M[K].pathS] == M[K].data
  ensures only: len(defaultVal) == 0 && ret != 0 ==> (forall k seq :: {has(ret, k)} has(ret, k) ==> M[dec(k)] != 0 && k == M[dec(k)].pathS && held(s, B(s, path), dec(k)))

func (*trieS).MustM(s, path, opts) (ret)
  requires ask(s, path) && isroot(path) && len(opts) == 0
  requires forall K seq :: {M[K]} stored(K) ==> M[K].pathS != cutend(s.prefix, s.delimiter) || s.prefix == ""
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new], gomap<string>any[new], prefixPutter.*[new], P, log
  ensures all: forall K seq :: {M[K]} M[K] != 0 && need(s.root, K) && held(s, s.prefix, K) ==> has(ret, rel(s, M[K].pathS)) && ret[rel(s, M[K].pathS)] == M[K].data
  ensures only: forall k seq :: {has(ret, k)} has(ret, k) ==> M[dec(full(s, k))] != 0 && full(s, k) == M[dec(full(s, k))].pathS && held(s, s.prefix, dec(full(s, k)))
