package radix

// where the segment that begins at i ends
fn sge(seq, int, int) int
axiom sge: forall p seq, i int, d int :: {sge(p, i, d)} 0 <= i && i <= len(p) ==> i <= sge(p, i, d) && sge(p, i, d) <= len(p) && (sge(p, i, d) < len(p) ==> p[sge(p, i, d)] == d)
axiom sgk: forall p seq, i int, d int, k int :: {sge(p, i, d), p[k]} 0 <= i && i <= k && k < sge(p, i, d) ==> p[k] != d
lemma sgx: forall p seq, i int, d int, e int :: {sge(p, i, d), p[e]} 0 <= i && i <= e && e < len(p) && p[e] == d && (forall k int :: {p[k]} i <= k && k < e ==> p[k] != d) ==> sge(p, i, d) == e
lemma sgn: forall p seq, i int, d int :: {sge(p, i, d)} 0 <= i && i <= len(p) && (forall k int :: {p[k]} i <= k && k < len(p) ==> p[k] != d) ==> sge(p, i, d) == len(p)

// behind a delimiter
def bhd(p seq, i int, d int) := i > 0 && p[i-1] == d
// the route p from i on has the shape of the path w from j on
fn rmt(seq, int, seq, int, int) bool
axiom rme: forall p seq, i int, w seq, j int, d int :: {rmt(p, i, w, j, d)} i >= len(p) ==> (rmt(p, i, w, j, d) <==> j >= len(w))
axiom rmw: forall p seq, i int, w seq, j int, d int :: {rmt(p, i, w, j, d)} 0 <= i && i < len(p) && j >= len(w) ==> !rmt(p, i, w, j, d)
axiom rms: forall p seq, i int, w seq, j int, d int :: {rmt(p, i, w, j, d), p[i]} 0 <= i && i < len(p) ==>
  (rmt(p, i, w, j, d) <==> j < len(w) && (bhd(p, i, d) && p[i] == 42 || bhd(p, i, d) && p[i] == 58 && rmt(p, sge(p, i + 1, d), w, sge(w, j, d), d) || !(bhd(p, i, d) && (p[i] == 42 || p[i] == 58)) && p[i] == w[j] && rmt(p, i + 1, w, j + 1, d)))
// what the name n is bound to in the end when it is bound to v so far
fn fin(seq, int, seq, int, int, seq, seq) seq
axiom fie: forall p seq, i int, w seq, j int, d int, n seq, v seq :: {fin(p, i, w, j, d, n, v)} i >= len(p) ==> fin(p, i, w, j, d, n, v) == v
axiom fis: forall p seq, i int, w seq, j int, d int, n seq, v seq :: {fin(p, i, w, j, d, n, v), p[i]} 0 <= i && i < len(p) ==>
  fin(p, i, w, j, d, n, v) == (bhd(p, i, d) && p[i] == 42 ? (n == enc(p[i+1:sge(p, i + 1, d)]) ? enc(w[j:]) : v)
    : (bhd(p, i, d) && p[i] == 58 ? fin(p, sge(p, i + 1, d), w, sge(w, j, d), d, n, n == enc(p[i+1:sge(p, i + 1, d)]) ? enc(w[j:sge(w, j, d)]) : v)
    : fin(p, i + 1, w, j + 1, d, n, v)))

func extractor(from, to, src, piece, delimiter) (ret, pos, end)
  requires 0 <= from && from <= to && to == len(src) && len(piece) >= to - from
  writes piece
  option invsecs 4
  inv from <= $i:int && $i:int <= to && $j:int == $i:int - from
  inv $j:int == $i:int - from && eqs(piece[:$j:int], src[from:$i:int])
  inv forall k int :: {src[k]} from <= k && k < $i:int ==> src[k] != delimiter
  inv from < to && $i:int == to ==> $e:bool
  inv from < to && $i:int == to ==> $p:int == to
  inv $j:int == $i:int - from && (from < to && $i:int == to ==> $r:string == enc(piece[:$j:int]))
  inv $i:int < to || from == to ==> !$e:bool
  inv $i:int < to || from == to ==> $p:int == 0
  inv $i:int < to || from == to ==> $r:string == ""
  ensures some: from < to ==> pos == sge(src, from, delimiter) && (end <==> pos == to) && ret == enc(src[from:pos])
  ensures none: from >= to ==> ret == "" && pos == 0 && !end

// a route: no delimiter at its end, and the last segment has a name
def route(p seq, d int) := len(p) > 0 && p[len(p)-1] != d && d != 58 && d != 42 && (len(p) > 1 && p[len(p)-2] == d ==> p[len(p)-1] != 58 && p[len(p)-1] != 42)
def rpath(s *nodeS) := len(s.path) == 0 ? s.children[0].path : s.path
def rnode(s *nodeS, d int) := s != 0 && route(s.path, d) && len(s.children) == 0
def rtree(s *nodeS, d int) := s != 0 && len(s.path) == 0 && len(s.children) == 1 && rnode(s.children[0], d)

func (*nodeS).matchR@route(s, mctx, word, lastRuneIsDelimiter, parentNode, kvpair) (matched, partialMatched, child, parent)
  option invsecs 3
  requires mctx != nil && (rnode(s, mctx.delimiter) || rtree(s, mctx.delimiter)) && len(word) > 0 && !lastRuneIsDelimiter
  requires forall k int :: {word[k]} 0 <= k && k < len(word) ==> word[k] != 58 && word[k] != 42
  modifies alloc, gomap<string>string[kvpair]
  inv 0 <= $i:pos && $i:pos <= len(s.path)
  inv 0 <= $j:pos && $j:pos <= len(word)
  inv ($b:bool <==> bhd(s.path, $i:pos, mctx.delimiter))
  inv ($b:bool <==> bhd(s.path, $i:pos, mctx.delimiter)) || $i:pos < len(s.path) && $j:pos < len(word) && s.path[$i:pos] == mctx.delimiter && word[$j:pos] == mctx.delimiter
  inv $i:pos < len(s.path) && $j:pos < len(word) && $c:rune == s.path[$i:pos] && s.path[$i:pos] != word[$j:pos] || $i:pos > 0 && $c:rune == s.path[$i:pos - 1] && ($i:pos == len(s.path) && $j:pos < len(word) || $i:pos < len(s.path) && $j:pos == len(word))
  inv $i:pos > 0 && $c:rune == s.path[$i:pos - 1] || $i:pos < len(s.path) && $j:pos < len(word) && s.path[$i:pos] == mctx.delimiter && word[$j:pos] == mctx.delimiter
  inv rmt(s.path, 0, word, 0, mctx.delimiter) <==> rmt(s.path, $i:pos, word, $i:pos, mctx.delimiter)
  inv rmt(s.path, 0, word, 0, mctx.delimiter) <==> rmt(s.path, $i:pos, word, $j:pos, mctx.delimiter)
  inv kvpair != nil ==> (forall n seq :: {kvpair[n]} fin(s.path, 0, word, 0, mctx.delimiter, n, old(kvpair[n])) == fin(s.path, $i:pos, word, $i:pos, mctx.delimiter, n, kvpair[n]))
  inv kvpair != nil ==> (forall n seq :: {kvpair[n]} fin(s.path, 0, word, 0, mctx.delimiter, n, old(kvpair[n])) == fin(s.path, $i:pos, word, $j:pos, mctx.delimiter, n, kvpair[n]))
  inv len(s.path) == 0 && ($i:pos < 0 || !$m:bool)
  inv len(s.path) == 0 && ($i:pos < 0 || !rmt(s.children[0].path, 0, word, 0, mctx.delimiter))
  inv len(s.path) == 0 && kvpair != nil && $i:pos < 0 ==> (forall n seq :: {kvpair[n]} kvpair[n] == old(kvpair[n]))
  ensures shape: matched <==> rmt(rpath(s), 0, word, 0, mctx.delimiter)
  ensures node: matched || partialMatched ==> child != nil && child == (len(s.path) == 0 ? s.children[0] : s) && !(matched && partialMatched)
  ensures bind: matched && kvpair != nil ==> (forall n seq :: {kvpair[n]} kvpair[n] == fin(rpath(s), 0, word, 0, mctx.delimiter, n, old(kvpair[n])))

func (*nodeS).search@route(s, mctx, word, lastRuneIsDelimiter, parentNode, kvpair) (matched, partialMatched, child, parent)
  requires mctx != nil && (rnode(s, mctx.delimiter) || rtree(s, mctx.delimiter)) && len(word) > 0 && !lastRuneIsDelimiter
  requires forall k int :: {word[k]} 0 <= k && k < len(word) ==> word[k] != 58 && word[k] != 42
  modifies alloc, gomap<string>string[kvpair]
  ensures shape: matched <==> rmt(rpath(s), 0, word, 0, mctx.delimiter)
  ensures node: matched || partialMatched ==> child != nil && child == (len(s.path) == 0 ? s.children[0] : s) && !(matched && partialMatched)
  ensures bind: matched && kvpair != nil ==> (forall n seq :: {kvpair[n]} kvpair[n] == fin(rpath(s), 0, word, 0, mctx.delimiter, n, old(kvpair[n])))

// a path: no character that means something in a route
def ppath(w seq) := len(w) > 0 && (forall k int :: {w[k]} 0 <= k && k < len(w) ==> w[k] != 58 && w[k] != 42)
def rdef(s *trieS) := s.root.children[0]
// a tree that holds one route
def routed(s *trieS) := s != 0 && rtree(s.root, s.delimiter) && leaf(s.root.children[0]) && 0 < s.delimiter && s.delimiter < 128 && s.recursiveMode == 0
def rhit(s *trieS, w seq) := rmt(s.root.children[0].path, 0, w, 0, s.delimiter)

func (*trieS).search@route(s, word, kvpair) (found, parent, partialMatched)
  requires routed(s) && okS(word) && ppath(dec(word))
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], gomap<string>string[kvpair]
  ensures shape: found != 0 && !partialMatched <==> rhit(s, dec(word))
  ensures node: found != 0 ==> found == s.root.children[0]
  ensures bind: found != 0 && !partialMatched && kvpair != nil ==> (forall n seq :: {kvpair[n]} kvpair[n] == fin(s.root.children[0].path, 0, dec(word), 0, s.delimiter, n, old(kvpair[n])))

func (*trieS).Query@route(s, path, kvpair) (data, branch, found, err)
  requires routed(s) && okS(path) && ppath(dec(path)) && s.prefix == ""
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new], gomap<string>string[kvpair]
  ensures shape: found <==> rhit(s, dec(path))
  ensures data: found ==> !branch && data == (hasdata(s.root.children[0]) ? s.root.children[0].data : nil)
  ensures bind: found && kvpair != nil ==> (forall n seq :: {kvpair[n]} kvpair[n] == fin(s.root.children[0].path, 0, dec(path), 0, s.delimiter, n, old(kvpair[n])))
  ensures err: found <==> err == nil

func (*trieS).Locate@route(s, path, kvpair) (node, branch, partialMatched, found)
  requires routed(s) && okS(path) && ppath(dec(path)) && s.prefix == ""
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new], gomap<string>string[kvpair]
  ensures shape: found <==> rhit(s, dec(path))
  ensures node: found ==> !branch && !partialMatched && node == s.root.children[0]
  ensures bind: found && kvpair != nil ==> (forall n seq :: {kvpair[n]} kvpair[n] == fin(s.root.children[0].path, 0, dec(path), 0, s.delimiter, n, old(kvpair[n])))

// a route written to an empty tree makes such a tree
def one(s *nodeS, word seq, fullPath seq, data any, n *nodeS) := len(s.children) == 1 && s.children[0] == n && n != 0 && n != s && n.path == word && n.pathS == fullPath && len(n.children) == 0 && n.nType == 5 && n.data == data

func (*nodeS).insertAsLeaf@one(s, word, fullPath, data) (newNode)
  requires s != nil && len(s.children) == 0
  modifies alloc, nodeS.*[new], nodeS.children[s]
  ensures one: one(s, word, fullPath, data, newNode)

func (*nodeS).insertInternal@one(s, word, fullPath, data, trie, cb) (node, oldData)
  requires s != nil && len(s.path) == 0 && len(s.children) == 0 && len(word) > 0 && cb == nil
  modifies alloc, nodeS.*[new], nodeS.children[s]
  ensures one: one(s, word, fullPath, data, node)

func (*nodeS).insert@one(s, word, fullPath, data, trie, cb) (node, oldData)
  requires s != nil && len(s.path) == 0 && len(s.children) == 0 && len(word) > 0 && cb == nil
  modifies alloc, nodeS.*[new], nodeS.children[s]
  ensures one: is(node, "*nodeS") && one(s, word, fullPath, data, unbox(node, "*nodeS"))

func (*trieS).Set@one(s, path, data) (node, oldData)
  requires s != nil && s.root != nil && alloced(s.root) && len(s.root.path) == 0 && len(s.root.children) == 0 && s.prefix == "" && okS(path) && noblank(path)
  requires route(dec(path), s.delimiter) && 0 < s.delimiter && s.delimiter < 128 && s.recursiveMode == 0
  modifies alloc, nodeS.*[new], nodeS.children[s.root], Buffer[new]
  ensures routed: routed(s) && s.root.children[0].path == dec(path) && hasdata(s.root.children[0]) && s.root.children[0].data == data
