package radix

// branching points hold no data
def Br() := forall K seq :: {M[K]} M[K] != 0 && !leaf(M[K]) ==> !hasdata(M[K]) && M[K].data == nil
def wf(s *trieS) := s != 0 && s.root != 0 && M[emp] == s.root && Inv() && Br() && 0 < s.delimiter && s.delimiter < 128
// the full key of a path
def fk(s *trieS, path seq) := (s.prefix == "" ? path : join2(s.delimiter, s.prefix, path))
def stored(K seq) := M[K] != 0 && leaf(M[K])
def below(K seq, d int, L seq) := pfx(cat(K, unit(d)), L)

func (*trieS).search(s, word, kvpair) (found, parent, partialMatched)
  option merge
  requires wf(s) && plain(s.delimiter) && okS(word) && s.recursiveMode == 0
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new]
  hint ks: key(s.root) == emp && len(s.root.path) == 0 && base(s.root) == emp
  hint pre: found != 0 ==> need(found, dec(word))
  ensures none: found == 0 ==> !partialMatched && parent == 0 && (forall K seq :: {M[K]} need(s.root, K) && M[K] != 0 ==> !pfx(dec(word), K))
  ensures node: found != 0 ==> N(found)
  ensures stored: M[dec(word)] != 0 ==> found == M[dec(word)] && !partialMatched
  ensures exact: found != 0 && !partialMatched ==> key(found) == dec(word) || key(found) == cat(dec(word), unit(s.delimiter)) && len(base(found)) < len(dec(word))
  ensures part: partialMatched ==> found != 0 && ((len(found.children) == 0 && pfx(key(found), dec(word)) && len(key(found)) < len(dec(word))) || (pfx(dec(word), key(found)) && len(base(found)) < len(dec(word)) && len(dec(word)) < len(key(found)) && key(found) != cat(dec(word), unit(s.delimiter))))
  ensures sec: forall L seq :: {M[L]} need(s.root, L) && need(found, L) && M[L] != 0 && pfx(cat(dec(word), unit(s.delimiter)), L) ==> found != 0 && (partialMatched ==> pfx(cat(dec(word), unit(s.delimiter)), key(found))) && (!partialMatched && key(found) == dec(word) ==> (exists j int :: {found.children[j]} 0 <= j && j < len(found.children) && found.children[j].path[0] == s.delimiter))
  ensures reg: forall L seq :: {M[L]} found != 0 && !partialMatched && M[L] != 0 && pfx(dec(word), L) && len(L) > len(dec(word)) ==> pfx(key(found), L)
  ensures regp: forall L seq :: {M[L]} partialMatched && M[L] != 0 && pfx(dec(word), L) ==> pfx(key(found), L)
  ensures rootp: found == s.root ==> parent == 0
  ensures child: forall j int :: {found.children[j]} found != 0 && key(found) == dec(word) && 0 <= j && j < len(found.children) && found.children[j].path[0] == s.delimiter ==> M[key(found.children[j])] != 0 && pfx(cat(dec(word), unit(s.delimiter)), key(found.children[j]))
  ensures last: found != 0 && len(found.path) > 0 ==> len(key(found)) > 0 && key(found)[len(key(found))-1] == found.path[len(found.path)-1]
  ensures parent: found != 0 && found != s.root ==> parent != 0 && N(parent) && (exists i int :: {parent.children[i]} 0 <= i && i < len(parent.children) && parent.children[i] == found)

// what a lookup of key K yields
def hit(s *trieS, K seq, data any, branch bool, found bool) := (stored(K) ==> found && !branch && data == (hasdata(M[K]) ? M[K].data : nil))
  && (found ==> stored(K) || K != emp && K[len(K)-1] == s.delimiter || M[cat(K, unit(s.delimiter))] != 0)
  && (!found ==> data == nil)


def notfound() := box(-5, "errors.Code")
func (*trieS).Query(s, path, kvpair) (data, branch, found, err)
  option merge
  requires wf(s) && plain(s.delimiter) && okS(path) && okS(s.prefix) && s.recursiveMode == 0
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures hit: hit(s, dec(fk(s, path)), data, branch, found)
  ensures err: (found <==> err == nil) && (!found ==> err == notfound())
  ensures leaf: found && !branch ==> stored(dec(fk(s, path))) || stored(cat(dec(fk(s, path)), unit(s.delimiter)))
  ensures miss: found ==> stored(dec(fk(s, path))) || K_ends(s, dec(fk(s, path))) || M[cat(dec(fk(s, path)), unit(s.delimiter))] != 0

func (*trieS).Get(s, path) (data, found)
  requires wf(s) && plain(s.delimiter) && okS(path) && okS(s.prefix) && s.recursiveMode == 0
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures hit: hit(s, dec(fk(s, path)), data, false, found)

func (*trieS).MustGet(s, path) (data)
  requires wf(s) && plain(s.delimiter) && okS(path) && okS(s.prefix) && s.recursiveMode == 0
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures hit: stored(dec(fk(s, path))) ==> data == (hasdata(M[dec(fk(s, path))]) ? M[dec(fk(s, path))].data : nil)
  ensures miss: data != nil ==> stored(dec(fk(s, path))) || fk(s, path) != "" && dec(fk(s, path))[len(dec(fk(s, path)))-1] == s.delimiter || M[cat(dec(fk(s, path)), unit(s.delimiter))] != 0

def noblank(s seq) := forall i int :: {s[i]} 0 <= i && i < len(s) ==> s[i] != 32
def plainkey(T seq, d int) := forall i int :: {T[i]} 0 < i && i < len(T) && T[i-1] == d ==> T[i] != 58 && T[i] != 42
// what a write at key T does to the tree
def write(s *trieS, T seq) := wf(s) && kept(T) && added(T) && frame() && own() && s.root == old(s.root) && (old(plain(s.delimiter)) && plainkey(T, s.delimiter) ==> plain(s.delimiter))

func (*trieS).Set(s, path, data) (node, oldData)
  option merge
  requires wf(s) && okS(path) && okS(s.prefix) && noblank(fk(s, path))
  modifies nodeS.path, nodeS.pathS, nodeS.children, nodeS.nType, nodeS.description, nodeS.comment, nodeS.tag, nodeS.data, alloc, M, log
  modifies nodeS.rw[new], Buffer[new]
  ensures write: write(s, dec(fk(s, path)))
  ensures node: is(node, "*nodeS") && written(dec(fk(s, path)), unbox(node, "*nodeS"), data, oldData)
  ensures log: log == old(log)

func (*trieS).SetEx(s, path, data, cb) (oldData)
  option merge
  requires wf(s) && okS(path) && okS(s.prefix)
  modifies nodeS.path, nodeS.pathS, nodeS.children, nodeS.nType, nodeS.description, nodeS.comment, nodeS.tag, nodeS.data, alloc, M, log
  modifies nodeS.rw[new], Buffer[new]
  ensures write: write(s, dec(fk(s, path)))
  ensures node: written(dec(fk(s, path)), M[dec(fk(s, path))], data, oldData)
  ensures cb: cb != nil ==> log == cat(old(log), unit(ev(cb, fk(s, path), oldData, box(M[dec(fk(s, path))], "*nodeS"), box(s, "*trieS"))))
  ensures nocb: cb == nil ==> log == old(log)

def K_ends(s *trieS, K seq) := K != emp && K[len(K)-1] == s.delimiter
def ask(s *trieS, path seq) := wf(s) && plain(s.delimiter) && okS(path) && okS(s.prefix) && s.recursiveMode == 0

func (*trieS).Insert(s, path, data) (oldData)
  option merge
  requires wf(s) && okS(path) && okS(s.prefix) && noblank(fk(s, path))
  modifies nodeS.path, nodeS.pathS, nodeS.children, nodeS.nType, nodeS.description, nodeS.comment, nodeS.tag, nodeS.data, alloc, M, log
  modifies nodeS.rw[new], Buffer[new]
  ensures write: write(s, dec(fk(s, path)))
  ensures node: written(dec(fk(s, path)), M[dec(fk(s, path))], data, oldData)
  ensures log: log == old(log)

// T is a key now, with this value; nothing is said about its other attributes
def keyat(T seq, data any, oldData any) := M[T] != 0 && leaf(M[T]) && hasdata(M[T]) && M[T].data == data && oldData == (old(M[T]) != 0 ? old(M[T].data) : nil)

func (*trieS).SetNode(s, path, data, tag, descriptionAndComments) (ret, oldData)
  option merge
  requires wf(s) && okS(path) && okS(s.prefix)
  modifies nodeS.path, nodeS.pathS, nodeS.children, nodeS.nType, nodeS.description, nodeS.comment, nodeS.tag, nodeS.data, alloc, M, log
  modifies nodeS.rw[new], Buffer[new]
  hint mine: M[dec(fk(s, path))] != 0 && !other(M[dec(fk(s, path))])
  hint ty: M[dec(fk(s, path))].nType & 5 == 5
  ensures write: write(s, dec(fk(s, path)))
  ensures node: is(ret, "*nodeS") && unbox(ret, "*nodeS") == M[dec(fk(s, path))] && keyat(dec(fk(s, path)), data, oldData)
  ensures meta: M[dec(fk(s, path))].tag == tag && (len(descriptionAndComments) > 0 ==> M[dec(fk(s, path))].description == descriptionAndComments[0]) && (len(descriptionAndComments) == 2 ==> M[dec(fk(s, path))].comment == descriptionAndComments[1])
  ensures log: log == old(log)

func (*trieS).SetEmpty(s, path) (oldData)
  option merge
  requires wf(s) && okS(path) && okS(s.prefix)
  modifies nodeS.path, nodeS.pathS, nodeS.children, nodeS.nType, nodeS.description, nodeS.comment, nodeS.tag, nodeS.data, alloc, M, log
  modifies nodeS.rw[new], Buffer[new]
  hint mine: M[dec(fk(s, path))] != 0 && !other(M[dec(fk(s, path))])
  hint ty: M[dec(fk(s, path))].nType & 5 == 5
  ensures write: write(s, dec(fk(s, path)))
  ensures node: keyat(dec(fk(s, path)), nil, oldData)
  ensures log: log == old(log)

func (*trieS).Update(s, path, cb) ()
  option merge
  requires cb != nil && wf(s) && okS(path) && okS(s.prefix)
  modifies nodeS.path, nodeS.pathS, nodeS.children, nodeS.nType, nodeS.description, nodeS.comment, nodeS.tag, nodeS.data, alloc, M, log
  modifies nodeS.rw[new], Buffer[new]
  hint mine: M[dec(fk(s, path))] != 0 && !other(M[dec(fk(s, path))])
  hint ty: M[dec(fk(s, path))].nType & 5 == 5
  ensures write: write(s, dec(fk(s, path)))
  ensures node: M[dec(fk(s, path))] != 0 && leaf(M[dec(fk(s, path))]) && hasdata(M[dec(fk(s, path))]) && M[dec(fk(s, path))].data == (old(M[dec(fk(s, path))]) != 0 ? old(M[dec(fk(s, path))].data) : nil)
  ensures cb: cb != nil ==> log == cat(old(log), unit(ev(cb, box(M[dec(fk(s, path))], "*nodeS"), (old(M[dec(fk(s, path))]) != 0 ? old(M[dec(fk(s, path))].data) : nil))))

// the node a lookup of metadata uses
func (*trieS).getNodeFast(s, path) (node, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> node == M[dec(fk(s, path))] && err == nil
  ensures ok: err == nil ==> node != 0 && N(node) && (stored(dec(fk(s, path))) || key(node) == emp || K_ends(s, key(node)))

func (*trieS).GetDesc(s, path) (desc, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> desc == M[dec(fk(s, path))].description && err == nil
  ensures miss: err != nil ==> desc == ""

func (*trieS).GetComment(s, path) (comment, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> comment == M[dec(fk(s, path))].comment && err == nil
  ensures miss: err != nil ==> comment == ""

func (*trieS).GetTag(s, path) (tag, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> tag == M[dec(fk(s, path))].tag && err == nil
  ensures miss: err != nil ==> tag == nil

func (*trieS).MustGetDesc(s, path) (desc)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> desc == M[dec(fk(s, path))].description

func (*trieS).MustGetComment(s, path) (comment)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> comment == M[dec(fk(s, path))].comment

func (*trieS).MustGetTag(s, path) (tag)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> tag == M[dec(fk(s, path))].tag

func (*trieS).SetComment(s, path, description, comment) (ok)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new], nodeS.description, nodeS.comment
  ensures stored: stored(dec(fk(s, path))) ==> ok && M[dec(fk(s, path))].description == description && M[dec(fk(s, path))].comment == comment
  ensures only: forall n *nodeS :: {n.description} {n.comment} !N(n) || leaf(n) && key(n) != dec(fk(s, path)) && key(n) != cat(dec(fk(s, path)), unit(s.delimiter)) || !ok ==> n.description == old(n.description) && n.comment == old(n.comment)

func (*trieS).SetTag(s, path, tag) (ok)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new], nodeS.tag
  ensures stored: stored(dec(fk(s, path))) ==> ok && M[dec(fk(s, path))].tag == tag
  ensures only: forall n *nodeS :: {n.tag} !N(n) || leaf(n) && key(n) != dec(fk(s, path)) && key(n) != cat(dec(fk(s, path)), unit(s.delimiter)) || !ok ==> n.tag == old(n.tag)

// bytes and runes agree on what a prefix is, for valid UTF-8
fn u8(seq, seq) bool
axiom u8: forall a seq, b seq :: {u8(a, b)} u8(a, b) && (okS(a) && okS(b) ==> (pfx(a, b) <==> pfx(dec(a), dec(b))))
// a key, the root, or a section with something in it
def present(s *trieS, K seq) := pres(K, s.delimiter)

func (*trieS).encloses(s, path, node, partialMatched) (yes)
  requires wf(s) && okS(path) && (node != 0 ==> N(node))
  inv forall j int :: {node.children[j]} 0 <= j && j <= $i:int && j < len(node.children) ==> node.children[j].path[0] != s.delimiter
  inv forall j int :: {node.children[j]} 0 <= j && j < $i:int && j < len(node.children) ==> node.children[j].path[0] != s.delimiter
  inv $f:bool <==> (exists j int :: {node.children[j]} 0 <= j && j < $i:int && j < len(node.children) && node.children[j].path[0] == s.delimiter)
  hint u8: u8(cat(path, enc(unit(s.delimiter))), node.pathS)
  ensures part: partialMatched && node != 0 ==> (yes <==> pfx(cat(dec(path), unit(s.delimiter)), key(node)))
  ensures full: !partialMatched && node != 0 ==> (yes <==> (exists j int :: {node.children[j]} 0 <= j && j < len(node.children) && node.children[j].path[0] == s.delimiter))
  ensures none: node == 0 ==> !yes

func (*trieS).present(s, path, node, partialMatched) (yes)
  requires wf(s) && okS(path) && (node != 0 ==> N(node))
  ensures yes <==> shape(dec(path), s.delimiter, node, partialMatched)

func (*trieS).Has(s, path) (found)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures found <==> present(s, dec(fk(s, path)))

func (*trieS).Search(s, path) (found)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures found <==> present(s, dec(fk(s, path)))

func (*trieS).getNode(s, path) (node, data, kvpair, branch, err)
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures stored: stored(dec(fk(s, path))) ==> err == nil && node == M[dec(fk(s, path))] && !branch && data == (hasdata(M[dec(fk(s, path))]) ? M[dec(fk(s, path))].data : nil)
  ensures miss: err == nil ==> N(node) && (stored(dec(fk(s, path))) || K_ends(s, dec(fk(s, path))) || M[cat(dec(fk(s, path)), unit(s.delimiter))] != 0)

func (*trieS).GetEx(s, path, cb) ()
  option merge
  requires ask(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new], log
  ensures miss: cb == nil || !stored(dec(fk(s, path))) && !K_ends(s, dec(fk(s, path))) && M[cat(dec(fk(s, path)), unit(s.delimiter))] == 0 ==> log == old(log)
  ensures hit: cb != nil && stored(dec(fk(s, path))) ==> len(log) == len(old(log)) + 1

// a new tree holds nothing
fn single(*nodeS) map[seq]*nodeS
axiom single: forall n *nodeS, K seq :: {single(n)[K]} single(n)[K] == (K == emp ? n : 0)

func NewTrie() (t)
  modifies alloc, trieS.*[new], nodeS.*[new], atomic.Uint32[new], M
  ghost M := single(t.root)
  hint c: forall n *nodeS :: {n.children} N(n) ==> n == t.root && len(n.children) == 0
  ensures wf: isnew(t) && wf(t) && plain(t.delimiter) && t.prefix == "" && t.recursiveMode == 0 && t.delimiter == 46
  ensures none: forall K seq :: {M[K]} !stored(K)

func NewTrieBy(delimiter) (t)
  requires 0 < delimiter && delimiter < 128
  modifies alloc, trieS.*[new], nodeS.*[new], atomic.Uint32[new], M
  ghost M := single(t.root)
  hint c: forall n *nodeS :: {n.children} N(n) ==> n == t.root && len(n.children) == 0
  ensures wf: isnew(t) && wf(t) && plain(t.delimiter) && t.prefix == "" && t.recursiveMode == 0 && t.delimiter == delimiter
  ensures none: forall K seq :: {M[K]} !stored(K)
