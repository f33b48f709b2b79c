package radix

// M is the abstract view of one tree: full key (as runes) -> node.
ghost M map[seq]*nodeS

def key(n *nodeS) := dec(n.pathS)
def N(n *nodeS) := n != 0 && M[key(n)] == n
def base(n *nodeS) := key(n)[:len(key(n)) - len(n.path)]
def leaf(n *nodeS) := n.nType & 1 == 1
def hasdata(n *nodeS) := n.nType & 4 == 4

// nodes are where their key says, and are well-formed
def I1() := forall K seq :: {M[K]} M[K] != 0 ==> key(M[K]) == K && okS(M[K].pathS) && okR(M[K].path) && alloced(M[K])
     && (len(K) > 0 ==> len(M[K].path) > 0) && len(M[K].path) <= len(K) && K[len(K)-len(M[K].path):] == M[K].path
     && 0 <= M[K].nType && M[K].nType < 16
def I0() := M[emp] != 0
// children extend their parent
def I2() := forall n *nodeS, i int :: {n.children[i]} N(n) && 0 <= i && i < len(n.children) ==> N(n.children[i]) && key(n.children[i]) == cat(key(n), n.children[i].path) && len(n.children[i].path) > 0
// children differ in their first rune
def I3() := forall n *nodeS, i int, j int :: {n.children[i], n.children[j]} N(n) && 0 <= i && i < j && j < len(n.children) ==> n.children[i].path[0] != n.children[j].path[0]
// (need marks the instances wanted: it is true everywhere)
fn need(int, seq) bool
axiom need: forall n int, K seq :: {need(n, K)} need(n, K)
// every node below n is below one of its children
def I5() := forall n *nodeS, K seq :: {need(n, K)} need(n, K) && N(n) && M[K] != 0 && pfx(key(n), K) && K != key(n) ==> (exists i int :: {n.children[i]} 0 <= i && i < len(n.children) && pfx(key(n.children[i]), K))
// no other node leaves the tree in the middle of an edge
def I6() := forall n *nodeS, K seq :: {n.path, M[K]} N(n) && len(n.path) > 0 && M[K] != 0 && pfx(base(n), K) && len(K) > len(base(n)) && K[len(base(n))] == n.path[0] ==> pfx(key(n), K)
def Inv() := I0() && I1() && I2() && I3() && I5() && I6()

func (*nodeS).split(s, pos, word) (newNode)
  requires N(s) && Inv() && 0 < pos && pos < len(s.path)
  modifies nodeS.path[s], nodeS.pathS[s], nodeS.children[s], nodeS.nType[s], nodeS.description[s], nodeS.comment[s], nodeS.tag[s], nodeS.data[s]
  modifies nodeS.path[new], nodeS.pathS[new], nodeS.children[new], nodeS.nType[new], nodeS.description[new], nodeS.comment[new], nodeS.tag[new], nodeS.data[new], nodeS.rw[new], alloc, M
  ghost M := upd(upd(M, old(key(s)), newNode), key(s), s)
  hint key: key(s) == cat(old(base(s)), old(s.path)[:pos]) && okS(s.pathS)
  hint keynew: newNode.pathS == old(s.pathS)
  hint kp: pfx(key(s), old(key(s)))
  hint c0: I1() && I2()
  hint c1: forall K seq :: {M[K]} M[K] != 0 && pfx(key(s), K) && K != key(s) ==> pfx(key(newNode), K)
  hint c2: forall K seq :: {need(newNode, K)} need(newNode, K) && need(s, K) && M[K] != 0 && pfx(key(newNode), K) && K != key(newNode) ==> (exists i int :: {newNode.children[i]} 0 <= i && i < len(newNode.children) && pfx(key(newNode.children[i]), K))
  hint c3: forall n *nodeS :: {n.children} N(n) && n != s && n != newNode ==> old(N(n)) && n.children == old(n.children)
  hint c4: forall n *nodeS, K seq :: {need(n, K)} need(n, K) && N(n) && n != s && n != newNode && M[K] != 0 && K != key(s) && pfx(key(n), K) && K != key(n) ==> (exists i int :: {n.children[i]} 0 <= i && i < len(n.children) && pfx(key(n.children[i]), K))
  hint c5: forall n *nodeS :: {n.children} need(n, old(key(s))) && N(n) && n != s && n != newNode && pfx(key(n), key(s)) && key(s) != key(n) ==> (exists i int :: {n.children[i]} 0 <= i && i < len(n.children) && pfx(key(n.children[i]), key(s)))
  ensures I0()
  ensures I1: I1()
  ensures I2: I2()
  ensures I3: I3()
  ensures I5: I5()
  ensures I6: I6()
  ensures isnew(newNode)
  ensures N(s) && s.path == old(s.path)[:pos] && base(s) == old(base(s)) && len(s.children) == 1 && s.children[0] == newNode && s.nType == 0 && s.data == nil && s.description == "" && s.comment == "" && s.tag == nil
  ensures key(newNode) == old(key(s)) && newNode.path == old(s.path)[pos:] && newNode.nType == old(s.nType) && newNode.data == old(s.data) && newNode.description == old(s.description) && newNode.comment == old(s.comment) && newNode.tag == old(s.tag) && newNode.children == old(s.children)
  ensures Mis: M == upd(upd(old(M), old(key(s)), newNode), key(s), s)

func (*nodeS).insertAsLeaf(s, word, fullPath, data) (newNode)
  requires N(s) && Inv() && okS(fullPath) && okR(word) && len(word) > 0 && dec(fullPath) == cat(key(s), word)
  requires forall i int :: {s.children[i]} 0 <= i && i < len(s.children) ==> s.children[i].path[0] != word[0]
  modifies nodeS.children[s]
  modifies nodeS.path[new], nodeS.pathS[new], nodeS.children[new], nodeS.nType[new], nodeS.description[new], nodeS.comment[new], nodeS.tag[new], nodeS.data[new], nodeS.rw[new], alloc, M
  ghost M := upd(M, dec(fullPath), newNode)
  hint x: forall K seq :: {M[K]} need(s, K) && old(M[K]) != 0 && pfx(key(s), K) && len(K) > len(key(s)) ==> K[len(key(s))] != word[0]
  hint kp: pfx(key(s), dec(fullPath)) && pfx(key(s), key(newNode)) && key(newNode)[len(key(s))] == word[0] && old(M[dec(fullPath)]) == 0
  hint c3: forall n *nodeS :: {n.children} N(n) && n != s && n != newNode ==> old(N(n)) && n.children == old(n.children)
  hint c4: forall n *nodeS, K seq :: {need(n, K)} need(n, K) && N(n) && n != s && n != newNode && M[K] != 0 && K != key(newNode) && pfx(key(n), K) && K != key(n) ==> (exists i int :: {n.children[i]} 0 <= i && i < len(n.children) && pfx(key(n.children[i]), K))
  hint c5: forall n *nodeS :: {n.children} need(n, key(s)) && N(n) && n != s && n != newNode && pfx(key(n), key(newNode)) ==> (exists i int :: {n.children[i]} 0 <= i && i < len(n.children) && pfx(key(n.children[i]), key(newNode)))
  hint c6: forall K seq :: {need(s, K)} need(s, K) && M[K] != 0 && K != key(newNode) && pfx(key(s), K) && K != key(s) ==> (exists i int :: {s.children[i]} 0 <= i && i < len(s.children) && pfx(key(s.children[i]), K))
  hint c7: s.children[len(s.children)-1] == newNode && len(s.children) > 0
  ensures I0()
  ensures I1: I1()
  ensures I2: I2()
  ensures I3: I3()
  ensures I5: I5()
  ensures I6: I6()
  ensures isnew(newNode) && N(newNode) && s.children == cat(old(s.children), unit(newNode))
  ensures key(newNode) == dec(fullPath) && newNode.path == word && newNode.nType == 5 && newNode.data == data && newNode.description == "" && newNode.comment == "" && newNode.tag == nil && len(newNode.children) == 0
  ensures Mis: M == upd(old(M), dec(fullPath), newNode) && old(M[dec(fullPath)]) == 0

func (*nodeS).matchChildren(s, word) (matched, child)
  requires N(s) && Inv() && len(word) > 0
  inv forall j int :: {s.children[j]} 0 <= j && j <= $i:int && j < len(s.children) ==> s.children[j].path[0] != word[0]
  inv forall j int :: {s.children[j]} 0 <= j && j < $i:int && j < len(s.children) ==> s.children[j].path[0] != word[0]
  ensures matched ==> (exists i int :: {s.children[i]} 0 <= i && i < len(s.children) && child == s.children[i]) && child.path[0] == word[0] && N(child) && key(child) == cat(key(s), child.path)
  ensures !matched ==> (forall i int :: {s.children[i]} 0 <= i && i < len(s.children) ==> s.children[i].path[0] != word[0])

func (*nodeS).findCommonPrefixLength(s, word) (length)
  requires s != nil
  inv forall j int :: {s.path[j]} {word[j]} 0 <= j && j < $i:int ==> s.path[j] == word[j]
  inv 0 <= $i:int && $i:int <= len(word) && $i:int <= len(s.path)
  ensures 0 <= length && length <= len(word) && length <= len(s.path)
  ensures word[:length] == s.path[:length]
  ensures length < len(word) && length < len(s.path) ==> word[length] != s.path[length]

// the attributes of key K are what they were
def attrs(K seq) := M[K].data == old(M[K].data) && M[K].nType == old(M[K].nType) && M[K].description == old(M[K].description) && M[K].comment == old(M[K].comment) && M[K].tag == old(M[K].tag)
// writing T keeps every other key, and adds nothing but bare branching points above T
def kept(T seq) := forall K seq :: {M[K]} K != T && old(M[K]) != 0 ==> M[K] != 0 && attrs(K)
def added(T seq) := forall K seq :: {M[K]} K != T && old(M[K]) == 0 && M[K] != 0 ==> M[K].nType == 0 && M[K].data == nil && M[K].description == "" && M[K].comment == "" && M[K].tag == nil && pfx(K, T)
// nodes of other trees are not touched
def other(n *nodeS) := old(alloced(n)) && !old(N(n))
def frame() := (forall n *nodeS :: {n.path} other(n) ==> n.path == old(n.path)) && (forall n *nodeS :: {n.pathS} other(n) ==> n.pathS == old(n.pathS)) && (forall n *nodeS :: {n.children} other(n) ==> n.children == old(n.children)) && (forall n *nodeS :: {n.data} other(n) ==> n.data == old(n.data)) && (forall n *nodeS :: {n.nType} other(n) ==> n.nType == old(n.nType)) && (forall n *nodeS :: {n.description} other(n) ==> n.description == old(n.description)) && (forall n *nodeS :: {n.comment} other(n) ==> n.comment == old(n.comment)) && (forall n *nodeS :: {n.tag} other(n) ==> n.tag == old(n.tag))
// the nodes of this tree come from the former tree or are new
def own() := forall n *nodeS :: {n.pathS} N(n) ==> old(N(n)) || !old(alloced(n))
// what writing data at T leaves there
def written(T seq, node *nodeS, data any, oldData any) := node == M[T] && node != 0 && node.data == data
   && (old(M[T]) != 0 ==> oldData == old(M[T].data) && node.nType == old(M[T].nType) | 5 && node.description == old(M[T].description) && node.comment == old(M[T].comment) && node.tag == old(M[T].tag))
   && (old(M[T]) == 0 ==> oldData == nil && node.nType == 5 && node.description == "" && node.comment == "" && node.tag == nil)

func (*nodeS).insertInternal(s, word, fullPath, data, trie, cb) (node, oldData)
  requires N(s) && Inv() && okS(fullPath) && okR(word) && dec(fullPath) == cat(base(s), word)
  requires len(s.path) > 0 ==> len(word) > 0 && word[0] == s.path[0]
  modifies nodeS.path, nodeS.pathS, nodeS.children, nodeS.nType, nodeS.description, nodeS.comment, nodeS.tag, nodeS.data, alloc, M, log
  modifies nodeS.rw[new]
  ensures Inv: Inv()
  ensures root: M[emp] == old(M[emp])
  ensures written: written(dec(fullPath), node, data, oldData)
  ensures kept: kept(dec(fullPath))
  ensures added: added(dec(fullPath))
  ensures frame: frame()
  ensures own: own()
  ensures cb: cb != nil ==> log == cat(old(log), unit(ev(cb, fullPath, oldData, box(node, "*nodeS"), box(trie, "*trieS"))))
  ensures nocb: cb == nil ==> log == old(log)

func (*nodeS).insert(s, word, fullPath, data, trie, cb) (node, oldData)
  requires N(s) && Inv() && okS(fullPath) && okR(word) && dec(fullPath) == cat(base(s), word)
  requires len(s.path) > 0 ==> len(word) > 0 && word[0] == s.path[0]
  modifies nodeS.path, nodeS.pathS, nodeS.children, nodeS.nType, nodeS.description, nodeS.comment, nodeS.tag, nodeS.data, alloc, M, log
  modifies nodeS.rw[new]
  ensures Inv: Inv()
  ensures root: M[emp] == old(M[emp])
  ensures isnode: is(node, "*nodeS")
  ensures written: written(dec(fullPath), unbox(node, "*nodeS"), data, oldData)
  ensures kept: kept(dec(fullPath))
  ensures added: added(dec(fullPath))
  ensures frame: frame()
  ensures own: own()
  ensures cb: cb != nil ==> log == cat(old(log), unit(ev(cb, fullPath, oldData, node, box(trie, "*trieS"))))
  ensures nocb: cb == nil ==> log == old(log)
