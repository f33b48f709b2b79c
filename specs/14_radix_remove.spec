package radix

// the tree without the keys beginning with P
fn cut(map[seq]*nodeS, seq) map[seq]*nodeS
axiom cut: forall m map[seq]*nodeS, P seq, K seq :: {cut(m, P)[K]} cut(m, P)[K] == (pfx(P, K) ? 0 : m[K])

// membership
fn mem(seq, int) bool
fn idx(seq, int) int
axiom mem1: forall s seq, x int :: {mem(s, x)} mem(s, x) ==> 0 <= idx(s, x) && idx(s, x) < len(s) && s[idx(s, x)] == x
axiom mem2: forall s seq, i int :: {mem(s, s[i])} 0 <= i && i < len(s) ==> mem(s, s[i])
lemma mem3: forall x int :: {mem(emp, x)} !mem(emp, x)
lemma mem4: forall y int, x int :: {mem(unit(y), x)} mem(unit(y), unit(y)[0]) ==> (mem(unit(y), x) <==> x == y)
lemma mem5: forall a seq, b seq, x int :: {mem(cat(a, b), x)} (mem(cat(a, b), x) <==> mem(a, x) || mem(b, x))

func (*nodeS).remove(s, item) (removed)
  requires N(s) && Inv() && item != 0
  modifies nodeS.children[s], M
  ghost M := (removed ? cut(M, key(item)) : M)
  inv forall j int :: {s.children[j]} 0 <= j && j <= $i:int && j < len(s.children) ==> s.children[j] != item
  inv forall j int :: {s.children[j]} 0 <= j && j < $i:int && j < len(s.children) ==> s.children[j] != item
  ensures yes: (exists j int :: {old(s.children)[j]} 0 <= j && j < len(old(s.children)) && old(s.children)[j] == item) <==> removed
  ensures no: !removed ==> s.children == old(s.children) && M == old(M)
  ensures M: removed ==> M == cut(old(M), key(item))
  hint sub: forall j int :: {s.children[j]} 0 <= j && j < len(s.children) ==> (exists k int :: {old(s.children)[k]} 0 <= k && k < len(old(s.children)) && old(s.children)[k] == s.children[j] && (removed ==> s.children[j] != item))
  hint sup: forall k int :: {old(s.children)[k]} 0 <= k && k < len(old(s.children)) && old(s.children)[k] != item ==> (exists j int :: {s.children[j]} 0 <= j && j < len(s.children) && old(s.children)[k] == s.children[j])
  hint kp: removed ==> old(N(item)) && key(item) == cat(key(s), item.path) && len(item.path) > 0 && base(item) == key(s)
  ensures I0()
  ensures I1: I1()
  ensures I2: I2()
  ensures I3: I3()
  ensures I5: I5()
  ensures I6: I6()

// key K has children that are no part of its section
def sharing(n *nodeS, d int) := exists j int :: {n.children[j]} 0 <= j && j < len(n.children) && n.children[j].path[0] != d

// the keys that go with key K: itself and the keys beneath it
def goes(K seq, d int, L seq) := pfx(K, L) && (L == K || L[len(K)] == d || len(K) > 0 && K[len(K)-1] == d)
def same() := (forall n *nodeS :: {n.path} n.path == old(n.path)) && (forall n *nodeS :: {n.pathS} n.pathS == old(n.pathS)) && (forall n *nodeS :: {n.children} n.children == old(n.children))
def untouched() := M == old(M) && (forall n *nodeS :: {n.data} n.data == old(n.data)) && (forall n *nodeS :: {n.nType} n.nType == old(n.nType)) && (forall n *nodeS :: {n.description} n.description == old(n.description)) && (forall n *nodeS :: {n.comment} n.comment == old(n.comment)) && (forall n *nodeS :: {n.tag} n.tag == old(n.tag))

func (*nodeS).detach(s, delimiter) (detached)
  option merge
  requires N(s) && Inv()
  modifies nodeS.children[s], nodeS.nType[s], nodeS.description[s], nodeS.comment[s], nodeS.tag[s], nodeS.data[s], M
  modifies nodeS.path[s], nodeS.pathS[s], nodeS.rw[s], nodeS.path[new], nodeS.pathS[new], nodeS.children[new], nodeS.nType[new], nodeS.description[new], nodeS.comment[new], nodeS.tag[new], nodeS.data[new], nodeS.rw[new], alloc
  ghost M := (detached != 0 ? cut(M, cat(key(s), unit(delimiter))) : M)
  inv forall j int :: {s.children[j]} 0 <= j && j <= $i:int && j < len(s.children) && s.children[j].path[0] != delimiter ==> mem($k:[]*nodeS, s.children[j])
  inv forall k int :: {$k:[]*nodeS[k]} 0 <= k && k < len($k:[]*nodeS) ==> $k:[]*nodeS[k].path[0] != delimiter && mem(s.children, $k:[]*nodeS[k])
  inv forall k int, j int :: {$k:[]*nodeS[k], s.children[j]} 0 <= k && k < len($k:[]*nodeS) && $i:int < j && j < len(s.children) ==> $k:[]*nodeS[k].path[0] != s.children[j].path[0]
  inv forall k int, l int :: {$k:[]*nodeS[k], $k:[]*nodeS[l]} 0 <= k && k < l && l < len($k:[]*nodeS) ==> $k:[]*nodeS[k].path[0] != $k:[]*nodeS[l].path[0]
  ensures no: detached == 0 ==> untouched() && same()
  hint c3: forall n *nodeS :: {n.children} N(n) && n != s ==> old(N(n)) && n.children == old(n.children) && n.pathS == old(n.pathS)
  hint c4: forall n *nodeS, K seq :: {need(n, K)} need(n, K) && N(n) && n != s && M[K] != 0 && pfx(key(n), K) && K != key(n) ==> (exists i int :: {n.children[i]} 0 <= i && i < len(n.children) && pfx(key(n.children[i]), K))
  hint c5: forall K seq :: {need(s, K)} need(s, K) && detached != 0 && M[K] != 0 && pfx(key(s), K) && K != key(s) ==> (exists i int :: {old(s.children)[i]} 0 <= i && i < len(old(s.children)) && pfx(key(old(s.children)[i]), K) && old(s.children)[i].path[0] != delimiter)
  hint c6: forall j int :: {old(s.children)[j]} detached != 0 && 0 <= j && j < len(old(s.children)) && old(s.children)[j].path[0] != delimiter ==> mem(s.children, old(s.children)[j])
  hint k0: detached != 0 ==> len(s.children) > 0 && s.children[0].path[0] != delimiter
  ensures yes: detached != 0 <==> !(len(old(s.path)) > 0 && old(s.path)[len(old(s.path))-1] == delimiter) && old(sharing(s, delimiter))
  ensures new: detached != 0 ==> isnew(detached) && M == cut(old(M), cat(key(s), unit(delimiter))) && s.path == old(s.path) && s.pathS == old(s.pathS) && s.nType == 0 && s.data == nil && s.description == "" && s.comment == "" && s.tag == nil
  ensures nos: detached == 0 && !(len(s.path) > 0 && s.path[len(s.path)-1] == delimiter) ==> (forall L seq :: {M[L]} need(s, L) && M[L] != 0 && pfx(key(s), L) && L != key(s) ==> L[len(key(s))] == delimiter)
  ensures goes: detached != 0 ==> (forall L seq :: {M[L]} goes(key(s), delimiter, L) ==> M[L] == 0 || L == key(s) && M[L] == s) && (forall L seq :: {M[L]} !goes(key(s), delimiter, L) ==> M[L] == old(M[L]))
  ensures what: detached != 0 ==> detached.pathS == old(s.pathS) && detached.data == old(s.data) && detached.nType == old(s.nType) && detached.description == old(s.description) && detached.comment == old(s.comment) && detached.tag == old(s.tag)
  ensures I0()
  ensures I1: I1()
  ensures I2: I2()
  ensures I3: I3()
  ensures I5: I5()
  ensures I6: I6()

func (*trieS).RemoveEx(s, path) (nodeRemoved, nodeParent, removed)
  option merge
  requires ask(s, path)
  modifies nodeS.children, nodeS.nType, nodeS.description, nodeS.comment, nodeS.tag, nodeS.data, M
  modifies nodeS.path, nodeS.pathS, nodeS.rw
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures wf: wf(s) && plain(s.delimiter) && s.root == old(s.root)
  ensures yes: old(stored(dec(fk(s, path)))) && dec(fk(s, path)) != emp ==> removed
  ensures no: !removed ==> untouched()
  ensures gone: removed ==> (forall L seq :: {M[L]} goes(dec(fk(s, path)), s.delimiter, L) ==> M[L] == 0 || L == dec(fk(s, path)) && !leaf(M[L]))
  ensures kept: forall L seq :: {M[L]} !goes(dec(fk(s, path)), s.delimiter, L) ==> M[L] == old(M[L]) && (M[L] != 0 ==> attrs(L))
  ensures frame: frame()
  ensures node: removed ==> is(nodeRemoved, "*nodeS") && unbox(nodeRemoved, "*nodeS") != 0
  ensures data: removed && old(stored(dec(fk(s, path)))) ==> unbox(nodeRemoved, "*nodeS").data == old(M[dec(fk(s, path))].data)

func (*trieS).Remove(s, path) (removed)
  option merge
  requires ask(s, path)
  modifies nodeS.children, nodeS.nType, nodeS.description, nodeS.comment, nodeS.tag, nodeS.data, M
  modifies nodeS.path, nodeS.pathS, nodeS.rw
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures wf: wf(s) && plain(s.delimiter) && s.root == old(s.root)
  ensures yes: old(stored(dec(fk(s, path)))) && dec(fk(s, path)) != emp ==> removed
  ensures no: !removed ==> untouched()
  ensures gone: removed ==> (forall L seq :: {M[L]} goes(dec(fk(s, path)), s.delimiter, L) ==> M[L] == 0 || L == dec(fk(s, path)) && !leaf(M[L]))
  ensures kept: forall L seq :: {M[L]} !goes(dec(fk(s, path)), s.delimiter, L) ==> M[L] == old(M[L]) && (M[L] != 0 ==> attrs(L))
  ensures frame: frame()
