package radix

// D is the abstract view of the tree being made by Dup
ghost D map[seq]*nodeS

// K is at or beneath a (a prefix, with the definition kept to the lemmas)
fn beneath(seq, seq) bool
fn bdef(seq, seq) bool
axiom _beneath: forall a seq, K seq :: {beneath(a, K)} beneath(a, K) <==> pfx(a, K)
axiom _bdef: forall a seq, K seq :: {bdef(a, K)} bdef(a, K)
lemma bp: forall a seq, K seq :: {bdef(a, K)} bdef(a, K) && (beneath(a, K) <==> pfx(a, K))
lemma b0: forall a seq :: {beneath(a, a)} beneath(a, a)
lemma b1: forall a seq, b seq, K seq :: {beneath(a, b), beneath(b, K)} beneath(a, b) && beneath(b, K) ==> beneath(a, K)
lemma b2: forall a seq, p seq :: {beneath(a, cat(a, p))} beneath(a, cat(a, p))
lemma b3: forall a seq, p seq, q seq, K seq :: {beneath(cat(a, p), K), beneath(cat(a, q), K)} len(p) > 0 && len(q) > 0 && p[0] != q[0] ==> !(beneath(cat(a, p), K) && beneath(cat(a, q), K))
lemma b4: forall a seq, p seq :: {beneath(cat(a, p), a)} len(p) > 0 ==> !beneath(cat(a, p), a)

// values are compared by what they hold: a clone is the value itself; values
// that are a *any are left out
extern func evendeep::MakeClone(v) (r)
  ensures r == v
def cloneable() := forall K seq :: {M[K]} M[K] != 0 ==> !is(M[K].data, "*any")

def attrs1(a *nodeS, b *nodeS) := a.pathS == old(b.pathS) && a.path == old(b.path) && a.nType == old(b.nType) && a.description == old(b.description) && a.comment == old(b.comment) && a.tag == old(b.tag)
// the copy of K has the copies of the children of K
def kid(K seq, i int) := D[K].children[i] == D[old(key(M[K].children[i]))]
def copied(K seq) := D[K] != 0 && isnew(D[K]) && attrs1(D[K], M[K]) && D[K].data == old(M[K].data) && len(D[K].children) == len(old(M[K].children))

func (*nodeS).Dup(s) (newNode)
  option merge
  requires N(s) && I0() && I1() && I2() && I3() && I5() && cloneable()
  modifies alloc, nodeS.*[new], D
  ghost D := upd(D, key(s), newNode)
  entry e1: forall j int :: {s.children[j]} 0 <= j && j < len(s.children) ==> beneath(key(s), key(s.children[j])) && beneath(key(s.children[j]), key(s.children[j])) && !beneath(key(s.children[j]), key(s))
  entry e2: forall K seq, i int :: {M[K].children[i]} M[K] != 0 && 0 <= i && i < len(M[K].children) ==> beneath(K, key(M[K].children[i])) && M[key(M[K].children[i])] != 0
  entry e3: forall K seq, j int, k int :: {beneath(key(s.children[j]), K), beneath(key(s.children[k]), K)} 0 <= j && j < len(s.children) && 0 <= k && k < len(s.children) && j != k ==> !(beneath(key(s.children[j]), K) && beneath(key(s.children[k]), K))
  entry e4: forall K seq :: {need(s, K)} need(s, K) && bdef(key(s), K) && M[K] != 0 && beneath(key(s), K) && K != key(s) ==> (exists j int :: {s.children[j]} 0 <= j && j < len(s.children) && bdef(key(s.children[j]), K) && beneath(key(s.children[j]), K))
  inv len(($n:*nodeS).children) == $i:int
  inv len(($n:*nodeS).children) == $i:int + 1
  inv forall j int :: {old(s.children)[j]} 0 <= j && j < $i:int ==> ($n:*nodeS).children[j] == D[old(key(s.children[j]))]
  inv forall j int :: {old(s.children)[j]} 0 <= j && j <= $i:int ==> ($n:*nodeS).children[j] == D[old(key(s.children[j]))]
  inv forall K seq, j int :: {M[K], old(s.children)[j]} {D[K], old(s.children)[j]} 0 <= j && j < $i:int && M[K] != 0 && beneath(old(key(s.children[j])), K) ==> copied(K)
  inv forall K seq, j int :: {M[K], old(s.children)[j]} {D[K], old(s.children)[j]} 0 <= j && j <= $i:int && M[K] != 0 && beneath(old(key(s.children[j])), K) ==> copied(K)
  inv forall K seq, j int, i int :: {old(M[K].children[i]), old(s.children)[j]} 0 <= j && j < $i:int && M[K] != 0 && beneath(old(key(s.children[j])), K) && 0 <= i && i < len(old(M[K].children)) ==> kid(K, i)
  inv forall K seq, j int, i int :: {old(M[K].children[i]), old(s.children)[j]} 0 <= j && j <= $i:int && M[K] != 0 && beneath(old(key(s.children[j])), K) && 0 <= i && i < len(old(M[K].children)) ==> kid(K, i)
  inv len($c:[]*nodeS) == len(old(s.children))
  inv forall j int :: {old(s.children)[j]} 0 <= j && j < $i:int ==> ($c:[]*nodeS)[j] == D[old(key(s.children[j]))]
  inv forall K seq :: {D[K]} !beneath(old(key(s)), K) ==> D[K] == old(D[K])
  inv isnew($n:*nodeS) && attrs1($n:*nodeS, s)
  ensures frame: forall K seq :: {D[K]} !beneath(key(s), K) ==> D[K] == old(D[K])
  ensures new: newNode == D[key(s)] && isnew(newNode)
  hint self: copied(key(s))
  hint kself: forall i int :: {old(M[key(s)].children[i])} 0 <= i && i < len(s.children) ==> kid(key(s), i)
  ensures copied: forall K seq :: {D[K]} {M[K]} M[K] != 0 && need(s, K) && beneath(key(s), K) ==> copied(K)
  ensures kids: forall K seq, i int :: {old(M[K].children[i])} {D[K].children[i]} M[K] != 0 && need(s, K) && beneath(key(s), K) && 0 <= i && i < len(old(M[K].children)) ==> kid(K, i)

fn within(map[seq]*nodeS, map[seq]*nodeS) map[seq]*nodeS
axiom within: forall m map[seq]*nodeS, d map[seq]*nodeS, K seq :: {within(m, d)[K]} within(m, d)[K] == (m[K] == 0 ? 0 : d[K])

// D mirrors M
def mirror() := (forall K seq :: {D[K]} {M[K]} (M[K] == 0 <==> D[K] == 0) && (M[K] != 0 ==> copied(K)))
  && (forall K seq, i int :: {old(M[K].children[i])} {D[K].children[i]} M[K] != 0 && 0 <= i && i < len(old(M[K].children)) ==> kid(K, i))

func (*trieS).Dup(s) (newTrie)
  requires wf(s) && alloced(s) && cloneable()
  modifies alloc, nodeS.*[new], trieS.*[new], atomic.Uint32[new], D
  ghost D := within(M, D)
  hint all: forall K seq :: {D[K]} {M[K]} bdef(key(s.root), K) && need(s.root, K)
  ensures mirror: mirror()
  ensures new: newTrie != 0 && isnew(newTrie) && newTrie.root == D[emp] && newTrie.prefix == s.prefix && newTrie.delimiter == s.delimiter && newTrie.recursiveMode == s.recursiveMode

// the clone as a tree of its own (lemmas/radix/dup.go)
def clone(t *trieS, s *trieS) := isnew(t) && wf(t) && t.prefix == s.prefix && t.delimiter == s.delimiter && t.recursiveMode == s.recursiveMode
def like() := forall K seq :: {M[K]} (M[K] == 0 <==> old(M[K]) == 0) && (M[K] != 0 ==> isnew(M[K]) && attrs(K))
func lemmaDup(s) (t)
  requires wf(s) && alloced(s) && cloneable()
  modifies alloc, nodeS.*[new], trieS.*[new], atomic.Uint32[new], D, M
  ghost M := D
  hint i1: I1()
  hint i2: I2()
  hint i5: forall L seq, K seq :: {need(M[L], K)} need(M[L], K) && need(old(M[L]), K) && M[L] != 0 && M[K] != 0 && pfx(L, K) && K != L ==> (exists i int :: {old(M[L].children[i])} 0 <= i && i < len(old(M[L].children)) && pfx(old(key(M[L].children[i])), K) && M[L].children[i] == M[old(key(M[L].children[i]))])
  ensures clone: clone(t, s) && (old(plain(s.delimiter)) ==> plain(t.delimiter))
  ensures like: like()

// every node of the origin is as it was
def kept2(n *nodeS) := n.path == old(n.path) && n.pathS == old(n.pathS) && n.children == old(n.children) && n.data == old(n.data) && n.nType == old(n.nType) && n.description == old(n.description) && n.comment == old(n.comment) && n.tag == old(n.tag)
def intact() := forall K seq :: {old(M[K])} old(M[K]) != 0 ==> kept2(old(M[K]))
// the clone still mirrors what the origin was
def mirrored() := (forall K seq :: {D[K]} (old(M[K]) == 0 <==> D[K] == 0) && (old(M[K]) != 0 ==> D[K] != 0 && D[K].pathS == old(M[K].pathS) && D[K].path == old(M[K].path) && D[K].nType == old(M[K].nType) && D[K].description == old(M[K].description) && D[K].comment == old(M[K].comment) && D[K].tag == old(M[K].tag) && D[K].data == old(M[K].data) && len(D[K].children) == len(old(M[K].children))))

func lemmaCloneSet(s, path, data) (t)
  option merge
  requires ask(s, path) && noblank(fk(s, path)) && alloced(s) && cloneable()
  modifies nodeS.path, nodeS.pathS, nodeS.children, nodeS.nType, nodeS.description, nodeS.comment, nodeS.tag, nodeS.data, nodeS.rw, alloc, M, D, log, trieS.*[new], atomic.Uint32[new], Buffer[new], matchCtx.fullPath[new], matchCtx.delimiter[new]
  ensures intact: intact()

func lemmaOriginSet(s, path, data) (t)
  option merge
  requires ask(s, path) && noblank(fk(s, path)) && alloced(s) && cloneable()
  modifies nodeS.path, nodeS.pathS, nodeS.children, nodeS.nType, nodeS.description, nodeS.comment, nodeS.tag, nodeS.data, nodeS.rw, alloc, M, D, log, trieS.*[new], atomic.Uint32[new], Buffer[new], matchCtx.fullPath[new], matchCtx.delimiter[new]
  ensures mirrored: mirrored() && t.root == D[emp]

func lemmaCloneRemove(s, path) (t)
  option merge
  requires ask(s, path)  && alloced(s) && cloneable()
  modifies nodeS.path, nodeS.pathS, nodeS.children, nodeS.nType, nodeS.description, nodeS.comment, nodeS.tag, nodeS.data, nodeS.rw, alloc, M, D, log, trieS.*[new], atomic.Uint32[new], Buffer[new], matchCtx.fullPath[new], matchCtx.delimiter[new]
  ensures intact: intact()

func lemmaOriginRemove(s, path) (t)
  option merge
  requires ask(s, path)  && alloced(s) && cloneable()
  modifies nodeS.path, nodeS.pathS, nodeS.children, nodeS.nType, nodeS.description, nodeS.comment, nodeS.tag, nodeS.data, nodeS.rw, alloc, M, D, log, trieS.*[new], atomic.Uint32[new], Buffer[new], matchCtx.fullPath[new], matchCtx.delimiter[new]
  ensures mirrored: mirrored() && t.root == D[emp]

func lemmaCloneNote(s, path, desc, comment, tag) (t)
  option merge
  requires ask(s, path)  && alloced(s) && cloneable()
  modifies nodeS.path, nodeS.pathS, nodeS.children, nodeS.nType, nodeS.description, nodeS.comment, nodeS.tag, nodeS.data, nodeS.rw, alloc, M, D, log, trieS.*[new], atomic.Uint32[new], Buffer[new], matchCtx.fullPath[new], matchCtx.delimiter[new]
  ensures intact: intact()

func lemmaOriginNote(s, path, desc, comment, tag) (t)
  option merge
  requires ask(s, path)  && alloced(s) && cloneable()
  modifies nodeS.path, nodeS.pathS, nodeS.children, nodeS.nType, nodeS.description, nodeS.comment, nodeS.tag, nodeS.data, nodeS.rw, alloc, M, D, log, trieS.*[new], atomic.Uint32[new], Buffer[new], matchCtx.fullPath[new], matchCtx.delimiter[new]
  ensures mirrored: mirrored() && t.root == D[emp]

