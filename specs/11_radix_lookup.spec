package radix

pool radix.matchCtxPool -> *matchCtx

// no wildcard segments among the stored keys
def plain(d int) := forall K seq, i int :: {M[K], K[i]} M[K] != 0 && 0 < i && i < len(K) && K[i-1] == d ==> K[i] != 58 && K[i] != 42

func (*nodeS).matchR(s, mctx, word, lastRuneIsDelimiter, parentNode, kvpair) (matched, partialMatched, child, parent)
  option prune 58 42
  requires N(s) && Inv() && mctx != nil && plain(mctx.delimiter)
  requires len(word) > 0 || len(s.path) == 0
  requires lastRuneIsDelimiter ==> len(base(s)) > 0 && base(s)[len(base(s))-1] == mctx.delimiter
  inv forall k int :: {s.path[k]} {word[k]} 0 <= k && k < $i:int ==> s.path[k] == word[k]
  inv $b:bool ==> len(base(s)) + $i:int > 0 && key(s)[len(base(s)) + $i:int - 1] == mctx.delimiter
  inv len(s.path) <= len(word) && eqs(s.path, word[:len(s.path)])
  inv len(s.path) <= len(word) && eqs(cat(key(s), word[len(s.path):]), cat(base(s), word))
  inv forall j int, K seq :: {s.children[j], M[K]} 0 <= j && j <= $i:int && j < len(s.children) && M[K] != 0 && pfx(cat(base(s), word), K) ==> !pfx(key(s.children[j]), K)
  inv $i:int >= 0 ==> !$b:bool
  inv $i:int >= 0 ==> $p:*nodeS == nil
  ensures none: !matched && !partialMatched ==> child == nil && parent == nil
  ensures some: matched || partialMatched ==> child != nil && N(child) && !(matched && partialMatched) && (len(s.path) > 0 ==> word[0] == s.path[0])
  ensures exact: matched ==> eqs(key(child), cat(base(s), word)) || eqs(key(child), cat(cat(base(s), word), unit(mctx.delimiter))) && len(base(child)) < len(base(s)) + len(word)
  ensures part: partialMatched ==> (len(child.children) == 0 && pfx(key(child), cat(base(s), word)) && len(key(child)) < len(base(s)) + len(word)) || (pfx(cat(base(s), word), key(child)) && len(base(child)) < len(base(s)) + len(word) && len(base(s)) + len(word) < len(key(child)) && key(child) != cat(cat(base(s), word), unit(mctx.delimiter)))
  ensures parent: matched || partialMatched ==> child == s && parent == parentNode || parent != nil && N(parent) && (exists i int :: {parent.children[i]} 0 <= i && i < len(parent.children) && parent.children[i] == child)
  ensures below: !matched && !partialMatched ==> (forall K seq :: {M[K]} need(s, K) && M[K] != 0 && pfx(cat(base(s), word), K) ==> !pfx(key(s), K))

lemma pfxd: forall a seq, b seq, d int :: {cat(a, unit(d)), cat(a, b)} len(b) > 0 && b[0] == d ==> pfx(cat(a, unit(d)), cat(a, b))
// K is a key or an ancestor section
def pres(K seq, d int) := M[K] != 0 && leaf(M[K]) || K == emp || M[K] != 0 && K != emp && K[len(K)-1] == d || (exists L seq :: {M[L]} M[L] != 0 && pfx(cat(K, unit(d)), L))
// what the search for K came to tells so
def shape(K seq, d int, node *nodeS, partialMatched bool) := node != 0 && (!partialMatched && (node == M[emp] || leaf(node) || len(node.path) > 0 && node.path[len(node.path)-1] == d) || partialMatched && pfx(cat(K, unit(d)), key(node)) || !partialMatched && (exists j int :: {node.children[j]} 0 <= j && j < len(node.children) && node.children[j].path[0] == d))

// what the search for the key K came to
def srch(K seq, d int, found *nodeS, partialMatched bool) := (found == 0 ==> !partialMatched && M[K] == 0)
  && (found != 0 ==> N(found))
  && (M[K] != 0 ==> found == M[K] && !partialMatched)
  && (found != 0 && !partialMatched ==> key(found) == K || key(found) == cat(K, unit(d)))
  && (partialMatched ==> found != 0)
  && (found != 0 && len(found.path) > 0 ==> len(key(found)) > 0 && key(found)[len(key(found))-1] == found.path[len(found.path)-1])

func (*nodeS).search(s, mctx, word, lastRuneIsDelimiter, parentNode, kvpair) (matched, partialMatched, child, parent)
  requires N(s) && Inv() && mctx != nil && plain(mctx.delimiter)
  requires len(word) > 0 || len(s.path) == 0
  requires lastRuneIsDelimiter ==> len(base(s)) > 0 && base(s)[len(base(s))-1] == mctx.delimiter
  ensures none: !matched && !partialMatched ==> child == nil && parent == nil
  ensures some: matched || partialMatched ==> child != nil && N(child) && !(matched && partialMatched) && (len(s.path) > 0 ==> word[0] == s.path[0])
  ensures exact: matched ==> eqs(key(child), cat(base(s), word)) || eqs(key(child), cat(cat(base(s), word), unit(mctx.delimiter))) && len(base(child)) < len(base(s)) + len(word)
  ensures part: partialMatched ==> (len(child.children) == 0 && pfx(key(child), cat(base(s), word)) && len(key(child)) < len(base(s)) + len(word)) || (pfx(cat(base(s), word), key(child)) && len(base(child)) < len(base(s)) + len(word) && len(base(s)) + len(word) < len(key(child)) && key(child) != cat(cat(base(s), word), unit(mctx.delimiter)))
  ensures parent: matched || partialMatched ==> child == s && parent == parentNode || parent != nil && N(parent) && (exists i int :: {parent.children[i]} 0 <= i && i < len(parent.children) && parent.children[i] == child)
  ensures below: !matched && !partialMatched ==> (forall K seq :: {M[K]} need(s, K) && M[K] != 0 && pfx(cat(base(s), word), K) ==> !pfx(key(s), K))
  hint b0: key(s) == emp ==> eqs(cat(base(s), word), word)
  hint wn: need(s, word) && need(child, word)
  hint wm: key(s) == emp && M[word] != 0 ==> child == M[word] && matched
  hint n0: key(s) == emp && !matched && !partialMatched ==> (forall K seq :: {M[K]} need(s, K) && M[K] != 0 ==> !pfx(word, K))
  hint x0: key(s) == emp && matched ==> key(child) == word || key(child) == cat(word, unit(mctx.delimiter))
  ensures reg: forall L seq :: {M[L]} key(s) == emp && matched && M[L] != 0 && pfx(word, L) && len(L) > len(word) ==> pfx(key(child), L)
  ensures regp: forall L seq :: {M[L]} key(s) == emp && partialMatched && M[L] != 0 && pfx(word, L) ==> pfx(key(child), L)
  hint pmb: forall L seq :: {M[L]} partialMatched && len(key(child)) > len(word) && pfx(key(child), L) && pfx(cat(word, unit(mctx.delimiter)), L) ==> pfx(cat(word, unit(mctx.delimiter)), key(child))
  hint pma: forall L seq :: {M[L]} key(s) == emp && partialMatched && M[L] != 0 && need(child, L) && pfx(word, L) && len(key(child)) < len(word) ==> len(child.children) > 0
  ensures sec: forall L seq :: {M[L]} key(s) == emp && need(s, L) && need(child, L) && M[L] != 0 && pfx(cat(word, unit(mctx.delimiter)), L) ==> child != 0 && (partialMatched ==> pfx(cat(word, unit(mctx.delimiter)), key(child))) && (matched && key(child) == word ==> (exists j int :: {child.children[j]} 0 <= j && j < len(child.children) && child.children[j].path[0] == mctx.delimiter))
  ensures last: child != 0 && len(child.path) > 0 ==> len(key(child)) > 0 && key(child)[len(key(child))-1] == child.path[len(child.path)-1]
  ensures child: forall j int :: {child.children[j]} key(s) == emp && matched && key(child) == word && 0 <= j && j < len(child.children) && child.children[j].path[0] == mctx.delimiter ==> M[key(child.children[j])] != 0 && pfx(cat(word, unit(mctx.delimiter)), key(child.children[j]))
  hint yes1: key(s) == emp && partialMatched && pfx(cat(word, unit(mctx.delimiter)), key(child)) ==> M[key(child)] != 0 && pres(word, mctx.delimiter)
  hint yes2: key(s) == emp && matched && key(child) == cat(word, unit(mctx.delimiter)) ==> M[key(child)] != 0 && pres(word, mctx.delimiter)
  ensures yes: key(s) == emp && shape(word, mctx.delimiter, child, partialMatched) ==> pres(word, mctx.delimiter)
  hint no1: key(s) == emp && M[word] != 0 && leaf(M[word]) ==> shape(word, mctx.delimiter, child, partialMatched)
  hint no2: key(s) == emp && M[word] != 0 && word != emp && word[len(word)-1] == mctx.delimiter ==> shape(word, mctx.delimiter, child, partialMatched)
  hint no3: forall L seq :: {M[L]} key(s) == emp && M[L] != 0 && need(s, L) && need(child, L) && pfx(cat(word, unit(mctx.delimiter)), L) && key(child) == word ==> shape(word, mctx.delimiter, child, partialMatched)
  hint no5: key(s) == emp && matched && key(child) == cat(word, unit(mctx.delimiter)) ==> key(child)[len(key(child))-1] == mctx.delimiter && shape(word, mctx.delimiter, child, partialMatched)
  hint no6: forall L seq :: {M[L]} pfx(cat(word, unit(mctx.delimiter)), L) ==> pfx(word, L)
  hint no7: forall L seq :: {M[L]} key(s) == emp && M[L] != 0 && need(s, L) && need(child, L) && pfx(cat(word, unit(mctx.delimiter)), L) ==> matched || partialMatched && pfx(cat(word, unit(mctx.delimiter)), key(child))
  hint no4: forall L seq :: {M[L]} key(s) == emp && M[L] != 0 && need(s, L) && need(child, L) && pfx(cat(word, unit(mctx.delimiter)), L) ==> shape(word, mctx.delimiter, child, partialMatched)
  ensures no: key(s) == emp && pres(word, mctx.delimiter) ==> shape(word, mctx.delimiter, child, partialMatched)
  ensures srch: key(s) == emp ==> srch(word, mctx.delimiter, child, partialMatched)
