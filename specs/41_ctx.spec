package ctx

// L lists the names of c in ascending order, each once
def up(L seqs) := forall i int, j int :: {L[i], L[j]} 0 <= i && i < j && j < len(L) ==> strlt(L[i], L[j])
def listed(L seqs, c *ctxS) := (forall i int :: {L[i]} 0 <= i && i < len(L) ==> has(c.values, L[i])) && (forall k seq :: {has(c.values, k)} has(c.values, k) ==> (exists i int :: {L[i]} 0 <= i && i < len(L) && L[i] == k))

func (*ctxS).Next(c) (more)
  requires c != nil && alloced(c)
  modifies ctxS.iter[c], ctxS.picked[c], alloc
  inv forall i int :: {c.iter[i]} 0 <= i && i < len(c.iter) ==> has(c.values, c.iter[i]) && has($v:visited, c.iter[i])
  inv forall k seq :: {$v:visited[k]} has($v:visited, k) ==> (exists i int :: {c.iter[i]} 0 <= i && i < len(c.iter) && c.iter[i] == k)
  inv forall i int, j int :: {c.iter[i], c.iter[j]} 0 <= i && i < j && j < len(c.iter) ==> c.iter[i] != c.iter[j]
  inv !isnil(c.iter)
  inv forall i int :: {$s:seqs[i]} 0 <= i && i < len($s:seqs) ==> has(c.values, $s:seqs[i]) && has($v:visited, $s:seqs[i])
  inv forall k seq :: {$v:visited[k]} has($v:visited, k) ==> (exists i int :: {$s:seqs[i]} 0 <= i && i < len($s:seqs) && $s:seqs[i] == k)
  inv forall i int, j int :: {$s:seqs[i], $s:seqs[j]} 0 <= i && i < j && j < len($s:seqs) ==> $s:seqs[i] != $s:seqs[j]
  ensures !isnil(c.iter)
  ensures first: old(isnil(c.iter)) ==> (more ? has(c.values, c.picked) && listed(cat(unit(c.picked), c.iter), c) && up(cat(unit(c.picked), c.iter)) : listed(c.iter, c) && len(c.iter) == 0)
  ensures later: !old(isnil(c.iter)) ==> (more <==> len(old(c.iter)) > 0) && (more ? c.picked == old(c.iter)[0] && c.iter == old(c.iter)[1:] : c.iter == old(c.iter))

func lemmaIter(c) (names, keys, vals, values, ends)
  requires c != nil && alloced(c)
  modifies ctxS.iter[c], ctxS.picked[c], alloc
  inv isnil(c.iter) ==> len(names) == 0
  inv !isnil(c.iter) ==> listed(cat(names, c.iter), c)
  inv !isnil(c.iter) ==> up(cat(names, c.iter))
  inv len(vals) == len(names)
  inv forall i int :: {c.iter[i]} !isnil(c.iter) && 0 <= i && i < len(c.iter) ==> has(c.values, c.iter[i])
  inv values == vals
  inv keys == names
  inv forall i int :: {names[i]} {vals[i]} 0 <= i && i < len(names) ==> vals[i] == c.values[names[i]]
  ensures listed: listed(names, c)
  ensures up: up(names)
  ensures vals: len(vals) == len(names) && values == vals && keys == names && (forall i int :: {vals[i]} 0 <= i && i < len(names) ==> vals[i] == c.values[names[i]])
  ensures ends: ends

func lemmaWith(c, name, value) ()
  requires c != nil && alloced(c)
  modifies ctxS.values[c], alloc, gomap<string>Val[c.values], gomap<string>Val[new]
  ensures has(c.values, name) && c.values[name] == value
  ensures forall k seq :: {has(c.values, k)} k != name ==> (has(c.values, k) <==> old(has(c.values, k))) && (has(c.values, k) ==> c.values[k] == old(c.values[k]))

property R15: (*ctxS).Next, lemmaIter, lemmaWith
