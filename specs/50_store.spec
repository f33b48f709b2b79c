package store

dispatch radix.Trie -> *trieS
dispatch radix.Node -> *nodeS

def tr(s *storeS) := unbox(s.Trie, "*radix.trieS")
def okst(s *storeS) := s != 0 && is(s.Trie, "*radix.trieS")
def K_(s *storeS, path seq) := dec(fk(tr(s), path))

func (*storeS).Get(s, path) (data, found)
  requires okst(s) && ask(tr(s), path)
  modifies alloc, radix.matchCtx.fullPath[new], radix.matchCtx.delimiter[new], Buffer[new]
  ensures hit: hit(tr(s), K_(s, path), data, false, found)

func (*storeS).MustGet(s, path) (data)
  requires okst(s) && ask(tr(s), path)
  modifies alloc, radix.matchCtx.fullPath[new], radix.matchCtx.delimiter[new], Buffer[new]
  ensures hit: stored(K_(s, path)) ==> data == (hasdata(M[K_(s, path)]) ? M[K_(s, path)].data : nil)
  ensures miss: data != nil ==> stored(K_(s, path)) || fk(tr(s), path) != "" && K_(s, path)[len(K_(s, path))-1] == tr(s).delimiter || M[cat(K_(s, path), unit(tr(s).delimiter))] != 0

func (*storeS).Has(s, path) (found)
  requires okst(s) && ask(tr(s), path)
  modifies alloc, radix.matchCtx.fullPath[new], radix.matchCtx.delimiter[new], Buffer[new]
  ensures found <==> present(tr(s), K_(s, path))

// log L after the calls of the handlers h[:n], in order; nil handlers are skipped
fn news(vals, []OnNewHandler, seq, any, bool, int) vals
fn news0(vals, []OnNewHandler, seq, any, bool, int) vals
axiom news1: forall L vals, h []OnNewHandler, p seq, v any, l bool, n int :: {news(L, h, p, v, l, n)} news(L, h, p, v, l, n) == news0(L, h, p, v, l, n)
axiom news2: forall L vals, h []OnNewHandler, p seq, v any, l bool, n int :: {news(L, h, p, v, l, n)} n <= 0 ==> news(L, h, p, v, l, n) == L
axiom news3: forall L vals, h []OnNewHandler, p seq, v any, l bool, n int :: {news(L, h, p, v, l, n)} 0 < n && n <= len(h) ==> news(L, h, p, v, l, n) == (h[n-1] == nil ? news0(L, h, p, v, l, n-1) : cat(news0(L, h, p, v, l, n-1), unit(ev(h[n-1], p, v, l))))

fn chgs(vals, []OnChangeHandler, seq, any, any, bool, int) vals
fn chgs0(vals, []OnChangeHandler, seq, any, any, bool, int) vals
axiom chgs1: forall L vals, h []OnChangeHandler, p seq, v any, o any, l bool, n int :: {chgs(L, h, p, v, o, l, n)} chgs(L, h, p, v, o, l, n) == chgs0(L, h, p, v, o, l, n)
axiom chgs2: forall L vals, h []OnChangeHandler, p seq, v any, o any, l bool, n int :: {chgs(L, h, p, v, o, l, n)} n <= 0 ==> chgs(L, h, p, v, o, l, n) == L
axiom chgs3: forall L vals, h []OnChangeHandler, p seq, v any, o any, l bool, n int :: {chgs(L, h, p, v, o, l, n)} 0 < n && n <= len(h) ==> chgs(L, h, p, v, o, l, n) == (h[n-1] == nil ? chgs0(L, h, p, v, o, l, n-1) : cat(chgs0(L, h, p, v, o, l, n-1), unit(ev(h[n-1], p, v, o, l))))

fn dels(vals, []OnDeleteHandler, seq, any, bool, int) vals
fn dels0(vals, []OnDeleteHandler, seq, any, bool, int) vals
axiom dels1: forall L vals, h []OnDeleteHandler, p seq, v any, l bool, n int :: {dels(L, h, p, v, l, n)} dels(L, h, p, v, l, n) == dels0(L, h, p, v, l, n)
axiom dels2: forall L vals, h []OnDeleteHandler, p seq, v any, l bool, n int :: {dels(L, h, p, v, l, n)} n <= 0 ==> dels(L, h, p, v, l, n) == L
axiom dels3: forall L vals, h []OnDeleteHandler, p seq, v any, l bool, n int :: {dels(L, h, p, v, l, n)} 0 < n && n <= len(h) ==> dels(L, h, p, v, l, n) == (h[n-1] == nil ? dels0(L, h, p, v, l, n-1) : cat(dels0(L, h, p, v, l, n-1), unit(ev(h[n-1], p, v, l))))

func (*storeS).tryOnSet(s, path, loading, oldData, data, createOrModify) ()
  requires s != 0 && s.parent == 0
  modifies log
  inv createOrModify ==> log == news(old(log), s.onNewHandlers, path, data, loading, $i:int)
  inv createOrModify ==> log == news(old(log), s.onNewHandlers, path, data, loading, $i:int + 1)
  inv !createOrModify ==> log == chgs(old(log), s.onChangeHandlers, path, data, oldData, loading, $i:int)
  inv !createOrModify ==> log == chgs(old(log), s.onChangeHandlers, path, data, oldData, loading, $i:int + 1)
  inv 0 <= $i:int && $i:int <= len(s.onNewHandlers)
  inv 0 <= $i:int && $i:int <= len(s.onChangeHandlers)
  ensures new: createOrModify ==> log == news(old(log), s.onNewHandlers, path, data, loading, len(s.onNewHandlers))
  ensures chg: !createOrModify ==> log == chgs(old(log), s.onChangeHandlers, path, data, oldData, loading, len(s.onChangeHandlers))

func (*storeS).tryOnDelete(s, path, loading, oldData, node, np) ()
  requires s != 0 && s.parent == 0
  modifies log
  inv log == dels(old(log), s.OnDeleteHandlers, path, oldData, loading, $i:int)
  inv log == dels(old(log), s.OnDeleteHandlers, path, oldData, loading, $i:int + 1)
  inv 0 <= $i:int && $i:int <= len(s.OnDeleteHandlers)
  ensures log == dels(old(log), s.OnDeleteHandlers, path, oldData, loading, len(s.OnDeleteHandlers))

// a key is written: its value is data, it is marked as modified exactly when the user wrote it
def setat(T seq, node *radix.nodeS, data any, oldData any, loading bool) := node == M[T] && node != 0 && node.data == data
   && (old(M[T]) != 0 ==> oldData == old(M[T].data) && node.nType == (loading ? old(M[T].nType) | 5 : old(M[T].nType) | 13) && node.description == old(M[T].description) && node.comment == old(M[T].comment) && node.tag == old(M[T].tag))
   && (old(M[T]) == 0 ==> oldData == nil && node.nType == (loading ? 5 : 13) && node.description == "" && node.comment == "" && node.tag == nil)

func (*storeS).setKV(s, path, data, createOrModify, onSet) (node, oldData)
  option merge
  requires okst(s) && s.parent == 0 && wf(tr(s)) && okS(path) && okS(tr(s).prefix) && noblank(fk(tr(s), path))
  modifies radix.nodeS.path, radix.nodeS.pathS, radix.nodeS.children, radix.nodeS.nType, radix.nodeS.description, radix.nodeS.comment, radix.nodeS.tag, radix.nodeS.data, alloc, M, log
  modifies radix.nodeS.rw[new], Buffer[new]
  hint mine: M[K_(s, path)] != 0 && !other(M[K_(s, path)])
  hint ty: old(M[K_(s, path)]) != 0 ==> 0 <= old(M[K_(s, path)].nType) && old(M[K_(s, path)].nType) < 16
  ensures write: write(tr(s), K_(s, path))
  ensures node: is(node, "*radix.nodeS") && setat(K_(s, path), unbox(node, "*radix.nodeS"), data, oldData, s.loading == 1)
  ensures new: onSet == nil && createOrModify && (s.loading == 1 || oldData == nil) ==> log == news(old(log), s.onNewHandlers, path, data, s.loading == 1, len(s.onNewHandlers))
  ensures chg: onSet == nil && !(createOrModify && (s.loading == 1 || oldData == nil)) ==> log == chgs(old(log), s.onChangeHandlers, path, data, oldData, s.loading == 1, len(s.onChangeHandlers))

func (*storeS).Set(s, path, data) (node, oldData)
  option merge
  requires okst(s) && s.parent == 0 && ask(tr(s), path) && noblank(fk(tr(s), path))
  modifies radix.nodeS.path, radix.nodeS.pathS, radix.nodeS.children, radix.nodeS.nType, radix.nodeS.description, radix.nodeS.comment, radix.nodeS.tag, radix.nodeS.data, alloc, M, log
  modifies radix.nodeS.rw[new], Buffer[new], radix.matchCtx.fullPath[new], radix.matchCtx.delimiter[new]
  ensures write: write(tr(s), K_(s, path))
  ensures node: is(node, "*radix.nodeS") && setat(K_(s, path), unbox(node, "*radix.nodeS"), data, oldData, s.loading == 1)
  ensures new: !old(stored(K_(s, path))) && !old(stored(cat(K_(s, path), unit(tr(s).delimiter)))) ==> log == news(old(log), s.onNewHandlers, path, data, s.loading == 1, len(s.onNewHandlers))
  ensures chg: old(stored(K_(s, path))) ==> log == chgs(old(log), s.onChangeHandlers, path, data, oldData, s.loading == 1, len(s.onChangeHandlers))

func (*storeS).RemoveEx(s, path) (nodeRemoved, nodeParent, removed)
  option merge
  requires okst(s) && s.parent == 0 && ask(tr(s), path)
  modifies radix.nodeS.children, radix.nodeS.nType, radix.nodeS.description, radix.nodeS.comment, radix.nodeS.tag, radix.nodeS.data, M
  modifies radix.nodeS.path, radix.nodeS.pathS, radix.nodeS.rw, log
  modifies alloc, radix.matchCtx.fullPath[new], radix.matchCtx.delimiter[new], Buffer[new]
  ensures wf: wf(tr(s)) && plain(tr(s).delimiter) && tr(s).root == old(tr(s).root)
  ensures yes: old(stored(K_(s, path))) && K_(s, path) != emp ==> removed
  ensures no: !removed ==> untouched() && log == old(log)
  ensures gone: removed ==> (forall L seq :: {M[L]} goes(K_(s, path), tr(s).delimiter, L) ==> M[L] == 0 || L == K_(s, path) && !leaf(M[L]))
  ensures kept: forall L seq :: {M[L]} !goes(K_(s, path), tr(s).delimiter, L) ==> M[L] == old(M[L]) && (M[L] != 0 ==> attrs(L))
  ensures node: removed ==> is(nodeRemoved, "*radix.nodeS") && unbox(nodeRemoved, "*radix.nodeS") != 0
  ensures data: removed && old(stored(K_(s, path))) ==> unbox(nodeRemoved, "*radix.nodeS").data == old(M[K_(s, path)].data)
  ensures del: removed && old(stored(K_(s, path))) ==> log == dels(old(log), s.OnDeleteHandlers, path, old(M[K_(s, path)].data), s.loading == 1, len(s.OnDeleteHandlers))

func (*storeS).Remove(s, path) (removed)
  option merge
  requires okst(s) && s.parent == 0 && ask(tr(s), path)
  modifies radix.nodeS.children, radix.nodeS.nType, radix.nodeS.description, radix.nodeS.comment, radix.nodeS.tag, radix.nodeS.data, M
  modifies radix.nodeS.path, radix.nodeS.pathS, radix.nodeS.rw, log
  modifies alloc, radix.matchCtx.fullPath[new], radix.matchCtx.delimiter[new], Buffer[new]
  ensures wf: wf(tr(s)) && plain(tr(s).delimiter) && tr(s).root == old(tr(s).root)
  ensures yes: old(stored(K_(s, path))) && K_(s, path) != emp ==> removed
  ensures no: !removed ==> untouched() && log == old(log)
  ensures gone: removed ==> (forall L seq :: {M[L]} goes(K_(s, path), tr(s).delimiter, L) ==> M[L] == 0 || L == K_(s, path) && !leaf(M[L]))
  ensures kept: forall L seq :: {M[L]} !goes(K_(s, path), tr(s).delimiter, L) ==> M[L] == old(M[L]) && (M[L] != 0 ==> attrs(L))
  ensures del: removed && old(stored(K_(s, path))) ==> log == dels(old(log), s.OnDeleteHandlers, path, old(M[K_(s, path)].data), s.loading == 1, len(s.OnDeleteHandlers))
