package store

// an event of a watched provider: evn pairs, handed out one after another
ghost evpos int
fn evn(any) int
fn evkey(any, int) seq
fn evval(any, int) any
fn evhas(any, int) bool
extern func store::(Change).Has(ev, op) (b)
  ensures b <==> evhas(ev, op)
extern func store::(Change).Op(ev) (op)
extern func store::(Change).Next(ev) (key, val, ok)
  modifies evpos
  ensures ok <==> old(evpos) < evn(ev)
  ensures evpos == (ok ? old(evpos) + 1 : old(evpos))
  ensures ok ==> key == evkey(ev, old(evpos)) && val == evval(ev, old(evpos)) && pathname(key) && key != ""
fn fkd(seq, seq, int) seq
axiom fkd: forall p seq, k seq, d int :: {fkd(p, k, d)} fkd(p, k, d) == dec(p == "" ? k : join2(d, p, k))
def KK(s *storeS, ev any, i int) := fkd(tr(s).prefix, evkey(ev, i), tr(s).delimiter)
def cw(ev any) := evhas(ev, 1) || evhas(ev, 2)
def rm(ev any) := !cw(ev) && evhas(ev, 4)
def pairs(s *storeS, ev any, n int) := forall i int :: {evval(ev, i)} 0 <= i && i < n && (forall j int :: {evkey(ev, j)} i < j && j < n ==> KK(s, ev, j) != KK(s, ev, i)) ==> stored(KK(s, ev, i)) && hasdata(M[KK(s, ev, i)]) && M[KK(s, ev, i)].data == evval(ev, i)
def keptby(s *storeS, ev any, n int) := forall K seq :: {M[K]} old(M[K]) != 0 && (forall i int :: {evkey(ev, i)} 0 <= i && i < n ==> K != KK(s, ev, i)) ==> M[K] != 0 && attrs(K)
def goneby(s *storeS, ev any, n int) := forall i int :: {evval(ev, i)} 0 <= i && i < n ==> !stored(KK(s, ev, i))
def lessby(s *storeS, ev any, n int) := forall K seq :: {M[K]} (forall i int :: {evkey(ev, i)} 0 <= i && i < n ==> !goes(KK(s, ev, i), tr(s).delimiter, K)) ==> M[K] == old(M[K]) && (M[K] != 0 ==> attrs(K))
def noneby(s *storeS) := forall K seq :: {M[K]} M[K] != 0 && leaf(M[K]) ==> old(M[K]) != 0 && old(leaf(M[K]))

func (*storeS).applyChanges(s, ev) ()
  option invsecs 15
  option opaque Inv Br
  requires sok(s) && pth(tr(s).prefix, tr(s).delimiter) && ev != nil && evpos == 0 && evn(ev) >= 0
  modifies radix.nodeS.path, radix.nodeS.pathS, radix.nodeS.children, radix.nodeS.nType, radix.nodeS.description, radix.nodeS.comment, radix.nodeS.tag, radix.nodeS.data, alloc, M, log, evpos
  modifies radix.nodeS.rw, Buffer[new], radix.matchCtx.fullPath[new], radix.matchCtx.delimiter[new]
  inv sok(s) && tr(s).root == old(tr(s).root)
  inv 0 <= evpos && evpos <= evn(ev)
  inv cw(ev) ==> pairs(s, ev, evpos)
  inv cw(ev) ==> keptby(s, ev, evpos)
  inv rm(ev) ==> goneby(s, ev, evpos)
  inv rm(ev) ==> lessby(s, ev, evpos)
  inv !cw(ev) && !rm(ev) ==> untouched()
  ensures tree: tree(s)
  ensures all: cw(ev) || rm(ev) ==> evpos == evn(ev)
  ensures set: cw(ev) ==> pairs(s, ev, evn(ev))
  ensures kept: cw(ev) ==> keptby(s, ev, evn(ev))
  ensures gone: rm(ev) ==> goneby(s, ev, evn(ev))
  ensures less: rm(ev) ==> lessby(s, ev, evn(ev))
  ensures none: !cw(ev) && !rm(ev) ==> untouched()

func (*storeS).applyExternalChanges(s, event, err) ()
  option opaque Inv Br plain
  requires sok(s) && pth(tr(s).prefix, tr(s).delimiter) && evpos == 0 && evn(event) >= 0
  modifies radix.nodeS.path, radix.nodeS.pathS, radix.nodeS.children, radix.nodeS.nType, radix.nodeS.description, radix.nodeS.comment, radix.nodeS.tag, radix.nodeS.data, alloc, M, log, evpos
  modifies radix.nodeS.rw, Buffer[new], radix.matchCtx.fullPath[new], radix.matchCtx.delimiter[new]
  ensures tree: tree(s)
  ensures set: err == nil && implements(event, "Change") && cw(event) ==> pairs(s, event, evn(event)) && evpos == evn(event)
  ensures gone: err == nil && implements(event, "Change") && rm(event) ==> goneby(s, event, evn(event)) && evpos == evn(event)
  ensures none: err != nil || !implements(event, "Change") || !cw(event) && !rm(event) ==> untouched()
