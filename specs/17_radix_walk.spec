package radix

// P tells at which place of the log a key was handed to the callback, Q which node was
ghost P map[seq]int
ghost Q map[int]*nodeS

def visit(cb int, K seq) := ev(cb, M[K].pathS, enc(M[K].path), box(M[K], "*nodeS"))
// the log kept what it had
def longer() := len(log) >= len(old(log)) && (forall x int :: {log[x]} {old(log)[x]} 0 <= x && x < len(old(log)) ==> log[x] == old(log)[x])
// K was handed over at P[K], and nothing else was
def once(cb int, K seq) := len(old(log)) <= P[K] && P[K] < len(log) && log[P[K]] == visit(cb, K) && Q[P[K]] == M[K]

func (*nodeS).walk(s, level, cb) ()
  option merge
  option invsecs 8
  requires N(s) && I0() && I1() && I2() && I3() && I5() && cb != nil
  modifies log, P, Q
  ghost P := upd(P, key(s), len(old(log)))
  ghost Q := upd(Q, len(old(log)), s)
  entry e1: forall j int :: {s.children[j]} 0 <= j && j < len(s.children) ==> beneath(key(s), key(s.children[j])) && beneath(key(s.children[j]), key(s.children[j])) && !beneath(key(s.children[j]), key(s))
  entry e3: forall K seq, j int, k int :: {beneath(key(s.children[j]), K), beneath(key(s.children[k]), K)} 0 <= j && j < len(s.children) && 0 <= k && k < len(s.children) && j != k ==> !(beneath(key(s.children[j]), K) && beneath(key(s.children[k]), K))
  entry e4: forall K seq :: {need(s, K)} need(s, K) && bdef(key(s), K) && M[K] != 0 && beneath(key(s), K) && K != key(s) ==> (exists j int :: {s.children[j]} 0 <= j && j < len(s.children) && bdef(key(s.children[j]), K) && beneath(key(s.children[j]), K))
  inv longer() && len(log) > len(old(log)) && log[len(old(log))] == visit(cb, key(s))
  inv forall K seq, j int :: {M[K], s.children[j]} {P[K], s.children[j]} 0 <= j && j <= $i:int && j < len(s.children) && M[K] != 0 && beneath(key(s.children[j]), K) ==> len(old(log)) < P[K] && once(cb, K)
  inv forall K seq, j int :: {M[K], s.children[j]} {P[K], s.children[j]} 0 <= j && j < $i:int && j < len(s.children) && M[K] != 0 && beneath(key(s.children[j]), K) ==> len(old(log)) < P[K] && once(cb, K)
  inv forall x int :: {Q[x]} len(old(log)) < x && x < len(log) ==> N(Q[x]) && beneath(key(s), key(Q[x])) && P[key(Q[x])] == x && key(Q[x]) != key(s)
  inv forall x int, k int :: {Q[x], s.children[k]} len(old(log)) < x && x < len(log) && $i:int < k && k < len(s.children) ==> !beneath(key(s.children[k]), key(Q[x]))
  inv forall x int, k int :: {Q[x], s.children[k]} len(old(log)) < x && x < len(log) && $i:int <= k && k < len(s.children) ==> !beneath(key(s.children[k]), key(Q[x]))
  inv forall K seq :: {P[K]} !beneath(key(s), K) ==> P[K] == old(P[K])
  inv forall x int :: {Q[x]} x < len(old(log)) ==> Q[x] == old(Q[x])
  ensures longer: longer()
  hint self: once(cb, key(s)) && beneath(key(s), key(s))
  ensures each: forall K seq :: {P[K]} {M[K]} M[K] != 0 && need(s, K) && beneath(key(s), K) ==> once(cb, K)
  ensures only: forall x int :: {Q[x]} {log[x]} len(old(log)) <= x && x < len(log) ==> N(Q[x]) && beneath(key(s), key(Q[x])) && P[key(Q[x])] == x
  ensures frameP: forall K seq :: {P[K]} !beneath(key(s), K) ==> P[K] == old(P[K])
  ensures frameQ: forall x int :: {Q[x]} x < len(old(log)) ==> Q[x] == old(Q[x])

func (*nodeS).Walk(s, cb) ()
  requires N(s) && I0() && I1() && I2() && I3() && I5() && cb != nil
  modifies log, P, Q
  hint back: forall x int :: {Q[x]} len(old(log)) <= x && x < len(log) ==> bdef(key(s), key(Q[x]))
  ensures longer: longer()
  ensures each: forall K seq :: {P[K]} {M[K]} M[K] != 0 && need(s, K) && bdef(key(s), K) && pfx(key(s), K) ==> once(cb, K)
  ensures only: forall x int :: {Q[x]} {log[x]} len(old(log)) <= x && x < len(log) ==> N(Q[x]) && bdef(key(s), key(Q[x])) && pfx(key(s), key(Q[x])) && P[key(Q[x])] == x

func (*trieS).Walk(s, path, cb) ()
  requires ask(s, path) && cb != nil
  modifies log, P, Q, alloc, matchCtx.fullPath[new], matchCtx.delimiter[new]
  ensures longer: longer()
  hint root: path == "" ==> key(s.root) == emp
  ensures each: forall K seq :: {P[K]} {M[K]} path == "" && M[K] != 0 && need(s.root, K) && bdef(emp, K) ==> once(cb, K)
  ensures only: forall x int :: {Q[x]} {log[x]} len(old(log)) <= x && x < len(log) ==> N(Q[x]) && P[key(Q[x])] == x
