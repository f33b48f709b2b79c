package radix

// the names of a text (strings.Split) and their join (strings.Join)
fn spl(seq, int) seqs
fn jnn(seqs, int) seq
fn nms(seqs, int) bool
axiom nms: forall l seqs, d int :: {nms(l, d)} nms(l, d) <==> (forall i int :: {l[i]} 0 <= i && i < len(l) ==> okS(l[i]) && (forall j int :: {l[i][j]} 0 <= j && j < len(l[i]) ==> l[i][j] != d))
axiom spl: forall w seq, d int :: {spl(w, d)} 0 < d && d < 128 ==> len(spl(w, d)) >= 1 && jnn(spl(w, d), d) == w && (okS(w) ==> nms(spl(w, d), d))
axiom spl1: forall w seq, d int :: {spl(w, d)} len(spl(w, d)) > 1 ==> (exists i int :: {w[i]} 0 <= i && i < len(w) && w[i] == d)
axiom jnn: forall l seqs, d int :: {jnn(l, d)} 0 < d && d < 128 && nms(l, d) && len(l) >= 1 ==> spl(jnn(l, d), d) == l && okS(jnn(l, d))
extern func strings::Split(w, sep) (r)
  ensures len(sep) == 1 ==> r == spl(w, sep[0])
  ensures len(sep) > 0 ==> r == cspl(w, sep)
extern func strings::Contains(w, sep) (b)
  ensures len(sep) == 1 ==> (b <==> (exists i int :: {w[i]} 0 <= i && i < len(w) && w[i] == sep[0]))
extern func strings::Join(l, sep) (r)
  ensures len(sep) == 1 ==> r == jnn(l, sep[0])

// the path w with the last k of its enclosing names dropped
fn upw(seq, int, int) seq
axiom upw: forall w seq, d int, k int :: {upw(w, d, k)} 0 <= k && k < len(spl(w, d)) ==> upw(w, d, k) == jnn(cat(spl(w, d)[:len(spl(w, d)) - 1 - k], unit(spl(w, d)[len(spl(w, d)) - 1])), d)
lemma lastof: forall l seqs :: {l[len(l) - 1]} len(l) > 0 ==> eqs(cat(l[:len(l) - 1], unit(l[len(l) - 1])), l)
lemma upw0: forall w seq, d int, k int :: {upw(w, d, k)} k == 0 && 0 < d && d < 128 ==> upw(w, d, k) == w
lemma cutof: forall l seqs, m int, x seq :: {cat(l[:m], unit(x))} 1 <= m && m <= len(l) ==> eqs(cat(l[:m], unit(x))[:len(cat(l[:m], unit(x))) - 2], l[:m - 1]) && cat(l[:m], unit(x))[len(cat(l[:m], unit(x))) - 1] == x
lemma upwn: forall w seq, d int, k int :: {upw(w, d, k)} 0 < d && d < 128 && okS(w) && 0 <= k && k < len(spl(w, d)) ==> okS(upw(w, d, k)) && len(spl(upw(w, d, k), d)) == len(spl(w, d)) - k
lemma upws: forall w seq, d int, k int :: {upw(w, d, k)} 0 < d && d < 128 && okS(w) && 0 <= k && k + 1 < len(spl(w, d)) ==> upw(w, d, k + 1) == jnn(cat(spl(upw(w, d, k), d)[:len(spl(upw(w, d, k), d)) - 2], unit(spl(upw(w, d, k), d)[len(spl(upw(w, d, k), d)) - 1])), d)

def cnt(s *trieS, w seq) := len(spl(w, s.delimiter))
def U(s *trieS, w seq, k int) := dec(upw(w, s.delimiter, k))
// k enclosing names have to be dropped to find something (0 if nothing is found at all)
def near(s *trieS, w seq, k int) := (k == 0 ? present(s, dec(w)) || (forall j int :: {upw(w, s.delimiter, j)} 1 <= j && j <= cnt(s, w) - 2 ==> !present(s, U(s, w, j)))
   : 1 <= k && k <= cnt(s, w) - 2 && !present(s, dec(w)) && present(s, U(s, w, k)) && (forall j int :: {upw(w, s.delimiter, j)} 1 <= j && j < k ==> !present(s, U(s, w, j))))
def askup(s *trieS, path seq) := wf(s) && plain(s.delimiter) && okS(path) && okS(s.prefix) && s.recursiveMode == 1
func (*trieS).search@up(s, word, kvpair) (found, parent, partialMatched)
  option merge
  option invsecs 20
  option opaque Inv Br plain pres* shape* srch*
  requires wf(s) && plain(s.delimiter) && okS(word) && s.recursiveMode == 1
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new]
  entry root: key(s.root) == emp && len(s.root.path) == 0 && base(s.root) == emp
  inv $w:string == upw(word, s.delimiter, cnt(s, word) - cnt(s, $w:string)) && cnt(s, $w:string) <= cnt(s, word)
  inv forall j int :: {upw(word, s.delimiter, j)} 0 <= j && j <= cnt(s, word) - cnt(s, $w:string) ==> !present(s, U(s, word, j))
  ensures found: forall w seq, k int :: {upw(w, s.delimiter, k)} w == word && near(s, w, k) ==> srch(U(s, w, k), s.delimiter, found, partialMatched)

func (*trieS).Query@up(s, path, kvpair) (data, branch, found, err)
  option merge
  requires askup(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures hit: forall w seq, k int :: {upw(w, s.delimiter, k)} w == fk(s, path) && near(s, w, k) ==> hit(s, U(s, w, k), data, branch, found)
  ensures err: found <==> err == nil

func (*trieS).Get@up(s, path) (data, found)
  option opaque Inv Br plain near*
  requires askup(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures hit: forall w seq, k int :: {upw(w, s.delimiter, k)} w == fk(s, path) && near(s, w, k) ==> hit(s, U(s, w, k), data, false, found)

func (*trieS).MustGet@up(s, path) (data)
  option opaque Inv Br plain
  requires askup(s, path)
  modifies alloc, matchCtx.fullPath[new], matchCtx.delimiter[new], Buffer[new]
  ensures hit: forall w seq, k int :: {upw(w, s.delimiter, k)} w == fk(s, path) && near(s, w, k) && stored(U(s, w, k)) ==> data == (hasdata(M[U(s, w, k)]) ? M[U(s, w, k)].data : nil)
  ensures miss: forall w seq, k int :: {upw(w, s.delimiter, k)} w == fk(s, path) && near(s, w, k) && data != nil ==> stored(U(s, w, k)) || K_ends(s, U(s, w, k)) || M[cat(U(s, w, k), unit(s.delimiter))] != 0
