package cvt

// the names of a key (strings.Split)
fn cspl(seq, seq) seqs
fn cjn(seqs, seq) seq
axiom cspl: forall w seq, d seq :: {cspl(w, d)} len(cspl(w, d)) >= 1 && cjn(cspl(w, d), d) == w
// (the contract of strings.Split: specs/22)

lemma snocs: forall s seqs, i int, e seq :: {cat(s[:i], unit(e))} 0 <= i && i < len(s) && e == s[i] ==> cat(s[:i], unit(e)) == s[:i+1]
fn cseen(int, seq) bool
axiom cseen: forall n int, K seq :: {cseen(n, K)} cseen(n, K)
def isM(v any) := is(v, "gomap[string]any")
def asM(v any) := unbox(v, "gomap[string]any")
// no key of m is a section of another one
def cflat(m gomap[string]any, d seq) := forall k seq, w seq :: {has(m, k), has(m, w)} has(m, k) && has(m, w) && len(cspl(w, d)) <= len(cspl(k, d)) && cspl(w, d) == cspl(k, d)[:len(cspl(w, d))] ==> w == k
// x hangs in a map of the result
def catt(x gomap[string]any) := exists z gomap[string]any, q seq :: {has(z, q)} {cseen(z, q)} cseen(z, q) && isnew(z) && has(z, q) && isM(z[q]) && asM(z[q]) == x

func Deflate(m, delimiter) (data)
  option own
  requires len(delimiter) > 0 && cflat(m, delimiter)
  requires forall k seq :: {m[k]} has(m, k) ==> !isM(m[k])
  modifies alloc, gomap<string>any[new], own[new]
  inv $m:gomap[string]any != nil && isnew($m:gomap[string]any)
  inv cseen($m:gomap[string]any, "") && mnames($m:gomap[string]any) == $l:list[:$i:int] && ($i:int == 0 ? $m:gomap[string]any == $d:made : catt($m:gomap[string]any)) && 0 <= $i:int && $i:int <= len($l:list)
  inv len(mnames($d:made)) == 0
  inv tree: forall x gomap[string]any, q seq :: {has(x, q)} isnew(x) && has(x, q) && isM(x[q]) ==> isnew(asM(x[q])) && asM(x[q]) != nil && mnames(asM(x[q])) == cat(mnames(x), unit(q))
  inv only: forall x gomap[string]any, q seq :: {has(x, q)} isnew(x) && has(x, q) && !isM(x[q]) ==> (exists w seq :: {old(has(m, w))} old(has(m, w)) && cspl(w, delimiter) == cat(mnames(x), unit(q)) && x[q] == old(m[w]))
  inv full: forall x gomap[string]any, q seq :: {has(x, q)} isnew(x) && has(x, q) && isM(x[q]) ==> (exists w seq :: {old(has(m, w))} old(has(m, w)) && len(cspl(w, delimiter)) > len(mnames(x)) + 1 && cspl(w, delimiter)[:len(mnames(x)) + 1] == cat(mnames(x), unit(q)))
  inv hang: forall x gomap[string]any, q seq :: {has(x, q)} isnew(x) && has(x, q) && len(mnames(x)) > 0 ==> catt(x)
  inv root: forall x gomap[string]any, q seq :: {has(x, q)} isnew(x) && has(x, q) && len(mnames(x)) == 0 ==> x == $d:made
  inv keep: forall x gomap[string]any, q seq :: {has(x, q)} {init(has(x, q))} init(alloced(x)) && init(has(x, q)) ==> has(x, q) && x[q] == init(x[q])
  inv keep2: forall x gomap[string]any :: {mnames(x)} init(alloced(x)) ==> mnames(x) == init(mnames(x))
  inv put: forall w seq :: {$v:visited[w]} $v:visited[w] ==> (exists x gomap[string]any, q seq :: {has(x, q)} {cseen(x, q)} cseen(x, q) && isnew(x) && has(x, q) && cat(mnames(x), unit(q)) == cspl(w, delimiter) && x[q] == old(m[w]))
  ensures isnew(data) && len(mnames(data)) == 0
  ensures tree: forall x gomap[string]any, q seq :: {has(x, q)} isnew(x) && has(x, q) && isM(x[q]) ==> isnew(asM(x[q])) && mnames(asM(x[q])) == cat(mnames(x), unit(q))
  ensures only: forall x gomap[string]any, q seq :: {has(x, q)} isnew(x) && has(x, q) && !isM(x[q]) ==> (exists w seq :: {old(has(m, w))} old(has(m, w)) && cspl(w, delimiter) == cat(mnames(x), unit(q)) && x[q] == old(m[w]))
  ensures full: forall x gomap[string]any, q seq :: {has(x, q)} isnew(x) && has(x, q) && isM(x[q]) ==> (exists w seq :: {old(has(m, w))} old(has(m, w)) && len(cspl(w, delimiter)) > len(mnames(x)) + 1 && cspl(w, delimiter)[:len(mnames(x)) + 1] == cat(mnames(x), unit(q)))
  ensures hang: forall x gomap[string]any, q seq :: {has(x, q)} isnew(x) && has(x, q) && len(mnames(x)) > 0 ==> catt(x)
  ensures root: forall x gomap[string]any, q seq :: {has(x, q)} isnew(x) && has(x, q) && len(mnames(x)) == 0 ==> x == data
  ensures put: forall w seq :: {has(m, w)} has(m, w) ==> (exists x gomap[string]any, q seq :: {has(x, q)} {cseen(x, q)} cseen(x, q) && isnew(x) && has(x, q) && cat(mnames(x), unit(q)) == cspl(w, delimiter) && x[q] == old(m[w]))
