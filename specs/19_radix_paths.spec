package radix

def okd(d int) := 0 < d && d < 128 && d != 32 && d != 58 && d != 42 && !(48 <= d && d <= 57)
// a name or a path without blanks and wildcards
fn pth(seq, int) bool
axiom _pth: forall p seq, d int :: {pth(p, d)} pth(p, d) <==> okS(p) && noblank(p) && plainkey(cat(unit(d), dec(p)), d)
lemma pth1: forall p seq, d int :: {pth(p, d)} pth(p, d) ==> okS(p) && noblank(p) && (forall i int :: {dec(p)[i]} 0 < i && i < len(dec(p)) && cat(unit(d), dec(p))[i] == d ==> cat(unit(d), dec(p))[i+1] != 58 && cat(unit(d), dec(p))[i+1] != 42)
lemma pth2a: forall p seq, k seq, d int :: {pth(p, d), pth(k, d), cat(p, cat(unit(d), k))} okd(d) && pth(p, d) && pth(k, d) ==> okS(cat(unit(d), k)) && okS(cat(p, cat(unit(d), k))) && eqs(dec(cat(p, cat(unit(d), k))), cat(dec(p), cat(unit(d), dec(k))))
lemma pth2b: forall p seq, k seq, d int :: {pth(p, d), pth(k, d), cat(p, cat(unit(d), k))} okd(d) && pth(p, d) && pth(k, d) ==> noblank(cat(p, cat(unit(d), k)))
lemma pth2c: forall a seq, b seq, d int :: {cat(unit(d), cat(a, cat(unit(d), b)))} okd(d) && plainkey(cat(unit(d), a), d) && plainkey(cat(unit(d), b), d) ==> plainkey(cat(unit(d), cat(a, cat(unit(d), b))), d)
lemma pth2: forall p seq, k seq, d int :: {pth(cat(p, cat(unit(d), k)), d)} okd(d) && pth(p, d) && pth(k, d) ==> pth(cat(p, cat(unit(d), k)), d)
lemma pth2d: forall p seq, k seq, d int :: {pth(p, d), pth(k, d), cat(p, cat(unit(d), k))} okd(d) && pth(p, d) && pth(k, d) ==> pth(cat(p, cat(unit(d), k)), d)
// a path without blanks and wildcards, whatever the delimiter
fn pathname(seq) bool
axiom pathname: forall k seq, q seq, d int :: {pathname(k), pth(q, d)} pathname(k) && okd(d) ==> pth(k, d)
// a and b joined
fn jn(seq, seq, int) seq
axiom jn: forall a seq, b seq, d int :: {jn(a, b, d)} jn(a, b, d) == (b == emp ? a : (a == emp ? b : cat(a, cat(unit(d), b))))
// K is J or beneath it (everything is beneath the empty path)
fn rg(seq, seq, int) bool
axiom _rg: forall J seq, K seq, d int :: {rg(J, K, d)} rg(J, K, d) <==> J == emp || K == J || pfx(cat(J, unit(d)), K)
fn simple(seq, int) bool
axiom _simple: forall a seq, d int :: {simple(a, d)} simple(a, d) <==> a != emp && (forall i int :: {a[i]} 0 <= i && i < len(a) ==> a[i] != d)
lemma rg0: forall J seq, d int :: {rg(J, J, d)} rg(J, J, d)
lemma rg1: forall J seq, K seq, L seq, d int :: {rg(J, K, d), rg(K, L, d)} rg(J, K, d) && rg(K, L, d) && K != emp ==> rg(J, L, d)
lemma rg2: forall J seq, k seq, d int :: {rg(J, jn(J, k, d), d)} rg(J, jn(J, k, d), d)
fn ended(seq, seq, seq, int) bool
axiom _ended: forall X seq, a seq, K seq, d int :: {ended(X, a, K, d)} ended(X, a, K, d) <==> K == cat(X, a) || pfx(cat(cat(X, a), unit(d)), K)
lemma en0: forall X seq, a seq, K seq, d int :: {ended(X, a, K, d)} ended(X, a, K, d) ==> len(K) >= len(X) + len(a) && (len(K) > len(X) + len(a) ==> K[len(X) + len(a)] == d) && (forall i int :: {a[i]} 0 <= i && i < len(a) ==> K[len(X) + i] == a[i])
lemma en1: forall X seq, a seq, b seq, K seq, d int :: {ended(X, a, K, d), ended(X, b, K, d)} simple(a, d) && simple(b, d) && ended(X, a, K, d) && ended(X, b, K, d) ==> len(a) >= len(b)
lemma en2: forall X seq, a seq, b seq, K seq, d int :: {ended(X, a, K, d), ended(X, b, K, d)} simple(a, d) && simple(b, d) && ended(X, a, K, d) && ended(X, b, K, d) && len(a) == len(b) ==> eqs(a, b)
lemma en3: forall P seq, a seq, K seq, d int :: {rg(jn(P, a, d), K, d)} simple(a, d) && rg(jn(P, a, d), K, d) ==> a != emp && (P == emp ==> ended(emp, a, K, d)) && (P != emp ==> ended(cat(P, unit(d)), a, K, d))
lemma rg3: forall P seq, a seq, b seq, K seq, d int :: {rg(jn(P, a, d), K, d), rg(jn(P, b, d), K, d)} simple(a, d) && simple(b, d) && a != b ==> !(rg(jn(P, a, d), K, d) && rg(jn(P, b, d), K, d))
lemma rg4: forall P seq, k seq, q seq, d int :: {rg(jn(P, k, d), jn(P, cat(k, cat(unit(d), q)), d), d)} rg(jn(P, k, d), jn(P, cat(k, cat(unit(d), q)), d), d)
lemma rg5: forall P seq, k seq, K seq, d int :: {rg(jn(P, k, d), K, d)} rg(jn(P, k, d), K, d) ==> rg(P, jn(P, k, d), d) && rg(P, K, d)
lemma rg6: forall P seq, k seq, q seq, K seq, d int :: {rg(jn(P, cat(k, cat(unit(d), q)), d), K, d)} rg(jn(P, cat(k, cat(unit(d), q)), d), K, d) ==> rg(jn(P, k, d), jn(P, cat(k, cat(unit(d), q)), d), d) && rg(jn(P, k, d), K, d)
lemma rg7: forall k seq, q seq, K seq, d int :: {rg(cat(k, cat(unit(d), q)), K, d)} rg(cat(k, cat(unit(d), q)), K, d) ==> rg(k, K, d)
lemma jn2: forall p seq, k seq, d int :: {pth(p, d), pth(k, d), cat(p, cat(unit(d), k))} okd(d) && pth(p, d) && pth(k, d) && k != emp && p != emp ==> dec(cat(p, cat(unit(d), k))) == jn(dec(p), dec(k), d)
def kept3(J seq, d int) := forall K seq :: {M[K]} old(M[K]) != 0 && !rg(J, K, d) ==> M[K] != 0 && attrs(K)
def added3(J seq, d int) := forall K seq :: {M[K]} old(M[K]) == 0 && M[K] != 0 && !rg(J, K, d) ==> M[K].nType == 0
// nothing is newly marked as modified
def unmarked() := forall K seq :: {M[K]} M[K] != 0 && M[K].nType & 8 == 8 ==> old(M[K]) != 0 && old(M[K].nType) & 8 == 8

// decimal digits
fn itoa(int) seq
axiom itoa: forall i int :: {itoa(i)} i >= 0 ==> itoa(i) != emp && okS(itoa(i)) && dec(itoa(i)) == itoa(i) && (forall j int :: {itoa(i)[j]} 0 <= j && j < len(itoa(i)) ==> 48 <= itoa(i)[j] && itoa(i)[j] <= 57)
axiom itoa1: forall i int, j int :: {itoa(i), itoa(j)} i >= 0 && j >= 0 && itoa(i) == itoa(j) ==> i == j
lemma it1: forall i int, d int :: {pth(itoa(i), d)} okd(d) && i >= 0 ==> pth(itoa(i), d)
lemma it2: forall i int, d int :: {simple(itoa(i), d)} okd(d) && i >= 0 ==> simple(itoa(i), d)
lemma it3: forall k seq, d int, i int :: {cat(cat(k, unit(d)), itoa(i))} eqs(cat(cat(k, unit(d)), itoa(i)), cat(k, cat(unit(d), itoa(i))))
lemma it4: forall k seq, d int, i int :: {pth(k, d), cat(cat(k, unit(d)), itoa(i))} okd(d) && pth(k, d) && i >= 0 ==> pth(itoa(i), d) && pth(cat(k, cat(unit(d), itoa(i))), d) && cat(cat(k, unit(d)), itoa(i)) == cat(k, cat(unit(d), itoa(i))) && dec(cat(k, cat(unit(d), itoa(i)))) == cat(dec(k), cat(unit(d), itoa(i)))
extern func strconv::AppendInt(dst, i, base) (r)
  ensures base == 10 && i >= 0 ==> r == cat(dst, itoa(i))

// leaf(J, v, K, x): the value v merged at the path J has the leaf x at the
// path K.  The contracts hold for every such relation that can be taken apart
// along v (nested() ==> RD(...)); the least one is meant.
fn leafat(seq, any, seq, any) bool
fn leafat0(seq, any, seq, any) bool
fn nested() bool
axiom leafat: forall J seq, v any, K seq, x any :: {leafat(J, v, K, x)} leafat(J, v, K, x) <==> leafat0(J, v, K, x)
def put(J seq, v any) := forall K seq, x any :: {leafat0(J, v, K, x)} leafat0(J, v, K, x) ==> stored(K) && hasdata(M[K]) && M[K].data == x
lemma jn4: forall P seq, k seq, q seq, d int :: {jn(P, cat(k, cat(unit(d), q)), d)} k != emp && q != emp ==> jn(P, cat(k, cat(unit(d), q)), d) == jn(jn(P, k, d), q, d)

