package store

func (*storeS).Get@up(s, path) (data, found)
  option opaque Inv Br plain near*
  requires okst(s) && askup(tr(s), path)
  modifies alloc, radix.matchCtx.fullPath[new], radix.matchCtx.delimiter[new], Buffer[new]
  ensures hit: forall w seq, k int :: {upw(w, tr(s).delimiter, k)} w == fk(tr(s), path) && near(tr(s), w, k) ==> hit(tr(s), U(tr(s), w, k), data, false, found)

func (*storeS).MustGet@up(s, path) (data)
  option opaque Inv Br plain near*
  requires okst(s) && askup(tr(s), path)
  modifies alloc, radix.matchCtx.fullPath[new], radix.matchCtx.delimiter[new], Buffer[new]
  ensures hit: forall w seq, k int :: {upw(w, tr(s).delimiter, k)} w == fk(tr(s), path) && near(tr(s), w, k) && stored(U(tr(s), w, k)) ==> data == (hasdata(M[U(tr(s), w, k)]) ? M[U(tr(s), w, k)].data : nil)
  ensures miss: forall w seq, k int :: {upw(w, tr(s).delimiter, k)} w == fk(tr(s), path) && near(tr(s), w, k) && data != nil ==> stored(U(tr(s), w, k)) || K_ends(tr(s), U(tr(s), w, k)) || M[cat(U(tr(s), w, k), unit(tr(s).delimiter))] != 0
