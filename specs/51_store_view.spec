package store

// ns is a new store on a view of the tree of s
def sview(ns *storeS, s *storeS, prefix seq, mode int) := ns != 0 && isnew(ns) && is(ns.Trie, "*radix.trieS") && view(tr(ns), tr(s), prefix, mode)
def settings(ns *storeS, s *storeS) := ns.parent == 0 && ns.loading == s.loading && (ns.flattenSlice <==> s.flattenSlice) && (ns.allowWatch <==> s.allowWatch)
def slive(s *storeS) := okst(s) && alloced(s) && live(tr(s))

func (*storeS).dupS(s, trie) (newStore)
  requires s != 0 && alloced(s)
  modifies alloc, storeS.*[new]
  ensures newStore != 0 && isnew(newStore) && newStore.Trie == trie && settings(newStore, s)

func (*storeS).WithPrefix(s, prefix) (newStore)
  requires slive(s)
  modifies alloc, storeS.*[new], radix.trieS.*[new], atomic.Uint32[new], Buffer[new]
  ensures view: is(newStore, "*storeS") && sview(unbox(newStore, "*storeS"), s, joined(tr(s).delimiter, cat(unit(tr(s).prefix), prefix)), tr(s).recursiveMode) && settings(unbox(newStore, "*storeS"), s)
  ensures under: len(prefix) == 1 ==> under(tr(unbox(newStore, "*storeS")), tr(s), prefix[0])

func (*storeS).WithPrefixReplaced(s, newPrefix) (newStore)
  requires slive(s)
  modifies alloc, storeS.*[new], radix.trieS.*[new], atomic.Uint32[new], Buffer[new]
  ensures view: is(newStore, "*storeS") && sview(unbox(newStore, "*storeS"), s, joined(tr(s).delimiter, newPrefix), tr(s).recursiveMode) && settings(unbox(newStore, "*storeS"), s)
  ensures one: len(newPrefix) == 1 ==> tr(unbox(newStore, "*storeS")).prefix == newPrefix[0]

func (*storeS).N(s) (newStore)
  requires slive(s)
  modifies alloc, storeS.*[new], radix.trieS.*[new], atomic.Uint32[new], Buffer[new]
  ensures view: is(newStore, "*storeS") && sview(unbox(newStore, "*storeS"), s, tr(s).prefix, 0) && settings(unbox(newStore, "*storeS"), s)

func (*storeS).R(s) (newStore)
  requires slive(s)
  modifies alloc, storeS.*[new], radix.trieS.*[new], atomic.Uint32[new], Buffer[new]
  ensures view: is(newStore, "*storeS") && sview(unbox(newStore, "*storeS"), s, tr(s).prefix, 2) && settings(unbox(newStore, "*storeS"), s)

func (*storeS).BR(s) (newStore)
  requires slive(s)
  modifies alloc, storeS.*[new], radix.trieS.*[new], atomic.Uint32[new], Buffer[new]
  ensures view: is(newStore, "*storeS") && sview(unbox(newStore, "*storeS"), s, tr(s).prefix, 1) && settings(unbox(newStore, "*storeS"), s)

func (*storeS).SetPrefix(s, newPrefix) ()
  requires slive(s)
  modifies radix.trieS.prefix[tr(s)], alloc, Buffer[new]
  ensures joined: tr(s).prefix == joined(tr(s).delimiter, newPrefix)
  ensures one: len(newPrefix) == 1 ==> tr(s).prefix == newPrefix[0]

pool store.prefixJointPool -> *bytes.Buffer

func (*storeS).join(s, args) (ret)
  requires slive(s)
  modifies alloc, Buffer[new]
  inv content($b:*bytes.Buffer) == acc(tr(s).delimiter, args, $i:int)
  inv $n:int >= 0 && ($n:int == 0 <==> content($b:*bytes.Buffer) == "")
  ensures all: ret == joined(tr(s).delimiter, args)
  ensures two: len(args) == 2 ==> ret == join2(tr(s).delimiter, args[0], args[1])

func (*storeS).Dup(s) (newStore)
  requires slive(s) && wf(tr(s)) && cloneable()
  modifies alloc, radix.nodeS.*[new], radix.trieS.*[new], atomic.Uint32[new], storeS.*[new], D
  ensures mirror: mirror()
  ensures new: is(newStore, "*storeS") && unbox(newStore, "*storeS") != 0 && isnew(unbox(newStore, "*storeS")) && okst(unbox(newStore, "*storeS")) && settings(unbox(newStore, "*storeS"), s)
  ensures tree: isnew(tr(unbox(newStore, "*storeS"))) && tr(unbox(newStore, "*storeS")).root == D[emp] && tr(unbox(newStore, "*storeS")).prefix == tr(s).prefix && tr(unbox(newStore, "*storeS")).delimiter == tr(s).delimiter && tr(unbox(newStore, "*storeS")).recursiveMode == tr(s).recursiveMode

func (*storeS).Clone(s) (newStore)
  requires slive(s) && wf(tr(s)) && cloneable()
  modifies alloc, radix.nodeS.*[new], radix.trieS.*[new], atomic.Uint32[new], storeS.*[new], D
  ensures mirror: mirror()
  ensures new: is(newStore, "*storeS") && unbox(newStore, "*storeS") != 0 && isnew(unbox(newStore, "*storeS")) && okst(unbox(newStore, "*storeS")) && settings(unbox(newStore, "*storeS"), s)
  ensures tree: isnew(tr(unbox(newStore, "*storeS"))) && tr(unbox(newStore, "*storeS")).root == D[emp] && tr(unbox(newStore, "*storeS")).prefix == tr(s).prefix && tr(unbox(newStore, "*storeS")).delimiter == tr(s).delimiter && tr(unbox(newStore, "*storeS")).recursiveMode == tr(s).recursiveMode
