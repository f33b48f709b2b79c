package radix

// starts the expiry worker of a view; expiry is outside the properties decided here
trusted func (*TTL).dupS(s) (r)
  modifies alloc

// t is a new view of the tree of s
def view(t *trieS, s *trieS, prefix seq, mode int) := t != 0 && isnew(t) && t.root == s.root && t.prefix == prefix && t.delimiter == s.delimiter && t.recursiveMode == mode
def live(s *trieS) := s != 0 && alloced(s) && 0 < s.delimiter && s.delimiter < 128
// the key k of the view is the key p<d>k of the tree it was made from
def under(t *trieS, s *trieS, p seq) := forall k seq :: {need(t, k)} need(t, k) ==> eqs(cat(s.prefix, cat(unit(s.delimiter), cat(p, cat(unit(s.delimiter), k)))), cat(cat(s.prefix, cat(unit(s.delimiter), p)), cat(unit(s.delimiter), k))) && fk(t, k) == fk(s, join2(s.delimiter, p, k))

func (*trieS).dupS(s, root, prefix) (newTrie)
  requires s != 0
  modifies alloc, trieS.*[new], atomic.Uint32[new]
  ensures newTrie != 0 && isnew(newTrie) && newTrie.root == root && newTrie.prefix == prefix && newTrie.delimiter == s.delimiter && newTrie.recursiveMode == s.recursiveMode

func (*trieS).WithPrefix(s, prefix) (entry)
  requires live(s)
  modifies alloc, trieS.*[new], atomic.Uint32[new], Buffer[new]
  ensures view: is(entry, "*trieS") && view(unbox(entry, "*trieS"), s, joined(s.delimiter, cat(unit(s.prefix), prefix)), s.recursiveMode)
  hint one: len(prefix) == 1 ==> acc(s.delimiter, cat(unit(s.prefix), prefix), 1) == s.prefix && acc(s.delimiter, cat(unit(s.prefix), prefix), 2) == join2(s.delimiter, s.prefix, prefix[0])
  ensures one: len(prefix) == 1 ==> unbox(entry, "*trieS").prefix == join2(s.delimiter, s.prefix, prefix[0])
  ensures under: len(prefix) == 1 ==> under(unbox(entry, "*trieS"), s, prefix[0])

func (*trieS).withPrefixImpl(s, prefix) (entry)
  requires live(s)
  modifies alloc, trieS.*[new], atomic.Uint32[new], Buffer[new]
  ensures view: view(entry, s, joined(s.delimiter, cat(unit(s.prefix), prefix)), s.recursiveMode)
  hint one: len(prefix) == 1 ==> acc(s.delimiter, cat(unit(s.prefix), prefix), 1) == s.prefix && acc(s.delimiter, cat(unit(s.prefix), prefix), 2) == join2(s.delimiter, s.prefix, prefix[0])
  ensures one: len(prefix) == 1 ==> entry.prefix == join2(s.delimiter, s.prefix, prefix[0])
  ensures under: len(prefix) == 1 ==> under(entry, s, prefix[0])

func (*trieS).WithPrefixReplaced(s, newPrefix) (entry)
  requires live(s)
  modifies alloc, trieS.*[new], atomic.Uint32[new], Buffer[new]
  ensures view: is(entry, "*trieS") && view(unbox(entry, "*trieS"), s, joined(s.delimiter, newPrefix), s.recursiveMode)
  hint one: len(newPrefix) == 1 ==> acc(s.delimiter, newPrefix, 1) == newPrefix[0]
  ensures one: len(newPrefix) == 1 ==> unbox(entry, "*trieS").prefix == newPrefix[0]

func (*trieS).withPrefixReplacedImpl(s, newPrefix) (entry)
  requires live(s)
  modifies alloc, trieS.*[new], atomic.Uint32[new], Buffer[new]
  ensures view: view(entry, s, joined(s.delimiter, newPrefix), s.recursiveMode)
  hint one: len(newPrefix) == 1 ==> acc(s.delimiter, newPrefix, 1) == newPrefix[0]
  ensures one: len(newPrefix) == 1 ==> entry.prefix == newPrefix[0]

func (*trieS).N(s) (entry)
  requires live(s)
  modifies alloc, trieS.*[new], atomic.Uint32[new], Buffer[new]
  ensures view: is(entry, "*trieS") && view(unbox(entry, "*trieS"), s, s.prefix, RecusiveNone)

func (*trieS).R(s) (entry)
  requires live(s)
  modifies alloc, trieS.*[new], atomic.Uint32[new], Buffer[new]
  ensures view: is(entry, "*trieS") && view(unbox(entry, "*trieS"), s, s.prefix, RecusiveDown)

func (*trieS).BR(s) (entry)
  requires live(s)
  modifies alloc, trieS.*[new], atomic.Uint32[new], Buffer[new]
  ensures view: is(entry, "*trieS") && view(unbox(entry, "*trieS"), s, s.prefix, RecusiveUp)

func (*trieS).SetPrefix(s, newPrefix) ()
  requires live(s)
  modifies trieS.prefix[s], alloc, Buffer[new]
  hint one: len(newPrefix) == 1 ==> acc(s.delimiter, newPrefix, 1) == newPrefix[0]
  ensures joined: s.prefix == joined(s.delimiter, newPrefix)
  ensures one: len(newPrefix) == 1 ==> s.prefix == newPrefix[0]

