package env

extern func regexp::MustCompile(s) (re)
  ensures re != nil
extern func regexp::(*Regexp).ReplaceAllString(re, s, r) (t)
extern func os::Environ() (l)
extern func strings::Index(s, t) (i)
  ensures -1 <= i && i < len(s) || i == 0
  ensures i >= 0 ==> i + len(t) <= len(s) && s[i:i+len(t)] == t

// every key is listed once, and has a value
def okp_env(s *pvdr) := s.m != 0 && 0 <= s.pos && s.pos <= len(s.keys) && (forall i int, j int :: {s.keys[i], s.keys[j]} 0 <= i && i < j && j < len(s.keys) ==> s.keys[i] != s.keys[j])
   && (forall i int :: {s.keys[i]} 0 <= i && i < len(s.keys) ==> has(s.m, s.keys[i])) && (forall k seq :: {has(s.m, k)} has(s.m, k) ==> (exists i int :: {s.keys[i]} 0 <= i && i < len(s.keys) && s.keys[i] == k))

func (*pvdr).prepare(s) (err)
  requires s != nil && alloced(s)
  modifies pvdr.keys[s], pvdr.m[s], pvdr.pos[s], alloc, log, gomap<string>store.ValPkg[new]
  option merge
  inv isnew(s.m)
  inv forall i int :: {s.keys[i]} 0 <= i && i < len(s.keys) ==> has(s.m, s.keys[i])
  inv forall k seq :: {has(s.m, k)} has(s.m, k) ==> (exists i int :: {s.keys[i]} 0 <= i && i < len(s.keys) && s.keys[i] == k)
  inv forall i int, j int :: {s.keys[i], s.keys[j]} 0 <= i && i < j && j < len(s.keys) ==> s.keys[i] != s.keys[j]
  ensures ok: okp_env(s)
  ensures start: s.pos == 0 && err == nil

func lemmaNew(opts) (ret)
  requires forall i int :: {opts[i]} 0 <= i && i < len(opts) ==> opts[i] != 0
  option merge
  modifies alloc, log, gomap<string>store.ValPkg[new], pvdr.*[new]
  ensures ret != nil && okp_env(ret) && ret.pos == 0

func lemmaIter(p) (keys, vals, musts, all, count, again)
  requires p != nil && okp_env(p) && p.pos == 0
  modifies pvdr.pos[p], alloc
  inv 0 <= p.pos && p.pos <= len(p.keys) && keys == p.keys[:p.pos]
  inv all
  inv vals == musts && len(vals) == len(keys)
  inv forall i int :: {vals[i]} {keys[i]} 0 <= i && i < len(keys) ==> vals[i] == p.m[keys[i]].Value
  ensures each: keys == p.keys && count == len(keys)
  ensures hasvalue: all && vals == musts && len(vals) == len(keys) && (forall i int :: {vals[i]} 0 <= i && i < len(keys) ==> vals[i] == p.m[keys[i]].Value)
  ensures ends: !again

func lemmaLookup(p, key) (has, ok, val, must)
  requires p != nil && okp_env(p)
  modifies alloc
  ensures has <==> (exists i int :: {p.keys[i]} 0 <= i && i < len(p.keys) && p.keys[i] == key)
  ensures ok <==> has
  ensures val == must && (has ? val == p.m[key].Value : val == nil)

property R17: (*pvdr).prepare, lemmaNew, lemmaIter, lemmaLookup
