import json
P=[]
def p(id,title,stmt,over,text,why,files,mech,state=None,observe=None):
    a={"files":files,"mechanism":[{"name":n,"where":w} for n,w in mech]}
    if state: a["state"]=[{"name":"state","meaning":state,"where":files[0]}]
    if observe: a["observe_at"]=[observe]
    P.append({"id":id,"title":title,"statement":stmt,"quantifier":{"over":over,"text":text},"why_tests_cant":why,"anchors":a})
RT="radix/trie.go";RN="radix/node.go"
p("R01","A key reads back the value last written to it, whatever other keys exist",
 "After any sequence of writes, reading a key returns the value most recently written to that key together with found=true, and writing one key never changes what any other key reads back. This holds for every set of keys, also when keys share leading characters, when one key is a prefix or an ancestor section of another, and when keys hold non-ASCII characters. A write returns the value it replaced.",
 ["inputs","histories"],"every finite sequence of writes (plain, with callback, whole-node, update, clear) over every valid-UTF-8 key that does not end in the delimiter, has no blank and no ':' or '*' at the start of a segment; every value",
 "Which nodes are split, extended or reused depends on all keys written so far and on their order; a test samples a handful of key sets, the guarantee is about all of them.",
 [RT,RN,"store.go"],[("insert and split",RN+": insertInternal, split, insertAsLeaf, matchChildren, findCommonPrefixLength"),("lookup",RN+": matchR; "+RT+": search, Query, Get, MustGet"),("store facade","store.go: Set, setKV, Get, MustGet")],
 "the radix tree: node fragments, full paths, child lists, data","Set/SetEx/SetNode/SetEmpty/Update, Get/MustGet/Query/GetEx of Store and Trie")
p("R02","Nothing is found that was never stored",
 "A path that is neither a stored key nor an ancestor section (at a delimiter boundary) of a key stored so far is reported as absent by Has, Search, Get, MustGet and Query, and reads as the zero value (Locate, which hands out nodes, reports a branching point of the tree as a branch); in particular internal branching points such as 'app.d' between 'app.debug' and 'app.dump' do not exist. A stored key, and every ancestor section of a stored key, is reported as present by the existence tests (Has, Search). Lookups never change the store and never panic, also on an empty store.",
 ["inputs","histories"],"every history of writes, every queried path that is non-empty, does not end in the delimiter and has no wildcard segment",
 "The set of non-keys is infinite and the internal branching points depend on all stored keys; tests probe a few paths.",
 [RT,RN,"store.go"],[("matching",RN+": matchR"),("existence tests",RT+": Has, Search, Query, exists, encloses, search"),("facade","store.go: Has, Get, MustGet")],
 "the radix tree","Has/Search/Get/MustGet/Query")
p("R03","Removing a key removes that key and what lies beneath it, and nothing else",
 "Removing a path that is stored deletes exactly that key and the keys beneath it at the delimiter, reports success and hands back the removed value; every other key keeps its value. Removing a path that is not stored reports failure and changes nothing. A removed key reads as absent until it is written again.",
 ["inputs","histories"],"every history of writes and removals, every removed path as in R02",
 "Whether a removal takes siblings along depends on how the tree happens to be branched around the key, i.e. on the whole key set.",
 [RT,RN,"store.go"],[("removal",RT+": Remove, RemoveEx; "+RN+": remove, detach, matchR"),("facade","store.go: Remove, RemoveEx")],
 "the radix tree","Remove/RemoveEx then Get/Has")
p("R04","Comment, description, tag and modified state stay with their key",
 "The description, comment, tag and modified state attached to a key are read back unchanged until they are set again for that same key, no matter which other keys are written later. Setting them on a path that is not stored reports failure and changes nothing, and it never affects another key.",
 ["inputs","histories"],"every history of writes and metadata updates, every key as in R01",
 "A later key can split the node that carries the metadata at any character; only some key sets do.",
 [RT,RN],[("metadata carried over a split",RN+": split, SetComment, SetTag, SetModified, ToggleModified, ResetModified"),("setters and getters",RT+": SetComment, SetTag, SetNode, GetDesc, GetComment, GetTag")],
 "node description, comment, tag, flag bits","SetComment/SetTag/SetNode and GetDesc/GetComment/GetTag")
p("R05","A clone holds the same contents and is independent of its origin",
 "Duplicating a store yields one that holds exactly the same keys, values, descriptions, comments, tags, prefix and delimiter. Afterwards writing, removing or annotating keys in either of the two is never visible in the other.",
 ["inputs","histories"],"every store content, every later write on either side (values without pointers)",
 "Sharing of a single node or child list shows only for particular shapes followed by particular writes.",
 [RT,RN,"store.go"],[("deep copy",RN+": Dup; "+RT+": Dup, dupS"),("facade","store.go: Dup, Clone, dupS")],
 "all nodes of the tree","Dup/Clone then any read or write")
p("R06","A prefixed view works on exactly the keys under its prefix",
 "Every operation on a view with prefix P for key K has the effect and the result of the same operation on the whole store for key P<delimiter>K; an empty part is skipped when parts are joined, and parts are joined by exactly one delimiter. Nested views join their prefixes, a replaced prefix discards the former one, and making a view never changes the store it was made from.",
 ["inputs","histories"],"every prefix, every key, every delimiter that is an ASCII character, every operation that takes a path",
 "Each operation applies the prefix on its own; tests cover a few operations with one prefix.",
 ["radix/load.go",RT,"store.go"],[("joining",RT+": Join, join1, UsePool; store.go: join"),("views","radix/load.go: WithPrefix, WithPrefixReplaced, SetPrefix, N, R, BR; "+RT+": dupS")],
 "prefix, delimiter","all path-taking operations")
p("R07","Enumerations list exactly the stored keys beneath the path, once each",
 "Walking the whole tree visits every stored key exactly once with its own full key, and nothing that is not stored is presented as a leaf. The map views of a path hold exactly the keys at or beneath that path, each with its current value: the flat one under the full key, the sectioned one relative to the path.",
 ["inputs","histories"],"every history of writes, every section path; for sectioned maps, key sets in which no key is an ancestor of another",
 "The recursion over the tree and the cutting of keys depend on the tree shape, which depends on all keys.",
 ["radix/cvter.go",RN,RT],[("walk",RN+": walk, Walk; "+RT+": Walk"),("maps","radix/cvter.go: GetM, GetR, relativeKey, splitCompactKeys, submap, putKeys")],
 "the radix tree","Walk/GetR/GetM/MustM")
p("R08","Merging a nested map writes each of its leaves at the joined key",
 "After merging a map at a path, each leaf value of the (nested) map is readable at the path joined with the names leading to that leaf, slices of maps by index when flattening is enabled, and otherwise as one value. Keys that do not belong to the map keep their values.",
 ["inputs"],"every nested map of strings, maps, slices and scalars, every target path and store prefix, both flattening modes",
 "The recursion handles many shapes of nesting and prefix; tests use one or two fixtures.",
 ["load.go","radix/load.go","store.go"],[("store merge","load.go: loadMap, loadMapAny, loadMapByValueType, privateSetter; store.go: Merge"),("trie merge","radix/load.go: loadMap, loadMapByValueType")],
 "the radix tree","Merge then Get")
p("R09","Typed getters return the converted value, and the default only when absent",
 "For a stored key a typed getter returns the conversion of the stored value, whatever default is given; for an absent path it returns the given default (or the zero value) and the error-reporting form reports not-found. The short form always returns the same value as the error-reporting form.",
 ["inputs"],"every typed getter (scalars, slices, maps; 40 families), every path, every default list",
 "There are more than eighty near-identical functions; tests call each with a stored key at most.",
 ["radix/cvter.go"],[("getters","radix/cvter.go: GetXxx/MustXxx")],
 None,"GetXxx/MustXxx")
p("R10","Loading leaves no trace of user modification, user writes are always marked",
 "A key written by the user is marked as modified, a key written while loading is not newly marked. The loading state ends whenever loading returns, normally or with an error, and nested or repeated loads leave it consistent. Writing back hands exactly the modified keys with their current values to the provider, and writes nothing when nothing was modified.",
 ["inputs","histories"],"every history of loads (successful or failing), user writes and write-backs",
 "The guarantee is about every return path of loading and every mix of loads and writes.",
 ["load.go","store.go"],[("loading state","load.go: Load, WithinLoading, inLoading, privateSetter"),("marking","store.go: setKV"),("write-back","load.go: Save, trySave")],
 "loading flag, modified bits","Load/Set/Save")
p("R11","Each change is notified exactly once to every registered handler",
 "When the user writes or removes keys directly on a store (Set, Remove, RemoveEx), writing a new key calls every new-key handler exactly once, writing an existing key calls every change handler exactly once with the former value, removing a stored key calls every delete handler exactly once with the removed value; no other handler is called, and a removal that removes nothing notifies nobody. The flag handed to a handler is true exactly while loading.",
 ["inputs","histories"],"every number of registered handlers, every history of writes and removals",
 "Handler lists, key states and loading states combine; tests only log the calls.",
 ["store.go"],[("dispatch","store.go: setKV, tryOnSet, tryOnDelete, Set, Remove, RemoveEx")],
 "handler lists","handlers given to WithOnNewHandlers, WithOnChangeHandlers, WithOnDeleteHandlers")
p("R12","Durations format without loss and parse back to the same value",
 "Formatting any duration yields a text within the buffer, never panics, and parsing the default format of a non-negative or negative duration gives back the same duration. Parsing never panics and rejects text with a missing or unknown unit, without digits, or out of range.",
 ["inputs"],"every 64-bit duration, every text",
 "There are 2^64 durations and unboundedly many texts; tests use about a dozen.",
 ["internal/times/dur.go"],[("format","internal/times/dur.go: shortDurFormat, fmtInt, fmtFrac, fmtMsec, fmtSeconds"),("parse","internal/times/dur.go: ParseDuration, leadingInt, leadingFraction")],
 None,"SmartDurationString/ParseDuration, GetDuration")
p("R13","Byte sizes use the right multiplier for their unit",
 "A byte-size text made of a decimal number and a unit letter (k, m, g, t, p or e, either case, with optional iB/B suffix) converts to the number times the unit's power of 1024 or 1000 respectively; without a unit the number itself is returned. Conversion never panics, whatever the text.",
 ["inputs"],"every text; every number whose product fits 64 bits",
 "Numbers, units, suffixes and blanks combine freely; tests check a few.",
 ["radix/cvter.go"],[("binary","radix/cvter.go: FromKibiBytes, fromKibiBytes, GetKibiBytes"),("decimal","radix/cvter.go: FromKiloBytes, fromKilobytes, GetKiloBytes")],
 None,"MustKibiBytes/MustKiloBytes")
p("R14","Map normalisation and key splitting keep every value under its key",
 "Splitting the delimited keys of a flat map into nested maps places each value exactly at the names its key is made of, and adds nothing else. Normalising replaces maps with arbitrary key types by string-keyed maps with the same entries, at every depth, and leaves other values alone.",
 ["inputs"],"every flat map whose keys are not ancestors of one another; every nested value of maps and slices",
 "Depth, sharing of parents and iteration order vary; tests use one map.",
 ["internal/cvt/cvt.go","providers/maps/maps.go"],[("split","internal/cvt/cvt.go: Deflate"),("normalise","internal/cvt/cvt.go: Normalize, normalize")],
 None,"Deflate/Normalize, maps provider")
p("R15","Iterating context values yields every value once in key order",
 "Iterating a value context yields each stored name exactly once in ascending order with its current value and then ends; a reset starts the iteration over with all names stored by then. A later value for a name replaces the former one.",
 ["inputs","histories"],"every sequence of additions, every number of names",
 "The iteration is a state machine over an arbitrary set of names.",
 ["internal/ctx/ctx.go"],[("iteration","internal/ctx/ctx.go: Next, Entry, Key, Value, Reset, add")],
 "values, iter, picked","Next/Entry/Key/Value")
p("R16","Operation codes survive a text round trip",
 "Turning any defined operation code into text and back yields the same code; text that names no operation is rejected without changing the code.",
 ["inputs"],"every defined operation code, every text",
 "No test covers it; the text side is unbounded.",
 ["op.go"],[("text","op.go: MarshalText, UnmarshalText, opStrings, opStringsRev")],None,"Op.MarshalText/UnmarshalText")
p("R17","Providers iterate exactly the entries they hold",
 "Iterating an environment or flags provider yields each of its keys exactly once and then ends, and each yielded key has a value; looking up a key reports it as present exactly when it is one of them.",
 ["inputs","histories"],"every number of entries, every key",
 "The iteration protocol is about all positions, including the first and past the last.",
 ["providers/env/env.go","providers/flags/flags.go"],[("iteration","providers/env/env.go, providers/flags/flags.go: Next, Count, Has, Value, MustValue")],
 "keys, pos, m","Next/Has/Value")
p("R18","Upward lookup falls back to the nearest enclosing section only when needed",
 "In upward-recursive mode a lookup returns the exact key when it exists; otherwise the value with the same last name in the nearest enclosing section, dropping one enclosing name at a time down to the top-level section; it is absent when no section has it. In normal mode no such fallback happens.",
 ["inputs"],"every key set, every path depth",
 "The fallback loop runs over arbitrarily deep paths.",
 [RT],[("fallback",RT+": search; radix/load.go: N, BR")],"recursive mode","BR().Get")
p("R19","External change events are applied key by key",
 "A create or write event of a watched provider stores each of its key/value pairs, also when the event carries further kinds; a remove event that is no create or write event removes each of its keys; every pair of such an event is consumed exactly once; any other event changes no key.",
 ["inputs","histories"],"every event kind combination, every number of pairs",
 "Event kinds combine as bit sets and carry arbitrarily many pairs.",
 ["load.go"],[("apply","load.go: applyExternalChanges, applyChanges")],None,"Watch callback")
p("R20","A wildcard route matches the paths of its shape and binds each name",
 "Looking up a path on a tree holding one route, in which segments behind a delimiter may be named (':name') and the last one may be a catch-all ('*name'), succeeds exactly when the path has the shape of the route (equal literal segments, one non-empty segment per name, a non-empty rest for the catch-all), yields the value of the route, and binds each name to the corresponding segment (the catch-all to the whole rest).",
 ["inputs"],"every single route, every path of non-empty segments without ':' and '*'",
 "Segment lengths and positions are unbounded.",
 [RN],[("matching",RN+": matchR, extractor")],None,"Locate/Query with a binding map")
p("R21","An expired entry is cleared, and only that entry",
 "When the time-to-live of a key expires its value is cleared, a section is dropped, and no other key is affected, whatever was written between.",
 ["schedules","histories"],"every interleaving of expiry and writes",
 "Timers, goroutines and later splits of the node interleave.",
 [RT],[("timers",RT+": SetTTL, SetTTLFast, TTL.run")],None,"SetTTL")
p("R22","Concurrent readers and writers of a store see consistent values",
 "Concurrent reads and writes of the data of existing keys behave as if executed one after another.",
 ["schedules"],"every interleaving",
 "Interleavings cannot be enumerated by tests.",
 [RN],[("locks",RN+": readLockFor, lockFor")],None,"Get/Set from several goroutines")
with open('/verif/properties.jsonl','w') as f:
    for x in P:
        assert len(x['title'])<=80,(x['id'],len(x['title']))
        f.write(json.dumps(x,ensure_ascii=False)+"\n")
