CORE = "the radix core (insert, insertInternal, insertAsLeaf, split, matchChildren, findCommonPrefixLength, matchR, search) keeps the tree invariant and realises map update/lookup on the abstract view key->node, for all keys and all shapes. "
prop("R01", CORE + "On top of it every writing and reading function of the tree (Set, SetEx, Insert, SetNode, SetEmpty, Update, Get, MustGet, Query, GetEx, Locate, NewTrie) and of the store (Set, Get, MustGet), function by function.", "the same through the public API on generated histories.")
prop("R02", CORE + "Has, Search, Get, MustGet, Query, GetEx, Locate of the tree and Has, Get, MustGet of the store: present exactly for keys and ancestor sections; lookups modify nothing but new objects.", "the same through the public API on generated histories.")
prop("R03", CORE + "remove, detach, RemoveEx, Remove of the tree, RemoveEx, Remove of the store: exactly the key and what lies beneath it goes, everything else keeps value and attributes; nothing changes when the removal reports failure.", "the same through the public API on generated histories.")
prop("R04", CORE + "Attributes of every other key are carried over by each of Set, SetEx, SetNode, SetComment, SetTag, RemoveEx and the splits beneath them; the getters (GetDesc, GetComment, GetTag and the Must forms) read those of the key; Store.Set marks exactly the written key.", "the same through the public API on generated histories.")
prop("R05", "Dup of node and tree builds, for every tree, a mirror of it made of new nodes only (same keys, values, attributes, children; ghost map key->copy); client lemma functions: the mirror satisfies the tree invariant and reads like the origin, and Set, Remove, SetComment/SetTag on the clone leave every node of the origin as it was and vice versa; Dup and Clone of the store.", "the same through the public API on generated histories.", assumptions=["evendeep.MakeClone returns an equal value", "values that are a *any are excluded"])
prop("R06", "Join, join1 and the store's join join exactly the non-empty parts by one delimiter, for every list of parts; WithPrefix, WithPrefixReplaced, SetPrefix, N, R, BR of tree and store make a new view of the same tree with the joined resp. replaced prefix and change nothing else; the key k of a view with prefix p is the key p<d>k of its origin; every operation of R01-R04 is specified on that full key.", "the same through the public API on generated prefixes.")
prop("R11", "tryOnSet and tryOnDelete call every non-nil handler of the right kind once, in order, with the given arguments, for every handler list; Set, Remove, RemoveEx of the store choose the kind by whether the key was stored and pass the former value and the loading flag (the log of callback calls is a ghost sequence). Precondition: no parent store (the field is never assigned).", "the same through the public API on generated histories.")
prop("R16", "for every defined operation code the text is the table entry and UnmarshalText(MarshalText(op)) gives op back; an unknown text is rejected and leaves the code unchanged (client lemma functions over the real methods, tables read from the source).", "the same through the public API.")
prop("R13", "FromKibiBytes and FromKiloBytes never panic, for every text; client lemma functions: for every decimal number, unit letter and suffix the result is the number strconv reads times the unit's power of 1024 resp. 1000 (modulo 2^64).", "texts with blanks and fractions (floating point is uninterpreted for the verifier), and the getters.", assumptions=["strconv.ParseUint/ParseFloat as uninterpreted functions of the text", "models of strings.TrimSpace, TrimRight, TrimRightFunc, ContainsRune and utf8.DecodeLastRuneInString"])
prop("R15", "Next (with the sorted snapshot of names it builds), and two client lemma functions: a full iteration with Next/Key/Value/KeyVal style accessors yields every name of the context once, ascending, with its current value, then ends, for every context; With* replaces exactly the named value.", "the same through the public API, resets included.")
prop("R17", "prepare of the env and flags providers lists every key of the provider map exactly once, for every environment, flag set and option; client lemma functions over New/Next/Key/Value/Has/MustValue/Count: a full iteration yields exactly these keys with their values and ends, and a lookup succeeds exactly for them.", "the same through the public API with generated environments and flag sets.")
prop("R07", "Walk of node and tree calls the visitor once for every stored key and section node, in tree order, with its key; GetR, GetM (whole tree, flat map), MustR, MustM give exactly the stored keys with their values and key-relative names, for every tree; relativeKey and simpleEndsWith.", "sub-maps below a path, nested maps, filters.", assumptions=["the stand-in modelWalk restates the proved contract of Walk for callers with a closure"])
prop("R08", "Merge, loadMap, loadMapAny, loadMapDedicated, loadMapByValueType and privateSetter of the store and Merge, loadMap, loadMapByValueType of the tree: for every nested value, every leaf of it (a relation taken apart along maps, value packs and, when flattening, slices) is stored at the joined path, and every key outside the path keeps value and attributes; no panic.", "the same through the public API on generated nested maps; names containing the delimiter.", assumptions=["names in maps are non-empty, without delimiter, blanks and wildcards", "keys of a map[any]any are strings", "strconv.AppendInt appends the decimal digits"])
prop("R10", "Set marks the written key exactly when not loading; Load, tryLoad, loadMap and all beneath never newly mark a key while loading; Load ends with the loading flag as it was, on every path (errors of provider, codec and merge included); WithinLoading runs its function with the flag set and restores it (client lemma functions).", "write-back (Save), nested loads, and the same through the public API with providers of every kind and outcome.", assumptions=["load options change the loader and its view only (newLoader is trusted)", "providers and codecs return arbitrary results"])
prop("R18", "in upward mode search, Query, Get, MustGet of the tree and Get, MustGet of the store yield what the path with the least number of enclosing names dropped yields, for every tree and path (contract variants @up); in normal mode they yield what the path itself holds; BR and N set and clear the mode on a new view.", "the same through the public API on generated key sets.", assumptions=["strings.Split and strings.Join are inverse on names without the delimiter", "Has, Remove and the setters in upward mode are not part of the property"])
prop("R19", "applyChanges and applyExternalChanges: for every event (any kinds, any number of pairs) a create or write event stores every pair (the last one per key) and keeps every other key; a remove event removes every key and keeps all that is not beneath one of them; any other event changes nothing; all pairs are consumed (loop invariants over a ghost position).", "the same with generated events through a watched provider.", assumptions=["Change.Next hands out the pairs one after another (interface contract)", "keys of an event are non-empty, without blanks and wildcards"])
prop("R12", "SmartDurationString, SmartDurationStringEx, shortDurFormat, fmtSeconds, fmtMsec, fmtInt, fmtFrac: for every duration and both modes no panic, the text stays within the buffer; fmtInt writes exactly the decimal digits and fmtFrac the fraction without trailing zeros, leaving the rest of the buffer alone. ParseDuration, leadingInt, leadingFraction: for every text no panic; accepted texts are numbers, possibly with fraction, each with a known unit (everything else is rejected); without fractions the result is exactly the sum of numbers times units, accepted exactly when it is within range, for both signs.", "the round trip of formatting and parsing (that the segments written make up the text of the duration; fractions use floating point, which is uninterpreted for the verifier).", assumptions=["quote (text of error messages) returns normally"])
prop("R14", "Deflate: for every map without map values in which no key is a section of another one, and every delimiter: the result is a tree of new maps (ghost field: the names each map hangs under); every value of the argument is found at exactly the names its key is made of, every entry of the result that is not a map is such a value, every nested map hangs in the tree and leads to a key of the argument; the argument is left alone; no panic.", "Normalize (it changes nested slices in place through interface values, which is beyond the verifier's model of slices) and the maps provider.", assumptions=["strings.Split splits at the delimiter: at least one name, and joining the names gives the key back"])
prop("R09", "every Get/Must pair of typed getters (18 scalar types, their slices and maps, sizes): for every tree, path and default list, a stored key yields the conversion of its stored value and no error, an absent path yields the last default (for slices: the defaults as given; without defaults: the zero value) and, in the error-reporting form, exactly errors.NotFound. Both forms have the same contract.", "the conversions themselves (evendeep, compared with its own converters), sizes read from stored texts, paths that are sections, and the same through the store.", assumptions=["the converters of evendeep are functions of their argument and return normally"])
prop("R20", "matchR with extractor, search, Query and Locate of the tree (contract variants @route, nested loop invariants over the positions in route and path): for every route, every path and every binding map the match succeeds exactly when the path has the shape of the route, yields the node of the route, and afterwards each name is bound to its segment and every other entry of the map is what it was; Set of a route to an empty tree makes the tree these contracts ask for (variants @one).", "the same through the public API on generated routes and paths.", assumptions=["the route does not end in a delimiter and its last name is not empty"])
NA = [
    {"property": "R21", "reason": "timers and goroutines: no contract within reach expresses an expiry that fires at an arbitrary moment between calls"},
    {"property": "R22", "reason": "interleavings of goroutines: the contracts and the verifier are sequential"},
]
