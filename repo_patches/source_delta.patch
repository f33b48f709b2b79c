From dbc4e672f26eae7792061c77445ff70e6a54dae8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:26 +0000
Subject: [PATCH 01/28] fix: Store.RecursiveMode called itself forever instead
 of asking the trie

---
 store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 78b5ab8..1959d4b 100644
--- a/store.go
+++ b/store.go
@@ -485,7 +485,7 @@ func (s *storeS) SetPrefix(newPrefix ...string) {
 func (s *storeS) N() (newStore Store)               { return s.dupS(s.Trie.N()) }
 func (s *storeS) R() (newStore Store)               { return s.dupS(s.Trie.R()) }
 func (s *storeS) BR() (newStore Store)              { return s.dupS(s.Trie.BR()) }
-func (s *storeS) RecursiveMode() radix.RecusiveMode { return s.RecursiveMode() }
+func (s *storeS) RecursiveMode() radix.RecusiveMode { return s.Trie.RecursiveMode() }
 
 // To finds a given path and loads the subtree into
 // 'holder', typically 'holder' could be a struct.
-- 
2.43.0


From a486d2c4bd8ef5055fa3d6bede3af5d3091ffccf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:26 +0000
Subject: [PATCH 02/28] fix: a key set at an existing split point of the radix
 tree must become readable

---
 radix/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix/node.go b/radix/node.go
index bf86cf2..0dc40ef 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -246,7 +246,7 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 		}
 	} else {
 		// hit this node,
-		base.nType |= NTData
+		base.nType |= NTLeaf | NTData
 		node, oldData, base.data = base, base.data, data
 		if cb != nil {
 			cb(fullPath, oldData, node, trie)
-- 
2.43.0


From 6606a19c94564995a927f2276b8ca2df36465582 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:26 +0000
Subject: [PATCH 03/28] fix: splitting a node with non-ASCII runes cut its full
 path at a wrong byte

---
 radix/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix/node.go b/radix/node.go
index 0dc40ef..42725f8 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -265,7 +265,7 @@ func (s *nodeS[T]) split(pos int, word []rune) (newNode *nodeS[T]) {
 	// 	}()
 	// }
 
-	d := len(s.path) - pos
+	d := len(string(s.path[pos:])) // in bytes, since it cuts pathS which is a string
 	_ = word
 
 	newNode = &nodeS[T]{
-- 
2.43.0


From 9f2aac4686d9306b05a9aa4bdf88bac542046209 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:03:26 +0000
Subject: [PATCH 04/28] fix: lookups on an empty tree reported a partial match
 without a node

---
 radix/node.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/radix/node.go b/radix/node.go
index 42725f8..1a219c1 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -448,7 +448,7 @@ masterLoop:
 	}
 	if minL < wl {
 		if len(base.children) == 0 {
-			matched, partialMatched = false, true
+			matched, partialMatched = false, child != nil // an empty tree matches nothing
 			return
 		}
 
-- 
2.43.0


From ed4f3ad738928efc591a4d24b6d63dc23d8f5383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:04:24 +0000
Subject: [PATCH 05/28] fix: Has, Remove, SetTTL, SetComment and SetTag took
 radix split points and partial matches for keys

---
 radix/trie.go | 30 ++++++++++++++++++++++--------
 1 file changed, 22 insertions(+), 8 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index 606e87f..aa7c34d 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -214,7 +214,7 @@ func (s *trieS[T]) SetTTL(path string, ttl time.Duration, cb OnTTLRinging[T]) (s
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, _, partialMatched := s.search(path, nil)
-	found := node != nil && !partialMatched // && !node.isBranch()
+	found := s.exists(node, partialMatched)
 	state = -1
 	if found {
 		state = 0
@@ -452,8 +452,8 @@ func (s *trieS[T]) SetComment(path, description, comment string) (ok bool) { //n
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, _ := s.search(path, nil)
-	if ok = node != nil; ok {
+	node, _, partialMatched := s.search(path, nil)
+	if ok = s.exists(node, partialMatched); ok {
 		node.description, node.comment = description, comment
 	}
 	return
@@ -466,8 +466,8 @@ func (s *trieS[T]) SetTag(path string, tag any) (ok bool) { //nolint:revive// se
 	if s.prefix != "" {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
-	node, _, _ := s.search(path, nil)
-	if ok = node != nil; ok {
+	node, _, partialMatched := s.search(path, nil)
+	if ok = s.exists(node, partialMatched); ok {
 		node.tag = tag
 	}
 	return
@@ -496,7 +496,7 @@ func (s *trieS[T]) Search(path string) (found bool) {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, _, partialMatched := s.search(path, nil)
-	found = node != nil && !partialMatched // && !node.isBranch()
+	found = s.exists(node, partialMatched) || s.encloses(path, node, partialMatched)
 	return
 }
 
@@ -514,6 +514,20 @@ func (s *trieS[T]) Locate(path string, kvpair KVPair) (node *nodeS[T], branch, p
 	return
 }
 
+// exists tests if a located node stands for the whole path asked: a leaf,
+// or a branch at a delimiter boundary. Any other branch is nothing but a
+// splitting point inside the radix tree.
+func (s *trieS[T]) exists(node *nodeS[T], partialMatched bool) bool {
+	return node != nil && !partialMatched &&
+		(node == s.root || !node.isBranch() || node.endsWith(s.delimiter))
+}
+
+// encloses tests if path is an ancestor of a partially matched node, at a
+// delimiter boundary.
+func (s *trieS[T]) encloses(path string, node *nodeS[T], partialMatched bool) bool {
+	return node != nil && partialMatched && strings.HasPrefix(node.pathS, path+string(s.delimiter))
+}
+
 func safeIsBranch[T any](node *nodeS[T]) bool { return node != nil && node.isBranch() }
 
 // Has tests of a path exists.
@@ -536,7 +550,7 @@ func (s *trieS[T]) Has(path string) (found bool) {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, _, partialMatched := s.search(path, nil)
-	found = node != nil && !partialMatched // && !node.isBranch()
+	found = s.exists(node, partialMatched) || s.encloses(path, node, partialMatched)
 	return
 }
 
@@ -570,7 +584,7 @@ func (s *trieS[T]) RemoveEx(path string) (nodeRemoved, nodeParent Node[T], remov
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, parent, partialMatched := s.search(path, nil)
-	found := node != nil && !partialMatched // && !node.isBranch()
+	found := s.exists(node, partialMatched)
 	if found {
 		if parent != nil {
 			removed = parent.remove(node)
-- 
2.43.0


From bc10274bae6914d17e329aeb3d7d8be20b032f5c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:04 +0000
Subject: [PATCH 06/28] fix: removing a key also removed its siblings sharing
 the same leading characters

---
 radix/node.go | 27 +++++++++++++++++++++++++++
 radix/trie.go |  3 +++
 2 files changed, 30 insertions(+)

diff --git a/radix/node.go b/radix/node.go
index 1a219c1..8c99843 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -194,6 +194,33 @@ func (s *nodeS[T]) remove(item *nodeS[T]) (removed bool) { //nolint:revive
 	return
 }
 
+// detach takes the key at this node, and the keys beneath it, away from
+// the tree but keeps the others sharing this node as their prefix, eg:
+// removing 'app.dump' and 'app.dump.to' but keeping 'app.dumpster'.
+//
+// It returns nil if there is nothing to be kept, so the node itself
+// can be removed from its parent.
+func (s *nodeS[T]) detach(delimiter rune) (detached *nodeS[T]) {
+	if s.endsWith(delimiter) {
+		return
+	}
+	var kept, beneath []*nodeS[T]
+	for _, c := range s.children {
+		if c.StartsWith(delimiter) {
+			beneath = append(beneath, c)
+		} else {
+			kept = append(kept, c)
+		}
+	}
+	if len(kept) == 0 {
+		return
+	}
+	n := *s
+	detached, n.children = &n, beneath
+	*s = nodeS[T]{path: n.path, pathS: n.pathS, children: kept, nType: NTBranch, rw: n.rw}
+	return
+}
+
 func (s *nodeS[T]) findCommonPrefixLength(word []rune) (length int) {
 	ml := min(len(word), len(s.path))
 	for length < ml && word[length] == s.path[length] {
diff --git a/radix/trie.go b/radix/trie.go
index aa7c34d..a302346 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -587,6 +587,9 @@ func (s *trieS[T]) RemoveEx(path string) (nodeRemoved, nodeParent Node[T], remov
 	found := s.exists(node, partialMatched)
 	if found {
 		if parent != nil {
+			if detached := node.detach(s.delimiter); detached != nil {
+				return detached, parent, true
+			}
 			removed = parent.remove(node)
 			if removed {
 				nodeRemoved, nodeParent = node, parent
-- 
2.43.0


From 9f1adabbba546d8fbf63d137d94725934eccbb3b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:40 +0000
Subject: [PATCH 07/28] fix: SetNode dropped its tag argument

---
 radix/trie.go | 1 +
 1 file changed, 1 insertion(+)

diff --git a/radix/trie.go b/radix/trie.go
index a302346..2fced90 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -411,6 +411,7 @@ func (s *trieS[T]) SetNode(path string, data T, tag any, descriptionAndComments
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, old := s.root.insertInternal([]rune(path), path, data, s, nil)
+	node.tag = tag
 	switch len(descriptionAndComments) {
 	case 0:
 	case 1:
-- 
2.43.0


From 6f965a3ce4ae516a1a29c302cdc906e5be23249e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:05:51 +0000
Subject: [PATCH 08/28] fix: Dup lost the description, comment and tag of the
 nodes

---
 radix/node.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 8c99843..4b39506 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -585,9 +585,12 @@ func (s *nodeS[T]) dumpR(sb *strings.Builder, lvl int, noColor bool) string { //
 // The cost of cloneing a large tree or node is expensive.
 func (s *nodeS[T]) Dup() (newNode *nodeS[T]) { //nolint:revive
 	newNode = &nodeS[T]{
-		path:  s.path,
-		pathS: s.pathS,
-		nType: s.nType,
+		path:        s.path,
+		pathS:       s.pathS,
+		description: s.description,
+		comment:     s.comment,
+		tag:         s.tag,
+		nType:       s.nType,
 	}
 
 	newNode.children = make([]*nodeS[T], 0, len(s.children))
-- 
2.43.0


From f0cd9182d791686af49340448b967b675e5be58b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:02 +0000
Subject: [PATCH 09/28] fix: Update cleared the data of an existing node

---
 radix/trie.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/radix/trie.go b/radix/trie.go
index 2fced90..5ae66b5 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -443,6 +443,9 @@ func (s *trieS[T]) Update(path string, cb func(node Node[T], old any)) {
 	}
 	var v T
 	node, old := s.root.insertInternal([]rune(path), path, v, s, nil)
+	if data, ok := old.(T); ok {
+		node.data = data // updating a node mustn't clear its data, unless cb wants it
+	}
 	cb(node, old)
 }
 
-- 
2.43.0


From 58e52812ec4c35d05b89f4a93d9a0c769f6eadce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:06:13 +0000
Subject: [PATCH 10/28] fix: SetEx called back never on an empty tree, and many
 times on a deep one

---
 radix/node.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 4b39506..40e6061 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -234,6 +234,9 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 	if ourLen == 0 {
 		if wordLen > 0 && len(s.children) == 0 {
 			node = base.insertAsLeaf(word, fullPath, data)
+			if cb != nil {
+				cb(fullPath, nil, node, trie)
+			}
 			return
 		}
 	}
@@ -261,9 +264,6 @@ func (s *nodeS[T]) insertInternal(word []rune, fullPath string, data T, trie *tr
 			n, oldData = child.insert(word, fullPath, data, trie, cb)
 			if nn, ok := n.(*nodeS[T]); ok {
 				node = nn
-				if cb != nil {
-					cb(fullPath, oldData, node, trie)
-				}
 			}
 		} else {
 			node = base.insertAsLeaf(word, fullPath, data)
-- 
2.43.0


From 1b8b38bca527d90a9cb4f3de141c3443068cfb7f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:36 +0000
Subject: [PATCH 11/28] fix: GetM dropped levels of nested keys, mixed in keys
 outside of the path, and cut keys wrongly under a prefix

---
 radix/cvter.go | 47 +++++++++++++++++++++++++++++------------------
 1 file changed, 29 insertions(+), 18 deletions(-)

diff --git a/radix/cvter.go b/radix/cvter.go
index 9a0f345..bf472bf 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -420,10 +420,7 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 		for _, opt := range opts {
 			opt(&putter)
 		}
-		prelen := -1
-		if l := len(s.Prefix()); l > 0 {
-			prelen = l + 1 // s.prefix + '.'
-		}
+		base := s.prefix
 		s.root.Walk(func(path, fragment string, node Node[T]) {
 			if (path == "" || !s.simpleEndsWith(path, s.delimiter)) && !node.IsBranch() {
 				if putter.filterFn != nil {
@@ -431,10 +428,12 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 						return
 					}
 				}
-				if putter.keepPrefix {
+				if rel, ok := s.relativeKey(base, path); !ok {
+					return
+				} else if putter.keepPrefix {
 					ret[path] = node.Data()
-				} else if prelen <= len(path) {
-					ret[path[prelen+1:]] = node.Data()
+				} else {
+					ret[rel] = node.Data()
 				}
 			}
 		})
@@ -451,12 +450,7 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 		for _, opt := range opts {
 			opt(&putter)
 		}
-		prelen := -1
-		if l := len(s.Prefix()); l > 0 {
-			prelen = l + 1
-		}
-		prelen += len(path) + 1
-		prelen--
+		base := s.Join(s.prefix, path)
 		logz.Verbose("[GetM] loop subtree and return as a map", "path", putter.prefix)
 		nodeX.Walk(func(path, fragment string, node Node[T]) {
 			if !s.simpleEndsWith(path, s.delimiter) && !node.IsBranch() {
@@ -466,12 +460,12 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 						return
 					}
 				}
-				if putter.keepPrefix {
+				if rel, ok := s.relativeKey(base, path); !ok {
+					return
+				} else if putter.keepPrefix {
 					putter.put(ret, path, string(s.delimiter), node.Data())
-				} else if prelen+1 == len(path) {
-					putter.put(ret, fragment, string(s.delimiter), node.Data())
-				} else if prelen < len(path) {
-					putter.put(ret, path[prelen+1:], string(s.delimiter), node.Data())
+				} else {
+					putter.putKeys(ret, strings.Split(rel, string(s.delimiter)), node.Data())
 				}
 			}
 		})
@@ -483,6 +477,23 @@ func (s *trieS[T]) GetM(path string, opts ...MOpt[T]) (ret map[string]any, err e
 	return
 }
 
+// relativeKey strips base and the following delimiter from key. The last
+// segment is returned if key is base itself.
+//
+// It returns false if key isn't base, nor beneath it.
+func (s *trieS[T]) relativeKey(base, key string) (rel string, ok bool) {
+	delimiter := string(s.delimiter)
+	base = strings.TrimSuffix(base, delimiter)
+	switch {
+	case base == "":
+		return key, true
+	case key == base:
+		return key[strings.LastIndex(key, delimiter)+1:], true
+	default:
+		return strings.CutPrefix(key, base+delimiter)
+	}
+}
+
 func (s *trieS[T]) MustM(path string, opts ...MOpt[T]) (ret map[string]any) {
 	ret, _ = s.GetM(path, opts...)
 	return
-- 
2.43.0


From b473894a4e5c0f5ede9c1ef40a3b6631947b444c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:07:47 +0000
Subject: [PATCH 12/28] fix: GetR returned keys outside of the path asked

---
 radix/cvter.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/radix/cvter.go b/radix/cvter.go
index bf472bf..63d6bc5 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -356,7 +356,9 @@ func (s *trieS[T]) GetR(path string, defaultVal ...map[string]any) (ret map[stri
 		ret = make(map[string]any)
 		s.root.Walk(func(path, fragment string, node Node[T]) {
 			if (path == "" || !s.simpleEndsWith(path, s.delimiter)) && !node.IsBranch() {
-				ret[path] = node.Data()
+				if _, ok := s.relativeKey(s.prefix, path); ok {
+					ret[path] = node.Data()
+				}
 			}
 		})
 		return
@@ -366,6 +368,7 @@ func (s *trieS[T]) GetR(path string, defaultVal ...map[string]any) (ret map[stri
 	if found || partialMatched {
 		_, _, ret = branch, partialMatched, make(map[string]any)
 
+		base := s.Join(s.prefix, path)
 		nodeX.Walk(func(path, fragment string, node Node[T]) {
 			if !s.simpleEndsWith(path, s.delimiter) && !node.IsBranch() {
 				// For a trie like:
@@ -389,7 +392,9 @@ func (s *trieS[T]) GetR(path string, defaultVal ...map[string]any) (ret map[stri
 				// like 'app.dump' or 'app.dump.to'.
 				//
 				// See also TestStore_GetR()
-				ret[path] = node.Data()
+				if _, ok := s.relativeKey(base, path); ok {
+					ret[path] = node.Data()
+				}
 			}
 		})
 		logz.Debug("[GetR] ", "ret", ret)
-- 
2.43.0


From fe94bc0535c55e0c7a5a9d4b5e831c6c7f554070 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:11 +0000
Subject: [PATCH 13/28] fix: merging a nested map or slice into a trie lost or
 doubled the current prefix

---
 radix/load.go | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/radix/load.go b/radix/load.go
index 5d1896c..791eaf0 100644
--- a/radix/load.go
+++ b/radix/load.go
@@ -68,7 +68,7 @@ func (s *trieS[T]) loadMap(m map[string]any) (err error) {
 func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k string, v any) { //nolint:revive,unparam
 	switch vv := v.(type) {
 	case map[string]any:
-		ec.Attach(s.withPrefixReplacedImpl(k).loadMap(vv))
+		ec.Attach(s.withPrefixImpl(k).loadMap(vv))
 	case []map[string]any:
 		buf := make([]byte, 0, len(k)+16)
 		for i, mm := range vv {
@@ -81,10 +81,6 @@ func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k strin
 	case []any:
 		buf := make([]byte, 0, len(k)+16)
 		for i, mm := range vv {
-			if s.prefix != "" {
-				buf = append(buf, s.prefix...)
-				buf = append(buf, byte(s.delimiter))
-			}
 			buf = append(buf, k...)
 			buf = append(buf, byte(s.delimiter))
 			buf = strconv.AppendInt(buf, int64(i), 10)
-- 
2.43.0


From f85548b1a558e4b5193e728b2bd8a627ee6232c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:21 +0000
Subject: [PATCH 14/28] fix: Store.Merge ignored the prefix of the store

---
 store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 1959d4b..221752a 100644
--- a/store.go
+++ b/store.go
@@ -298,7 +298,7 @@ func (s *storeS) Merge(pathAt string, data map[string]any) (err error) {
 	// 	return
 	// }
 
-	err = s.loadMap(data, pathAt, false, nil)
+	err = s.loadMap(data, s.join(s.Prefix(), pathAt), false, nil)
 	// s.tryOnSet(pathAt, true, old, data)
 	return
 }
-- 
2.43.0


From 1268f9aaa6212b109dcf9f7d9dbe9029b8e2c03b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:31 +0000
Subject: [PATCH 15/28] fix: description, comment and tag from a provider were
 dropped while loading

---
 store.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/store.go b/store.go
index 221752a..7836273 100644
--- a/store.go
+++ b/store.go
@@ -335,12 +335,12 @@ func (s *storeS) setKV(path string, data any, createOrModify bool, onSet lmOnSet
 			createOrModify = false // set it to is-modifying instead of is-creating
 		}
 		if node != nil {
-			if onSet != nil {
-				onSet(node)
-			}
 			node.SetModified(true)
 		}
 	}
+	if node != nil && onSet != nil {
+		onSet(node)
+	}
 	s.tryOnSet(path, user, oldData, data, createOrModify)
 	return
 }
-- 
2.43.0


From 16c9414bf61d5d189d48e8bce91184539019b3b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:41 +0000
Subject: [PATCH 16/28] fix: change handlers got an inverted
 mergingMapOrLoading flag

---
 store.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/store.go b/store.go
index 7836273..08cd373 100644
--- a/store.go
+++ b/store.go
@@ -341,18 +341,18 @@ func (s *storeS) setKV(path string, data any, createOrModify bool, onSet lmOnSet
 	if node != nil && onSet != nil {
 		onSet(node)
 	}
-	s.tryOnSet(path, user, oldData, data, createOrModify)
+	s.tryOnSet(path, loading, oldData, data, createOrModify)
 	return
 }
 
-func (s *storeS) tryOnSet(path string, user bool, oldData, data any, createOrModify bool) {
+func (s *storeS) tryOnSet(path string, loading bool, oldData, data any, createOrModify bool) {
 	ptr := s
 
 	if createOrModify {
 	retryPN:
 		for _, cb := range ptr.onNewHandlers {
 			if cb != nil {
-				cb(path, data, user)
+				cb(path, data, loading)
 			}
 		}
 		if ptr.parent != nil {
@@ -365,7 +365,7 @@ func (s *storeS) tryOnSet(path string, user bool, oldData, data any, createOrMod
 retryPM:
 	for _, cb := range ptr.onChangeHandlers {
 		if cb != nil {
-			cb(path, data, oldData, user)
+			cb(path, data, oldData, loading)
 		}
 	}
 	if ptr.parent != nil {
@@ -374,13 +374,13 @@ retryPM:
 	}
 }
 
-func (s *storeS) tryOnDelete(path string, user bool, oldData any, node, np radix.Node[any]) {
+func (s *storeS) tryOnDelete(path string, loading bool, oldData any, node, np radix.Node[any]) {
 	ptr := s
 	_, _ = node, np
 retryPD:
 	for _, cb := range ptr.OnDeleteHandlers {
 		if cb != nil {
-			cb(path, oldData, user)
+			cb(path, oldData, loading)
 		}
 	}
 	if ptr.parent != nil {
@@ -395,7 +395,7 @@ func (s *storeS) Remove(path string) (removed bool) {
 	if removed {
 		loading := s.inLoading()
 		data := rmn.Data()
-		s.tryOnDelete(path, !loading, data, rmn, np)
+		s.tryOnDelete(path, loading, data, rmn, np)
 	}
 	return
 }
@@ -405,7 +405,7 @@ func (s *storeS) RemoveEx(path string) (nodeRemoved, nodeParent radix.Node[any],
 	if removed {
 		loading := s.inLoading()
 		data := nodeRemoved.Data()
-		s.tryOnDelete(path, !loading, data, nodeRemoved, nodeParent)
+		s.tryOnDelete(path, loading, data, nodeRemoved, nodeParent)
 	}
 	return
 }
-- 
2.43.0


From 118ec58f61d94ad149513e73633d94aaf878e115 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:51 +0000
Subject: [PATCH 17/28] fix: setting a new key at a branch was notified as a
 change

---
 store.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/store.go b/store.go
index 08cd373..5806a0e 100644
--- a/store.go
+++ b/store.go
@@ -254,7 +254,7 @@ func (s *storeS) Set(path string, data any) (node radix.Node[any], oldData any)
 		oldData = old
 	}
 
-	node, oldData = s.setKV(path, data, !found, nil)
+	node, oldData = s.setKV(path, data, !found || branch, nil)
 	// s.tryOnSet(path, false, old, data)
 	return
 }
-- 
2.43.0


From ca8fb95f167dc8abc0898da9d012e3d92e2a774f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:09:58 +0000
Subject: [PATCH 18/28] fix: formatting a long duration overflowed the buffer
 and panicked

---
 internal/times/dur.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/times/dur.go b/internal/times/dur.go
index bece5dc..c16d629 100644
--- a/internal/times/dur.go
+++ b/internal/times/dur.go
@@ -23,15 +23,16 @@ func SmartDurationString(d time.Duration) string { return SmartDurationStringEx(
 func SmartDurationStringEx(d time.Duration, frac bool) string { return shortDur(d, frac) }
 
 func shortDur(d time.Duration, frac bool) string {
-	var arr [32]byte
+	var arr [40]byte
 	n := shortDurFormat(&arr, d, frac)
 	return string(arr[n:])
 }
 
-func shortDurFormat(buf *[32]byte, d time.Duration, useFrac bool) int { //nolint:revive
+func shortDurFormat(buf *[40]byte, d time.Duration, useFrac bool) int { //nolint:revive
 	// Largest time is:
 	// 2540400h10m10.000000000s
 	// 2540400h10m10s999ms999us999na
+	// -106751d23h47m16s854ms775µs808ns (33 bytes)
 	w := len(buf)
 
 	u := uint64(d)
-- 
2.43.0


From 0981c6300533eb4a3cc4adcff6c53ae73b068893 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:09 +0000
Subject: [PATCH 19/28] fix: byte sizes with a non-ASCII space between number
 and unit panicked

---
 radix/cvter.go | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/radix/cvter.go b/radix/cvter.go
index 63d6bc5..03c4379 100644
--- a/radix/cvter.go
+++ b/radix/cvter.go
@@ -5,6 +5,7 @@ import (
 	"strconv"
 	"strings"
 	"time"
+	"unicode/utf8"
 
 	logz "github.com/hedzr/logg/slog"
 
@@ -1568,12 +1569,12 @@ func (s *trieS[T]) FromKibiBytes(sz string) (ir64 uint64) {
 	var err error
 	if strings.ContainsRune(szr, '.') {
 		if if64, err = strconv.ParseFloat(szr, 64); err == nil {
-			r := []rune(sz)[len(sz)-1]
+			r, _ := utf8.DecodeLastRuneInString(sz)
 			ir64 = uint64(if64 * float64(s.fromKibiBytes(r)))
 		}
 	} else {
 		if ir64, err = strconv.ParseUint(szr, 0, 64); err == nil {
-			r := []rune(sz)[len(sz)-1]
+			r, _ := utf8.DecodeLastRuneInString(sz)
 			ir64 *= s.fromKibiBytes(r)
 		}
 	}
@@ -1654,12 +1655,12 @@ func (s *trieS[T]) FromKiloBytes(sz string) (ir64 uint64) {
 	var err error
 	if strings.ContainsRune(szr, '.') {
 		if if64, err = strconv.ParseFloat(szr, 64); err == nil {
-			r := []rune(sz)[len(sz)-1]
+			r, _ := utf8.DecodeLastRuneInString(sz)
 			ir64 = uint64(if64 * float64(s.fromKilobytes(r)))
 		}
 	} else {
 		if ir64, err = strconv.ParseUint(szr, 0, 64); err == nil {
-			r := []rune(sz)[len(sz)-1]
+			r, _ := utf8.DecodeLastRuneInString(sz)
 			ir64 *= s.fromKilobytes(r)
 		}
 	}
-- 
2.43.0


From d2e2580e95411dee321b028911eae121157508a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:19 +0000
Subject: [PATCH 20/28] fix: Op could not read back its own text

---
 op.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/op.go b/op.go
index 7244e83..c2b1f58 100644
--- a/op.go
+++ b/op.go
@@ -33,7 +33,7 @@ var opStringsRev = map[string]Op{
 
 func (s *Op) UnmarshalText(text []byte) error {
 	// panic("implement me")
-	op, ok := opStringsRev[string(text)]
+	op, ok := opStringsRev[strings.ToLower(string(text))]
 	if ok {
 		*s = op
 		return nil
@@ -46,7 +46,7 @@ func (s *Op) MarshalText() (text []byte, err error) {
 	if ok {
 		return []byte(strings.ToUpper(sz)), nil
 	}
-	return []byte(fmt.Sprintf("Op(%d)", s)), nil
+	return []byte(fmt.Sprintf("Op(%d)", *s)), nil
 }
 
 func (s *Op) Marshal() []byte {
-- 
2.43.0


From 427296246215e12c16f25b7ebb35481cd2234c80 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:26 +0000
Subject: [PATCH 21/28] fix: env and flags providers could not iterate keys,
 and panicked on a fully stripped name

---
 providers/env/env.go     | 4 ++--
 providers/flags/flags.go | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/providers/env/env.go b/providers/env/env.go
index 8478937..40f8627 100644
--- a/providers/env/env.go
+++ b/providers/env/env.go
@@ -122,7 +122,7 @@ func (s *pvdr) prepare() (err error) {
 			if s.stripped != "" {
 				k = strings.TrimPrefix(k, s.stripped)
 			}
-			if s.underline2dot {
+			if s.underline2dot && k != "" {
 				k = k[:1] + re.ReplaceAllString(k[1:], "$1.$2")
 			}
 			if s.cb != nil {
@@ -150,7 +150,7 @@ func (s *pvdr) Has(key string) bool {
 }
 
 func (s *pvdr) Next() (key string, eol bool) {
-	if eol = s.pos < len(s.keys); !eol {
+	if eol = s.pos >= len(s.keys); !eol {
 		key = s.keys[s.pos]
 		s.pos++
 	}
diff --git a/providers/flags/flags.go b/providers/flags/flags.go
index b6700b9..167bd9c 100644
--- a/providers/flags/flags.go
+++ b/providers/flags/flags.go
@@ -106,7 +106,7 @@ func (s *pvdr) prepare() (err error) {
 		if s.stripped != "" {
 			k = strings.TrimPrefix(k, s.stripped)
 		}
-		if s.underline2dot {
+		if s.underline2dot && k != "" {
 			k = k[:1] + re.ReplaceAllString(k[1:], "$1.$2")
 		}
 		if s.cb != nil {
@@ -144,7 +144,7 @@ func (s *pvdr) Has(key string) bool {
 }
 
 func (s *pvdr) Next() (key string, eol bool) {
-	if eol = s.pos < len(s.keys); !eol {
+	if eol = s.pos >= len(s.keys); !eol {
 		key = s.keys[s.pos]
 		s.pos++
 	}
-- 
2.43.0


From 6af10b53a33a53bcc3d1da15bba8c6be20ad843f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:10:33 +0000
Subject: [PATCH 22/28] fix: gob codec never returned what it encoded, and json
 codec dropped its pretty output

---
 codecs/gob/gob.go   | 18 +++++-------------
 codecs/json/json.go |  2 +-
 2 files changed, 6 insertions(+), 14 deletions(-)

diff --git a/codecs/gob/gob.go b/codecs/gob/gob.go
index bf39032..43e934b 100644
--- a/codecs/gob/gob.go
+++ b/codecs/gob/gob.go
@@ -17,27 +17,19 @@ func New() store.Codec {
 	return &ldr{}
 }
 
-type ldr struct {
-	dec *gob.Decoder
-	enc *gob.Encoder
-}
+type ldr struct{}
 
 // Unmarshal parses the given bytes.
 func (p *ldr) Unmarshal(b []byte) (data map[string]any, err error) {
-	if p.dec == nil {
-		r := bytes.NewReader(b)
-		p.dec = gob.NewDecoder(r)
-	}
-	err = p.dec.Decode(&data)
+	err = gob.NewDecoder(bytes.NewReader(b)).Decode(&data)
 	return
 }
 
 // Marshal marshals the given config map to bytes.
 func (p *ldr) Marshal(m map[string]any) (data []byte, err error) {
-	if p.enc == nil {
-		sb := bytes.NewBuffer(data)
-		p.enc = gob.NewEncoder(sb)
+	var sb bytes.Buffer
+	if err = gob.NewEncoder(&sb).Encode(m); err == nil {
+		data = sb.Bytes()
 	}
-	err = p.enc.Encode(m)
 	return
 }
diff --git a/codecs/json/json.go b/codecs/json/json.go
index d2fa6d4..0ba10c9 100644
--- a/codecs/json/json.go
+++ b/codecs/json/json.go
@@ -44,7 +44,7 @@ func (p *ldr) Unmarshal(b []byte) (data map[string]any, err error) {
 // Marshal marshals the given config map to JSON bytes.
 func (p *ldr) Marshal(m map[string]any) (data []byte, err error) {
 	if p.pretty {
-		json.MarshalIndent(m, "", "  ")
+		return json.MarshalIndent(m, "", "  ")
 	}
 	return json.Marshal(m)
 }
-- 
2.43.0


From 5441e6c59d6e3ec6fd13cbfd3d18939db6dfcd86 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 05:30:02 +0000
Subject: [PATCH 23/28] fix: Has and Search missed a section standing beside a
 longer name

---
 radix/trie.go | 17 ++++++++++++++---
 1 file changed, 14 insertions(+), 3 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index 5ae66b5..f489493 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -526,10 +526,21 @@ func (s *trieS[T]) exists(node *nodeS[T], partialMatched bool) bool {
 		(node == s.root || !node.isBranch() || node.endsWith(s.delimiter))
 }
 
-// encloses tests if path is an ancestor of a partially matched node, at a
-// delimiter boundary.
+// encloses tests if path is an ancestor of the located node or of its
+// children, at a delimiter boundary.
 func (s *trieS[T]) encloses(path string, node *nodeS[T], partialMatched bool) bool {
-	return node != nil && partialMatched && strings.HasPrefix(node.pathS, path+string(s.delimiter))
+	if node == nil {
+		return false
+	}
+	if partialMatched {
+		return strings.HasPrefix(node.pathS, path+string(s.delimiter))
+	}
+	for _, c := range node.children {
+		if c.StartsWith(s.delimiter) {
+			return true
+		}
+	}
+	return false
 }
 
 func safeIsBranch[T any](node *nodeS[T]) bool { return node != nil && node.isBranch() }
-- 
2.43.0


From 74ef57a12bb77d620d944a0498fde229b9341727 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:32:39 +0000
Subject: [PATCH 24/28] fix: upward lookup goes on when a path matched only in
 part

In RecursiveUp mode a partial match (e.g. 'a.b.xyz' or the leaf 'a.b' for
'a.b.x'), or an internal splitting point, stopped the search so that 'a.x'
was never tried.
---
 radix/trie.go | 22 +++++++++++++++-------
 1 file changed, 15 insertions(+), 7 deletions(-)

diff --git a/radix/trie.go b/radix/trie.go
index f489493..bf333e9 100644
--- a/radix/trie.go
+++ b/radix/trie.go
@@ -500,7 +500,7 @@ func (s *trieS[T]) Search(path string) (found bool) {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, _, partialMatched := s.search(path, nil)
-	found = s.exists(node, partialMatched) || s.encloses(path, node, partialMatched)
+	found = s.present(path, node, partialMatched)
 	return
 }
 
@@ -543,6 +543,12 @@ func (s *trieS[T]) encloses(path string, node *nodeS[T], partialMatched bool) bo
 	return false
 }
 
+// present tests if a path is a key or an ancestor section of a key,
+// from what was located for it.
+func (s *trieS[T]) present(path string, node *nodeS[T], partialMatched bool) bool {
+	return s.exists(node, partialMatched) || s.encloses(path, node, partialMatched)
+}
+
 func safeIsBranch[T any](node *nodeS[T]) bool { return node != nil && node.isBranch() }
 
 // Has tests of a path exists.
@@ -565,7 +571,7 @@ func (s *trieS[T]) Has(path string) (found bool) {
 		path = s.Join(s.prefix, path) //nolint:revive
 	}
 	node, _, partialMatched := s.search(path, nil)
-	found = s.exists(node, partialMatched) || s.encloses(path, node, partialMatched)
+	found = s.present(path, node, partialMatched)
 	return
 }
 
@@ -766,11 +772,9 @@ func (s *trieS[T]) search(word string, kvpair KVPair) (found, parent *nodeS[T],
 	defer putBack(mctx)
 
 	// stringtoslicerune needs two pass full-scanning for a string, but it have to be to do.
-	if matched, pm, child, prnt := found.search(mctx, []rune(word), false, nil, kvpair); matched || pm {
-		return child, prnt, pm
-	}
+	matched, pm, child, prnt := found.search(mctx, []rune(word), false, nil, kvpair)
 
-	if s.recursiveMode == RecusiveUp && strings.Contains(word, string(s.delimiter)) {
+	if s.recursiveMode == RecusiveUp && !s.present(word, child, pm) && strings.Contains(word, string(s.delimiter)) {
 		w := word
 	retry:
 		a := strings.Split(w, string(s.delimiter))
@@ -778,13 +782,17 @@ func (s *trieS[T]) search(word string, kvpair KVPair) (found, parent *nodeS[T],
 			a = append(a[:len(a)-2], a[len(a)-1])
 			w = strings.Join(a, string(s.delimiter))
 			mctx.fullPath = w
-			if matched, pm, child, prnt := found.search(mctx, []rune(w), false, nil, kvpair); matched || pm {
+			if _, pm, child, prnt := found.search(mctx, []rune(w), false, nil, kvpair); s.present(w, child, pm) {
 				return child, prnt, pm
 			}
 			goto retry
 		}
 	}
 
+	if matched || pm {
+		return child, prnt, pm
+	}
+
 	found = nil
 	return
 }
-- 
2.43.0


From 2a5b051eb02141b71a99b880628ff72c6e02fcd4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 06:59:33 +0000
Subject: [PATCH 25/28] fix: env and flags providers list a key once if several
 names map to it

---
 providers/env/env.go     | 4 +++-
 providers/flags/flags.go | 4 +++-
 2 files changed, 6 insertions(+), 2 deletions(-)

diff --git a/providers/env/env.go b/providers/env/env.go
index 40f8627..c76ff06 100644
--- a/providers/env/env.go
+++ b/providers/env/env.go
@@ -131,8 +131,10 @@ func (s *pvdr) prepare() (err error) {
 			if s.storePrefix != "" {
 				k = s.storePrefix + "." + k
 			}
+			if _, dup := s.m[k]; !dup {
+				s.keys = append(s.keys, k)
+			}
 			s.m[k] = store.ValPkg{Value: v}
-			s.keys = append(s.keys, k)
 		}
 	}
 	sort.Strings(s.keys)
diff --git a/providers/flags/flags.go b/providers/flags/flags.go
index 167bd9c..b2ce768 100644
--- a/providers/flags/flags.go
+++ b/providers/flags/flags.go
@@ -121,13 +121,15 @@ func (s *pvdr) prepare() (err error) {
 			v = rv.Elem().Interface()
 		}
 
+		if _, dup := s.m[k]; !dup {
+			s.keys = append(s.keys, k)
+		}
 		s.m[k] = store.ValPkg{
 			Value:   v,
 			Desc:    f.Usage,
 			Comment: "",
 			Tag:     f.DefValue,
 		}
-		s.keys = append(s.keys, k)
 	})
 	sort.Strings(s.keys)
 	s.pos = 0
-- 
2.43.0


From 118ed455adbd89bbabeae0b21e3b28bc3a0a7539 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:39:42 +0000
Subject: [PATCH 26/28] fix: ParseDuration accepted a sum of exactly 2^64
 nanoseconds as 0

---
 internal/times/dur.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/internal/times/dur.go b/internal/times/dur.go
index c16d629..fa28adb 100644
--- a/internal/times/dur.go
+++ b/internal/times/dur.go
@@ -354,10 +354,11 @@ func ParseDuration(s string) (time.Duration, error) { //nolint:revive
 				return 0, errors.New("time: invalid duration " + quote(orig))
 			}
 		}
-		d += v
-		if d > 1<<63 {
+		if v > 1<<63-d {
+			// overflow
 			return 0, errors.New("time: invalid duration " + quote(orig))
 		}
+		d += v
 	}
 	if neg {
 		return -time.Duration(d), nil
-- 
2.43.0


From e074d409fbca9f389cb9c06d3745c7991109a525 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 10:47:16 +0000
Subject: [PATCH 27/28] fix: Merge into a tree panicked on a nil value

---
 radix/load.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/radix/load.go b/radix/load.go
index 791eaf0..5e53d71 100644
--- a/radix/load.go
+++ b/radix/load.go
@@ -88,6 +88,10 @@ func (s *trieS[T]) loadMapByValueType(ec errors.Error, m map[string]any, k strin
 			buf = buf[:0]
 		}
 	default:
-		s.Set(k, v.(T))
+		var data T
+		if v != nil { // a nil value is no T, not even if T is any
+			data = v.(T)
+		}
+		s.Set(k, data)
 	}
 }
-- 
2.43.0


From 437a350bc63e440e159750c9616152794c723434 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 14:13:47 +0000
Subject: [PATCH 28/28] fix: a route with named segments matches paths by
 segment, not by length

matchR went on comparing lengths after a named segment, so '/:n/abc/ab' did not
match '/users/abc/ab' and '/:n' matched '/x/a'.
---
 radix/node.go | 16 ++++++++++------
 1 file changed, 10 insertions(+), 6 deletions(-)

diff --git a/radix/node.go b/radix/node.go
index 40e6061..db469fc 100644
--- a/radix/node.go
+++ b/radix/node.go
@@ -378,7 +378,8 @@ func (s *nodeS[T]) matchR(mctx *matchCtx, word []rune, lastRuneIsDelimiter bool,
 
 	// dm: delimiter just matched?
 	// base: the working node ptr
-	base, srcMatchedL, dstMatchedL, minL, maxL := s, 0, 0, min(l, wl), max(l, wl)
+	// wildcard: an ident ended at this node, so the rest of word is up to its children
+	base, srcMatchedL, dstMatchedL, minL, maxL, wildcard := s, 0, 0, min(l, wl), max(l, wl), false
 masterLoop:
 	for ; srcMatchedL < minL; srcMatchedL++ {
 		ch := base.path[srcMatchedL]
@@ -431,6 +432,7 @@ masterLoop:
 								return
 							}
 							// not matched, break and match the rest part by looping base.children
+							wildcard, lastRuneIsDelimiter = true, false
 							break masterLoop
 						} else if !dstEnd {
 							// sub-comparing loop here,
@@ -445,11 +447,11 @@ masterLoop:
 							}
 							if srcMatchedL == l && dstMatchedL == wl {
 								matched, child, parent = true, base, parentNode
-								break masterLoop // matched ok
+								return // matched ok
 							}
 							if srcMatchedL == l && dstMatchedL < wl && len(base.children) > 0 {
 								// get into and matchR with children nodes
-								partialMatched = true
+								wildcard = true
 								break masterLoop
 							}
 							goto retriever // for the next id+val
@@ -466,21 +468,23 @@ masterLoop:
 		}
 	}
 
-	if srcMatchedL == l-1 && base.path[srcMatchedL] == mctx.delimiter {
+	if wildcard {
+		// neither this node nor a part of it
+	} else if srcMatchedL == l-1 && base.path[srcMatchedL] == mctx.delimiter {
 		matched, child, parent = true, base, parentNode
 	} else if minL < l && srcMatchedL == minL {
 		partialMatched, child, parent = true, base, parentNode
 	} else if minL >= l && srcMatchedL == minL && minL > 0 && srcMatchedL > 0 && !partialMatched {
 		matched, child, parent = true, base, parentNode
 	}
-	if minL < wl {
+	if wildcard || minL < wl {
 		if len(base.children) == 0 {
 			matched, partialMatched = false, child != nil // an empty tree matches nothing
 			return
 		}
 
 		// restPart := word[minL:]
-		if dstMatchedL == 0 {
+		if !wildcard {
 			dstMatchedL = minL
 		}
 		restPart := word[dstMatchedL:]
-- 
2.43.0

