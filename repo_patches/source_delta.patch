From 3abbd5eb80fee9f50493be92c3e48f8280dfdddf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:48 +0000
Subject: [PATCH 01/13] fix: don't report removing an inactive node as success

Deleting a prefix from a table which has no entry for it but happens to
have an interior node there returned success.
---
 ipv4/node.go | 4 ++++
 ipv6/node.go | 4 ++++
 2 files changed, 8 insertions(+)

diff --git a/ipv4/node.go b/ipv4/node.go
index 4266026..2cfa4d5 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -496,6 +496,10 @@ func (me *trieNode) del(key Prefix, opts deleteOpts) (newHead *trieNode, err err
 		if opts.flatten {
 			return nil, nil
 		}
+		if !me.isActive {
+			// This node only joins its children, there is no entry to delete
+			return me, fmt.Errorf("key not found")
+		}
 		// Delete this node
 		if me.children[0] == nil {
 			// At this point, it doesn't matter if it is nil or not
diff --git a/ipv6/node.go b/ipv6/node.go
index fe642b1..32dff96 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -492,6 +492,10 @@ func (me *trieNode) del(key Prefix, opts deleteOpts) (newHead *trieNode, err err
 		if opts.flatten {
 			return nil, nil
 		}
+		if !me.isActive {
+			// This node only joins its children, there is no entry to delete
+			return me, fmt.Errorf("key not found")
+		}
 		// Delete this node
 		if me.children[0] == nil {
 			// At this point, it doesn't matter if it is nil or not
-- 
2.43.0


From e2a043905d06cc373b83556252ac5088ef0d412e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:51 +0000
Subject: [PATCH 02/13] fix: keep the comparator when aggregating a table

Table.Aggregate returned a table without any comparator so that diffing,
aggregating or mapping it crashed and mutable copies of it compared values
with == regardless of the custom comparator.
---
 ipv4/table.go | 4 +---
 ipv6/table.go | 4 +---
 2 files changed, 2 insertions(+), 6 deletions(-)

diff --git a/ipv4/table.go b/ipv4/table.go
index 95773e2..5a07f62 100644
--- a/ipv4/table.go
+++ b/ipv4/table.go
@@ -219,9 +219,7 @@ func (me Table[T]) LongestMatch(searchPrefix PrefixI) (value T, found bool, pref
 // peers.
 func (me Table[T]) Aggregate() Table[T] {
 	return Table[T]{
-		tableX{
-			trie: me.t.trie.Aggregate(me.t.eq),
-		},
+		me.t.Aggregate(),
 	}
 }
 
diff --git a/ipv6/table.go b/ipv6/table.go
index 81889d2..0125ccd 100644
--- a/ipv6/table.go
+++ b/ipv6/table.go
@@ -219,9 +219,7 @@ func (me Table[T]) LongestMatch(searchPrefix PrefixI) (value T, found bool, pref
 // peers.
 func (me Table[T]) Aggregate() Table[T] {
 	return Table[T]{
-		tableX{
-			trie: me.t.trie.Aggregate(me.t.eq),
-		},
+		me.t.Aggregate(),
 	}
 }
 
-- 
2.43.0


From 6b2f82e7237ca4d5a6d6207dfc8a296021ffdf0d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:54 +0000
Subject: [PATCH 03/13] fix: don't map or compare data of interior nodes

Table.Map called the mapper for prefixes which aren't in the table and
Table.Aggregate passed nil to the comparator for them.
---
 ipv4/node.go | 12 +++++++-----
 ipv6/node.go | 12 +++++++-----
 2 files changed, 14 insertions(+), 10 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index 2cfa4d5..7208921 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -761,13 +761,13 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	data := me.Data
 	children := me.children
 	createReturnValue := func() *trieNode {
-		if isActive == me.isActive && children == me.children && eq(data, me.Data) {
+		if isActive == me.isActive && children == me.children && (!isActive || eq(data, me.Data)) {
 			return me
 		}
 		return me.copyMutate(func(n *trieNode) {
 			n.isActive = isActive
 			if isActive {
-				if n.Data == nil || !eq(n.Data, data) {
+				if !me.isActive || !eq(n.Data, data) {
 					n.Data = data
 				}
 			} else {
@@ -834,9 +834,11 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
 	return me.copyMutate(func(n *trieNode) {
-		n.Data = mapper(me.Prefix, me.Data)
-		if eq(me.Data, n.Data) {
-			n.Data = me.Data
+		if me.isActive {
+			n.Data = mapper(me.Prefix, me.Data)
+			if eq(me.Data, n.Data) {
+				n.Data = me.Data
+			}
 		}
 		n.children = [2]*trieNode{
 			me.children[0].Map(mapper, eq),
diff --git a/ipv6/node.go b/ipv6/node.go
index 32dff96..1ea17da 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -757,13 +757,13 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	data := me.Data
 	children := me.children
 	createReturnValue := func() *trieNode {
-		if isActive == me.isActive && children == me.children && eq(data, me.Data) {
+		if isActive == me.isActive && children == me.children && (!isActive || eq(data, me.Data)) {
 			return me
 		}
 		return me.copyMutate(func(n *trieNode) {
 			n.isActive = isActive
 			if isActive {
-				if n.Data == nil || !eq(n.Data, data) {
+				if !me.isActive || !eq(n.Data, data) {
 					n.Data = data
 				}
 			} else {
@@ -830,9 +830,11 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
 	return me.copyMutate(func(n *trieNode) {
-		n.Data = mapper(me.Prefix, me.Data)
-		if eq(me.Data, n.Data) {
-			n.Data = me.Data
+		if me.isActive {
+			n.Data = mapper(me.Prefix, me.Data)
+			if eq(me.Data, n.Data) {
+				n.Data = me.Data
+			}
 		}
 		n.children = [2]*trieNode{
 			me.children[0].Map(mapper, eq),
-- 
2.43.0


From 79195146a9d7773577a1afb819c60e7fa37287ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:56 +0000
Subject: [PATCH 04/13] fix: don't compare data with == when copying nodes

Tables with a custom comparator panicked when the values couldn't be
compared using ==.
---
 ipv4/node.go | 36 +++++++++++++++++++++++++-----------
 ipv6/node.go | 36 +++++++++++++++++++++++++-----------
 2 files changed, 50 insertions(+), 22 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index 7208921..ca2bc5b 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -116,6 +116,10 @@ func (me *trieNode) mutate(mutator func(*trieNode)) *trieNode {
 	return me
 }
 
+// copyMutate runs the mutator on a copy of the node and returns it or the
+// original node if there is nothing new about the copy. The data isn't compared
+// because it might not be comparable with ==. So, it isn't suitable for mutators
+// which change nothing but the data.
 func (me *trieNode) copyMutate(mutator func(*trieNode)) *trieNode {
 	if me == nil {
 		return nil
@@ -123,7 +127,7 @@ func (me *trieNode) copyMutate(mutator func(*trieNode)) *trieNode {
 	doppelganger := &trieNode{}
 	*doppelganger = *me
 	mutated := doppelganger.mutate(mutator)
-	if *mutated == *me {
+	if mutated.Prefix == me.Prefix && mutated.isActive == me.isActive && mutated.children == me.children {
 		return me
 	}
 	return mutated
@@ -833,16 +837,26 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // returns the *trieNode pointing to the result. As always, the original
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
-	return me.copyMutate(func(n *trieNode) {
-		if me.isActive {
-			n.Data = mapper(me.Prefix, me.Data)
-			if eq(me.Data, n.Data) {
-				n.Data = me.Data
-			}
-		}
-		n.children = [2]*trieNode{
-			me.children[0].Map(mapper, eq),
-			me.children[1].Map(mapper, eq),
+	if me == nil {
+		return nil
+	}
+
+	data, modified := me.Data, false
+	if me.isActive {
+		if mapped := mapper(me.Prefix, me.Data); !eq(me.Data, mapped) {
+			data, modified = mapped, true
 		}
+	}
+	children := [2]*trieNode{
+		me.children[0].Map(mapper, eq),
+		me.children[1].Map(mapper, eq),
+	}
+	if !modified && children == me.children {
+		return me
+	}
+
+	node := &trieNode{Prefix: me.Prefix, Data: data, isActive: me.isActive}
+	return node.mutate(func(n *trieNode) {
+		n.children = children
 	})
 }
diff --git a/ipv6/node.go b/ipv6/node.go
index 1ea17da..252021d 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -115,6 +115,10 @@ func (me *trieNode) mutate(mutator func(*trieNode)) *trieNode {
 	return me
 }
 
+// copyMutate runs the mutator on a copy of the node and returns it or the
+// original node if there is nothing new about the copy. The data isn't compared
+// because it might not be comparable with ==. So, it isn't suitable for mutators
+// which change nothing but the data.
 func (me *trieNode) copyMutate(mutator func(*trieNode)) *trieNode {
 	if me == nil {
 		return nil
@@ -122,7 +126,7 @@ func (me *trieNode) copyMutate(mutator func(*trieNode)) *trieNode {
 	doppelganger := &trieNode{}
 	*doppelganger = *me
 	mutated := doppelganger.mutate(mutator)
-	if *mutated == *me {
+	if mutated.Prefix == me.Prefix && mutated.isActive == me.isActive && mutated.children == me.children {
 		return me
 	}
 	return mutated
@@ -829,16 +833,26 @@ func (me *trieNode) Aggregate(eq comparator) *trieNode {
 // returns the *trieNode pointing to the result. As always, the original
 // structure is not modified, an entirely new structure is created.
 func (me *trieNode) Map(mapper func(Prefix, interface{}) interface{}, eq comparator) *trieNode {
-	return me.copyMutate(func(n *trieNode) {
-		if me.isActive {
-			n.Data = mapper(me.Prefix, me.Data)
-			if eq(me.Data, n.Data) {
-				n.Data = me.Data
-			}
-		}
-		n.children = [2]*trieNode{
-			me.children[0].Map(mapper, eq),
-			me.children[1].Map(mapper, eq),
+	if me == nil {
+		return nil
+	}
+
+	data, modified := me.Data, false
+	if me.isActive {
+		if mapped := mapper(me.Prefix, me.Data); !eq(me.Data, mapped) {
+			data, modified = mapped, true
 		}
+	}
+	children := [2]*trieNode{
+		me.children[0].Map(mapper, eq),
+		me.children[1].Map(mapper, eq),
+	}
+	if !modified && children == me.children {
+		return me
+	}
+
+	node := &trieNode{Prefix: me.Prefix, Data: data, isActive: me.isActive}
+	return node.mutate(func(n *trieNode) {
+		n.children = children
 	})
 }
-- 
2.43.0


From d3f66f8833e091236813a00b54b454106bd506b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:15:59 +0000
Subject: [PATCH 05/13] fix: custom comparator with nil interface values

With an interface type for T, comparing a nil value panicked.
---
 ipv4/table.go | 6 +++++-
 ipv6/table.go | 6 +++++-
 2 files changed, 10 insertions(+), 2 deletions(-)

diff --git a/ipv4/table.go b/ipv4/table.go
index 5a07f62..259fd84 100644
--- a/ipv4/table.go
+++ b/ipv4/table.go
@@ -28,7 +28,11 @@ func NewTableCustomCompare_[T any](comparator func(a, b T) bool) Table_[T] {
 	return Table_[T]{
 		newTableXCustomCompare_(
 			func(a, b interface{}) bool {
-				return comparator(a.(T), b.(T))
+				// If T is an interface type, nil is a value like any other
+				// but it isn't possible to assert its type.
+				ta, _ := a.(T)
+				tb, _ := b.(T)
+				return comparator(ta, tb)
 			},
 		),
 	}
diff --git a/ipv6/table.go b/ipv6/table.go
index 0125ccd..51389e3 100644
--- a/ipv6/table.go
+++ b/ipv6/table.go
@@ -28,7 +28,11 @@ func NewTableCustomCompare_[T any](comparator func(a, b T) bool) Table_[T] {
 	return Table_[T]{
 		newTableXCustomCompare_(
 			func(a, b interface{}) bool {
-				return comparator(a.(T), b.(T))
+				// If T is an interface type, nil is a value like any other
+				// but it isn't possible to assert its type.
+				ta, _ := a.(T)
+				tb, _ := b.(T)
+				return comparator(ta, tb)
 			},
 		),
 	}
-- 
2.43.0


From 69b6ea8e0045975f62ae6937977427bc6e598ae2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:02 +0000
Subject: [PATCH 06/13] fix: don't lose entries when aggregating two halves

Aggregating two halves of a prefix dropped all of the entries with longer
prefixes under them and could leave the result although it was redundant
with the entry enclosing it.
---
 ipv4/node.go | 9 ++++++++-
 ipv6/node.go | 9 ++++++++-
 2 files changed, 16 insertions(+), 2 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index ca2bc5b..ce28828 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -811,7 +811,14 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	if childrenAggregate {
 		isActive = true
 		data = children[0].Data
-		children = [2]*trieNode{}
+		if parentUmbrella != nil && eq(parentUmbrella.Data, data) {
+			isActive = false
+			data = nil
+		}
+		// Keep any longer prefixes which are still needed in each of the halves
+		for i, child := range children {
+			children[i], _ = child.Delete(child.Prefix)
+		}
 	}
 
 	if isActive {
diff --git a/ipv6/node.go b/ipv6/node.go
index 252021d..a8028de 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -807,7 +807,14 @@ func (me *trieNode) aggregate(parentUmbrella *umbrella, eq comparator) (result *
 	if childrenAggregate {
 		isActive = true
 		data = children[0].Data
-		children = [2]*trieNode{}
+		if parentUmbrella != nil && eq(parentUmbrella.Data, data) {
+			isActive = false
+			data = nil
+		}
+		// Keep any longer prefixes which are still needed in each of the halves
+		for i, child := range children {
+			children[i], _ = child.Delete(child.Prefix)
+		}
 	}
 
 	if isActive {
-- 
2.43.0


From 56e35a8116dbb09e6bb7b9920d5a0dc0ab3e0d42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:05 +0000
Subject: [PATCH 07/13] fix: make mutating a Set_ or Table_ safe in the
 presence of other goroutines

The trie was loaded twice while mutating. A write by another goroutine
between the two could be undone and then lost without detecting it. Compute
the result from the same trie that is compared and swapped. Also, load it
atomically wherever it is read because it is swapped concurrently.
---
 ipv4/set.go           | 36 ++++++++++++++++++++++--------------
 ipv4/tablex.go        | 43 +++++++++++++++++++++++++++----------------
 ipv4/unsafe_atomic.go | 20 ++++++++++++++++++++
 ipv6/set.go           | 36 ++++++++++++++++++++++--------------
 ipv6/tablex.go        | 43 +++++++++++++++++++++++++++----------------
 ipv6/unsafe_atomic.go | 20 ++++++++++++++++++++
 6 files changed, 138 insertions(+), 60 deletions(-)

diff --git a/ipv4/set.go b/ipv4/set.go
index 3cd3c42..bb651b9 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -29,14 +29,22 @@ func (me Set_) Set() Set {
 		return Set{}
 	}
 	return Set{
-		trie: me.s.trie,
+		trie: loadSetNodePtr(&me.s.trie),
 	}
 }
 
 // mutate should be called by any method that modifies the set in any way
 func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
-	oldNode := me.s.trie
-	ok, newNode := mutator()
+	me.mutateTrie(func(*setNode) (bool, *setNode) {
+		return mutator()
+	})
+}
+
+// mutateTrie is like mutate but passes the trie to be modified to the mutator.
+// The result replaces that very trie or nothing at all.
+func (me Set_) mutateTrie(mutator func(trie *setNode) (ok bool, newNode *setNode)) {
+	oldNode := loadSetNodePtr(&me.s.trie)
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
 			panic("concurrent modification of Set_ detected")
@@ -53,8 +61,8 @@ func (me Set_) Insert(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Union(other.Set().trie)
+	me.mutateTrie(func(trie *setNode) (bool, *setNode) {
+		return true, trie.Union(other.Set().trie)
 	})
 }
 
@@ -68,8 +76,8 @@ func (me Set_) Remove(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Difference(other.Set().trie)
+	me.mutateTrie(func(trie *setNode) (bool, *setNode) {
+		return true, trie.Difference(other.Set().trie)
 	})
 }
 
@@ -83,7 +91,7 @@ func (me Set_) NumAddresses() int64 {
 	if me.s == nil {
 		return 0
 	}
-	return me.s.NumAddresses()
+	return me.Set().NumAddresses()
 }
 
 // Contains tests if the given prefix is entirely contained in the set
@@ -91,7 +99,7 @@ func (me Set_) Contains(other SetI) bool {
 	if me.s == nil {
 		return other == nil || other.Set().NumAddresses() == 0
 	}
-	return me.s.Contains(other)
+	return me.Set().Contains(other)
 }
 
 // Equal returns true if this set is equal to other
@@ -99,11 +107,11 @@ func (me Set_) Equal(other Set_) bool {
 	if me.s == nil {
 		return other.NumAddresses() == 0
 	}
-	return me.s.Equal(other.Set())
+	return me.Set().Equal(other.Set())
 }
 
 func (me Set_) isValid() bool {
-	return me.s.isValid()
+	return me.Set().isValid()
 }
 
 // Union returns a new fixed set with all addresses from both sets
@@ -114,7 +122,7 @@ func (me Set_) Union(other SetI) Set {
 	if me.s == nil {
 		return other.Set()
 	}
-	return me.s.Union(other)
+	return me.Set().Union(other)
 }
 
 // Intersection returns a new fixed set with all addresses that appear in both sets
@@ -125,7 +133,7 @@ func (me Set_) Intersection(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Intersection(other)
+	return me.Set().Intersection(other)
 }
 
 // Difference returns a new fixed set with all addresses that appear in this set
@@ -137,7 +145,7 @@ func (me Set_) Difference(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Difference(other)
+	return me.Set().Difference(other)
 }
 
 // Set is a structure that efficiently stores sets of addresses and supports
diff --git a/ipv4/tablex.go b/ipv4/tablex.go
index 8e30234..04b745a 100644
--- a/ipv4/tablex.go
+++ b/ipv4/tablex.go
@@ -60,13 +60,21 @@ func (me tableX_) NumEntries() int64 {
 	if me.m == nil {
 		return 0
 	}
-	return me.m.NumEntries()
+	return me.Table().NumEntries()
 }
 
 // mutate should be called by any method that modifies the table in any way
 func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
-	oldNode := me.m.trie
-	ok, newNode := mutator()
+	me.mutateTrie(func(*trieNode) (bool, *trieNode) {
+		return mutator()
+	})
+}
+
+// mutateTrie is like mutate but passes the trie to be modified to the mutator.
+// The result replaces that very trie or nothing at all.
+func (me tableX_) mutateTrie(mutator func(trie *trieNode) (ok bool, node *trieNode)) {
+	oldNode := loadTrieNodePtr(&me.m.trie)
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
 			panic("concurrent modification of Table_ detected")
@@ -85,9 +93,9 @@ func (me tableX_) Insert(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateTrie(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Insert(prefix.Prefix(), value)
+		newHead, err = trie.Insert(prefix.Prefix(), value)
 		if err != nil {
 			return false, nil
 		}
@@ -107,9 +115,9 @@ func (me tableX_) Update(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateTrie(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Update(prefix.Prefix(), value, me.m.eq)
+		newHead, err = trie.Update(prefix.Prefix(), value, me.m.eq)
 		if err != nil {
 			return false, nil
 		}
@@ -127,8 +135,8 @@ func (me tableX_) InsertOrUpdate(prefix PrefixI, value interface{}) {
 	if prefix == nil {
 		prefix = Prefix{}
 	}
-	me.mutate(func() (bool, *trieNode) {
-		return true, me.m.trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
+	me.mutateTrie(func(trie *trieNode) (bool, *trieNode) {
+		return true, trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
 	})
 }
 
@@ -140,7 +148,7 @@ func (me tableX_) Get(prefix PrefixI) (interface{}, bool) {
 	if me.m == nil {
 		return nil, false
 	}
-	return me.m.Get(prefix)
+	return me.Table().Get(prefix)
 }
 
 // GetOrInsert returns the value associated with the given prefix if it already
@@ -154,9 +162,9 @@ func (me tableX_) GetOrInsert(prefix PrefixI, value interface{}) interface{} {
 		prefix = Prefix{}
 	}
 	var node *trieNode
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateTrie(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, node = me.m.trie.GetOrInsert(prefix.Prefix(), value)
+		newHead, node = trie.GetOrInsert(prefix.Prefix(), value)
 		return true, newHead
 	})
 	return node.Data
@@ -170,7 +178,7 @@ func (me tableX_) LongestMatch(prefix PrefixI) (value interface{}, found bool, m
 	if me.m == nil {
 		return nil, false, Prefix{}
 	}
-	return me.m.LongestMatch(prefix)
+	return me.Table().LongestMatch(prefix)
 }
 
 // Remove removes the given prefix from the table with its associated value and
@@ -185,9 +193,9 @@ func (me tableX_) Remove(prefix PrefixI) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateTrie(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Delete(prefix.Prefix())
+		newHead, err = trie.Delete(prefix.Prefix())
 		return true, newHead
 	})
 	return err == nil
@@ -200,7 +208,10 @@ func (me tableX_) Table() tableX {
 	if me.m == nil {
 		return tableX{}
 	}
-	return *me.m
+	return tableX{
+		loadTrieNodePtr(&me.m.trie),
+		me.m.eq,
+	}
 }
 
 // tableX is a structure that maps IP prefixes to values. For example, the
diff --git a/ipv4/unsafe_atomic.go b/ipv4/unsafe_atomic.go
index 1b84ca7..fab3567 100644
--- a/ipv4/unsafe_atomic.go
+++ b/ipv4/unsafe_atomic.go
@@ -5,6 +5,26 @@ import (
 	"unsafe"
 )
 
+func loadTrieNodePtr(ptr **trieNode) *trieNode {
+	return (*trieNode)(
+		atomic.LoadPointer(
+			(*unsafe.Pointer)(
+				unsafe.Pointer(ptr),
+			),
+		),
+	)
+}
+
+func loadSetNodePtr(ptr **setNode) *setNode {
+	return (*setNode)(
+		atomic.LoadPointer(
+			(*unsafe.Pointer)(
+				unsafe.Pointer(ptr),
+			),
+		),
+	)
+}
+
 func swapTrieNodePtr(ptr **trieNode, old, new *trieNode) bool {
 	return atomic.CompareAndSwapPointer(
 		(*unsafe.Pointer)(
diff --git a/ipv6/set.go b/ipv6/set.go
index ae95cb3..f781d9a 100644
--- a/ipv6/set.go
+++ b/ipv6/set.go
@@ -30,7 +30,7 @@ func (me Set_) Set() Set {
 		return Set{}
 	}
 	return Set{
-		trie: me.s.trie,
+		trie: loadSetNodePtr(&me.s.trie),
 	}
 }
 
@@ -51,8 +51,16 @@ func (me Set) Build(builder func(Set_) bool) Set {
 
 // mutate should be called by any method that modifies the set in any way
 func (me Set_) mutate(mutator func() (ok bool, newNode *setNode)) {
-	oldNode := me.s.trie
-	ok, newNode := mutator()
+	me.mutateTrie(func(*setNode) (bool, *setNode) {
+		return mutator()
+	})
+}
+
+// mutateTrie is like mutate but passes the trie to be modified to the mutator.
+// The result replaces that very trie or nothing at all.
+func (me Set_) mutateTrie(mutator func(trie *setNode) (ok bool, newNode *setNode)) {
+	oldNode := loadSetNodePtr(&me.s.trie)
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapSetNodePtr(&me.s.trie, oldNode, newNode) {
 			panic("concurrent modification of Set_ detected")
@@ -69,8 +77,8 @@ func (me Set_) Insert(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Union(other.Set().trie)
+	me.mutateTrie(func(trie *setNode) (bool, *setNode) {
+		return true, trie.Union(other.Set().trie)
 	})
 }
 
@@ -84,8 +92,8 @@ func (me Set_) Remove(other SetI) {
 	if other == nil {
 		other = Set{}
 	}
-	me.mutate(func() (bool, *setNode) {
-		return true, me.s.trie.Difference(other.Set().trie)
+	me.mutateTrie(func(trie *setNode) (bool, *setNode) {
+		return true, trie.Difference(other.Set().trie)
 	})
 }
 
@@ -94,7 +102,7 @@ func (me Set_) IsEmpty() bool {
 	if me.s == nil {
 		return true
 	}
-	return me.s.IsEmpty()
+	return me.Set().IsEmpty()
 }
 
 // Contains tests if the given prefix is entirely contained in the set
@@ -102,7 +110,7 @@ func (me Set_) Contains(other SetI) bool {
 	if me.s == nil {
 		return other == nil || other.Set().IsEmpty()
 	}
-	return me.s.Contains(other)
+	return me.Set().Contains(other)
 }
 
 // Equal returns true if this set is equal to other
@@ -110,11 +118,11 @@ func (me Set_) Equal(other Set_) bool {
 	if me.s == nil {
 		return other.IsEmpty()
 	}
-	return me.s.Equal(other.Set())
+	return me.Set().Equal(other.Set())
 }
 
 func (me Set_) isValid() bool {
-	return me.s.isValid()
+	return me.Set().isValid()
 }
 
 // Union returns a new fixed set with all addresses from both sets
@@ -125,7 +133,7 @@ func (me Set_) Union(other SetI) Set {
 	if me.s == nil {
 		return other.Set()
 	}
-	return me.s.Union(other)
+	return me.Set().Union(other)
 }
 
 // Intersection returns a new fixed set with all addresses that appear in both sets
@@ -136,7 +144,7 @@ func (me Set_) Intersection(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Intersection(other)
+	return me.Set().Intersection(other)
 }
 
 // Difference returns a new fixed set with all addresses that appear in this set
@@ -148,7 +156,7 @@ func (me Set_) Difference(other SetI) Set {
 	if me.s == nil {
 		return Set{}
 	}
-	return me.s.Difference(other)
+	return me.Set().Difference(other)
 }
 
 // Set is a structure that efficiently stores sets of addresses and supports
diff --git a/ipv6/tablex.go b/ipv6/tablex.go
index 9327206..0b9c4fa 100644
--- a/ipv6/tablex.go
+++ b/ipv6/tablex.go
@@ -60,13 +60,21 @@ func (me tableX_) NumEntries() int64 {
 	if me.m == nil {
 		return 0
 	}
-	return me.m.NumEntries()
+	return me.Table().NumEntries()
 }
 
 // mutate should be called by any method that modifies the table in any way
 func (me tableX_) mutate(mutator func() (ok bool, node *trieNode)) {
-	oldNode := me.m.trie
-	ok, newNode := mutator()
+	me.mutateTrie(func(*trieNode) (bool, *trieNode) {
+		return mutator()
+	})
+}
+
+// mutateTrie is like mutate but passes the trie to be modified to the mutator.
+// The result replaces that very trie or nothing at all.
+func (me tableX_) mutateTrie(mutator func(trie *trieNode) (ok bool, node *trieNode)) {
+	oldNode := loadTrieNodePtr(&me.m.trie)
+	ok, newNode := mutator(oldNode)
 	if ok && oldNode != newNode {
 		if !swapTrieNodePtr(&me.m.trie, oldNode, newNode) {
 			panic("concurrent modification of Table_ detected")
@@ -85,9 +93,9 @@ func (me tableX_) Insert(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateTrie(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Insert(prefix.Prefix(), value)
+		newHead, err = trie.Insert(prefix.Prefix(), value)
 		if err != nil {
 			return false, nil
 		}
@@ -107,9 +115,9 @@ func (me tableX_) Update(prefix PrefixI, value interface{}) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateTrie(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Update(prefix.Prefix(), value, me.m.eq)
+		newHead, err = trie.Update(prefix.Prefix(), value, me.m.eq)
 		if err != nil {
 			return false, nil
 		}
@@ -127,8 +135,8 @@ func (me tableX_) InsertOrUpdate(prefix PrefixI, value interface{}) {
 	if prefix == nil {
 		prefix = Prefix{}
 	}
-	me.mutate(func() (bool, *trieNode) {
-		return true, me.m.trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
+	me.mutateTrie(func(trie *trieNode) (bool, *trieNode) {
+		return true, trie.InsertOrUpdate(prefix.Prefix(), value, me.m.eq)
 	})
 }
 
@@ -140,7 +148,7 @@ func (me tableX_) Get(prefix PrefixI) (interface{}, bool) {
 	if me.m == nil {
 		return nil, false
 	}
-	return me.m.Get(prefix)
+	return me.Table().Get(prefix)
 }
 
 // GetOrInsert returns the value associated with the given prefix if it already
@@ -154,9 +162,9 @@ func (me tableX_) GetOrInsert(prefix PrefixI, value interface{}) interface{} {
 		prefix = Prefix{}
 	}
 	var node *trieNode
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateTrie(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, node = me.m.trie.GetOrInsert(prefix.Prefix(), value)
+		newHead, node = trie.GetOrInsert(prefix.Prefix(), value)
 		return true, newHead
 	})
 	return node.Data
@@ -170,7 +178,7 @@ func (me tableX_) LongestMatch(prefix PrefixI) (value interface{}, found bool, m
 	if me.m == nil {
 		return nil, false, Prefix{}
 	}
-	return me.m.LongestMatch(prefix)
+	return me.Table().LongestMatch(prefix)
 }
 
 // Remove removes the given prefix from the table with its associated value and
@@ -185,9 +193,9 @@ func (me tableX_) Remove(prefix PrefixI) (succeeded bool) {
 		prefix = Prefix{}
 	}
 	var err error
-	me.mutate(func() (bool, *trieNode) {
+	me.mutateTrie(func(trie *trieNode) (bool, *trieNode) {
 		var newHead *trieNode
-		newHead, err = me.m.trie.Delete(prefix.Prefix())
+		newHead, err = trie.Delete(prefix.Prefix())
 		return true, newHead
 	})
 	return err == nil
@@ -200,7 +208,10 @@ func (me tableX_) Table() tableX {
 	if me.m == nil {
 		return tableX{}
 	}
-	return *me.m
+	return tableX{
+		loadTrieNodePtr(&me.m.trie),
+		me.m.eq,
+	}
 }
 
 // tableX is a structure that maps IP prefixes to values. For example, the
diff --git a/ipv6/unsafe_atomic.go b/ipv6/unsafe_atomic.go
index f72d6bb..ff8febb 100644
--- a/ipv6/unsafe_atomic.go
+++ b/ipv6/unsafe_atomic.go
@@ -5,6 +5,26 @@ import (
 	"unsafe"
 )
 
+func loadTrieNodePtr(ptr **trieNode) *trieNode {
+	return (*trieNode)(
+		atomic.LoadPointer(
+			(*unsafe.Pointer)(
+				unsafe.Pointer(ptr),
+			),
+		),
+	)
+}
+
+func loadSetNodePtr(ptr **setNode) *setNode {
+	return (*setNode)(
+		atomic.LoadPointer(
+			(*unsafe.Pointer)(
+				unsafe.Pointer(ptr),
+			),
+		),
+	)
+}
+
 func swapTrieNodePtr(ptr **trieNode, old, new *trieNode) bool {
 	return atomic.CompareAndSwapPointer(
 		(*unsafe.Pointer)(
-- 
2.43.0


From b00390e0a8d3a662b00bd6c96b05cb44b1259211 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:08 +0000
Subject: [PATCH 08/13] fix: FindAvailablePrefix with nil reserved or invalid
 length

It is possible for a SetI to be nil in which case it is an empty set. A
length longer than an address returned a prefix which isn't valid.
---
 ipv4/set.go | 6 ++++++
 ipv6/set.go | 6 ++++++
 2 files changed, 12 insertions(+)

diff --git a/ipv4/set.go b/ipv4/set.go
index bb651b9..db3cff6 100644
--- a/ipv4/set.go
+++ b/ipv4/set.go
@@ -354,6 +354,12 @@ func (me Set) isValid() bool {
 // set. The returned Prefix is optimally placed to avoid any further IP space
 // fragmentation. An error is returned if there is not enough space to allocate
 func (me Set) FindAvailablePrefix(reserved SetI, length uint32) (Prefix, error) {
+	if reserved == nil {
+		reserved = Set{}
+	}
+	if 32 < length {
+		return Prefix{}, fmt.Errorf("length is greater than 32")
+	}
 	prefix, err := me.trie.FindSmallestContainingPrefix(reserved.Set().trie, length)
 	if err != nil {
 		return Prefix{}, fmt.Errorf("no room for prefix of given length")
diff --git a/ipv6/set.go b/ipv6/set.go
index f781d9a..4f16ef0 100644
--- a/ipv6/set.go
+++ b/ipv6/set.go
@@ -342,6 +342,12 @@ func (me Set) isValid() bool {
 // set. The returned Prefix is optimally placed to avoid any further IP space
 // fragmentation. An error is returned if there is not enough space to allocate
 func (me Set) FindAvailablePrefix(reserved SetI, length uint32) (Prefix, error) {
+	if reserved == nil {
+		reserved = Set{}
+	}
+	if 128 < length {
+		return Prefix{}, fmt.Errorf("length is greater than 128")
+	}
 	prefix, err := me.trie.FindSmallestContainingPrefix(reserved.Set().trie, length)
 	if err != nil {
 		return Prefix{}, fmt.Errorf("no room for prefix of given length")
-- 
2.43.0


From 0a77375af26b01b58693ed50b2185ef5086089d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:45 +0000
Subject: [PATCH 09/13] fix: ignore host bits when converting a prefix to a set

The host bits were kept in the set and visible when walking or printing
it. Sets with the same addresses didn't compare equal.
---
 ipv4/prefix.go | 2 +-
 ipv6/prefix.go | 7 ++++++-
 2 files changed, 7 insertions(+), 2 deletions(-)

diff --git a/ipv4/prefix.go b/ipv4/prefix.go
index fef78d1..97b0376 100644
--- a/ipv4/prefix.go
+++ b/ipv4/prefix.go
@@ -248,6 +248,6 @@ func (me Prefix) Halves() (a, b Prefix) {
 // It ignores any bits set in the host part of the address.
 func (me Prefix) Set() Set {
 	return Set{
-		trie: setNodeFromPrefix(me),
+		trie: setNodeFromPrefix(me.Network()),
 	}
 }
diff --git a/ipv6/prefix.go b/ipv6/prefix.go
index 6a87a8c..a5088f2 100644
--- a/ipv6/prefix.go
+++ b/ipv6/prefix.go
@@ -229,6 +229,11 @@ func (me Prefix) Halves() (a, b Prefix) {
 // It ignores any bits set in the host part of the address.
 func (me Prefix) Set() Set {
 	return Set{
-		trie: setNodeFromPrefix(me),
+		trie: setNodeFromPrefix(Prefix{
+			addr: Address{
+				ui: me.addr.ui.and(maxUint128.rightShift(int(me.length)).complement()), // zero out host bits
+			},
+			length: me.length,
+		}),
 	}
 }
-- 
2.43.0


From c36d3447735dc2440d9fa519456074682dc52256 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:11 +0000
Subject: [PATCH 10/13] fix: infinite loop walking the last address

---
 ipv4/prefix.go | 8 ++++++--
 1 file changed, 6 insertions(+), 2 deletions(-)

diff --git a/ipv4/prefix.go b/ipv4/prefix.go
index 97b0376..14f100b 100644
--- a/ipv4/prefix.go
+++ b/ipv4/prefix.go
@@ -211,12 +211,16 @@ func (me Prefix) Uint32() (address, mask uint32) {
 // It returns false if iteration was stopped due to a callback return false or
 // true if it iterated all items.
 func (me Prefix) walkAddresses(callback func(Address) bool) bool {
-	for a := me.Network().addr.Uint32(); a <= me.Broadcast().addr.Uint32(); a++ {
+	last := me.Broadcast().addr.Uint32()
+	for a := me.Network().addr.Uint32(); ; a++ {
 		if !callback(Address{a}) {
 			return false
 		}
+		// Check for the end here because there may be no next address
+		if a == last {
+			return true
+		}
 	}
-	return true
 }
 
 // Range returns the range that includes the same addresses as the prefix
-- 
2.43.0


From fddfb57e402738f45392bd3abe9138d357a64280 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:13 +0000
Subject: [PATCH 11/13] fix: adding ranges that end with the last address

---
 ipv4/range.go | 3 ++-
 ipv6/range.go | 3 ++-
 2 files changed, 4 insertions(+), 2 deletions(-)

diff --git a/ipv4/range.go b/ipv4/range.go
index 358d71f..a8a62d2 100644
--- a/ipv4/range.go
+++ b/ipv4/range.go
@@ -84,7 +84,8 @@ func (me Range) Minus(other Range) []Range {
 // lexigraphically by their first address.
 func (me Range) Plus(other Range) []Range {
 	plus := func(a, b Range) []Range {
-		if a.next().lessThan(b.first) {
+		// Don't use a.next() here. It overflows at the end of the IP space.
+		if a.last.lessThan(b.first) && a.last.lessThan(b.prev()) {
 			return []Range{a, b}
 		}
 		return []Range{
diff --git a/ipv6/range.go b/ipv6/range.go
index b21c533..7bea41c 100644
--- a/ipv6/range.go
+++ b/ipv6/range.go
@@ -78,7 +78,8 @@ func (me Range) Minus(other Range) []Range {
 // lexigraphically by their first address.
 func (me Range) Plus(other Range) []Range {
 	plus := func(a, b Range) []Range {
-		if a.next().lessThan(b.first) {
+		// Don't use a.next() here. It overflows at the end of the IP space.
+		if a.last.lessThan(b.first) && a.last.lessThan(b.prev()) {
 			return []Range{a, b}
 		}
 		return []Range{
-- 
2.43.0


From 8a492cf00deca4307c5392e610d4e7ec94430a90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:14 +0000
Subject: [PATCH 12/13] fix: ranges which look like a prefix but aren't aligned

The range [10.0.0.1,10.0.0.2] was converted to the set 10.0.0.1/30. The
first and last address differ in all of the low bits, like those of a
prefix do, but the first address doesn't have them all zero.
---
 ipv4/setnode.go | 2 +-
 ipv6/setnode.go | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/ipv4/setnode.go b/ipv4/setnode.go
index 6e3c2a3..4ab61a8 100644
--- a/ipv4/setnode.go
+++ b/ipv4/setnode.go
@@ -27,7 +27,7 @@ func setNodeFromRange(r Range) *setNode {
 	// The number of leading zeroes in the xor is the number of bits the two addresses have in common
 	numCommonBits := bits.LeadingZeros32(xor)
 
-	if numCommonBits == bits.OnesCount32(^xor) {
+	if numCommonBits == bits.OnesCount32(^xor) && r.first.ui&xor == 0 {
 		// This range is exactly one prefix, return a node with it.
 		prefix := Prefix{r.first, uint32(numCommonBits)}
 		return setNodeFromPrefix(prefix)
diff --git a/ipv6/setnode.go b/ipv6/setnode.go
index 15d788a..5962b48 100644
--- a/ipv6/setnode.go
+++ b/ipv6/setnode.go
@@ -26,7 +26,7 @@ func setNodeFromRange(r Range) *setNode {
 	// The number of leading zeroes in the xor is the number of bits the two addresses have in common
 	numCommonBits := xor.leadingZeros()
 
-	if numCommonBits == xor.complement().onesCount() {
+	if numCommonBits == xor.complement().onesCount() && r.first.ui.and(xor) == (uint128{}) {
 		// This range is exactly one prefix, return a node with it.
 		prefix := Prefix{r.first, uint32(numCommonBits)}
 		return setNodeFromPrefix(prefix)
-- 
2.43.0


From aa951d2655ff7299e8d931cf607d2cde662e6632 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:16:15 +0000
Subject: [PATCH 13/13] fix: order of disjoint prefixes in diff

If the left prefix was longer than the right one, the two sides of disjoint
prefixes were visited in reverse order.
---
 ipv4/node.go | 11 ++++++-----
 ipv6/node.go | 11 ++++++-----
 2 files changed, 12 insertions(+), 10 deletions(-)

diff --git a/ipv4/node.go b/ipv4/node.go
index ce28828..f5e7350 100644
--- a/ipv4/node.go
+++ b/ipv4/node.go
@@ -614,9 +614,10 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	// In that case, `child` doesn't matter so we leave it initialized at zero.
 	// If both are nil, there is nothing to do.
 	var result, child int
+	var reversed bool
 	switch {
 	case left != nil && right != nil:
-		result, _, _, child = compare(left.Prefix, right.Prefix)
+		result, reversed, _, child = compare(left.Prefix, right.Prefix)
 
 	case left != nil:
 		result = compareContains
@@ -676,12 +677,12 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	case compareDisjoint:
 		// Divide and conquer. Compare each with an empty set. Order based on
 		// the comparison.
-		if child == 0 {
-			newLeft[1] = left
-			newRight[0] = right
-		} else {
+		if (child == 1) != reversed { // (child == 1) XOR reversed
 			newLeft[0] = left
 			newRight[1] = right
+		} else {
+			newLeft[1] = left
+			newRight[0] = right
 		}
 	}
 
diff --git a/ipv6/node.go b/ipv6/node.go
index a8028de..b1cd613 100644
--- a/ipv6/node.go
+++ b/ipv6/node.go
@@ -610,9 +610,10 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	// In that case, `child` doesn't matter so we leave it initialized at zero.
 	// If both are nil, there is nothing to do.
 	var result, child int
+	var reversed bool
 	switch {
 	case left != nil && right != nil:
-		result, _, _, child = compare(left.Prefix, right.Prefix)
+		result, reversed, _, child = compare(left.Prefix, right.Prefix)
 
 	case left != nil:
 		result = compareContains
@@ -672,12 +673,12 @@ func (left *trieNode) diff(right *trieNode, handler trieDiffHandler) bool {
 	case compareDisjoint:
 		// Divide and conquer. Compare each with an empty set. Order based on
 		// the comparison.
-		if child == 0 {
-			newLeft[1] = left
-			newRight[0] = right
-		} else {
+		if (child == 1) != reversed { // (child == 1) XOR reversed
 			newLeft[0] = left
 			newRight[1] = right
+		} else {
+			newLeft[1] = left
+			newRight[0] = right
 		}
 	}
 
-- 
2.43.0

