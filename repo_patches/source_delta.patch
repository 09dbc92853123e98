From c8d8ff0b5266a766fc4d7ed580706a1c24d32232 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:22 +0000
Subject: [PATCH 01/24] fix: hash table bucket index for the smallest integer
 hash

---
 hashtable/hashtable.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashtable/hashtable.go b/hashtable/hashtable.go
index 5c94b03..46d6a20 100644
--- a/hashtable/hashtable.go
+++ b/hashtable/hashtable.go
@@ -65,7 +65,7 @@ func NewHashTable(initial_size int) *Hash {
 }
 
 func (self *Hash) bucket(key Hashable) int {
-	return abs(key.Hash()) % len(self.table)
+	return abs(key.Hash() % len(self.table))
 }
 
 func (self *Hash) Size() int { return self.size }
-- 
2.43.0


From eb4db904334667bf73622aff268c72c36aa5c763 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:22 +0000
Subject: [PATCH 02/24] fix: hash table created with zero initial size

---
 hashtable/hashtable.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hashtable/hashtable.go b/hashtable/hashtable.go
index 46d6a20..b65073b 100644
--- a/hashtable/hashtable.go
+++ b/hashtable/hashtable.go
@@ -58,6 +58,9 @@ func (self *entry) Remove(key Hashable) *entry {
 }
 
 func NewHashTable(initial_size int) *Hash {
+	if initial_size < 1 {
+		initial_size = 1
+	}
 	return &Hash{
 		table: make([]*entry, initial_size),
 		size:  0,
-- 
2.43.0


From a9a0aa28b7aff9ff446f2b7328cba976bba0d41b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:47:47 +0000
Subject: [PATCH 03/24] fix: AvlTree loses entries when an absent key is
 removed

---
 tree/avl/avltree.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/avl/avltree.go b/tree/avl/avltree.go
index 9363f7a..884b2be 100644
--- a/tree/avl/avltree.go
+++ b/tree/avl/avltree.go
@@ -51,10 +51,10 @@ func (self *AvlTree) Get(key types.Hashable) (value interface{}, err error) {
 
 func (self *AvlTree) Remove(key types.Hashable) (value interface{}, err error) {
 	new_root, value, err := self.root.Remove(key)
+	self.root = new_root
 	if err != nil {
 		return nil, err
 	}
-	self.root = new_root
 	return value, nil
 }
 
-- 
2.43.0


From fadbf94973f9c93a5f9479fc7134c48403c121c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:16 +0000
Subject: [PATCH 04/24] fix: BpMap Get and Remove on an empty map panic

---
 tree/bptree/bpmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/tree/bptree/bpmap.go b/tree/bptree/bpmap.go
index e62ac48..ec178eb 100644
--- a/tree/bptree/bpmap.go
+++ b/tree/bptree/bpmap.go
@@ -40,7 +40,7 @@ func (self *BpMap) Put(key types.Hashable, value interface{}) (err error) {
 
 func (self *BpMap) Get(key types.Hashable) (value interface{}, err error) {
 	j, l := self.root.get_start(key)
-	if l.keys[j].Equals(key) {
+	if j < len(l.keys) && l.keys[j].Equals(key) {
 		return l.values[j], nil
 	}
 	return nil, errors.NotFound(key)
-- 
2.43.0


From 35cba5dbd437f2eeaf9a44ca2d30d3c6cbe9fc07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:16 +0000
Subject: [PATCH 05/24] fix: B+ tree scan starting beyond the last key yields
 the last entry

---
 tree/bptree/bptree_node.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index 0b010a4..270c5cd 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -646,7 +646,9 @@ func (self *BpNode) all_backward() (li loc_iterator) {
 func (self *BpNode) forward(from, to types.Hashable) (li loc_iterator) {
 	j, l := self.get_start(from)
 	end := false
-	j--
+	if j >= len(l.keys) || !l.keys[j].Less(from) {
+		j--
+	}
 	li = func() (i int, leaf *BpNode, next loc_iterator) {
 		j, l, end = next_location(j, l)
 		if end || to.Less(l.keys[j]) {
-- 
2.43.0


From de94005fbcface5cdc607621f80f8a2ab85d4a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:16 +0000
Subject: [PATCH 06/24] fix: B+ tree backward range starting between keys or on
 an empty tree

---
 tree/bptree/bptree_node.go | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index 270c5cd..d790749 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -660,8 +660,13 @@ func (self *BpNode) forward(from, to types.Hashable) (li loc_iterator) {
 }
 
 func (self *BpNode) backward(from, to types.Hashable) (li loc_iterator) {
-	j, l := self.get_end(from)
-	end := false
+	j, l, end := -1, self, len(self.keys) == 0
+	if !end {
+		j, l = self.get_end(from)
+	}
+	for !end && from.Less(l.keys[j]) {
+		j, l, end = prev_location(j, l)
+	}
 	li = func() (i int, leaf *BpNode, next loc_iterator) {
 		if end || l.keys[j].Less(to) {
 			return -1, nil, nil
-- 
2.43.0


From dc999fb9ead514bb270f6664e7a7c2543b14127b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:16 +0000
Subject: [PATCH 07/24] fix: B+ tree conditional removal over runs of equal
 keys

---
 tree/bptree/bptree_node.go | 48 ++++++++++++++++++++++----------------
 1 file changed, 28 insertions(+), 20 deletions(-)

diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index d790749..353218b 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -465,7 +465,7 @@ func (self *BpNode) remove(key types.Hashable, where types.WhereFunc) (a *BpNode
 	if self.Internal() {
 		return self.internal_remove(key, nil, where)
 	} else {
-		return self.leaf_remove(key, self.keys[len(self.keys)-1], where)
+		return self.leaf_remove(key, nil, where)
 	}
 }
 
@@ -518,30 +518,38 @@ func (self *BpNode) leaf_remove(key, stop types.Hashable, where types.WhereFunc)
 	if self.Internal() {
 		return nil, errors.BpTreeError("Expected a leaf node")
 	}
-	a = self
-	for j, l, next := self.forward(key, key)(); next != nil; j, l, next = next() {
-		if where(l.values[j]) {
-			if err := l.remove_key_at(j); err != nil {
-				return nil, err
-			}
-			if err := l.remove_value_at(j); err != nil {
-				return nil, err
-			}
+	// pack the entries which stay to the front of the run of the key, so that a
+	// leaf followed by more leaves of the same run is always full.
+	i, l := self.get_start(key)
+	j, m, end := i, l, i >= len(l.keys)
+	removed := 0
+	for !end && m.keys[j].Equals(key) {
+		if where(m.values[j]) {
+			removed++
+		} else {
+			l.keys[i], l.values[i] = m.keys[j], m.values[j]
+			i, l, _ = next_location(i, l)
+		}
+		j, m, end = next_location(j, m)
+	}
+	for ; removed > 0; removed-- {
+		if err := l.remove_key_at(i); err != nil {
+			return nil, err
+		}
+		if err := l.remove_value_at(i); err != nil {
+			return nil, err
 		}
 		if len(l.keys) == 0 {
 			remove_linked_list_node(l)
-			if l.next == nil {
-				a = nil
-			} else if stop == nil {
-				a = nil
-			} else if !l.next.keys[0].Equals(stop) {
-				a = l.next
-			} else {
-				a = nil
-			}
+		}
+		if i >= len(l.keys) {
+			i, l = 0, l.next
 		}
 	}
-	return a, nil
+	if len(self.keys) == 0 {
+		return nil, nil
+	}
+	return self, nil
 }
 
 func (self *BpNode) remove_key_at(i int) error {
-- 
2.43.0


From e608d4a3060f18897208b2daff6ad66fe093ca18 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:16 +0000
Subject: [PATCH 08/24] fix: B+ tree size after conditional removal

---
 tree/bptree/bptree.go | 11 +++++++++--
 1 file changed, 9 insertions(+), 2 deletions(-)

diff --git a/tree/bptree/bptree.go b/tree/bptree/bptree.go
index bdf3d16..af4381e 100644
--- a/tree/bptree/bptree.go
+++ b/tree/bptree/bptree.go
@@ -93,7 +93,14 @@ func (self *BpTree) Range(from, to types.Hashable) (kvi types.KVIterator) {
 
 func (self *BpTree) RemoveWhere(key types.Hashable, where types.WhereFunc) (err error) {
 	ns := self.root.NodeSize()
-	new_root, err := self.root.remove(key, where)
+	removed := 0
+	new_root, err := self.root.remove(key, func(value interface{}) bool {
+		if where(value) {
+			removed++
+			return true
+		}
+		return false
+	})
 	if err != nil {
 		return err
 	}
@@ -102,7 +109,7 @@ func (self *BpTree) RemoveWhere(key types.Hashable, where types.WhereFunc) (err
 	} else {
 		self.root = new_root
 	}
-	self.size -= 1
+	self.size -= removed
 	return nil
 }
 
-- 
2.43.0


From 5ec52939e7a1f013a171b6b82ecb1dee4cf78217 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:57 +0000
Subject: [PATCH 09/24] fix: B+ tree backward scan skips overflow leaves of the
 last key

---
 tree/bptree/bptree_node.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/tree/bptree/bptree_node.go b/tree/bptree/bptree_node.go
index 353218b..807d47d 100644
--- a/tree/bptree/bptree_node.go
+++ b/tree/bptree/bptree_node.go
@@ -636,6 +636,9 @@ func (self *BpNode) all() (li loc_iterator) {
 
 func (self *BpNode) all_backward() (li loc_iterator) {
 	l := self.right_most_leaf()
+	for l.next != nil {
+		l = l.next
+	}
 	j := len(l.keys)
 	end := false
 	j, l, end = prev_location(j, l)
-- 
2.43.0


From 675953b47d1172b06441ecaf82efdcdc10e218b0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:10 +0000
Subject: [PATCH 10/24] fix: TST put of a removed key which is a prefix of
 another key panics

---
 trie/tst_node.go | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/trie/tst_node.go b/trie/tst_node.go
index b997a9f..841974b 100644
--- a/trie/tst_node.go
+++ b/trie/tst_node.go
@@ -169,8 +169,7 @@ func (n *TSTNode) insert(key ByteSlice, val interface{}, d int) (*TSTNode, error
 			n.l = l
 		} else if ch == n.ch {
 			if d+1 == len(key) && ch == END {
-				n.m = n.m.Copy()
-				n.m.value = val
+				n.m = NewAcceptingTSTNode(END, key, val)
 			} else {
 				m, err := n.m.insert(key, val, d+1)
 				if err != nil {
-- 
2.43.0


From 51c0cbb1040bc9827679389aefe226f3492ac305 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:10 +0000
Subject: [PATCH 11/24] fix: TST put fails after the last key with the same
 first byte is removed

---
 trie/tst.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/tst.go b/trie/tst.go
index b9fd65e..905ae8e 100644
--- a/trie/tst.go
+++ b/trie/tst.go
@@ -136,7 +136,7 @@ func (self *TST) Remove(key []byte) (value interface{}, err error) {
 		}
 		return n, nil
 	}
-	n, err := remove(self.heads[symbol[0]], 1)
+	n, err := check(remove(self.heads[symbol[0]], 1))
 	if err != nil {
 		return nil, err
 	}
-- 
2.43.0


From ffb39ed7fde6afe615d3c707e2d5f612e2c7016c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:10 +0000
Subject: [PATCH 12/24] fix: TST prefix search with a prefix longer than the
 stored key panics

---
 trie/tst.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/trie/tst.go b/trie/tst.go
index 905ae8e..7b312fc 100644
--- a/trie/tst.go
+++ b/trie/tst.go
@@ -170,7 +170,7 @@ func (self *TST) PrefixFind(prefix ByteSlice) KVIterator {
 			} else if ch > next.n.ch {
 				next = &entry{next.n.r, next.d}
 			}
-		} else if next.n.accepting && next.n.key[:len(prefix)].Equals(prefix) {
+		} else if next.n.accepting && len(prefix) < len(next.n.key) && next.n.key[:len(prefix)].Equals(prefix) {
 			root = next.n
 			break
 		} else {
-- 
2.43.0


From ad4ddb42e515972510d53a210b5b458c1d6ca075 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:55:10 +0000
Subject: [PATCH 13/24] fix: TST writes to and keeps the caller's key buffer

---
 trie/tst.go | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/trie/tst.go b/trie/tst.go
index 7b312fc..52a3a17 100644
--- a/trie/tst.go
+++ b/trie/tst.go
@@ -38,7 +38,7 @@ func (self *TST) Put(key []byte, value interface{}) (err error) {
 	if err := self.ValidateKey(key); err != nil {
 		return err
 	}
-	symbol := append(key, END)
+	symbol := append(key[:len(key):len(key)], END)
 	node, err := self.heads[symbol[0]].insert(symbol, value, 1)
 	if err != nil {
 		return err
@@ -62,7 +62,7 @@ func (self *TST) Get(key []byte) (value interface{}, err error) {
 	if err := self.ValidateKey(key); err != nil {
 		return nil, err
 	}
-	symbol := append(key, END)
+	symbol := append(key[:len(key):len(key)], END)
 	next := &entry{self.heads[symbol[0]], 1}
 	for next != nil {
 		if next.n == nil {
@@ -90,7 +90,7 @@ func (self *TST) Remove(key []byte) (value interface{}, err error) {
 	if err := self.ValidateKey(key); err != nil {
 		return nil, err
 	}
-	symbol := ByteSlice(append(key, END))
+	symbol := ByteSlice(append(key[:len(key):len(key)], END))
 	check := func(n *TSTNode, err error) (*TSTNode, error) {
 		if err != nil {
 			return nil, err
@@ -193,7 +193,7 @@ func (self *TST) PrefixFind(prefix ByteSlice) KVIterator {
 			}
 			n := tn.(*TSTNode)
 			if n.accepting {
-				return n.key[:len(n.key)-1], n.value, kv_iterator
+				return n.key[: len(n.key)-1 : len(n.key)-1], n.value, kv_iterator
 			}
 		}
 	}
@@ -221,7 +221,7 @@ func (self *TST) Iterate() KVIterator {
 			}
 			n := tn.(*TSTNode)
 			if n.accepting {
-				return n.key[:len(n.key)-1], n.value, kv_iterator
+				return n.key[: len(n.key)-1 : len(n.key)-1], n.value, kv_iterator
 			}
 		}
 	}
-- 
2.43.0


From 78b942b4de47f703e8fc8c701696715e3587d5d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:34 +0000
Subject: [PATCH 14/24] fix: empty list and empty linked list are equal but
 hash differently

---
 list/array_list.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/list/array_list.go b/list/array_list.go
index a27096a..710d899 100644
--- a/list/array_list.go
+++ b/list/array_list.go
@@ -235,9 +235,6 @@ func Less(a, b types.IterableContainer) bool {
 
 func (l *List) Hash() int {
 	h := fnv.New32a()
-	if len(l.list) == 0 {
-		return 0
-	}
 	bs := make([]byte, 4)
 	for _, item := range l.list {
 		binary.LittleEndian.PutUint32(bs, uint32(item.Hash()))
-- 
2.43.0


From 36f932070db21d0401e8713573b96d59c2704179 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:57:34 +0000
Subject: [PATCH 15/24] fix: decoding a truncated list panics instead of
 returning an error

---
 list/array_list.go | 9 +++++++++
 list/sorted.go     | 3 +++
 2 files changed, 12 insertions(+)

diff --git a/list/array_list.go b/list/array_list.go
index 710d899..5d0a138 100644
--- a/list/array_list.go
+++ b/list/array_list.go
@@ -56,6 +56,9 @@ func (m *MList) MarshalBinary() ([]byte, error) {
 }
 
 func (m *MList) UnmarshalBinary(bytes []byte) error {
+	if len(bytes) < 9 {
+		return errors.Errorf("list encoding is truncated")
+	}
 	m.List.fixed = bytes[0] == 1
 	_cap := int(binary.LittleEndian.Uint32(bytes[1:5]))
 	size := int(binary.LittleEndian.Uint32(bytes[5:9]))
@@ -64,9 +67,15 @@ func (m *MList) UnmarshalBinary(bytes []byte) error {
 	for i := 0; i < size; i++ {
 		s := off
 		e := off + 4
+		if e > len(bytes) {
+			return errors.Errorf("list encoding is truncated")
+		}
 		size := int(binary.LittleEndian.Uint32(bytes[s:e]))
 		s = e
 		e = s + size
+		if e > len(bytes) {
+			return errors.Errorf("list encoding is truncated")
+		}
 		item, err := m.UnmarshalItem(bytes[s:e])
 		if err != nil {
 			return err
diff --git a/list/sorted.go b/list/sorted.go
index 5e7c862..ae891c7 100644
--- a/list/sorted.go
+++ b/list/sorted.go
@@ -41,6 +41,9 @@ func (m *MSorted) MarshalBinary() ([]byte, error) {
 }
 
 func (m *MSorted) UnmarshalBinary(bytes []byte) error {
+	if len(bytes) < 1 {
+		return errors.Errorf("sorted list encoding is truncated")
+	}
 	allowDups := bytes[0]
 	if allowDups == 0 {
 		m.AllowDups = false
-- 
2.43.0


From 8d5afac3fbc6584a30f56fffffe904142fb0cfa3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:14 +0000
Subject: [PATCH 16/24] fix: encoding an 8 bit integer panics

---
 types/int.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/int.go b/types/int.go
index 3431e04..8e9f06e 100644
--- a/types/int.go
+++ b/types/int.go
@@ -20,7 +20,7 @@ type Int int
 type UInt uint
 
 func (self *Int8) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 0)
+	bytes := make([]byte, 1)
 	bytes[0] = uint8(*self)
 	return bytes, nil
 }
@@ -54,7 +54,7 @@ func (self Int8) Hash() int {
 }
 
 func (self *UInt8) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 0)
+	bytes := make([]byte, 1)
 	bytes[0] = uint8(*self)
 	return bytes, nil
 }
-- 
2.43.0


From b65c62488ee6d5e77da12cf30e0e41374aafeabe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:59:14 +0000
Subject: [PATCH 17/24] fix: Int and UInt encodings lose the sign and the high
 32 bits

---
 types/int.go | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/types/int.go b/types/int.go
index 8e9f06e..077d3c1 100644
--- a/types/int.go
+++ b/types/int.go
@@ -292,16 +292,16 @@ func (self UInt64) Hash() int {
 }
 
 func (self *Int) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 4)
-	binary.BigEndian.PutUint32(bytes, uint32(*self))
+	bytes := make([]byte, 8)
+	binary.BigEndian.PutUint64(bytes, uint64(*self))
 	return bytes, nil
 }
 
 func (self *Int) UnmarshalBinary(data []byte) error {
-	if len(data) != 4 {
+	if len(data) != 8 {
 		return errors.Errorf("data wrong size")
 	}
-	*self = Int(binary.BigEndian.Uint32(data))
+	*self = Int(binary.BigEndian.Uint64(data))
 	return nil
 }
 
@@ -326,16 +326,16 @@ func (self Int) Hash() int {
 }
 
 func (self *UInt) MarshalBinary() ([]byte, error) {
-	bytes := make([]byte, 4)
-	binary.BigEndian.PutUint32(bytes, uint32(*self))
+	bytes := make([]byte, 8)
+	binary.BigEndian.PutUint64(bytes, uint64(*self))
 	return bytes, nil
 }
 
 func (self *UInt) UnmarshalBinary(data []byte) error {
-	if len(data) != 4 {
+	if len(data) != 8 {
 		return errors.Errorf("data wrong size")
 	}
-	*self = UInt(binary.BigEndian.Uint32(data))
+	*self = UInt(binary.BigEndian.Uint64(data))
 	return nil
 }
 
-- 
2.43.0


From 8751586a7e8290c71a11ba53f1f416a025557ddb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:21 +0000
Subject: [PATCH 18/24] fix: decoded byte slices share memory with the encoded
 bytes

---
 types/string.go | 2 +-
 types/util.go   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/types/string.go b/types/string.go
index d58393b..7fe31ec 100644
--- a/types/string.go
+++ b/types/string.go
@@ -44,7 +44,7 @@ func (self *ByteSlice) MarshalBinary() ([]byte, error) {
 }
 
 func (self *ByteSlice) UnmarshalBinary(data []byte) error {
-	*self = ByteSlice(data)
+	*self = append(ByteSlice{}, data...)
 	return nil
 }
 
diff --git a/types/util.go b/types/util.go
index c489714..823ff6a 100644
--- a/types/util.go
+++ b/types/util.go
@@ -318,7 +318,7 @@ func ByteSliceMarshals() (ItemMarshal, ItemUnmarshal) {
 		return []byte(item.(ByteSlice)), nil
 	}
 	unmarshal := func(bytes []byte) (Hashable, error) {
-		return ByteSlice(bytes), nil
+		return append(ByteSlice{}, bytes...), nil
 	}
 	return marshal, unmarshal
 }
-- 
2.43.0


From 01f9314e6d814f4bebdfcd606679619c2473c323 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:00:21 +0000
Subject: [PATCH 19/24] fix: MapSet Put of an existing key keeps the old value

---
 set/mapset.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/set/mapset.go b/set/mapset.go
index 20869e1..1c8f78e 100644
--- a/set/mapset.go
+++ b/set/mapset.go
@@ -84,7 +84,13 @@ func (m *MapSet) Add(item types.Hashable) (err error) {
 }
 
 func (m *MapSet) Put(key types.Hashable, value interface{}) (err error) {
-	return m.Add(&types.MapEntry{key, value})
+	me := &types.MapEntry{key, value}
+	if m.Set.Has(me) {
+		if err := m.Set.Delete(me); err != nil {
+			return err
+		}
+	}
+	return m.Add(me)
 }
 
 func (m *MapSet) Get(key types.Hashable) (value interface{}, err error) {
-- 
2.43.0


From 47e5a0ed1ad7ff3024f86cf5abaf395306e73425 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:10:42 +0000
Subject: [PATCH 20/24] fix: Pop of an empty unique priority queue panics

---
 heap/unique.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/heap/unique.go b/heap/unique.go
index d8014ec..9ebab1c 100644
--- a/heap/unique.go
+++ b/heap/unique.go
@@ -48,6 +48,9 @@ func (u *UniquePQ) Peek() interface{} {
 
 // Get and remove the top element
 func (u *UniquePQ) Pop() interface{} {
+	if u.pq.Size() == 0 {
+		return nil
+	}
 	item := u.pq.Pop().(types.Hashable)
 	u.set.Delete(item)
 	return item
-- 
2.43.0


From cf28072c169bfa7266a203f06210f0ebd18f03f6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:40 +0000
Subject: [PATCH 21/24] fix: pre-order and post-order traversal of an empty
 tree panic

---
 tree/util.go | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/tree/util.go b/tree/util.go
index 0b86171..56c6eff 100644
--- a/tree/util.go
+++ b/tree/util.go
@@ -48,7 +48,10 @@ func TraverseBinaryTreeInOrder(node types.BinaryTreeNode) types.TreeNodeIterator
 }
 
 func TraverseTreePreOrder(node types.TreeNode) types.TreeNodeIterator {
-	stack := append(make([]types.TreeNode, 0, 10), tn_expose_nil(node))
+	stack := make([]types.TreeNode, 0, 10)
+	if root := tn_expose_nil(node); root != nil {
+		stack = append(stack, root)
+	}
 	var tn_iterator types.TreeNodeIterator
 	tn_iterator = func() (tn types.TreeNode, next types.TreeNodeIterator) {
 		if len(stack) <= 0 {
@@ -86,7 +89,10 @@ func TraverseTreePostOrder(node types.TreeNode) types.TreeNodeIterator {
 		}
 	}
 
-	stack := append(make([]entry, 0, 10), entry{tn_expose_nil(node), 0})
+	stack := make([]entry, 0, 10)
+	if root := tn_expose_nil(node); root != nil {
+		stack = append(stack, entry{root, 0})
+	}
 
 	var tn_iterator types.TreeNodeIterator
 	tn_iterator = func() (tn types.TreeNode, next types.TreeNodeIterator) {
-- 
2.43.0


From 6e0481885f5503e9005d037feed0f6e883fa9671 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:11:40 +0000
Subject: [PATCH 22/24] fix: traversing a tree whose nodes are not pointers
 panics

---
 types/util.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/types/util.go b/types/util.go
index 823ff6a..5b6260c 100644
--- a/types/util.go
+++ b/types/util.go
@@ -5,7 +5,15 @@ import (
 )
 
 func IsNil(object interface{}) bool {
-	return object == nil || reflect.ValueOf(object).IsNil()
+	if object == nil {
+		return true
+	}
+	v := reflect.ValueOf(object)
+	switch v.Kind() {
+	case reflect.Chan, reflect.Func, reflect.Map, reflect.Ptr, reflect.Slice, reflect.UnsafePointer:
+		return v.IsNil()
+	}
+	return false
 }
 
 func MakeKVIteratorFromTreeNodeIterator(tni TreeNodeIterator) KVIterator {
-- 
2.43.0


From 3ac587c761dcc3baf74c66b11a8b40240a5cb6b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:18:41 +0000
Subject: [PATCH 23/24] fix: stopping a pool may return before its workers have
 run the accepted tasks

---
 pool/pool.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pool/pool.go b/pool/pool.go
index 5e919e7..0efbbf1 100644
--- a/pool/pool.go
+++ b/pool/pool.go
@@ -29,6 +29,7 @@ func New(n int) *Pool {
 			workin: &pool.workin,
 			workCond: pool.workCond,
 		}
+		pool.wg.Add(1)
 		go w.work()
 		pool.workers = append(pool.workers, w)
 	}
@@ -108,7 +109,6 @@ type worker struct {
 }
 
 func (w *worker) work() {
-	w.wg.Add(1)
 	for f := range w.in {
 		f()
 		w.workCond.L.Lock()
-- 
2.43.0


From d0383e8dedc69b9e0587274f58bce8bcfc47b4a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:30:12 +0000
Subject: [PATCH 24/24] fix: rethrowing a custom exception loses its type

---
 exc/exception.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/exc/exception.go b/exc/exception.go
index f06db2f..300932d 100644
--- a/exc/exception.go
+++ b/exc/exception.go
@@ -169,7 +169,11 @@ func Throw(e Throwable) {
 //    }).Unwind()
 //
 func Rethrow(e Throwable, err *Error) {
-	throw(e.Chain(err))
+	t := e.Chain(err)
+	if t == Throwable(e.Exc()) {
+		t = e
+	}
+	throw(t)
 }
 
 func throw(e Throwable) {
-- 
2.43.0

