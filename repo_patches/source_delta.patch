From 40431ff6fd8d8c855f7e6d8cd8a8e25ad3c72151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 01/42] fix: keep items of a map without item pool from the
 garbage collector

---
 map.go | 13 +++++++++++++
 1 file changed, 13 insertions(+)

diff --git a/map.go b/map.go
index ce5b69c..4da1418 100644
--- a/map.go
+++ b/map.go
@@ -60,6 +60,10 @@ type Map struct {
 	pooler *Pool
 
 	isEmbededItemInBucket bool
+
+	// items are linked by relative address, which garbage collector cannot follow.
+	keepMu    sync.Mutex
+	keepItems []MapItem
 }
 
 var conf mapConf = mapConf{
@@ -303,6 +307,13 @@ func (h *Map) initBeforeSet() {
 	}
 }
 
+// keepItem ... keep item which is not in a item pool from garbage collection
+func (h *Map) keepItem(item MapItem) {
+	h.keepMu.Lock()
+	defer h.keepMu.Unlock()
+	h.keepItems = append(h.keepItems, item)
+}
+
 func (h *Map) _update(item MapItem, v interface{}) bool {
 	return item.SetValue(v)
 }
@@ -683,6 +694,7 @@ func (h *Map) Set(key, value interface{}) bool {
 		}
 	} else {
 		s = &SampleItem{}
+		h.keepItem(s)
 	}
 
 	s.K = key.(string)
@@ -713,6 +725,7 @@ func (h *Map) StoreItem(item MapItem) bool {
 		return h._update(oitem, item.Value())
 	}
 
+	h.keepItem(item)
 	return h._set(k, conflict, bucket, item)
 }
 
-- 
2.43.0


From fb813e7f3b30e24be1583663852d17082e8f050b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 02/42] fix: StoreItem on a map with default ItemFn returned
 items of wrong type

---
 map.go | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/map.go b/map.go
index 4da1418..70d9404 100644
--- a/map.go
+++ b/map.go
@@ -725,6 +725,13 @@ func (h *Map) StoreItem(item MapItem) bool {
 		return h._update(oitem, item.Value())
 	}
 
+	if _, ok := h.ItemFn().(*entryHMap); ok {
+		// default ItemFn() cannot get other type of item from list
+		ItemFn(func() MapItem {
+			return item
+		})(h)
+	}
+
 	h.keepItem(item)
 	return h._set(k, conflict, bucket, item)
 }
-- 
2.43.0


From 3eec1a5ea7888b9fce5be8cb205a59a35d2584f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 03/42] fix: items on the position of a bucket (and on the last
 position) were not found

---
 map.go | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/map.go b/map.go
index 70d9404..0826c6e 100644
--- a/map.go
+++ b/map.go
@@ -1041,6 +1041,8 @@ func (h *Map) add2(start *elist_head.ListHead, e HMapEntry, opts ...HMethodOpt)
 			}, ignoreBucketEntry(false))
 			nextE := nextAsE(opt.bucket.entry(h))
 			_ = nextE
+			// last position. there is no larger entry.
+			inserBeforeWithCheck(h.tail.Prev(), e.PtrListHead())
 		}
 		return true
 	}
@@ -1542,6 +1544,14 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 		return nil
 	}
 	result := lbNext.entry(h)
+	if ignoreBucketEnry && lbNext.reverse == reverseNoMask {
+		// item on the position of bucket is after dummy of bucket
+		for cur := result.PtrMapHead(); cur != nil && cur.reverse == reverseNoMask; cur = cur.NextWithNil() {
+			if !cur.IsIgnored() {
+				return result.HmapEntryFromListHead(cur.PtrListHead())
+			}
+		}
+	}
 	for cur := result.PtrMapHead(); cur != nil; cur = cur.PrevtWithNil() {
 		if EnableStats && ignoreBucketEnry {
 			h.mu.Lock()
-- 
2.43.0


From 6fbebea7378896fa7fc0ce1e383fc50a0709226b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:59:49 +0000
Subject: [PATCH 04/42] fix: key with the same hash as another key was not
 found

---
 map.go | 22 ++++++++++++++++++++++
 1 file changed, 22 insertions(+)

diff --git a/map.go b/map.go
index 0826c6e..c559dca 100644
--- a/map.go
+++ b/map.go
@@ -468,6 +468,7 @@ func (h *Map) _get(k, conflict uint64) (MapItem, bool) {
 		}
 		return nil, false
 	}
+	e = findConflict(e, conflict)
 	if e.PtrMapHead().reverse != bits.Reverse64(k) || e.PtrMapHead().conflict != conflict {
 		return nil, false
 	}
@@ -475,6 +476,26 @@ func (h *Map) _get(k, conflict uint64) (MapItem, bool) {
 
 }
 
+// findConflict ... find item with conflict in items of the same hash as e. return e if not found
+func findConflict(e HMapEntry, conflict uint64) HMapEntry {
+	start := e.PtrMapHead()
+	if atomic.LoadUint64(&start.conflict) == conflict {
+		return e
+	}
+	reverse := atomic.LoadUint64(&start.reverse)
+	for cur := start.NextWithNil(); cur != nil && cur.reverse == reverse; cur = cur.NextWithNil() {
+		if !cur.IsIgnored() && cur.conflict == conflict {
+			return e.HmapEntryFromListHead(cur.PtrListHead())
+		}
+	}
+	for cur := start.PrevtWithNil(); cur != nil && cur.reverse == reverse; cur = cur.PrevtWithNil() {
+		if !cur.IsIgnored() && cur.conflict == conflict {
+			return e.HmapEntryFromListHead(cur.PtrListHead())
+		}
+	}
+	return e
+}
+
 func (h *Map) getWithBucket(k, conflict uint64) (MapItem, *bucket, bool) {
 
 	if EnableStats {
@@ -505,6 +526,7 @@ func (h *Map) getWithBucket(k, conflict uint64) (MapItem, *bucket, bool) {
 		}
 		return nil, bucket, false
 	}
+	e = findConflict(e, conflict)
 	if ereverse := atomic.LoadUint64(&e.PtrMapHead().reverse); ereverse != bits.Reverse64(k) {
 		return nil, bucket, false
 	}
-- 
2.43.0


From 162b3d77c2e6c58bf24d8e2c1224cbf1e5dd01f5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 05/42] fix: embedded: splitting a bucket left a bucket without
 item pool

---
 map_embedded.go | 13 ++++++++-----
 1 file changed, 8 insertions(+), 5 deletions(-)

diff --git a/map_embedded.go b/map_embedded.go
index 0012d26..281cd73 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -69,6 +69,14 @@ func (h *Map) makeBucket2(bucket *bucket) (err error) {
 	if newReverse&1 > 0 {
 		newReverse++
 	}
+	if newReverse <= bucket.reverse || newReverse >= nextReverse {
+		return ErrBucketAlreadyExit
+	}
+	// bucket without item pool must not be reached by others
+	idx, err := bucket.itemPool().findIdx(newReverse)
+	if err != nil || idx == 0 {
+		return err
+	}
 	b := h.bucketFromPoolEmbedded(newReverse)
 	if b == nil {
 		return ErrBucketAllocatedFail
@@ -83,11 +91,6 @@ func (h *Map) makeBucket2(bucket *bucket) (err error) {
 	b.LevelHead.Init()
 	b.initItemPool()
 
-	idx, err := bucket.itemPool().findIdx(newReverse)
-	if err != nil || idx == 0 {
-		return err
-	}
-
 	olen := len(bucket.itemPool().items)
 	nPool, err2 := bucket.itemPool()._split(idx, false)
 	_ = err2
-- 
2.43.0


From 3ee19d4ca484a66fe897d3c586f5c5eb0bd8d165 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:11 +0000
Subject: [PATCH 06/42] fix: embedded: stored item was not found

---
 map.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/map.go b/map.go
index c559dca..12bc579 100644
--- a/map.go
+++ b/map.go
@@ -740,6 +740,10 @@ func (h *Map) Set(key, value interface{}) bool {
 
 // StoreItem ... set key/value item with embedded-linked-list
 func (h *Map) StoreItem(item MapItem) bool {
+	if h.isEmbededItemInBucket {
+		// items are in the item pool of bucket.
+		return h.Set(item.Key(), item.Value())
+	}
 	k, conflict := item.KeyHash()
 
 	oitem, bucket, found := h._loadItem(k, conflict, nil)
-- 
2.43.0


From 07c85734737ae5fd5177711e25bc1704cac449d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 07/42] fix: embedded: purge broke the order of item pool and
 list

---
 map.go | 28 +---------------------------
 1 file changed, 1 insertion(+), 27 deletions(-)

diff --git a/map.go b/map.go
index 12bc579..499530b 100644
--- a/map.go
+++ b/map.go
@@ -1637,34 +1637,8 @@ func (h *Map) purgeInEmbedded(key interface{}) bool {
 		return false
 	}
 
-	// remove item
-	// 1. item status to remove
-	// 2. purge from linked-list
-	// 3. insert free list ( keep pointer order ?)
-
-	pool := bucket.itemPool()
-	if pool == nil {
-		return false
-	}
+	// item pool and linked-list have same order. deleted item must stay in both until it is reused.
 	item.Delete()
-
-	pOpts := elist_head.SharedTrav(list_head.WaitNoM())
-	item.PtrListHead().MarkForDelete()
-	elist_head.SharedTrav(pOpts...)
-	item.PtrListHead().Init()
-
-	pItems := pool.ptrItems()
-	len := pItems.Len()
-	if item.PtrListHead() == &pItems._at(len-1, true, false).ListHead &&
-		atomic_util.CompareAndSwapInt(&pItems.len, len, len-1) {
-		pool.shrinkLen()
-		return true
-	}
-
-	err := pool.PushWithOrder(item.(*SampleItem))
-	if err != nil {
-		return false
-	}
 	return true
 }
 
-- 
2.43.0


From bcb8d3a4942ae5e34c358c4c8646399bab9e113a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:00:35 +0000
Subject: [PATCH 08/42] fix: embedded: deleted item at the head of item pool
 was found, and hid other items

---
 map_embedded.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/map_embedded.go b/map_embedded.go
index 281cd73..d49633d 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -35,6 +35,9 @@ func (h *Map) bsearchBybucket(bucket *bucket, reverseNoMask uint64, ignoreBucket
 		if item == nil {
 			return true
 		}
+		if item.IsDeleted() {
+			return false
+		}
 		return atomic.LoadUint64(&item.reverse) >= reverseNoMask
 		//return items.reverseAt(i) >= reverseNoMask
 	})
-- 
2.43.0


From d54b64ea0614a0f1ce1c137e0d4ee01cba7277d0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 09/42] fix: embedded: order of item pool and list differed
 around deleted items and items on the position of a bucket

---
 map.go          |  4 ++++
 map_embedded.go | 30 +++++++-----------------------
 2 files changed, 11 insertions(+), 23 deletions(-)

diff --git a/map.go b/map.go
index 499530b..3f0ad15 100644
--- a/map.go
+++ b/map.go
@@ -986,6 +986,10 @@ func (h *Map) add2(start *elist_head.ListHead, e HMapEntry, opts ...HMethodOpt)
 		if !e.PtrListHead().IsSingle() {
 			Log(LogWarn, "add2: element for insertion  is not single ")
 		}
+		if e.PtrMapHead().IsDummy() && e.PtrMapHead().reverse == ehead.PtrMapHead().reverse {
+			// dummy of bucket is the head of items in the bucket
+			return true
+		}
 		return e.PtrMapHead().reverse < ehead.PtrMapHead().reverse
 	}, ignoreBucketEntry(false))
 	if !e.PtrListHead().IsSingle() {
diff --git a/map_embedded.go b/map_embedded.go
index d49633d..72d9657 100644
--- a/map_embedded.go
+++ b/map_embedded.go
@@ -265,8 +265,8 @@ func (sp *samepleItemPool) state4get(reverse uint64, tail int, len int, cap int)
 	}
 
 	items := sp.itemSlice(false)
-	last := items._at(tail, false, true)
-	if atomic.LoadUint64(&last.reverse) < reverse {
+	last := items._at(tail, false, false)
+	if atomic.LoadUint64(&last.reverse) <= reverse {
 		return getLargest
 	}
 
@@ -278,11 +278,11 @@ func (sp *samepleItemPool) bsearchFromFreeList(reverse uint64, tail int) (int, b
 
 	items := sp.ptrItems()
 
-	idx := sort.Search(tail, func(i int) bool {
+	idx := sort.Search(tail+1, func(i int) bool {
 		item := items._at(i, true, false)
 		return atomic.LoadUint64(&item.reverse) > reverse
 	})
-	if idx <= 1 || idx > tail {
+	if idx <= 1 || idx > tail+1 {
 		return -1, false
 	}
 	mItem := items._at(idx-1, true, false)
@@ -353,10 +353,7 @@ func (sp *samepleItemPool) insertToPool(reverse uint64, mu sync.Locker) (newItem
 
 	for i := 0; i < olen; i++ {
 		//for i := range sp.items {
-		if sp.items[i].IsIgnored() {
-			continue
-		}
-		if sp.items[i].reverse < reverse {
+		if sp.items[i].reverse <= reverse {
 			continue
 		}
 		if i == olen-1 {
@@ -457,18 +454,8 @@ func (sp *samepleItemPool) getWithFn(reverse uint64, mu sync.Locker) (new MapIte
 	olen := items.Len()
 	ocap := items.Cap()
 
-	for i := olen - 1; i >= 0; i-- {
-		pItem := items.at(i)
-		if pItem == nil {
-			continue
-		}
-		item := *pItem
-		if item.IsIgnored() {
-			continue
-		}
-		lastActiveIdx = i
-		break
-	}
+	// deleted items keep their place in the order of pool.
+	lastActiveIdx = olen - 1
 
 	defer func() {
 		if new == nil {
@@ -635,9 +622,6 @@ func nextListHeadOfSampleItem() elist_head.ListHead {
 func (sp *samepleItemPool) findIdx(reverse uint64) (int, error) {
 
 	for i := range sp.items {
-		if sp.items[i].IsIgnored() {
-			continue
-		}
 		if reverse <= sp.items[i].reverse {
 			return i, nil
 		}
-- 
2.43.0


From d677811248d523958229599bb7746d14b07d53ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 10/42] fix: rmap: Get returned the holder of value instead of
 value

---
 rmap/rmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/rmap/rmap.go b/rmap/rmap.go
index 0e8a59b..f8b1df3 100644
--- a/rmap/rmap.go
+++ b/rmap/rmap.go
@@ -160,7 +160,7 @@ func (m *RMap) Get2(k, conflict uint64) (v interface{}, ok bool) {
 		if e.MapHead.ConflictInHamp() != conflict {
 			ok = false
 		} else {
-			v = e.V
+			v = e.Value()
 		}
 	}
 
-- 
2.43.0


From 3eed2dc17eefefc62af4e1d44a5b53746f8f0b82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 11/42] fix: rmap: Get of absent key panicked

---
 rmap/rmap.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/rmap/rmap.go b/rmap/rmap.go
index f8b1df3..e0c3562 100644
--- a/rmap/rmap.go
+++ b/rmap/rmap.go
@@ -32,6 +32,7 @@ func New() (rmap *RMap) {
 	rmap = &RMap{
 		limit: 1000,
 	}
+	rmap.read.Store(&readMap{})
 	rmap.initDirty()
 
 	return rmap
@@ -65,6 +66,9 @@ func (m *RMap) getDirtyEntry(k, conflict uint64) (e smap.MapItem) {
 func (m *RMap) getDirty(k, conflict uint64) (v interface{}, ok bool) {
 
 	e := m.getDirtyEntry(k, conflict)
+	if e == nil {
+		return nil, false
+	}
 	return e.Value(), true
 }
 
-- 
2.43.0


From b351a310465bdfa80eb8612bbc8cda535aa720c9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 12/42] fix: rmap: Set lost update of existing key

---
 rmap/rmap.go | 9 +++------
 1 file changed, 3 insertions(+), 6 deletions(-)

diff --git a/rmap/rmap.go b/rmap/rmap.go
index e0c3562..d967bc4 100644
--- a/rmap/rmap.go
+++ b/rmap/rmap.go
@@ -280,11 +280,8 @@ func (r *readMap) store2(k, conflict uint64, kstr string, v interface{}) (smap.M
 		return nil, ok
 	}
 	ohead := ov.Load().(*smap.SampleItem)
-	item := smap.NewSampleItem(kstr, v)
-	item.PtrListHead().Init()
-	item.Setup()
-
-	ok = ov.CompareAndSwap(ohead, item)
-	return item, ok
+	// ov is copy of element in r.m, should not swap it.
+	ohead.SetValue(v)
+	return ohead, ok
 
 }
-- 
2.43.0


From f63efdc0470dbf3062b7831f0bb406faefa72f50 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 13/42] fix: rmap: Delete panicked or locked up, and returned
 false for deleted key

---
 rmap/rmap.go | 48 ++++++++++++++++++++++++------------------------
 1 file changed, 24 insertions(+), 24 deletions(-)

diff --git a/rmap/rmap.go b/rmap/rmap.go
index d967bc4..062f925 100644
--- a/rmap/rmap.go
+++ b/rmap/rmap.go
@@ -89,7 +89,7 @@ func (m *RMap) Set2(k, conflict uint64, kstr string, v interface{}) bool {
 		return true
 	}
 
-	_, ok := read.m[k]
+	_, ok := read.load(k, conflict)
 	if !ok {
 		e := m.getDirtyEntry(k, conflict)
 		if e != nil {
@@ -157,22 +157,16 @@ func (m *RMap) Get(key string) (v interface{}, ok bool) {
 func (m *RMap) Get2(k, conflict uint64) (v interface{}, ok bool) {
 
 	read := m.read.Load().(*readMap)
-	av, ok := read.m[k]
-	var e *smap.SampleItem
+	e, ok := read.load(k, conflict)
 	if ok {
-		e, ok = av.Load().(*smap.SampleItem)
-		if e.MapHead.ConflictInHamp() != conflict {
-			ok = false
-		} else {
-			v = e.Value()
-		}
+		v = e.Value()
 	}
 
 	if !ok && read.amended {
 		// m.Lock()
 		// defer m.Unlock()
 		read := m.read.Load().(*readMap)
-		av, ok = read.m[k]
+		_, ok = read.load(k, conflict)
 		if !ok && read.amended {
 			v, ok = m.getDirty(k, conflict)
 			m.missLocked()
@@ -185,10 +179,8 @@ func (m *RMap) Delete(key string) bool {
 	k, conflict := smap.KeyToHash(key)
 
 	read, _ := m.read.Load().(*readMap)
-	av, ok := read.m[k]
+	ohead, ok := read.load(k, conflict)
 	if !ok && read.amended {
-		m.Lock()
-		defer m.Unlock()
 		read, _ := m.read.Load().(*readMap)
 		if !ok && read.amended {
 			// av, ok = m.dirty[k]
@@ -200,14 +192,14 @@ func (m *RMap) Delete(key string) bool {
 			}
 
 			m.missLocked()
+			return e != nil
 		}
 	}
 
 	if ok {
-		ohead := av.Load().(*smap.SampleItem)
 		//ohead.conflict = conflict
-		return av.CompareAndSwap(ohead, nil)
-
+		ohead.Delete()
+		return true
 	}
 	return false
 }
@@ -230,8 +222,8 @@ func (m *RMap) storeReadFromDirty(amended bool) {
 
 		//MENTION: not require copy oread ?
 		for k, a := range oread.m {
-			_, ok := a.Load().(*smap.SampleItem)
-			if !ok {
+			e, ok := a.Load().(*smap.SampleItem)
+			if !ok || e.IsDeleted() {
 				continue
 			}
 			nread.m[k] = a
@@ -248,9 +240,6 @@ func (m *RMap) storeReadFromDirty(amended bool) {
 			return true
 		})
 
-		if len(nread.m) == 0 {
-			break
-		}
 		if len(oread.m) == 0 {
 			nread.amended = true
 		}
@@ -264,6 +253,19 @@ func (m *RMap) storeReadFromDirty(amended bool) {
 	}
 }
 
+// load ... get not deleted item
+func (r *readMap) load(k, conflict uint64) (e *smap.SampleItem, ok bool) {
+	av, ok := r.m[k]
+	if !ok {
+		return nil, false
+	}
+	e, ok = av.Load().(*smap.SampleItem)
+	if !ok || e.IsDeleted() || e.ConflictInHamp() != conflict {
+		return nil, false
+	}
+	return e, true
+}
+
 func (m *RMap) initDirty() {
 
 	m.dirty = smap.New(
@@ -275,12 +277,10 @@ func (m *RMap) initDirty() {
 }
 
 func (r *readMap) store2(k, conflict uint64, kstr string, v interface{}) (smap.MapItem, bool) {
-	ov, ok := r.m[k]
+	ohead, ok := r.load(k, conflict)
 	if !ok {
 		return nil, ok
 	}
-	ohead := ov.Load().(*smap.SampleItem)
-	// ov is copy of element in r.m, should not swap it.
 	ohead.SetValue(v)
 	return ohead, ok
 
-- 
2.43.0


From e4da42c84fe9c7d62b59975e806e8defee8d3712 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 14/42] fix: rmap: Len did not count items in read map

---
 rmap/rmap.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/rmap/rmap.go b/rmap/rmap.go
index 062f925..8a40af4 100644
--- a/rmap/rmap.go
+++ b/rmap/rmap.go
@@ -204,7 +204,14 @@ func (m *RMap) Delete(key string) bool {
 	return false
 }
 func (m *RMap) Len() int {
-	return int(m.dirty.Len())
+	l := int(m.dirty.Len())
+	read, _ := m.read.Load().(*readMap)
+	for _, a := range read.m {
+		if e, ok := a.Load().(*smap.SampleItem); ok && !e.IsDeleted() {
+			l++
+		}
+	}
+	return l
 }
 
 func (m *RMap) storeReadFromDirty(amended bool) {
-- 
2.43.0


From 6e4ff737b8b0b443dbb890af535510a66002f6ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:03:59 +0000
Subject: [PATCH 15/42] fix: rmap: key with the same hash as another key was
 lost

---
 rmap/rmap.go | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/rmap/rmap.go b/rmap/rmap.go
index 8a40af4..12693cd 100644
--- a/rmap/rmap.go
+++ b/rmap/rmap.go
@@ -22,8 +22,12 @@ type RMap struct {
 	dirty *smap.Map
 }
 
+type readKey struct {
+	k, conflict uint64
+}
+
 type readMap struct {
-	m       map[uint64]atomic.Value
+	m       map[readKey]atomic.Value
 	amended bool // include dirty map
 }
 
@@ -223,7 +227,7 @@ func (m *RMap) storeReadFromDirty(amended bool) {
 		oread, _ := m.read.Load().(*readMap)
 
 		nread := &readMap{
-			m:       map[uint64]atomic.Value{},
+			m:       map[readKey]atomic.Value{},
 			amended: amended,
 		}
 
@@ -240,7 +244,7 @@ func (m *RMap) storeReadFromDirty(amended bool) {
 			if ok {
 				a := atomic.Value{}
 				a.Store(e)
-				nread.m[e.KeyInHmap()] = a
+				nread.m[readKey{e.KeyInHmap(), e.ConflictInHamp()}] = a
 
 			}
 
@@ -262,7 +266,7 @@ func (m *RMap) storeReadFromDirty(amended bool) {
 
 // load ... get not deleted item
 func (r *readMap) load(k, conflict uint64) (e *smap.SampleItem, ok bool) {
-	av, ok := r.m[k]
+	av, ok := r.m[readKey{k, conflict}]
 	if !ok {
 		return nil, false
 	}
-- 
2.43.0


From ca7fc9b4089c49f4441bbb26619627dbaa5a4e82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:55 +0000
Subject: [PATCH 16/42] fix: set of a value of another type panicked

---
 sample_hmap_entry.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/sample_hmap_entry.go b/sample_hmap_entry.go
index d006d7a..746d604 100644
--- a/sample_hmap_entry.go
+++ b/sample_hmap_entry.go
@@ -14,6 +14,11 @@ import (
 	"github.com/kazu/elist_head"
 )
 
+// itemValue ... atomic.Value cannot store values of different type.
+type itemValue struct {
+	v interface{}
+}
+
 type SampleItem struct {
 	K string
 	V atomic.Value
@@ -53,6 +58,9 @@ func (s *SampleItem) Key() interface{} {
 }
 
 func (s *SampleItem) Value() interface{} {
+	if value, ok := s.V.Load().(itemValue); ok {
+		return value.v
+	}
 	return s.V.Load()
 }
 
@@ -60,7 +68,7 @@ func (s *SampleItem) SetValue(v interface{}) bool {
 	if v == nil {
 		return false
 	}
-	s.V.Store(v)
+	s.V.Store(itemValue{v})
 	return true
 }
 
-- 
2.43.0


From 8c1c70d7571c36adacb23805ebe46744f31b4787 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:04:56 +0000
Subject: [PATCH 17/42] fix: previous option of UsePool/UseEmbeddedPool did not
 restore it

---
 map.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/map.go b/map.go
index 3f0ad15..b4a2c14 100644
--- a/map.go
+++ b/map.go
@@ -124,6 +124,7 @@ func ItemFn(fn func() MapItem) OptHMap {
 
 func UsePool(enable bool) OptHMap {
 	return func(h *Map) OptHMap {
+		prev := h.pooler != nil
 		if !enable {
 			h.pooler = nil
 		} else if h.pooler == nil {
@@ -131,7 +132,7 @@ func UsePool(enable bool) OptHMap {
 			h.pooler.startMgr()
 		}
 
-		return UsePool(!enable)
+		return UsePool(prev)
 	}
 }
 
@@ -143,7 +144,7 @@ func UseEmbeddedPool(enable bool) OptHMap {
 			UsePool(false)(h)
 		}
 
-		return UsePool(old)
+		return UseEmbeddedPool(old)
 	}
 }
 
-- 
2.43.0


From 603ab53e96f854b72b2f6baf91ef8286b2c1c34d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:12:32 +0000
Subject: [PATCH 18/42] fix: memory outside of the end of level list was read
 as bucket

---
 map.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index b4a2c14..de0b95f 100644
--- a/map.go
+++ b/map.go
@@ -1301,7 +1301,9 @@ func (h *Map) initLevels() {
 	for i := range h.levels {
 		b := newBucket()
 		b.setLevel(int32(i) + 1)
-		b.LevelHead.InitAsEmpty()
+		// tail is accessed as bucket.
+		tail := newBucket()
+		list_head.InitAsEmpty(&b.LevelHead, &tail.LevelHead)
 		h.levels[i].Store(b)
 	}
 }
-- 
2.43.0


From 5010f93e91c65530426ff5352422986f6b330756 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:15:50 +0000
Subject: [PATCH 19/42] fix: concurrent insertion and deletion lost items,
 stored the same key twice, and deleted the same item twice

insertion and deletion are serialized. item pool of embedded mode is
moved by insertion, so lookup is serialized against them too.
---
 map.go | 38 +++++++++++++++++++++++++++++++++++++-
 1 file changed, 37 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index de0b95f..4266cb3 100644
--- a/map.go
+++ b/map.go
@@ -64,6 +64,10 @@ type Map struct {
 	// items are linked by relative address, which garbage collector cannot follow.
 	keepMu    sync.Mutex
 	keepItems []MapItem
+
+	// serializes insertion and deletion. embedded mode also serializes lookup against them,
+	// because insertion moves items.
+	muUpdate sync.RWMutex
 }
 
 var conf mapConf = mapConf{
@@ -315,6 +319,15 @@ func (h *Map) keepItem(item MapItem) {
 	h.keepItems = append(h.keepItems, item)
 }
 
+// lockLookup ... lock for lookup. only embedded mode requires to lock.
+func (h *Map) lockLookup() (unlock func()) {
+	if !h.isEmbededItemInBucket {
+		return func() {}
+	}
+	h.muUpdate.RLock()
+	return h.muUpdate.RUnlock
+}
+
 func (h *Map) _update(item MapItem, v interface{}) bool {
 	return item.SetValue(v)
 }
@@ -567,6 +580,7 @@ func (h *Map) searchBucket(k uint64) (result *bucket) {
 
 // Get ... return the value for a key, if not found, ok is false
 func (h *Map) Get(key interface{}) (value interface{}, ok bool) {
+	defer h.lockLookup()()
 	item, ok := h._get(KeyToHash(key))
 	if !ok {
 		return nil, false
@@ -575,6 +589,7 @@ func (h *Map) Get(key interface{}) (value interface{}, ok bool) {
 }
 
 func (h *Map) GetByHash(hash, conflict uint64) (value interface{}, ok bool) {
+	defer h.lockLookup()()
 	item, ok := h._get(hash, conflict)
 	if !ok {
 		return nil, false
@@ -584,11 +599,13 @@ func (h *Map) GetByHash(hash, conflict uint64) (value interface{}, ok bool) {
 
 // LoadItem ... return key/value item with embedded-linked-list. if not found, ok is false
 func (h *Map) LoadItem(key interface{}) (item MapItem, success bool) {
+	defer h.lockLookup()()
 	item, _, success = h._loadItem(0, 0, key)
 	return
 }
 
 func (h *Map) LoadItemByHash(k uint64, conflict uint64) (item MapItem, success bool) {
+	defer h.lockLookup()()
 
 	item, success = h._get(k, conflict)
 	return
@@ -629,8 +646,21 @@ func (h *Map) Set(key, value interface{}) bool {
 	var bucket *bucket
 	var found bool
 
+	// items in item pool are moved on insertion.
+	locked := h.isEmbededItemInBucket || h.pooler != nil
+	if locked {
+		h.muUpdate.Lock()
+		defer h.muUpdate.Unlock()
+	}
 	for {
 		item, bucket, found = h._loadItem(0, 0, key)
+		if !found && !locked {
+			// retry, because other goroutine may insert the same key
+			h.muUpdate.Lock()
+			defer h.muUpdate.Unlock()
+			locked = true
+			continue
+		}
 		if !found {
 			break
 		}
@@ -747,6 +777,8 @@ func (h *Map) StoreItem(item MapItem) bool {
 	}
 	k, conflict := item.KeyHash()
 
+	h.muUpdate.Lock()
+	defer h.muUpdate.Unlock()
 	oitem, bucket, found := h._loadItem(k, conflict, nil)
 	if found {
 		return h._update(oitem, item.Value())
@@ -1612,7 +1644,9 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 //Delete ... set nil to the key of MapItem. cannot Get entry
 func (h *Map) Delete(key interface{}) bool {
 
-	item, ok := h.LoadItem(key)
+	h.muUpdate.Lock()
+	defer h.muUpdate.Unlock()
+	item, _, ok := h._loadItem(0, 0, key)
 	if !ok {
 		return false
 	}
@@ -1636,6 +1670,8 @@ func (h *Map) purgeInEmbedded(key interface{}) bool {
 	var lock *trylock.Mutex
 	_, _, _, _ = item, bucket, lock, found
 
+	h.muUpdate.Lock()
+	defer h.muUpdate.Unlock()
 	item, bucket, lock, found = h.loadItem(0, 0, key)
 	if lock != nil {
 		defer lock.Unlock()
-- 
2.43.0


From 7cfa79a9407cfc4406004433c0cbd0fe1a377554 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:19:11 +0000
Subject: [PATCH 20/42] fix: embedded: Range concurrent with insertion and
 deletion panicked, and mixed key and value of different items

---
 map.go | 23 +++++++++++++++++++----
 1 file changed, 19 insertions(+), 4 deletions(-)

diff --git a/map.go b/map.go
index 4266cb3..33e3318 100644
--- a/map.go
+++ b/map.go
@@ -1689,18 +1689,32 @@ func (h *Map) purgeInEmbedded(key interface{}) bool {
 // called ordre is reverse key order
 func (h *Map) RangeItem(f func(MapItem) bool) {
 
+	h.rangeItem(func(item MapItem) func() bool {
+		return func() bool { return f(item) }
+	})
+}
+
+// rangeItem ... visit is called with lock of lookup, returned function is called without lock.
+func (h *Map) rangeItem(visit func(MapItem) func() bool) {
+
 	oldConfs := list_head.DefaultModeTraverse.Option(list_head.WaitNoM())
 	defer list_head.DefaultModeTraverse.Option(oldConfs...)
 
+	unlock := h.lockLookup()
+	defer func() { unlock() }()
+
 	for cur := h.head.Prev(list_head.WaitNoM()).Next(list_head.WaitNoM()); !cur.Empty(); cur = cur.Next(list_head.WaitNoM()) {
 		mhead := EmptyMapHead.FromListHead(cur).(*MapHead)
 		if mhead.IsIgnored() {
 			continue
 		}
-		e := h.ItemFn().HmapEntryFromListHead(mhead.PtrListHead()).(MapItem)
-		if !f(e) {
+		fn := visit(h.ItemFn().HmapEntryFromListHead(mhead.PtrListHead()).(MapItem))
+		unlock()
+		unlock = func() {}
+		if !fn() {
 			break
 		}
+		unlock = h.lockLookup()
 	}
 }
 
@@ -1708,8 +1722,9 @@ func (h *Map) RangeItem(f func(MapItem) bool) {
 // order is reverse key order
 func (h *Map) Range(f func(key, value interface{}) bool) {
 
-	h.RangeItem(func(item MapItem) bool {
-		return f(item.Key(), item.Value())
+	h.rangeItem(func(item MapItem) func() bool {
+		key, value := item.Key(), item.Value()
+		return func() bool { return f(key, value) }
 	})
 }
 
-- 
2.43.0


From fd8bbd51de99cdf732e3c539df4745475768bb7c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:21 +0000
Subject: [PATCH 21/42] fix: Len did not decrease on Delete and Purge

---
 map.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index 33e3318..4b31c93 100644
--- a/map.go
+++ b/map.go
@@ -221,7 +221,7 @@ func (h *Map) cactchSigBua() {
 }
 
 func (h *Map) Len() int {
-	return int(h.len)
+	return int(atomic.LoadInt64(&h.len))
 }
 
 func (h *Map) AddLen(inc int64) int64 {
@@ -1651,6 +1651,7 @@ func (h *Map) Delete(key interface{}) bool {
 		return false
 	}
 	item.Delete()
+	h.AddLen(-1)
 	return true
 
 }
@@ -1682,6 +1683,7 @@ func (h *Map) purgeInEmbedded(key interface{}) bool {
 
 	// item pool and linked-list have same order. deleted item must stay in both until it is reused.
 	item.Delete()
+	h.AddLen(-1)
 	return true
 }
 
-- 
2.43.0


From ff7717a042cd8bf4a53f621c6d0a35a38e1869b7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:35 +0000
Subject: [PATCH 22/42] fix: search option of a search was seen by concurrent
 searches of other maps

---
 map.go | 28 ++++++++++++----------------
 1 file changed, 12 insertions(+), 16 deletions(-)

diff --git a/map.go b/map.go
index 4b31c93..1246f36 100644
--- a/map.go
+++ b/map.go
@@ -818,14 +818,9 @@ func (h *Map) each(start *elist_head.ListHead, fn func(key, value interface{}))
 // must renename to find
 func (h *Map) find(start *elist_head.ListHead, cond func(HMapEntry) bool, opts ...searchArg) (result HMapEntry, cnt int) {
 
-	conf := sharedSearchOpt(nil)
-	previous := conf.Options(opts...)
-	defer func() {
-		if previous != nil {
-			conf.Options(previous)
-			sharedSearchOpt(conf)
-		}
-	}()
+	// option must not be seen by other search
+	conf := sharedSearchOpt(nil).dup()
+	conf.Options(opts...)
 	cnt = 0
 	var e MapItem
 	if start.Empty() {
@@ -1438,6 +1433,12 @@ func (o *searchOpt) ignoreBucketEntry() bool {
 	return o._ignoreBucketEntry.Load().(bool)
 }
 
+func (o *searchOpt) dup() (new *searchOpt) {
+	new = &searchOpt{h: o.h}
+	new._ignoreBucketEntry.Store(o.ignoreBucketEntry())
+	return new
+}
+
 type searchArg func(*searchOpt) searchArg
 
 func ignoreBucketEntry(t bool) searchArg {
@@ -1460,14 +1461,9 @@ func (o *searchOpt) Options(opts ...searchArg) (previous searchArg) {
 }
 func (h *Map) SearchKey(k uint64, opts ...searchArg) HMapEntry {
 
-	conf := sharedSearchOpt(nil)
-	previous := conf.Options(opts...)
-	defer func() {
-		if previous != nil {
-			conf.Options(previous)
-			sharedSearchOpt(conf)
-		}
-	}()
+	// option must not be seen by other search
+	conf := sharedSearchOpt(nil).dup()
+	conf.Options(opts...)
 	return h.searchKey(k, conf.ignoreBucketEntry())
 
 }
-- 
2.43.0


From 573c69dfc57c4c143388c764a27ae061fb6b79d8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:21:35 +0000
Subject: [PATCH 23/42] fix: rmap: concurrent Set/Get/Delete lost items

---
 rmap/rmap.go | 24 ++++++++++++++++++++----
 1 file changed, 20 insertions(+), 4 deletions(-)

diff --git a/rmap/rmap.go b/rmap/rmap.go
index 12693cd..489ab89 100644
--- a/rmap/rmap.go
+++ b/rmap/rmap.go
@@ -20,6 +20,9 @@ type RMap struct {
 	baseMap
 	limit int
 	dirty *smap.Map
+
+	// guards dirty and misses
+	muDirty sync.Mutex
 }
 
 type readKey struct {
@@ -93,7 +96,13 @@ func (m *RMap) Set2(k, conflict uint64, kstr string, v interface{}) bool {
 		return true
 	}
 
-	_, ok := read.load(k, conflict)
+	m.muDirty.Lock()
+	defer m.muDirty.Unlock()
+	read, _ = m.read.Load().(*readMap)
+	e, ok := read.load(k, conflict)
+	if ok {
+		e.SetValue(v)
+	}
 	if !ok {
 		e := m.getDirtyEntry(k, conflict)
 		if e != nil {
@@ -167,10 +176,13 @@ func (m *RMap) Get2(k, conflict uint64) (v interface{}, ok bool) {
 	}
 
 	if !ok && read.amended {
-		// m.Lock()
-		// defer m.Unlock()
+		m.muDirty.Lock()
+		defer m.muDirty.Unlock()
 		read := m.read.Load().(*readMap)
-		_, ok = read.load(k, conflict)
+		e, ok = read.load(k, conflict)
+		if ok {
+			v = e.Value()
+		}
 		if !ok && read.amended {
 			v, ok = m.getDirty(k, conflict)
 			m.missLocked()
@@ -182,6 +194,8 @@ func (m *RMap) Get2(k, conflict uint64) (v interface{}, ok bool) {
 func (m *RMap) Delete(key string) bool {
 	k, conflict := smap.KeyToHash(key)
 
+	m.muDirty.Lock()
+	defer m.muDirty.Unlock()
 	read, _ := m.read.Load().(*readMap)
 	ohead, ok := read.load(k, conflict)
 	if !ok && read.amended {
@@ -208,6 +222,8 @@ func (m *RMap) Delete(key string) bool {
 	return false
 }
 func (m *RMap) Len() int {
+	m.muDirty.Lock()
+	defer m.muDirty.Unlock()
 	l := int(m.dirty.Len())
 	read, _ := m.read.Load().(*readMap)
 	for _, a := range read.m {
-- 
2.43.0


From 3013d4db0803e8adc1453e53d722f3de22c5b48c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:37:42 +0000
Subject: [PATCH 24/42] fix: embedded: order of item pool and list differed on
 the last position

---
 map.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index 1246f36..5da22b6 100644
--- a/map.go
+++ b/map.go
@@ -1080,7 +1080,9 @@ func (h *Map) add2(start *elist_head.ListHead, e HMapEntry, opts ...HMethodOpt)
 
 		return true
 	}
-	if opt != nil && opt.bucket != nil && opt.bucket.entry(h) != nil {
+	// on the last position, item is inserted after the others on it.
+	isLast := e.PtrMapHead().reverse >= mapheadFromLListHead(h.tail.Prev()).reverse
+	if !isLast && opt != nil && opt.bucket != nil && opt.bucket.entry(h) != nil {
 		// pos, _ = h.find(start, func(ehead HMapEntry) bool {
 		// 	return e.PtrMapHead().reverse < ehead.PtrMapHead().reverse
 		// }, ignoreBucketEntry(false))
-- 
2.43.0


From 4a6df19b0eacbfa6ef6c03e13861b72b2e4d2249 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:39:35 +0000
Subject: [PATCH 25/42] fix: DumpEntry of a map with items other than
 SampleItem panicked

---
 map.go | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/map.go b/map.go
index 5da22b6..4420f7b 100644
--- a/map.go
+++ b/map.go
@@ -1191,6 +1191,11 @@ func (h *Map) DumpEntry(w io.Writer) {
 		//e = e.HmapEntryFromListHead(cur)
 		mhead := EmptyMapHead.FromListHead(cur).(*MapHead)
 		e := fromMapHead(mhead)
+		if !mhead.IsDummy() {
+			if item, ok := h.ItemFn().HmapEntryFromListHead(cur).(MapItem); ok {
+				e = item
+			}
+		}
 
 		var ekey interface{}
 		ekey = e.Key()
-- 
2.43.0


From f7fb0c2ce414997388e9e733a38b50250bb7f1e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:44:45 +0000
Subject: [PATCH 26/42] fix: SampleItem.Setup did not reverse the hash, item
 was stored on a wrong position

---
 sample_hmap_entry.go | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/sample_hmap_entry.go b/sample_hmap_entry.go
index 746d604..23b2830 100644
--- a/sample_hmap_entry.go
+++ b/sample_hmap_entry.go
@@ -7,6 +7,7 @@
 package skiplistmap
 
 import (
+	"math/bits"
 	"sync/atomic"
 	"unsafe"
 
@@ -73,8 +74,8 @@ func (s *SampleItem) SetValue(v interface{}) bool {
 }
 
 func (s *SampleItem) Setup() {
-	s.reverse, s.conflict = KeyToHash(s.Key())
-
+	k, conflict := KeyToHash(s.Key())
+	s.reverse, s.conflict = bits.Reverse64(k), conflict
 }
 
 func (s *SampleItem) Next() HMapEntry {
-- 
2.43.0


From a99b956c86641791b3165ccd8bbf788f3fde984a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:45:11 +0000
Subject: [PATCH 27/42] fix: undoing UseEmbeddedPool did not bring back the
 item pool

---
 map.go | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/map.go b/map.go
index 4420f7b..0cbbcba 100644
--- a/map.go
+++ b/map.go
@@ -142,13 +142,17 @@ func UsePool(enable bool) OptHMap {
 
 func UseEmbeddedPool(enable bool) OptHMap {
 	return func(h *Map) OptHMap {
-		old := h.isEmbededItemInBucket
+		old, oldPooler := h.isEmbededItemInBucket, h.pooler
 		h.isEmbededItemInBucket = enable
 		if enable {
-			UsePool(false)(h)
+			h.pooler = nil
 		}
 
-		return UseEmbeddedPool(old)
+		return func(h *Map) OptHMap {
+			redo := UseEmbeddedPool(old)(h)
+			h.pooler = oldPooler
+			return redo
+		}
 	}
 }
 
-- 
2.43.0


From b73a445407c00a890e8d9d8b7eb2e641f33a124b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 28/42] fix: lookup must not use a bucket that is still being
 linked

---
 bucket.go | 7 ++++++-
 map.go    | 7 ++++---
 2 files changed, 10 insertions(+), 4 deletions(-)

diff --git a/bucket.go b/bucket.go
index 8118a01..c89d840 100644
--- a/bucket.go
+++ b/bucket.go
@@ -327,7 +327,7 @@ func (b *bucket) largestDown(ignoreNoPool, ignoreNoInitDummy bool) *bucket {
 		if ignoreNoPool && b.downLevels[i]._itemPool == nil {
 			continue
 		}
-		if ignoreNoInitDummy && b.downLevels[i].state != bucketStateActive {
+		if ignoreNoInitDummy && !b.downLevels[i].isReady() {
 			continue
 		}
 		return b.downLevels[i].largestDown(ignoreNoPool, ignoreNoInitDummy)
@@ -420,6 +420,11 @@ func (b *bucket) isRequireOnOk() bool {
 	return b.state != bucketStateActive && !b.ListHead.IsSingle() && !b.LevelHead.IsSingle() && !b.dummy.IsSingle() && !b.dummy.Empty()
 }
 
+// isReady ... bucket is linked, or has the head of parent
+func (b *bucket) isReady() bool {
+	return b._parent != nil || atomic.LoadUint32(&b.state) == bucketStateActive
+}
+
 func (b *bucket) setLevel(l int32) (prev int32) {
 
 	prev = atomic.LoadInt32(&b._level)
diff --git a/map.go b/map.go
index 0cbbcba..9efe280 100644
--- a/map.go
+++ b/map.go
@@ -1764,7 +1764,8 @@ func (h *Map) FindBucket(reverse uint64) (b *bucket) {
 
 func (h *Map) findBucket(reverse uint64) (b *bucket) {
 
-	return h._findBucket(reverse, false, false)
+	// other goroutine may be still linking a bucket and dummy of it.
+	return h._findBucket(reverse, false, !h.isEmbededItemInBucket)
 }
 
 func (h *Map) _findBucket(reverse uint64, ignoreNoPool bool, ignoreNoInitDummy bool) (b *bucket) {
@@ -1828,7 +1829,7 @@ func (h *Map) _findBucket(reverse uint64, ignoreNoPool bool, ignoreNoInitDummy b
 				if ignoreNoPool && bucketDowns.at(i)._itemPool == nil {
 					continue
 				}
-				if ignoreNoInitDummy && bucketDowns.at(i).state != bucketStateActive {
+				if ignoreNoInitDummy && !bucketDowns.at(i).isReady() {
 					continue
 				}
 
@@ -1842,7 +1843,7 @@ func (h *Map) _findBucket(reverse uint64, ignoreNoPool bool, ignoreNoInitDummy b
 		if ignoreNoPool && bucketDowns.at(idx)._itemPool == nil {
 			break
 		}
-		if ignoreNoInitDummy && bucketDowns.at(idx).state != bucketStateActive {
+		if ignoreNoInitDummy && !bucketDowns.at(idx).isReady() {
 			break
 		}
 		// MENTION: if result pool is require, enable
-- 
2.43.0


From ea7fa6a6744b9535c7f679d31643a332200f95e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:27:48 +0000
Subject: [PATCH 29/42] fix: publish child buckets so that concurrent lookup
 never sees length without data

---
 bucket.go | 9 +++++++++
 map.go    | 2 +-
 2 files changed, 10 insertions(+), 1 deletion(-)

diff --git a/bucket.go b/bucket.go
index c89d840..b73f7db 100644
--- a/bucket.go
+++ b/bucket.go
@@ -469,6 +469,15 @@ func (list *bucketSlice) _at(i int, checklen bool) (result *bucket) {
 	return (*bucket)(unsafe.Add(data, i*int(bucketSize)))
 }
 
+// store ... set slice without lock. data must be visible before len and cap.
+func (list *bucketSlice) store(buckets []bucket) {
+
+	src := (*bucketSlice)(unsafe.Pointer(&buckets))
+	atomic.StorePointer(&list.data, src.data)
+	atomic_util.StoreInt(&list.cap, src.cap)
+	atomic_util.StoreInt(&list.len, src.len)
+}
+
 func (list *bucketSlice) Len() int {
 
 	return atomic_util.LoadInt(&list.len)
diff --git a/map.go b/map.go
index 9efe280..e747558 100644
--- a/map.go
+++ b/map.go
@@ -1914,7 +1914,7 @@ func (h *Map) bucketFromPool(reverse uint64, opts ...cOptFn) (b *bucket, onOk fu
 			// if idx != 0 && !h.isEmbededItemInBucket {
 			// 	h.add2(b.head(), &b.downLevels[0].dummy)
 			// }
-			b.downLevels = downLevels
+			b.ptrDownLevels().store(downLevels)
 		} else if len(b.downLevels) == 0 {
 			if !recoverBucketWithOutInit {
 				goto RETRY_INITIALIZE
-- 
2.43.0


From d8c7064b72b3058e4f90e88f9cde2fbaefdb3fe2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:17 +0000
Subject: [PATCH 30/42] fix: lookup concurrent with the first insertion took
 the item for another type

---
 map.go | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/map.go b/map.go
index e747558..9394c21 100644
--- a/map.go
+++ b/map.go
@@ -1609,18 +1609,19 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 				continue
 			}
 			if curReverse == reverseNoMask {
-				return result.HmapEntryFromListHead(cur.PtrListHead())
+				return h.ItemFn().HmapEntryFromListHead(cur.PtrListHead())
 			}
 			return nil
 		}
 		return nil
 	}
+	// type of item is got from h.ItemFn() after item is found. it is changed by the first insertion.
 	result := lbNext.entry(h)
 	if ignoreBucketEnry && lbNext.reverse == reverseNoMask {
 		// item on the position of bucket is after dummy of bucket
 		for cur := result.PtrMapHead(); cur != nil && cur.reverse == reverseNoMask; cur = cur.NextWithNil() {
 			if !cur.IsIgnored() {
-				return result.HmapEntryFromListHead(cur.PtrListHead())
+				return h.ItemFn().HmapEntryFromListHead(cur.PtrListHead())
 			}
 		}
 	}
@@ -1638,7 +1639,7 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 			continue
 		}
 		if curReverse == reverseNoMask {
-			return result.HmapEntryFromListHead(cur.PtrListHead())
+			return h.ItemFn().HmapEntryFromListHead(cur.PtrListHead())
 		}
 
 		return nil
-- 
2.43.0


From 302a6114ef8fe77876aa0f111c345000582f32e9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:17 +0000
Subject: [PATCH 31/42] fix: Range concurrent with Delete visited an entry with
 nil key

---
 item.go | 2 +-
 map.go  | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/item.go b/item.go
index 5892576..c1da32c 100644
--- a/item.go
+++ b/item.go
@@ -78,7 +78,7 @@ func (s *entryHMap) Offset() uintptr {
 }
 
 func (s *entryHMap) Delete() {
-	s.key = nil
+	// key is kept, because other goroutine may be still reading it in Range()
 	s.MapHead.state |= mapIsDeleted
 }
 
diff --git a/map.go b/map.go
index 9394c21..d03497e 100644
--- a/map.go
+++ b/map.go
@@ -1649,7 +1649,7 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 
 }
 
-//Delete ... set nil to the key of MapItem. cannot Get entry
+//Delete ... mark MapItem as deleted. cannot Get entry
 func (h *Map) Delete(key interface{}) bool {
 
 	h.muUpdate.Lock()
-- 
2.43.0


From 7f1fdd657340f94f6e5b33822321886cfec51308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:45:17 +0000
Subject: [PATCH 32/42] fix: lookup does not wait for the length of child
 buckets

---
 bucket.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/bucket.go b/bucket.go
index b73f7db..777a874 100644
--- a/bucket.go
+++ b/bucket.go
@@ -469,13 +469,13 @@ func (list *bucketSlice) _at(i int, checklen bool) (result *bucket) {
 	return (*bucket)(unsafe.Add(data, i*int(bucketSize)))
 }
 
-// store ... set slice without lock. data must be visible before len and cap.
+// store ... set slice without lock. data must be visible before len, len before cap.
 func (list *bucketSlice) store(buckets []bucket) {
 
 	src := (*bucketSlice)(unsafe.Pointer(&buckets))
 	atomic.StorePointer(&list.data, src.data)
-	atomic_util.StoreInt(&list.cap, src.cap)
 	atomic_util.StoreInt(&list.len, src.len)
+	atomic_util.StoreInt(&list.cap, src.cap)
 }
 
 func (list *bucketSlice) Len() int {
-- 
2.43.0


From c968fb537f46d359c68ccc9c1ca3a7aa03ee1007 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:59:34 +0000
Subject: [PATCH 33/42] fix: Set of a nil value was dropped, or gave the value
 of another item

---
 sample_hmap_entry.go | 3 ---
 1 file changed, 3 deletions(-)

diff --git a/sample_hmap_entry.go b/sample_hmap_entry.go
index 23b2830..a0854d3 100644
--- a/sample_hmap_entry.go
+++ b/sample_hmap_entry.go
@@ -66,9 +66,6 @@ func (s *SampleItem) Value() interface{} {
 }
 
 func (s *SampleItem) SetValue(v interface{}) bool {
-	if v == nil {
-		return false
-	}
 	s.V.Store(itemValue{v})
 	return true
 }
-- 
2.43.0


From 47c9cb4048a887c133a25356fecd84dc92d92cb9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:00:18 +0000
Subject: [PATCH 34/42] fix: value of an entry was torn when it was set to
 another type during lookup

---
 item.go | 15 ++++++++-------
 map.go  |  8 ++++----
 2 files changed, 12 insertions(+), 11 deletions(-)

diff --git a/item.go b/item.go
index c1da32c..042ef28 100644
--- a/item.go
+++ b/item.go
@@ -6,6 +6,7 @@ package skiplistmap
 
 import (
 	"sync"
+	"sync/atomic"
 	"unsafe"
 
 	"github.com/kazu/elist_head"
@@ -13,16 +14,15 @@ import (
 
 type entryHMap struct {
 	key   interface{}
-	value interface{}
+	value atomic.Value // of itemValue, other goroutine may read it while it is set
 
 	MapHead
 }
 
 func NewEntryMap(key, value interface{}) *entryHMap {
-	return &entryHMap{
-		key:   key,
-		value: value,
-	}
+	e := &entryHMap{key: key}
+	e.SetValue(value)
+	return e
 }
 
 var (
@@ -52,11 +52,12 @@ func (s *entryHMap) Key() interface{} {
 }
 
 func (s *entryHMap) Value() interface{} {
-	return s.value
+	value, _ := s.value.Load().(itemValue)
+	return value.v
 }
 
 func (s *entryHMap) SetValue(v interface{}) bool {
-	s.value = v
+	s.value.Store(itemValue{v})
 	return true
 }
 
diff --git a/map.go b/map.go
index d03497e..c0facea 100644
--- a/map.go
+++ b/map.go
@@ -243,7 +243,7 @@ func (h *Map) initBeforeSet() {
 	btable.LevelHead.Init()
 
 	empty := &btable.dummy
-	empty.key, empty.value = nil, nil
+	empty.key = nil
 	empty.reverse, empty.conflict = btable.reverse, 0
 	empty.PtrMapHead().state |= mapIsDummy
 
@@ -284,7 +284,7 @@ func (h *Map) initBeforeSet() {
 		}
 
 		empty = &btable.dummy
-		empty.key, empty.value = nil, nil
+		empty.key = nil
 		empty.reverse, empty.conflict = btable.reverse, 0
 		empty.PtrMapHead().state |= mapIsDummy
 
@@ -814,7 +814,7 @@ func (h *Map) each(start *elist_head.ListHead, fn func(key, value interface{}))
 
 	for cur := start; !cur.Empty(); cur = cur.Next() {
 		e := entryHMapFromListHead(cur)
-		fn(e.key, e.value)
+		fn(e.key, e.Value())
 	}
 	return
 }
@@ -1248,7 +1248,7 @@ func reverse2Index(level int, r uint64) (idx int) {
 func (h *Map) _InsertBefore(tBtable *list_head.ListHead, nBtable *bucket) {
 
 	empty := &nBtable.dummy
-	empty.key, empty.value = nil, nil
+	empty.key = nil
 	empty.reverse, empty.conflict = nBtable.reverse, 0
 	empty.PtrMapHead().state |= mapIsDummy
 	empty.Init()
-- 
2.43.0


From 60ba64bfa5dfdc6e8d7704e2f9d190c674f3cbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:55:47 +0000
Subject: [PATCH 35/42] fix: lookup did not reach buckets of the deepest level,
 embedded items there were not found

---
 map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/map.go b/map.go
index c0facea..959f346 100644
--- a/map.go
+++ b/map.go
@@ -1792,7 +1792,7 @@ func (h *Map) _findBucket(reverse uint64, ignoreNoPool bool, ignoreNoInitDummy b
 		Log(LogWarn, "not found with inited-dummpy")
 	}()
 
-	for l := 1; l < 16; l++ {
+	for l := 1; l <= 16; l++ {
 		if l == 1 {
 			idx := (reverse >> (4 * 15))
 			// MENTION: if result pool is require, enable
-- 
2.43.0


From 9e9ddaaea4f7a3a0fa5d50c420f853285decdaf7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 03:27:44 +0000
Subject: [PATCH 36/42] fix: Range did not see changes made by its function
 after items were moved in item pool

---
 map.go | 33 +++++++++++++++++++++++++++++++++
 1 file changed, 33 insertions(+)

diff --git a/map.go b/map.go
index 959f346..fc3814c 100644
--- a/map.go
+++ b/map.go
@@ -68,6 +68,8 @@ type Map struct {
 	// serializes insertion and deletion. embedded mode also serializes lookup against them,
 	// because insertion moves items.
 	muUpdate sync.RWMutex
+	// count of insertions, which may have moved items in item pool
+	movedItems uint32
 }
 
 var conf mapConf = mapConf{
@@ -677,6 +679,11 @@ func (h *Map) Set(key, value interface{}) bool {
 		}
 	}
 
+	if h.isEmbededItemInBucket || h.pooler != nil {
+		// getting item from item pool may move others.
+		defer atomic.AddUint32(&h.movedItems, 1)
+	}
+
 	var s *SampleItem
 	useDump := false
 
@@ -1713,11 +1720,22 @@ func (h *Map) rangeItem(visit func(MapItem) func() bool) {
 	unlock := h.lockLookup()
 	defer func() { unlock() }()
 
+	moved := atomic.LoadUint32(&h.movedItems)
 	for cur := h.head.Prev(list_head.WaitNoM()).Next(list_head.WaitNoM()); !cur.Empty(); cur = cur.Next(list_head.WaitNoM()) {
 		mhead := EmptyMapHead.FromListHead(cur).(*MapHead)
 		if mhead.IsIgnored() {
 			continue
 		}
+		if n := atomic.LoadUint32(&h.movedItems); n != moved {
+			// items have been moved, cur may be still in the old ones.
+			item := h.currentItem(mhead)
+			if item == nil {
+				continue
+			}
+			mhead = item.PtrMapHead()
+			cur = mhead.PtrListHead()
+			moved = n
+		}
 		fn := visit(h.ItemFn().HmapEntryFromListHead(mhead.PtrListHead()).(MapItem))
 		unlock()
 		unlock = func() {}
@@ -1728,6 +1746,21 @@ func (h *Map) rangeItem(visit func(MapItem) func() bool) {
 	}
 }
 
+// currentItem ... return the item of the map with the same hash as mhead. return nil if the map doesn't have it.
+func (h *Map) currentItem(mhead *MapHead) HMapEntry {
+
+	reverse, conflict := atomic.LoadUint64(&mhead.reverse), atomic.LoadUint64(&mhead.conflict)
+	e := h.searchKey(bits.Reverse64(reverse), true)
+	if e == nil {
+		return nil
+	}
+	e = findConflict(e, conflict)
+	if atomic.LoadUint64(&e.PtrMapHead().reverse) != reverse || atomic.LoadUint64(&e.PtrMapHead().conflict) != conflict {
+		return nil
+	}
+	return e
+}
+
 // Range ... calls f sequentially for each key and value present in the map.
 // order is reverse key order
 func (h *Map) Range(f func(key, value interface{}) bool) {
-- 
2.43.0


From ebbbf7a11e6903985211f9c5faf8e6914e570bc5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 04:01:24 +0000
Subject: [PATCH 37/42] fix: storing an item again after its deletion broke the
 list, other keys were lost

---
 map.go | 27 +++++++++++++++++++++++++++
 1 file changed, 27 insertions(+)

diff --git a/map.go b/map.go
index fc3814c..c5e8c55 100644
--- a/map.go
+++ b/map.go
@@ -795,6 +795,16 @@ func (h *Map) StoreItem(item MapItem) bool {
 		return h._update(oitem, item.Value())
 	}
 
+	if mhead := item.PtrMapHead(); mhead.IsDeleted() && h.hasItem(mhead) {
+		// deleted item is still in the list.
+		if mhead.reverse != bits.Reverse64(k) || mhead.conflict != conflict {
+			return false
+		}
+		mhead.state &^= mapIsDeleted
+		h.AddLen(1)
+		return true
+	}
+
 	if _, ok := h.ItemFn().(*entryHMap); ok {
 		// default ItemFn() cannot get other type of item from list
 		ItemFn(func() MapItem {
@@ -806,6 +816,23 @@ func (h *Map) StoreItem(item MapItem) bool {
 	return h._set(k, conflict, bucket, item)
 }
 
+// hasItem ... is item in the list. it may be deleted.
+func (h *Map) hasItem(mhead *MapHead) bool {
+	_, bucket, _ := h.getWithBucket(mhead.KeyInHmap(), mhead.conflict)
+	e, _ := h.find(bucket.head(), func(item HMapEntry) bool {
+		return mhead.reverse <= item.PtrMapHead().reverse
+	}, ignoreBucketEntry(false))
+	if e == nil {
+		return false
+	}
+	for cur := e.PtrMapHead(); cur != nil && cur.reverse == mhead.reverse; cur = cur.NextWithNil() {
+		if cur == mhead {
+			return true
+		}
+	}
+	return false
+}
+
 func (h *Map) eachEntry(start *elist_head.ListHead, fn func(*entryHMap)) {
 	for cur := start; !cur.Empty(); cur = cur.Next() {
 		e := entryHMapFromListHead(cur)
-- 
2.43.0


From 64acf04226977bfc3c152c393043f9b64663d173 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:31:09 +0000
Subject: [PATCH 38/42] fix: statistics of maps used concurrently were written
 without common lock, program ended

---
 debug.go | 12 ++++++++++++
 item.go  |  4 +---
 map.go   | 16 ++++------------
 3 files changed, 17 insertions(+), 15 deletions(-)

diff --git a/debug.go b/debug.go
index 3d0b82c..76116cf 100644
--- a/debug.go
+++ b/debug.go
@@ -3,6 +3,7 @@ package skiplistmap
 import (
 	"fmt"
 	"io"
+	"sync"
 )
 
 type statKey byte
@@ -11,10 +12,21 @@ var EnableStats bool = false
 
 var DebugStats map[statKey]int = map[statKey]int{}
 
+// guards DebugStats. it is shared by all maps.
+var muStats sync.Mutex
+
 func ResetStats() {
+	muStats.Lock()
+	defer muStats.Unlock()
 	DebugStats = map[statKey]int{}
 }
 
+func countStat(key statKey) {
+	muStats.Lock()
+	defer muStats.Unlock()
+	DebugStats[key]++
+}
+
 type LogLevel byte
 
 const (
diff --git a/item.go b/item.go
index 042ef28..b1a3231 100644
--- a/item.go
+++ b/item.go
@@ -112,9 +112,7 @@ func CondOfFind(reverse uint64, l sync.Locker) CondOfFinder {
 	return func(ehead *entryHMap) bool {
 
 		if EnableStats {
-			l.Lock()
-			DebugStats[CntSearchEntry]++
-			l.Unlock()
+			countStat(CntSearchEntry)
 		}
 		return reverse <= ehead.reverse
 	}
diff --git a/map.go b/map.go
index c5e8c55..9b4f2ae 100644
--- a/map.go
+++ b/map.go
@@ -477,9 +477,7 @@ var Failreverse uint64 = 0
 
 func (h *Map) _get(k, conflict uint64) (MapItem, bool) {
 	if EnableStats {
-		h.mu.Lock()
-		DebugStats[CntOfGet]++
-		h.mu.Unlock()
+		countStat(CntOfGet)
 	}
 	e := h.searchKey(k, true)
 	if e == nil {
@@ -519,9 +517,7 @@ func findConflict(e HMapEntry, conflict uint64) HMapEntry {
 func (h *Map) getWithBucket(k, conflict uint64) (MapItem, *bucket, bool) {
 
 	if EnableStats {
-		h.mu.Lock()
-		DebugStats[CntOfGet]++
-		h.mu.Unlock()
+		countStat(CntOfGet)
 	}
 	var bucket *bucket
 	var reverse uint64
@@ -1631,9 +1627,7 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 
 			pCur = cur
 			if EnableStats && ignoreBucketEnry {
-				h.mu.Lock()
-				DebugStats[CntReverseSearch]++
-				h.mu.Unlock()
+				countStat(CntReverseSearch)
 			}
 			if ignoreBucketEnry && cur.IsIgnored() {
 				continue
@@ -1661,9 +1655,7 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 	}
 	for cur := result.PtrMapHead(); cur != nil; cur = cur.PrevtWithNil() {
 		if EnableStats && ignoreBucketEnry {
-			h.mu.Lock()
-			DebugStats[CntSearchEntry]++
-			h.mu.Unlock()
+			countStat(CntSearchEntry)
 		}
 		curReverse := cur.reverse
 		if ignoreBucketEnry && cur.IsIgnored() {
-- 
2.43.0


From e7d3f55671f4c5655a316b7c73625b2e66b7c894 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:33:23 +0000
Subject: [PATCH 39/42] fix: Set of a new key which is not string panicked
 after item was got, item pool had an item without key

---
 map.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index 9b4f2ae..5d5ad4e 100644
--- a/map.go
+++ b/map.go
@@ -675,6 +675,9 @@ func (h *Map) Set(key, value interface{}) bool {
 		}
 	}
 
+	// key of other type must panic before item is got from item pool.
+	skey := key.(string)
+
 	if h.isEmbededItemInBucket || h.pooler != nil {
 		// getting item from item pool may move others.
 		defer atomic.AddUint32(&h.movedItems, 1)
@@ -757,7 +760,7 @@ func (h *Map) Set(key, value interface{}) bool {
 		h.keepItem(s)
 	}
 
-	s.K = key.(string)
+	s.K = skey
 	s.SetValue(value)
 
 	if _, ok := h.ItemFn().(*SampleItem); !ok {
-- 
2.43.0


From 59992f457238797fc47d1091f425ea1092fbb487 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:34:56 +0000
Subject: [PATCH 40/42] fix: value stored by V of an item could not be set to
 another type, V of an item gave the holder of value

---
 sample_hmap_entry.go | 33 ++++++++++++++++++++++++++++-----
 1 file changed, 28 insertions(+), 5 deletions(-)

diff --git a/sample_hmap_entry.go b/sample_hmap_entry.go
index a0854d3..c0eef40 100644
--- a/sample_hmap_entry.go
+++ b/sample_hmap_entry.go
@@ -20,9 +20,35 @@ type itemValue struct {
 	v interface{}
 }
 
+// anyValue ... like atomic.Value, but can store nil and values of different type.
+type anyValue struct {
+	value atomic.Value // of itemValue
+}
+
+func (a *anyValue) Load() interface{} {
+	value, _ := a.value.Load().(itemValue)
+	return value.v
+}
+
+func (a *anyValue) Store(v interface{}) {
+	a.value.Store(itemValue{v})
+}
+
+func (a *anyValue) Swap(v interface{}) interface{} {
+	value, _ := a.value.Swap(itemValue{v}).(itemValue)
+	return value.v
+}
+
+func (a *anyValue) CompareAndSwap(old, new interface{}) bool {
+	if old == nil && a.value.CompareAndSwap(nil, itemValue{new}) {
+		return true
+	}
+	return a.value.CompareAndSwap(itemValue{old}, itemValue{new})
+}
+
 type SampleItem struct {
 	K string
-	V atomic.Value
+	V anyValue
 	MapHead
 }
 
@@ -59,14 +85,11 @@ func (s *SampleItem) Key() interface{} {
 }
 
 func (s *SampleItem) Value() interface{} {
-	if value, ok := s.V.Load().(itemValue); ok {
-		return value.v
-	}
 	return s.V.Load()
 }
 
 func (s *SampleItem) SetValue(v interface{}) bool {
-	s.V.Store(itemValue{v})
+	s.V.Store(v)
 	return true
 }
 
-- 
2.43.0


From 392c9f27e60122b4f6197b1b64bb445d794e123d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:30 +0000
Subject: [PATCH 41/42] fix: Get missed a present key whose insertion was not
 finished, when it searched from the next bucket

---
 map.go | 14 +++++++++-----
 1 file changed, 9 insertions(+), 5 deletions(-)

diff --git a/map.go b/map.go
index 5d5ad4e..5d31303 100644
--- a/map.go
+++ b/map.go
@@ -1661,18 +1661,22 @@ func (h *Map) _searchBybucket(lbCur *bucket, reverseNoMask uint64, ignoreBucketE
 			countStat(CntSearchEntry)
 		}
 		curReverse := cur.reverse
-		if ignoreBucketEnry && cur.IsIgnored() {
-			continue
+		if curReverse < reverseNoMask {
+			// item being inserted is linked to the next of cur before to the prev of its next.
+			for cur = cur.NextWithNil(); cur != nil && cur.reverse <= reverseNoMask; cur = cur.NextWithNil() {
+				if cur.reverse == reverseNoMask && !(ignoreBucketEnry && cur.IsIgnored()) {
+					return h.ItemFn().HmapEntryFromListHead(cur.PtrListHead())
+				}
+			}
+			return nil
 		}
-		if curReverse > reverseNoMask {
+		if ignoreBucketEnry && cur.IsIgnored() {
 			continue
 		}
 		if curReverse == reverseNoMask {
 			return h.ItemFn().HmapEntryFromListHead(cur.PtrListHead())
 		}
 
-		return nil
-
 	}
 	return nil
 
-- 
2.43.0


From 0fd0c4dc557922f0b376c209ca156fa77135e8fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:05:17 +0000
Subject: [PATCH 42/42] fix: Range with items of the same hash: visited an item
 which was set again for ever, missed an item when another was set again

---
 map.go | 39 ++++++++++++++++++++++++++++++++++++++-
 1 file changed, 38 insertions(+), 1 deletion(-)

diff --git a/map.go b/map.go
index 5d31303..c1bd7e5 100644
--- a/map.go
+++ b/map.go
@@ -1746,6 +1746,10 @@ func (h *Map) rangeItem(visit func(MapItem) func() bool) {
 	unlock := h.lockLookup()
 	defer func() { unlock() }()
 
+	// conflicts of items which have been visited with the reverse. an item can be linked again behind the visited one.
+	var reverse uint64
+	var visited []uint64
+
 	moved := atomic.LoadUint32(&h.movedItems)
 	for cur := h.head.Prev(list_head.WaitNoM()).Next(list_head.WaitNoM()); !cur.Empty(); cur = cur.Next(list_head.WaitNoM()) {
 		mhead := EmptyMapHead.FromListHead(cur).(*MapHead)
@@ -1758,10 +1762,19 @@ func (h *Map) rangeItem(visit func(MapItem) func() bool) {
 			if item == nil {
 				continue
 			}
-			mhead = item.PtrMapHead()
+			// items with the same hash may have changed places, see all of them again.
+			mhead = firstOfReverse(item.PtrMapHead())
 			cur = mhead.PtrListHead()
 			moved = n
 		}
+		if r := atomic.LoadUint64(&mhead.reverse); r != reverse {
+			reverse, visited = r, visited[:0]
+		}
+		conflict := atomic.LoadUint64(&mhead.conflict)
+		if containsUint64(visited, conflict) {
+			continue
+		}
+		visited = append(visited, conflict)
 		fn := visit(h.ItemFn().HmapEntryFromListHead(mhead.PtrListHead()).(MapItem))
 		unlock()
 		unlock = func() {}
@@ -1772,6 +1785,30 @@ func (h *Map) rangeItem(visit func(MapItem) func() bool) {
 	}
 }
 
+// firstOfReverse ... return the first item with the same reverse as mhead.
+func firstOfReverse(mhead *MapHead) *MapHead {
+
+	first := mhead
+	for cur := mhead.PrevtWithNil(); cur != nil; cur = cur.PrevtWithNil() {
+		if atomic.LoadUint64(&cur.reverse) != atomic.LoadUint64(&mhead.reverse) {
+			break
+		}
+		if !cur.IsIgnored() {
+			first = cur
+		}
+	}
+	return first
+}
+
+func containsUint64(list []uint64, v uint64) bool {
+	for _, e := range list {
+		if e == v {
+			return true
+		}
+	}
+	return false
+}
+
 // currentItem ... return the item of the map with the same hash as mhead. return nil if the map doesn't have it.
 func (h *Map) currentItem(mhead *MapHead) HMapEntry {
 
-- 
2.43.0

