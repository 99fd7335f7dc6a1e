From 8c3bc281b42eeeded43bbeee1f7548fbd20e7d85 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 01/50] fix: MapL.Len reads the counter atomically

---
 hashmap/map.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashmap/map.go b/hashmap/map.go
index 1ba9b7a..ae85b48 100644
--- a/hashmap/map.go
+++ b/hashmap/map.go
@@ -71,7 +71,7 @@ func (t *MapL[K, V]) Range(f func(k K, v V) bool) {
 }
 
 func (t *MapL[K, V]) Len() int64 {
-	return t.len
+	return atomic.LoadInt64(&t.len)
 }
 
 // Map  Define a generic synchronized map structure using sync.Map as the underlying data structure.
-- 
2.43.0


From 4979b9628ee5934e9242db14f173654d9cb546a2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 02/50] fix: Map and MapL Put report a replaced nil interface
 value as present

---
 hashmap/map.go | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/hashmap/map.go b/hashmap/map.go
index ae85b48..35fa823 100644
--- a/hashmap/map.go
+++ b/hashmap/map.go
@@ -28,8 +28,11 @@ func NewMapL[K any, V any]() *MapL[K, V] {
 func (t *MapL[K, V]) Put(key K, value V) (prev V, b bool) {
 	if v, ok := t.m.Swap(key, value); !ok {
 		atomic.AddInt64(&t.len, 1)
-	} else if v != nil {
-		prev, b = v.(V), true
+	} else {
+		if v != nil {
+			prev = v.(V)
+		}
+		b = true
 	}
 	return
 }
@@ -85,8 +88,11 @@ func NewMap[K any, V any]() *Map[K, V] {
 }
 
 func (t *Map[K, V]) Put(key K, value V) (prev V, b bool) {
-	if v, ok := t.m.Swap(key, value); ok && v != nil {
-		prev, b = v.(V), true
+	if v, ok := t.m.Swap(key, value); ok {
+		if v != nil {
+			prev = v.(V)
+		}
+		b = true
 	}
 	return
 }
-- 
2.43.0


From 0aa5ee93509bd1813423ba8057527843eaf9f95f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 03/50] fix: LimitMap holds at most capacity entries

---
 hashmap/limitmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashmap/limitmap.go b/hashmap/limitmap.go
index c7e4eaf..4688fde 100644
--- a/hashmap/limitmap.go
+++ b/hashmap/limitmap.go
@@ -53,7 +53,7 @@ func (mc *LimitMap[K, V]) Put(key K, value V) (prev V, b bool) {
 		mc.order.MoveToFront(elem)
 		return
 	}
-	if len(mc.cache) > mc.capacity {
+	if len(mc.cache) >= mc.capacity {
 		oldest := mc.order.Back()
 		if oldest != nil {
 			mc.order.Remove(oldest)
-- 
2.43.0


From 3d1c54a81bca18aea20ffd654c9e39b02af4fcce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 04/50] fix: Consistenthash lookups report failure instead of
 panicking once every node was deleted

---
 hashmap/consistenthash.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/hashmap/consistenthash.go b/hashmap/consistenthash.go
index d8a9c7f..6237dbb 100644
--- a/hashmap/consistenthash.go
+++ b/hashmap/consistenthash.go
@@ -67,7 +67,7 @@ func (t *Consistenthash) Add(keys ...int64) {
 func (t *Consistenthash) Get(value int64) (node int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
-	if t.keys == nil {
+	if len(t.keys) == 0 {
 		return
 	}
 	keyu64 := hash(int64ToBytes(value))
@@ -82,7 +82,7 @@ func (t *Consistenthash) Get(value int64) (node int64, ok bool) {
 func (t *Consistenthash) GetStr(value string) (node int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
-	if t.keys == nil {
+	if len(t.keys) == 0 {
 		return
 	}
 	keyu64 := hash([]byte(value))
@@ -97,7 +97,7 @@ func (t *Consistenthash) GetStr(value string) (node int64, ok bool) {
 func (t *Consistenthash) GetNextNodeStr(value string, step int) (nodes []int64, ok bool) {
 	t.mux.RLock()
 	defer t.mux.RUnlock()
-	if t.keys == nil {
+	if len(t.keys) == 0 {
 		return
 	}
 	keyu64 := hash([]byte(value))
-- 
2.43.0


From 4f8e4c24aec2d5322592ec475cacf91b619ca2bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 05/50] fix: Consistenthash.GetNextNodeStr continues at the
 start of the ring

---
 hashmap/consistenthash.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/hashmap/consistenthash.go b/hashmap/consistenthash.go
index 6237dbb..ad76ca2 100644
--- a/hashmap/consistenthash.go
+++ b/hashmap/consistenthash.go
@@ -108,8 +108,10 @@ func (t *Consistenthash) GetNextNodeStr(value string, step int) (nodes []int64,
 	n1, ok := t.m.Get(t.keys[idx])
 	m := map[int64]int8{}
 	nodes = make([]int64, 0)
-	for idx < len(t.keys)-1 {
-		idx++
+	for i := 1; i < len(t.keys); i++ {
+		if idx++; idx >= len(t.keys) {
+			idx = 0
+		}
 		if node, ok := t.m.Get(t.keys[idx]); ok && node != n1 {
 			if _, ok := m[node]; !ok {
 				m[node] = 0
-- 
2.43.0


From 5deff1872aaf5592e33117db8ace32dbb7b8404f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 06/50] fix: LinkedHashMap.Clear does not replace the index
 under lock-free readers

---
 hashmap/linkedhashmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/hashmap/linkedhashmap.go b/hashmap/linkedhashmap.go
index 88f20ae..e0913c7 100644
--- a/hashmap/linkedhashmap.go
+++ b/hashmap/linkedhashmap.go
@@ -128,7 +128,7 @@ func (t *LinkedHashMap[K, V]) Clear() {
 	t.mu.Lock()
 	defer t.mu.Unlock()
 
-	t.m = &sync.Map{}
+	t.m.Clear()
 	t.list.Init()
 	t.count = 0
 }
-- 
2.43.0


From a3be2c2130be20b920c79bd6dab8ca975dd93626 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:18 +0000
Subject: [PATCH 07/50] fix: LinkedHashMap.LoadOrStore keeps the existing value
 and returns the stored one

---
 hashmap/linkedhashmap.go | 15 +++++++--------
 1 file changed, 7 insertions(+), 8 deletions(-)

diff --git a/hashmap/linkedhashmap.go b/hashmap/linkedhashmap.go
index e0913c7..72c7554 100644
--- a/hashmap/linkedhashmap.go
+++ b/hashmap/linkedhashmap.go
@@ -57,8 +57,13 @@ func (t *LinkedHashMap[K, V]) LoadOrStore(k K, v V) (actual V, loaded bool) {
 	kv := &entrykv[K, V]{k, v}
 	t.mu.Lock()
 	defer t.mu.Unlock()
+	if preelem, ok := t.m.Load(k); ok {
+		elem := preelem.(*list.Element)
+		t.list.MoveToFront(elem)
+		return elem.Value.(*entrykv[K, V]).value, true
+	}
 	elem := t.list.PushFront(kv)
-	if preelem, ok := t.m.Swap(k, elem); !ok {
+	if _, ok := t.m.Swap(k, elem); !ok {
 		t.count++
 		if t.count > t.limit {
 			if oldest := t.list.Back(); oldest != nil {
@@ -67,14 +72,8 @@ func (t *LinkedHashMap[K, V]) LoadOrStore(k K, v V) (actual V, loaded bool) {
 			}
 			t.count--
 		}
-	} else if preelem != nil {
-		t.list.Remove(preelem.(*list.Element))
-		if v := preelem.(*list.Element).Value; v != nil {
-			actual = v.(*entrykv[K, V]).value
-			loaded = true
-		}
 	}
-	return
+	return v, false
 }
 
 func (t *LinkedHashMap[K, V]) Get(k K) (_r V, b bool) {
-- 
2.43.0


From 512288a30acf2ca6d58a180275870148218733a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:42 +0000
Subject: [PATCH 08/50] fix: LimitHashMap with fewer entries than segments
 stays within its capacity

---
 hashmap/limithashmap.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/hashmap/limithashmap.go b/hashmap/limithashmap.go
index c3aeb06..b974f51 100644
--- a/hashmap/limithashmap.go
+++ b/hashmap/limithashmap.go
@@ -58,6 +58,9 @@ func NewLimitHashMap[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint
 //
 //	*LimitHashMap[K, V] - A new instance of a capacity-limited LimitHashMap divided into segments.
 func NewLimitHashMapWithSegment[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint8 | uint16 | uint32 | float64 | float32 | uintptr | string, V any](capacity, segmentNumber int) *LimitHashMap[K, V] {
+	if capacity >= 1 && capacity < segmentNumber {
+		segmentNumber = capacity
+	}
 	segments := make([]*segment, segmentNumber)
 	for i := 0; i < segmentNumber; i++ {
 		segments[i] = &segment{
-- 
2.43.0


From b9dcbe7e310265dfde93da9c32fe3e3c8f0c587a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:42 +0000
Subject: [PATCH 09/50] fix: LimitHashMap keeps nil interface values

---
 hashmap/limithashmap.go | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/hashmap/limithashmap.go b/hashmap/limithashmap.go
index b974f51..c306ece 100644
--- a/hashmap/limithashmap.go
+++ b/hashmap/limithashmap.go
@@ -153,9 +153,8 @@ func (c *LimitHashMap[K, V]) Get(key K) (r V, b bool) {
 
 	hashedKey := c.hashFunc(key)
 	if ele, ok := segment.cache[hashedKey]; ok {
-		if v := ele.Value.(*entry).value; v != nil {
-			return v.(V), true
-		}
+		r, _ = ele.Value.(*entry).value.(V)
+		return r, true
 	}
 	return
 }
@@ -167,7 +166,8 @@ func (c *LimitHashMap[K, V]) Put(key K, value V) (prev V, b bool) {
 
 	hashedKey := c.hashFunc(key)
 	if ele, ok := segment.cache[hashedKey]; ok {
-		prev, b = ele.Value.(*entry).value.(V), true
+		prev, _ = ele.Value.(*entry).value.(V)
+		b = true
 		ele.Value.(*entry).value = value
 		return
 	}
-- 
2.43.0


From 685ba00f515ed7787569444be79f01cf56d711b9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:42 +0000
Subject: [PATCH 10/50] fix: LimitHashMap does not confuse string keys with
 equal hashes

---
 hashmap/limithashmap.go | 27 +++++++++++++++++++--------
 1 file changed, 19 insertions(+), 8 deletions(-)

diff --git a/hashmap/limithashmap.go b/hashmap/limithashmap.go
index c306ece..b0485dd 100644
--- a/hashmap/limithashmap.go
+++ b/hashmap/limithashmap.go
@@ -16,8 +16,14 @@ import (
 
 const numSegments = 1 << 6
 
+// cacheKey identifies a key within its segment. The hash is exact for every type but string.
+type cacheKey struct {
+	hashedKey uint64
+	str       string
+}
+
 type segment struct {
-	cache map[uint64]*list.Element
+	cache map[cacheKey]*list.Element
 	order *list.List
 	mu    sync.RWMutex
 }
@@ -31,7 +37,7 @@ type LimitHashMap[K int | int64 | int8 | int16 | int32 | uint | uint64 | uint8 |
 }
 
 type entry struct {
-	hashedKey uint64
+	hashedKey cacheKey
 	key       any
 	value     any
 }
@@ -64,7 +70,7 @@ func NewLimitHashMapWithSegment[K int | int64 | int8 | int16 | int32 | uint | ui
 	segments := make([]*segment, segmentNumber)
 	for i := 0; i < segmentNumber; i++ {
 		segments[i] = &segment{
-			cache: make(map[uint64]*list.Element),
+			cache: make(map[cacheKey]*list.Element),
 			order: list.New(),
 		}
 	}
@@ -146,12 +152,17 @@ func (c *LimitHashMap[K, V]) getSegment(key K) *segment {
 	return c.segments[uint(hashedKey%uint64(c.segmentNumber))]
 }
 
+func (c *LimitHashMap[K, V]) getCacheKey(key K) cacheKey {
+	str, _ := any(key).(string)
+	return cacheKey{hashedKey: c.hashFunc(key), str: str}
+}
+
 func (c *LimitHashMap[K, V]) Get(key K) (r V, b bool) {
 	segment := c.getSegment(key)
 	segment.mu.RLock()
 	defer segment.mu.RUnlock()
 
-	hashedKey := c.hashFunc(key)
+	hashedKey := c.getCacheKey(key)
 	if ele, ok := segment.cache[hashedKey]; ok {
 		r, _ = ele.Value.(*entry).value.(V)
 		return r, true
@@ -164,7 +175,7 @@ func (c *LimitHashMap[K, V]) Put(key K, value V) (prev V, b bool) {
 	segment.mu.Lock()
 	defer segment.mu.Unlock()
 
-	hashedKey := c.hashFunc(key)
+	hashedKey := c.getCacheKey(key)
 	if ele, ok := segment.cache[hashedKey]; ok {
 		prev, _ = ele.Value.(*entry).value.(V)
 		b = true
@@ -190,7 +201,7 @@ func (c *LimitHashMap[K, V]) Del(key K) {
 	segment.mu.Lock()
 	defer segment.mu.Unlock()
 
-	hashedKey := c.hashFunc(key)
+	hashedKey := c.getCacheKey(key)
 	if ele, ok := segment.cache[hashedKey]; ok {
 		segment.order.Remove(ele)
 		delete(segment.cache, hashedKey)
@@ -202,7 +213,7 @@ func (c *LimitHashMap[K, V]) Contains(key K) bool {
 	segment.mu.RLock()
 	defer segment.mu.RUnlock()
 
-	hashedKey := c.hashFunc(key)
+	hashedKey := c.getCacheKey(key)
 	_, ok := segment.cache[hashedKey]
 	return ok
 }
@@ -210,7 +221,7 @@ func (c *LimitHashMap[K, V]) Contains(key K) bool {
 func (c *LimitHashMap[K, V]) Clear() {
 	for _, segment := range c.segments {
 		segment.mu.Lock()
-		segment.cache = make(map[uint64]*list.Element)
+		segment.cache = make(map[cacheKey]*list.Element)
 		segment.order.Init()
 		segment.mu.Unlock()
 	}
-- 
2.43.0


From 5da921be2b2f86568df09c029243fc1e6c740eb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:06 +0000
Subject: [PATCH 11/50] fix: BloomFilter with a tiny expected size has at least
 one word

---
 cache/bloom.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/cache/bloom.go b/cache/bloom.go
index 4a1eb41..f3d89c9 100644
--- a/cache/bloom.go
+++ b/cache/bloom.go
@@ -37,6 +37,9 @@ func NewBloomFilter(expectedItems uint64, falsePositiveRate float64) (r *BloomFi
 	}
 	wordSize := uint64(64)
 	words := (uint64(m) + wordSize - 1) / wordSize
+	if words == 0 {
+		words = 1
+	}
 	seeds := make([]maphash.Seed, k)
 	for i := range seeds {
 		seeds[i] = maphash.MakeSeed()
-- 
2.43.0


From 59e269ba0a3d51fea43a566ef69ae4dc4b60e5fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:06 +0000
Subject: [PATCH 12/50] fix: BloomFilter does not lose concurrently added items

---
 cache/bloom.go | 11 ++++++-----
 1 file changed, 6 insertions(+), 5 deletions(-)

diff --git a/cache/bloom.go b/cache/bloom.go
index f3d89c9..de058aa 100644
--- a/cache/bloom.go
+++ b/cache/bloom.go
@@ -79,6 +79,8 @@ func (bf *BloomFilter) testBit(index uint64) bool {
 // Add adds an item (as byte slice) to the bloom filter using multiple hash functions.
 func (bf *BloomFilter) Add(item []byte) {
 	defer recoverPanic(nil)
+	bf.mux.Lock()
+	defer bf.mux.Unlock()
 	bf.numCount.Add(1)
 	for i := 0; i < bf.hashCount; i++ {
 		index := bf.hash(item, bf.seeds[i]) % (bf.arraySize * 64)
@@ -89,6 +91,8 @@ func (bf *BloomFilter) Add(item []byte) {
 // Contains if an item (as byte slice) is possibly in the bloom filter.
 func (bf *BloomFilter) Contains(item []byte) bool {
 	defer recoverPanic(nil)
+	bf.mux.Lock()
+	defer bf.mux.Unlock()
 	for i := 0; i < bf.hashCount; i++ {
 		index := bf.hash(item, bf.seeds[i]) % (bf.arraySize * 64)
 		if !bf.testBit(index) {
@@ -98,6 +102,7 @@ func (bf *BloomFilter) Contains(item []byte) bool {
 	return true
 }
 
+// getBitIndex is called with the mutex held.
 func (bf *BloomFilter) getBitIndex() (index, prevIndex int) {
 	f := bf.numCount.Load() % (bf.expectedItems*3 + 1)
 	rmIndex := 0
@@ -109,14 +114,10 @@ func (bf *BloomFilter) getBitIndex() (index, prevIndex int) {
 		index, rmIndex, prevIndex = 2, 0, 1
 	}
 	if bf.bits[index] == nil {
-		bf.mux.Lock()
-		if bf.bits[index] == nil {
-			bf.bits[index] = make([]uint64, bf.arraySize)
-		}
+		bf.bits[index] = make([]uint64, bf.arraySize)
 		if bf.bits[rmIndex] != nil {
 			bf.bits[rmIndex] = nil
 		}
-		bf.mux.Unlock()
 	}
 	return
 }
-- 
2.43.0


From 6a889634cc2dd4d3aadccc2f63e0d79720b846c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:52 +0000
Subject: [PATCH 13/50] fix: LimitLock.Cc reads its counters atomically

---
 lock/lock.go | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/lock/lock.go b/lock/lock.go
index 2200a39..c68383c 100644
--- a/lock/lock.go
+++ b/lock/lock.go
@@ -156,7 +156,8 @@ func (ll *LimitLock) Unlock() {
 
 // Cc returns the current concurrency count.
 func (ll *LimitLock) Cc() int64 {
-	return ll.count - ll._count // Difference between acquisitions and releases (always zero)
+	released := atomic.LoadInt64(&ll._count) // Loaded first, so the difference is never negative
+	return atomic.LoadInt64(&ll.count) - released
 }
 
 // LockCount returns the total number of lock acquisitions.
-- 
2.43.0


From cff2fff56fcd71bfc6f8619fbfeae31828ca6f91 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:52 +0000
Subject: [PATCH 14/50] fix: WaitWithCancel without a timeout honours its
 context

---
 lock/await.go     | 10 +++++++++-
 lock/fastawait.go | 10 +++++++++-
 2 files changed, 18 insertions(+), 2 deletions(-)

diff --git a/lock/await.go b/lock/await.go
index 652e469..ca2b794 100644
--- a/lock/await.go
+++ b/lock/await.go
@@ -109,7 +109,15 @@ func (at *Await[T]) WaitWithCancel(ctx context.Context, idx int64, timeout time.
 			return r, false, nil
 		}
 	} else {
-		r = <-ch
+		var done <-chan struct{}
+		if ctx != nil {
+			done = ctx.Done()
+		}
+		select {
+		case <-done:
+			return r, true, fmt.Errorf("cancel %d", idx)
+		case r = <-ch:
+		}
 	}
 	return
 }
diff --git a/lock/fastawait.go b/lock/fastawait.go
index 2f562f1..99ac0ac 100644
--- a/lock/fastawait.go
+++ b/lock/fastawait.go
@@ -87,7 +87,15 @@ func (fa *FastAwait[T]) WaitWithCancel(ctx context.Context, syncId int64, timeou
 			return
 		}
 	} else {
-		r = <-ch
+		var done <-chan struct{}
+		if ctx != nil {
+			done = ctx.Done()
+		}
+		select {
+		case <-done:
+			return r, true, fmt.Errorf("wait %d cancel", syncId)
+		case r = <-ch:
+		}
 	}
 	return
 }
-- 
2.43.0


From b868586b7383cb39a4e05c446c72f389925c7f60 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:04:52 +0000
Subject: [PATCH 15/50] fix: a wait that ends does not unregister a newer wait
 on the same id

---
 lock/await.go | 33 ++++++++++++++-------------------
 1 file changed, 14 insertions(+), 19 deletions(-)

diff --git a/lock/await.go b/lock/await.go
index ca2b794..060978c 100644
--- a/lock/await.go
+++ b/lock/await.go
@@ -84,26 +84,29 @@ START:
 	return
 }
 
+// release ends the wait on ch: a channel that is still registered for the index is removed and closed,
+// one that was registered for the index in the meantime is left alone.
+func (at *Await[T]) release(idx int64, ch chan T) {
+	at.mux.Lock(idx)
+	defer at.mux.Unlock(idx)
+	if c, ok := at.m.Get(idx); ok && c == ch {
+		at.m.Del(idx)
+		close(ch)
+	}
+}
+
 // WaitWithCancel wait for the channel data to return or close, and set the timeout period
 func (at *Await[T]) WaitWithCancel(ctx context.Context, idx int64, timeout time.Duration) (r T, isCancel bool, err error) {
 	defer recoverpanic(&err)
-	defer at.m.Del(idx)
 	ch := at.Get(idx)
+	defer at.release(idx, ch)
 	if timeout > 0 {
 		timer := time.NewTimer(timeout)
 		defer timer.Stop()
 		select {
 		case <-ctx.Done():
-			defer func() {
-				defer recoverpanic(nil)
-				close(ch)
-			}()
 			return r, true, fmt.Errorf("cancel %d", idx)
 		case <-timer.C:
-			defer func() {
-				defer recoverpanic(nil)
-				close(ch)
-			}()
 			return r, false, fmt.Errorf("wait %d timeout", idx)
 		case r = <-ch:
 			return r, false, nil
@@ -125,17 +128,13 @@ func (at *Await[T]) WaitWithCancel(ctx context.Context, idx int64, timeout time.
 // Wait wait for the channel data to return or close, and set the timeout period
 func (at *Await[T]) Wait(idx int64, timeout time.Duration) (r T, err error) {
 	defer recoverpanic(&err)
-	defer at.m.Del(idx)
 	ch := at.Get(idx)
+	defer at.release(idx, ch)
 	if timeout > 0 {
 		timer := time.NewTimer(timeout)
 		defer timer.Stop()
 		select {
 		case <-timer.C:
-			defer func() {
-				defer recoverpanic(nil)
-				close(ch)
-			}()
 			return r, fmt.Errorf("wait %d timeout", idx)
 		case r = <-ch:
 			return r, nil
@@ -149,8 +148,8 @@ func (at *Await[T]) Wait(idx int64, timeout time.Duration) (r T, err error) {
 // SyncWait wait for the channel data to return or close, and set the timeout period
 func (at *Await[T]) SyncWait(wg *sync.WaitGroup, idx int64, timeout time.Duration) (r T, err error) {
 	defer recoverpanic(&err)
-	defer at.m.Del(idx)
 	ch := at.Get(idx)
+	defer at.release(idx, ch)
 	if timeout > 0 {
 		if wg != nil {
 			wg.Done()
@@ -159,10 +158,6 @@ func (at *Await[T]) SyncWait(wg *sync.WaitGroup, idx int64, timeout time.Duratio
 		defer timer.Stop()
 		select {
 		case <-timer.C:
-			defer func() {
-				defer recoverpanic(nil)
-				close(ch)
-			}()
 			return r, fmt.Errorf("wait %d timeout", idx)
 		case r = <-ch:
 			return r, nil
-- 
2.43.0


From a1a45b14ee7517901f9996d7a01133e5975c83dd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:54 +0000
Subject: [PATCH 16/50] fix: GoPool runs every function once within its limit,
 across lost wakeups and Close

---
 pool/gopool/gopool.go | 94 ++++++++++++++++++++++---------------------
 1 file changed, 49 insertions(+), 45 deletions(-)

diff --git a/pool/gopool/gopool.go b/pool/gopool/gopool.go
index 8539431..01238d5 100644
--- a/pool/gopool/gopool.go
+++ b/pool/gopool/gopool.go
@@ -11,7 +11,6 @@ import (
 	"context"
 	"sync"
 	"sync/atomic"
-	"time"
 )
 
 type funcn struct {
@@ -36,29 +35,23 @@ func (fc *funcn) run() {
 			}
 		}
 	}()
-	for {
-		select {
-		case f := <-fc.task:
-			f()
-		case <-fc.pool.ctx.Done():
-			goto END
-		}
+	for f := range fc.task {
+		f()
 		if !fc.pool.put(fc) {
 			break
 		}
 	}
-END:
 }
 
 type GoPool struct {
 	pool       chan *funcn
+	slots      chan struct{}
 	minlimit   int64
 	maxlimit   int64
 	id         int64
-	count      int64
 	mux        *sync.Mutex
 	funcnPool  chan func()
-	close      bool
+	close      atomic.Bool
 	_closeflag int32
 	tnum       int64
 	ctx        context.Context
@@ -76,6 +69,7 @@ func NewPoolWithFuncLimit(minlimit int64, maxlimit int64, FuncLimit int) *GoPool
 	if maxlimit < minlimit {
 		p.maxlimit = minlimit
 	}
+	p.slots = make(chan struct{}, p.maxlimit)
 	p.funcnPool = make(chan func(), FuncLimit)
 	p.mux = &sync.Mutex{}
 	p.ctx, p.cancel = context.WithCancel(context.Background())
@@ -83,12 +77,12 @@ func NewPoolWithFuncLimit(minlimit int64, maxlimit int64, FuncLimit int) *GoPool
 }
 
 func (g *GoPool) Go(f func()) {
-	if !g.close {
-		g.funcnPool <- f
+	if !g.close.Load() {
 		atomic.AddInt64(&g.tnum, 1)
 		if g.mux.TryLock() {
 			go g.funcn()
 		}
+		g.funcnPool <- f
 	} else {
 		go f()
 	}
@@ -96,69 +90,79 @@ func (g *GoPool) Go(f func()) {
 
 // NumUnExecu the number of functions not executed
 func (g *GoPool) NumUnExecu() int {
-	return int(g.tnum)
+	return int(atomic.LoadInt64(&g.tnum))
 }
 
 // Close when Close ,the pool will enable goroutine, and the func in the pool will be started with goroutine
 func (g *GoPool) Close() {
-	defer func() { recover() }()
 	if atomic.CompareAndSwapInt32(&g._closeflag, 0, 1) {
-		g.close = true
+		g.close.Store(true)
 		g.cancel()
-		go func() {
-			<-time.After(10 * time.Second)
-			close(g.funcnPool)
-		}()
-		close(g.pool)
+		g.release()
 	}
 }
 
 func (g *GoPool) TurnOff(off bool) {
 	if atomic.CompareAndSwapInt32(&g._closeflag, 0, 0) && off {
-		g.close = true
+		g.close.Store(true)
 	} else if atomic.CompareAndSwapInt32(&g._closeflag, 0, 0) && !off {
-		g.close = false
+		g.close.Store(false)
+	}
+}
+
+// release ends the idle goroutines
+func (g *GoPool) release() {
+	for {
+		select {
+		case t := <-g.pool:
+			close(t.task)
+		default:
+			return
+		}
 	}
 }
 
 func (g *GoPool) funcn() {
-	defer func() { recover() }()
-	defer g.mux.Unlock()
 	g._funcn()
+	g.mux.Unlock()
+	// a function added after the last check found the lock still held
+	if atomic.LoadInt64(&g.tnum) > 0 && g.mux.TryLock() {
+		go g.funcn()
+	}
 }
 
 func (g *GoPool) _funcn() {
-	for f := range g.funcnPool {
-		if g.close {
+	for atomic.LoadInt64(&g.tnum) > 0 {
+		f := <-g.funcnPool
+		if g.close.Load() {
 			go f()
 		} else {
-			var t *funcn
-			if count := atomic.AddInt64(&g.count, 1); count > g.minlimit && count <= g.maxlimit {
-				t = &funcn{task: make(chan func(), 1), id: atomic.AddInt64(&g.id, 1), pool: g}
-			} else if g.id > g.minlimit {
-				t = <-g.pool
-			} else if id := atomic.AddInt64(&g.id, 1); id <= g.minlimit {
-				t = &funcn{task: make(chan func(), 1), id: id, pool: g}
-			} else {
-				t = <-g.pool
+			select {
+			case g.slots <- struct{}{}:
+				var t *funcn
+				select {
+				case t = <-g.pool:
+				default:
+					t = &funcn{task: make(chan func(), 1), id: atomic.AddInt64(&g.id, 1), pool: g}
+				}
+				t.add(f)
+			case <-g.ctx.Done():
+				go f()
 			}
-			t.add(f)
-		}
-		if atomic.AddInt64(&g.tnum, -1) <= 0 {
-			break
 		}
+		atomic.AddInt64(&g.tnum, -1)
 	}
-	if g.tnum > 0 {
-		g._funcn()
-	}
-	return
 }
 
+// put frees the slot of a goroutine and keeps it for the next function when it is one of the first minlimit
 func (g *GoPool) put(f *funcn) (ok bool) {
-	atomic.AddInt64(&g.count, -1)
 	if f.id <= g.minlimit && atomic.CompareAndSwapInt32(&g._closeflag, 0, 0) {
 		g.pool <- f
 		ok = true
 	}
+	<-g.slots
+	if ok && atomic.LoadInt32(&g._closeflag) == 1 {
+		g.release()
+	}
 	return
 }
-- 
2.43.0


From 46203516a8e0fcf2cde8a94edb169be49c5f0b0a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:12:54 +0000
Subject: [PATCH 17/50] fix: a panicking function does not end the process when
 the GoPool is off

---
 pool/gopool/gopool.go | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/pool/gopool/gopool.go b/pool/gopool/gopool.go
index 01238d5..e29e33d 100644
--- a/pool/gopool/gopool.go
+++ b/pool/gopool/gopool.go
@@ -84,7 +84,7 @@ func (g *GoPool) Go(f func()) {
 		}
 		g.funcnPool <- f
 	} else {
-		go f()
+		go g.alone(f)
 	}
 }
 
@@ -110,6 +110,12 @@ func (g *GoPool) TurnOff(off bool) {
 	}
 }
 
+// alone runs f outside the pool; as in the pool, a panic ends only f
+func (g *GoPool) alone(f func()) {
+	defer func() { recover() }()
+	f()
+}
+
 // release ends the idle goroutines
 func (g *GoPool) release() {
 	for {
@@ -135,7 +141,7 @@ func (g *GoPool) _funcn() {
 	for atomic.LoadInt64(&g.tnum) > 0 {
 		f := <-g.funcnPool
 		if g.close.Load() {
-			go f()
+			go g.alone(f)
 		} else {
 			select {
 			case g.slots <- struct{}{}:
@@ -147,7 +153,7 @@ func (g *GoPool) _funcn() {
 				}
 				t.add(f)
 			case <-g.ctx.Done():
-				go f()
+				go g.alone(f)
 			}
 		}
 		atomic.AddInt64(&g.tnum, -1)
-- 
2.43.0


From 496ceb49a3cedfa1a5f2e4ac4af31ab4b0d09ba1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:18 +0000
Subject: [PATCH 18/50] fix: BufferPool.Put reports false when there is nothing
 to put back

---
 pool/buffer/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/pool/buffer/buffer.go b/pool/buffer/buffer.go
index be8b532..d0ffc4b 100644
--- a/pool/buffer/buffer.go
+++ b/pool/buffer/buffer.go
@@ -41,7 +41,7 @@ func (this *BufferPool) Put(buf *bytes.Buffer) (ok bool) {
 		this.pool[pre].Put(buf)
 		ok = true
 	}
-	return true
+	return
 }
 
 func (this *BufferPool) getRouter(len int) (pre int) {
-- 
2.43.0


From 13524204ed6641e5e5d5cf1c80602d1b69798657 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:18 +0000
Subject: [PATCH 19/50] fix: Buffer.Read consumes what it returned and reports
 end of file

---
 buffer/buffer.go | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/buffer/buffer.go b/buffer/buffer.go
index 8e35e2c..539e906 100644
--- a/buffer/buffer.go
+++ b/buffer/buffer.go
@@ -103,9 +103,11 @@ func (b *Buffer) Read(p []byte) (n int, err error) {
 		}
 		return 0, io.EOF
 	}
-	if n = copy(p, *b); n < b.Len() {
-		*b = (*b)[n:]
+	if b.Len() == 0 && len(p) > 0 {
+		return 0, io.EOF
 	}
+	n = copy(p, *b)
+	*b = (*b)[n:]
 	return n, nil
 }
 
-- 
2.43.0


From 9a21d58e78fe74d1f5162fb28f6948618c3edb54 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:15:18 +0000
Subject: [PATCH 20/50] fix: Buffer.WriteInt32 reports the four bytes it
 appended

---
 buffer/buffer.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/buffer/buffer.go b/buffer/buffer.go
index 539e906..cbf5479 100644
--- a/buffer/buffer.go
+++ b/buffer/buffer.go
@@ -64,7 +64,7 @@ func (b *Buffer) WriteString(s string) (int, error) {
 func (b *Buffer) WriteInt32(i int) (int, error) {
 	if b != nil {
 		*b = append(*b, int32ToBytes(int32(i))...)
-		return 8, nil
+		return 4, nil
 	} else {
 		return 0, fmt.Errorf("WriteInt32: buffer is nil")
 	}
-- 
2.43.0


From 532ed9bdf11a22b0a286215d6d45eabb60efd4f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:21:12 +0000
Subject: [PATCH 21/50] fix: fastio acknowledges a write only once it is in the
 file and reports failures of a group commit

---
 fastio/fw.go | 110 +++++++++++++++++++++------------------------------
 1 file changed, 46 insertions(+), 64 deletions(-)

diff --git a/fastio/fw.go b/fastio/fw.go
index 4028d18..fdf1f6c 100644
--- a/fastio/fw.go
+++ b/fastio/fw.go
@@ -8,10 +8,9 @@
 package fastio
 
 import (
-	"bufio"
+	"bytes"
 	"sync"
 	"sync/atomic"
-	"time"
 )
 
 type writer interface {
@@ -22,20 +21,20 @@ type writer interface {
 type writeData struct {
 	data   []byte
 	offset int64
+	err    error
 	done   chan struct{}
 }
 
 type mwriter struct {
-	ch    chan *writeData
-	mu    sync.RWMutex
-	wc    int32
-	cc    int32
-	fh    *fileHandle
-	ioend bool
+	ch chan *writeData
+	mu sync.Mutex
+	wc int32
+	cc int32
+	fh *fileHandle
 }
 
 func newWriter(fh *fileHandle) writer {
-	return &mwriter{fh: fh, ch: make(chan *writeData, 1<<16), ioend: true}
+	return &mwriter{fh: fh, ch: make(chan *writeData, 1<<16)}
 }
 
 func (m *mwriter) WriteSync(bs []byte) (offset int64, err error) {
@@ -43,85 +42,68 @@ func (m *mwriter) WriteSync(bs []byte) (offset int64, err error) {
 	if atomic.AddInt32(&m.cc, 1) <= 1 {
 		m.mu.Lock()
 		defer m.mu.Unlock()
-		if m.wc > 0 {
-			m.ioWrite()
-		}
+		m.ioWrite()
 		n := 0
-		n, err = m.fh.file.Write(bs)
 		offset = m.fh.offset
+		n, err = m.fh.file.Write(bs)
 		atomic.AddInt64(&m.fh.offset, int64(n))
 		return
 	}
-	atomic.AddInt32(&m.wc, 1)
-	wd := &writeData{data: bs, done: make(chan struct{})}
-	m.ch <- wd
-START:
-	if m.ioend && m.mu.TryLock() {
-		if err = m.ioWrite(); err != nil {
-			return
-		}
-		m.mu.Unlock()
-	} else {
-		select {
-		case <-wd.done:
-			goto END
-		case <-time.After(time.Microsecond):
-			goto START
-		}
-	}
-END:
-	offset = wd.offset
-	return
+	return m.queue(bs)
 }
 
 func (m *mwriter) Write(bs []byte) (n int, err error) {
 	defer atomic.AddInt32(&m.cc, -1)
 	if atomic.AddInt32(&m.cc, 1) <= 1 {
-		m.mu.RLock()
-		defer m.mu.RUnlock()
-		if m.wc > 0 {
-			m.ioWrite()
-		}
+		m.mu.Lock()
+		defer m.mu.Unlock()
+		m.ioWrite()
 		if n, err = m.fh.file.Write(bs); n > 0 {
 			atomic.AddInt64(&m.fh.offset, int64(n))
 		}
 		return n, err
 	}
-	atomic.AddInt32(&m.wc, 1)
-	m.ch <- &writeData{data: bs}
-START:
-	if m.ioend && m.mu.TryLock() {
-		if err = m.ioWrite(); err != nil {
-			return
-		}
-		m.mu.Unlock()
-	} else if m.ioend {
-		goto START
+	if _, err = m.queue(bs); err != nil {
+		return 0, err
 	}
 	return len(bs), nil
 }
 
-func (m *mwriter) ioWrite() (err error) {
-	if m.wc == 0 {
+// queue hands bs to the next group commit and returns once it was written
+func (m *mwriter) queue(bs []byte) (offset int64, err error) {
+	wd := &writeData{data: bs, done: make(chan struct{})}
+	atomic.AddInt32(&m.wc, 1)
+	m.ch <- wd
+	m.mu.Lock()
+	m.ioWrite()
+	m.mu.Unlock()
+	<-wd.done
+	return wd.offset, wd.err
+}
+
+// ioWrite writes everything queued; the caller holds the lock
+func (m *mwriter) ioWrite() {
+	if atomic.LoadInt32(&m.wc) == 0 {
 		return
 	}
-	m.ioend = false
-	defer recoverable(&err)
-	bw := bufio.NewWriter(m.fh.file)
+	var wds []*writeData
+	var buf bytes.Buffer
 	for wd := range m.ch {
-		if wd.done != nil {
-			defer func() { close(wd.done) }()
-		}
-		wd.offset = m.fh.offset
-		if _, err = bw.Write(wd.data); err != nil {
-			return
-		}
-		atomic.AddInt64(&m.fh.offset, int64(len(wd.data)))
+		wds = append(wds, wd)
+		buf.Write(wd.data)
 		if atomic.AddInt32(&m.wc, -1) == 0 {
 			break
 		}
 	}
-	m.ioend = true
-	err = bw.Flush()
-	return
+	start := m.fh.offset
+	n, err := m.fh.file.Write(buf.Bytes())
+	atomic.AddInt64(&m.fh.offset, int64(n))
+	end := 0
+	for _, wd := range wds {
+		wd.offset = start + int64(end)
+		if end += len(wd.data); end > n || n == 0 {
+			wd.err = err
+		}
+		close(wd.done)
+	}
 }
-- 
2.43.0


From 9f94c2c626c4df6fc2e626bac1a88a18100eb5f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:06 +0000
Subject: [PATCH 22/50] fix: NewMMAP refuses a negative start offset and maps
 nothing when it fails

---
 mmap/mmap.go | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/mmap/mmap.go b/mmap/mmap.go
index a999493..fd012fc 100644
--- a/mmap/mmap.go
+++ b/mmap/mmap.go
@@ -23,14 +23,14 @@ func NewMMAP(f *os.File, startOffset int64) (m *Mmap, err error) {
 	if fif.Size() == 0 {
 		return nil, errors.New("the file capacity is zero")
 	}
+	if startOffset < 0 || startOffset >= fif.Size() {
+		return nil, errors.New("offset Exceeds the file limit")
+	}
 
 	_mmap, err := gommap.Map(f, gommap.RDWR, 0)
 	if err != nil {
 		return nil, err
 	}
-	if startOffset >= fif.Size() {
-		return nil, errors.New("offset Exceeds the file limit")
-	}
 	m = &Mmap{file: f, _mmap: _mmap, maxsize: fif.Size(), mux: &sync.Mutex{}, offset: startOffset}
 	return
 }
-- 
2.43.0


From b56b9fd1aa3a136511fa8ab3e31b95a8381a57f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:06 +0000
Subject: [PATCH 23/50] fix: Mmap.WriteAt refuses negative and overflowing
 offsets

---
 mmap/mmap.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/mmap/mmap.go b/mmap/mmap.go
index fd012fc..ff2e53e 100644
--- a/mmap/mmap.go
+++ b/mmap/mmap.go
@@ -66,7 +66,7 @@ func (t *Mmap) AppendSync(bs []byte) (n int64, err error) {
 
 func (t *Mmap) WriteAt(bs []byte, offset int) (err error) {
 	t.mux.Lock()
-	if offset+len(bs) > int(t.maxsize) {
+	if offset < 0 || offset > int(t.maxsize)-len(bs) {
 		err = errors.New("exceeding file size limit")
 		t.mux.Unlock()
 		return
-- 
2.43.0


From 31cc48a4757b35ae59dab8f43c775498a96f3e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:07 +0000
Subject: [PATCH 24/50] fix: an empty synchronous mapped write at the end of
 the file does not panic

---
 mmap/sync_unix.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/mmap/sync_unix.go b/mmap/sync_unix.go
index e5f1826..b832038 100644
--- a/mmap/sync_unix.go
+++ b/mmap/sync_unix.go
@@ -19,6 +19,9 @@ import (
 )
 
 func mmapSyncToDisk(file *os.File, mappedMemory []byte, n int64, length int) (err error) {
+	if length == 0 {
+		return nil
+	}
 	pageSize := int64(unix.Getpagesize())
 	var ptr unsafe.Pointer
 	var leng uintptr
-- 
2.43.0


From 432a592622ed38c411710422f0a55ef3efd4097f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:09 +0000
Subject: [PATCH 25/50] fix: util.Zlib returns a complete stream

---
 util/compress.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/compress.go b/util/compress.go
index a1233fb..4848ec1 100644
--- a/util/compress.go
+++ b/util/compress.go
@@ -19,10 +19,12 @@ func Zlib(bs []byte) (_r []byte, err error) {
 	var buf bytes.Buffer
 	var compressor *zlib.Writer
 	if compressor, err = zlib.NewWriterLevel(&buf, zlib.DefaultCompression); err == nil {
-		defer compressor.Close()
 		if _, err = compressor.Write(bs); err != nil {
 			return nil, err
 		}
+		if err = compressor.Close(); err != nil {
+			return nil, err
+		}
 		_r = buf.Bytes()
 	} else {
 		_r = bs
-- 
2.43.0


From 3ae4515b95d7f71b3c3239be1b67d50f6bad6a07 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:09 +0000
Subject: [PATCH 26/50] fix: util.UnZlib reports damaged data

---
 util/compress.go | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/util/compress.go b/util/compress.go
index 4848ec1..00e8e69 100644
--- a/util/compress.go
+++ b/util/compress.go
@@ -37,7 +37,9 @@ func UnZlib(bs []byte) (_r []byte, err error) {
 	var read io.ReadCloser
 	if read, err = zlib.NewReader(bytes.NewReader(bs)); err == nil {
 		defer read.Close()
-		io.Copy(&obuf, read)
+		if _, err = io.Copy(&obuf, read); err != nil {
+			return nil, err
+		}
 		_r = obuf.Bytes()
 	}
 	return
-- 
2.43.0


From c8bfa3170a6d45629a9c9fbdfdc9dc2cbddb5c36 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:09 +0000
Subject: [PATCH 27/50] fix: util.UnGzip reports damaged data

---
 util/compress.go | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/util/compress.go b/util/compress.go
index 00e8e69..081d3ba 100644
--- a/util/compress.go
+++ b/util/compress.go
@@ -55,14 +55,8 @@ func Gzip(bs []byte) (buf bytes.Buffer, err error) {
 func UnGzip(bs []byte) (_bb bytes.Buffer, err error) {
 	if gz, er := gzip.NewReader(bytes.NewBuffer(bs)); er == nil {
 		defer gz.Close()
-		var bs = make([]byte, 1024)
-		for {
-			var n int
-			n, err := gz.Read(bs)
-			if (err != nil && err != io.EOF) || n == 0 {
-				break
-			}
-			_bb.Write(bs[:n])
+		if _, err = io.Copy(&_bb, gz); err != nil {
+			_bb.Reset()
 		}
 	} else {
 		err = er
-- 
2.43.0


From f5b3167040786bfcc208d5071d82467290544536 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:09 +0000
Subject: [PATCH 28/50] fix: ZlibLevel returns a complete stream

---
 compress/compress.go | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/compress/compress.go b/compress/compress.go
index e834463..eeed2c8 100644
--- a/compress/compress.go
+++ b/compress/compress.go
@@ -32,9 +32,12 @@ func ZlibLevel(bs []byte, level int) (_r []byte, err error) {
 	var buf bytes.Buffer
 	var compressor *zlib.Writer
 	if compressor, err = zlib.NewWriterLevel(&buf, level); err == nil {
-		defer compressor.Close()
-		compressor.Write(bs)
-		compressor.Flush()
+		if _, err = compressor.Write(bs); err != nil {
+			return nil, err
+		}
+		if err = compressor.Close(); err != nil {
+			return nil, err
+		}
 		_r = buf.Bytes()
 	} else {
 		_r = bs
-- 
2.43.0


From ce36cdd1d9e4069e942fb7b0c01a7d7725d647d4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:09 +0000
Subject: [PATCH 29/50] fix: AES encryption does not write into the memory
 behind its input

---
 keystore/aes.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/keystore/aes.go b/keystore/aes.go
index 4d7d32e..8c110d8 100644
--- a/keystore/aes.go
+++ b/keystore/aes.go
@@ -31,7 +31,7 @@ func (this *Aes) EncrypterCbc(src []byte) (_r []byte, err error) {
 	if c, e := aes.NewCipher(this.commonKey256[:]); e == nil {
 		blockSize := c.BlockSize()
 		bs := bytes.Repeat([]byte{byte(blockSize - len(src)%blockSize)}, blockSize-len(src)%blockSize)
-		_r = append(src, bs...)
+		_r = append(append(make([]byte, 0, len(src)+len(bs)), src...), bs...)
 		encrypter := cipher.NewCBCEncrypter(c, this.commonIV[:])
 		encrypter.CryptBlocks(_r, _r)
 	} else {
-- 
2.43.0


From 6665d3ca510769e181af80b7fb31e43708e95f19 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:09 +0000
Subject: [PATCH 30/50] fix: AES decryption rejects malformed ciphertext

---
 keystore/aes.go | 10 +++++++++-
 1 file changed, 9 insertions(+), 1 deletion(-)

diff --git a/keystore/aes.go b/keystore/aes.go
index 8c110d8..7cbc085 100644
--- a/keystore/aes.go
+++ b/keystore/aes.go
@@ -11,6 +11,7 @@ import (
 	"crypto/cipher"
 	"crypto/md5"
 	"crypto/sha256"
+	"errors"
 )
 
 type Aes struct {
@@ -42,10 +43,17 @@ func (this *Aes) EncrypterCbc(src []byte) (_r []byte, err error) {
 
 func (this *Aes) DecrypterCbc(bs []byte) (_r []byte, err error) {
 	if c, e := aes.NewCipher(this.commonKey256[:]); e == nil {
+		if len(bs) == 0 || len(bs)%c.BlockSize() != 0 {
+			return nil, errors.New("the ciphertext is not a multiple of the block size")
+		}
 		decrypter := cipher.NewCBCDecrypter(c, this.commonIV[:])
 		_r = make([]byte, len(bs))
 		decrypter.CryptBlocks(_r, bs)
-		_r = _r[:len(_r)-(int(_r[len(_r)-1]))]
+		n := int(_r[len(_r)-1])
+		if n == 0 || n > c.BlockSize() || !bytes.HasSuffix(_r, bytes.Repeat([]byte{byte(n)}, n)) {
+			return nil, errors.New("invalid padding")
+		}
+		_r = _r[:len(_r)-n]
 	} else {
 		err = e
 	}
-- 
2.43.0


From d7f628138787947a07557b767513ab280ff40270 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:09 +0000
Subject: [PATCH 31/50] fix: RSA helpers report unusable keys instead of
 returning nothing

---
 keystore/key.go | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/keystore/key.go b/keystore/key.go
index 3b93680..7fad5f6 100644
--- a/keystore/key.go
+++ b/keystore/key.go
@@ -13,6 +13,7 @@ import (
 	"crypto/x509"
 	"encoding/pem"
 	"errors"
+	"fmt"
 	"os"
 
 	"github.com/donnie4w/gofer/util"
@@ -91,7 +92,7 @@ fugwl2R114U+R6on5tyKY3vTCamRYpo+cpaeajsPGUeHSm9e4tKV
 -----END RSA PRIVATE KEY-----`
 
 func RsaEncrypt(msg []byte, publickeypath string) (cipherText []byte, err error) {
-	defer _recovr()
+	defer _recovr(&err)
 	var buf []byte
 	if publickeypath != "" {
 		if util.IsFileExist(publickeypath) {
@@ -109,17 +110,19 @@ func RsaEncrypt(msg []byte, publickeypath string) (cipherText []byte, err error)
 }
 
 func RsaEncryptByBytes(msg []byte, publickeyBs []byte) (cipherText []byte, err error) {
-	defer _recovr()
+	defer _recovr(&err)
 	pubDecodeBlock, _ := pem.Decode(publickeyBs)
 	if parsePublicKey, e := x509.ParsePKIXPublicKey(pubDecodeBlock.Bytes); e == nil {
 		publicKey := parsePublicKey.(*rsa.PublicKey)
 		cipherText, err = rsa.EncryptPKCS1v15(rand.Reader, publicKey, msg)
+	} else {
+		err = e
 	}
 	return
 }
 
 func RsaDecrypt(cipherText []byte, privatekeypath string) (msg []byte, err error) {
-	defer _recovr()
+	defer _recovr(&err)
 	var buf []byte
 	if privatekeypath != "" {
 		if util.IsFileExist(privatekeypath) {
@@ -137,15 +140,18 @@ func RsaDecrypt(cipherText []byte, privatekeypath string) (msg []byte, err error
 }
 
 func RsaDecryptByBytes(cipherText []byte, privateBs []byte) (msg []byte, err error) {
-	defer _recovr()
+	defer _recovr(&err)
 	priDecodeBlock, _ := pem.Decode(privateBs)
 	if privateKey, e := x509.ParsePKCS1PrivateKey(priDecodeBlock.Bytes); e == nil {
 		msg, err = rsa.DecryptPKCS1v15(rand.Reader, privateKey, cipherText)
+	} else {
+		err = e
 	}
 	return
 }
 
-func _recovr() {
-	if err := recover(); err != nil {
+func _recovr(err *error) {
+	if e := recover(); e != nil {
+		*err = fmt.Errorf("%v", e)
 	}
 }
-- 
2.43.0


From 8701d9262e758fccea3b4b4424c10ce17ff78faa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:09 +0000
Subject: [PATCH 32/50] fix: UUID.Equals compares the bytes

---
 uuid/uuid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uuid/uuid.go b/uuid/uuid.go
index 1614be8..9bf48b6 100644
--- a/uuid/uuid.go
+++ b/uuid/uuid.go
@@ -78,7 +78,7 @@ func (u *UUID) Equals(other *UUID) bool {
 	if other == nil {
 		return false
 	}
-	return u == other
+	return *u == *other
 }
 
 func (u *UUID) Variant() byte {
-- 
2.43.0


From 4bc0ddb8e60879589b7bedd54b859fdf319f5fc7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:09 +0000
Subject: [PATCH 33/50] fix: UUID.Variant reports the whole RFC 4122 and
 Microsoft ranges

---
 uuid/uuid.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/uuid/uuid.go b/uuid/uuid.go
index 9bf48b6..498032b 100644
--- a/uuid/uuid.go
+++ b/uuid/uuid.go
@@ -83,7 +83,7 @@ func (u *UUID) Equals(other *UUID) bool {
 
 func (u *UUID) Variant() byte {
 	switch u[8] & 0xe0 {
-	case 0x80:
+	case 0x80, 0xa0:
 		return 1 // RFC 4122
 	case 0xc0:
 		return 2 // Microsoft
-- 
2.43.0


From ea05b4ead6add950de30f8ec9c9cd17ef2a6c9a7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:09 +0000
Subject: [PATCH 34/50] fix: uuid.Parse rejects text without the dashes of the
 canonical form

---
 uuid/uuid.go | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/uuid/uuid.go b/uuid/uuid.go
index 498032b..aa3716b 100644
--- a/uuid/uuid.go
+++ b/uuid/uuid.go
@@ -96,6 +96,9 @@ func Parse(uuidStr string) (*UUID, error) {
 	if len(uuidStr) != 36 {
 		return nil, errors.New("invalid UUID string length")
 	}
+	if uuidStr[8] != '-' || uuidStr[13] != '-' || uuidStr[18] != '-' || uuidStr[23] != '-' {
+		return nil, errors.New("invalid UUID string format")
+	}
 	var uuid UUID
 	strippedUUID := []byte(uuidStr[:8] + uuidStr[9:13] + uuidStr[14:18] + uuidStr[19:23] + uuidStr[24:])
 	if _, err := hex.Decode(uuid[:], strippedUUID); err != nil {
-- 
2.43.0


From 4fe5302f58160f51be5fa6b5f0b42f556718241c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:09 +0000
Subject: [PATCH 35/50] fix: base58 decoding rejects values above 64 bits

---
 base58/base58.go | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/base58/base58.go b/base58/base58.go
index 77639ca..e19dc02 100644
--- a/base58/base58.go
+++ b/base58/base58.go
@@ -8,7 +8,10 @@
 
 package base58
 
-import "bytes"
+import (
+	"bytes"
+	"math"
+)
 
 var b58Alphabet = []byte("123456789ABCDEFGHJKLMNPQRSTUVWXYZabcdefghijkmnopqrstuvwxyz")
 
@@ -34,6 +37,9 @@ func DecodeForInt64(bs []byte) (_r uint64, ok bool) {
 	defer func() { recover() }()
 	for _, b := range bs {
 		if idx := bytes.IndexByte(b58Alphabet, b); idx >= 0 {
+			if _r > (math.MaxUint64-uint64(idx))/58 {
+				return 0, false
+			}
 			_r *= 58
 			_r += uint64(idx)
 		} else {
-- 
2.43.0


From 0e8185c9ac0c912a3d1078bfa67450307b7fe1ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:50 +0000
Subject: [PATCH 36/50] fix: loading a store without some of its maps leaves it
 usable

---
 keystore/keystore.go | 12 ++++++++++++
 1 file changed, 12 insertions(+)

diff --git a/keystore/keystore.go b/keystore/keystore.go
index c2a80d6..99f79c6 100644
--- a/keystore/keystore.go
+++ b/keystore/keystore.go
@@ -33,6 +33,18 @@ func (this *storeAdmin) Load() {
 	if err != nil {
 		this.kb = &KeyBean{make(map[string]*UserBean, 0), make(map[string]*UserBean, 0), make(map[string]*UserBean, 0), make(map[string]string, 0)}
 	}
+	if this.kb.Admin == nil {
+		this.kb.Admin = make(map[string]*UserBean, 0)
+	}
+	if this.kb.Client == nil {
+		this.kb.Client = make(map[string]*UserBean, 0)
+	}
+	if this.kb.Mq == nil {
+		this.kb.Mq = make(map[string]*UserBean, 0)
+	}
+	if this.kb.Other == nil {
+		this.kb.Other = make(map[string]string, 0)
+	}
 }
 
 func (this *storeAdmin) PutAdmin(name, pwd string, _type int8) {
-- 
2.43.0


From c4c0f39af73f66a1fdd66fc023224200fc97f114 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:38:50 +0000
Subject: [PATCH 37/50] fix: an interrupted or failed key store write keeps the
 previous content

---
 keystore/bin.go | 36 +++++++++++++++++++++++++++++++-----
 1 file changed, 31 insertions(+), 5 deletions(-)

diff --git a/keystore/bin.go b/keystore/bin.go
index 9bbc77b..d4de8ab 100644
--- a/keystore/bin.go
+++ b/keystore/bin.go
@@ -10,8 +10,8 @@ package keystore
 import (
 	"errors"
 	"fmt"
-	"io"
 	"os"
+	"path/filepath"
 	"sync"
 
 	"github.com/donnie4w/gofer/util"
@@ -44,20 +44,46 @@ func LoadKeyStore(dir string, name string) (ks *_keyStore, err error) {
 func (this *_keyStore) Write(bs []byte) (err error) {
 	this.mux.Lock()
 	defer this.mux.Unlock()
-	this._fileHandler.Seek(0, io.SeekStart)
-	this._fileHandler.Truncate(0)
 	var obs []byte
 	if obs, err = util.Zlib(bs); err != nil {
 		obs = bs
 	}
-	_, err = this._fileHandler.Write(obs)
+	// the content is replaced by renaming a complete new file
+	fi, err := this._fileHandler.Stat()
+	if err != nil {
+		return
+	}
+	f, err := os.CreateTemp(filepath.Dir(this.fname), filepath.Base(this.fname)+".*.tmp")
+	if err != nil {
+		return
+	}
+	defer func() {
+		if err != nil {
+			f.Close()
+			os.Remove(f.Name())
+		}
+	}()
+	if err = f.Chmod(fi.Mode()); err != nil {
+		return
+	}
+	if _, err = f.Write(obs); err != nil {
+		return
+	}
+	if err = os.Rename(f.Name(), this.fname); err != nil {
+		return
+	}
+	this._fileHandler.Close()
+	this._fileHandler = f
 	return
 }
 
 func (this *_keyStore) Read() (bs []byte, err error) {
 	this.mux.Lock()
 	defer this.mux.Unlock()
-	fi, err := this._fileHandler.Stat()
+	fi, err := os.Stat(this.fname)
+	if err != nil {
+		return
+	}
 	if fi.Size() > 0 {
 		if bs, err = util.ReadFile(this.fname); err == nil && bs != nil {
 			if obs, er := util.UnZlib(bs); er == nil {
-- 
2.43.0


From a88b28e6efe7ea67b3d4c58dadc2020f690e390b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:45 +0000
Subject: [PATCH 38/50] fix: websocket Handler guards its error and never
 reports a nil one to OnError

---
 websocket/wshandle.go | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/websocket/wshandle.go b/websocket/wshandle.go
index 493d6d3..7b62b8b 100644
--- a/websocket/wshandle.go
+++ b/websocket/wshandle.go
@@ -39,6 +39,8 @@ type Handler struct {
 	conn *wss.Conn
 	mux  *sync.Mutex
 	err  error
+
+	errmux sync.RWMutex // guards err
 }
 
 func NewHandler(cfg *Config) (wh *Handler, err error) {
@@ -78,7 +80,7 @@ func NewHandler(cfg *Config) (wh *Handler, err error) {
 		}
 	}
 	if err == nil && conn != nil {
-		wh = &Handler{cfg, conn, &sync.Mutex{}, nil}
+		wh = &Handler{Cfg: cfg, conn: conn, mux: &sync.Mutex{}}
 		if cfg.OnOpen != nil {
 			cfg.OnOpen(wh)
 		}
@@ -94,14 +96,14 @@ func (wh *Handler) sendws(bs []byte) (err error) {
 }
 
 func (wh *Handler) Send(bs []byte) error {
-	if wh.err != nil {
-		return wh.err
+	if err := wh.Error(); err != nil {
+		return err
 	}
 	return wh.sendws(bs)
 }
 
 func (wh *Handler) Close() (err error) {
-	wh.err = errors.New("connection is closed")
+	wh.setError(errors.New("connection is closed"))
 	if wh.conn != nil {
 		err = wh.conn.Close()
 	}
@@ -109,21 +111,32 @@ func (wh *Handler) Close() (err error) {
 }
 
 func (wh *Handler) Error() error {
+	wh.errmux.RLock()
+	defer wh.errmux.RUnlock()
 	return wh.err
 }
 
+func (wh *Handler) setError(err error) {
+	wh.errmux.Lock()
+	defer wh.errmux.Unlock()
+	wh.err = err
+}
+
 func (wh *Handler) read() {
 	var err error
-	for wh.err == nil {
+	for wh.Error() == nil {
 		var byt []byte
 		if err = wss.Message.Receive(wh.conn, &byt); err != nil {
-			wh.err = err
+			wh.setError(err)
 			break
 		}
 		if byt != nil && wh.Cfg.OnMessage != nil {
 			go wh.Cfg.OnMessage(wh, byt)
 		}
 	}
+	if err == nil { // closed between two messages
+		err = wh.Error()
+	}
 	if wh.Cfg.OnError != nil {
 		go wh.Cfg.OnError(wh, err)
 	}
-- 
2.43.0


From 113a4472da10bafcf077ae021673a99f6181bede Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:45 +0000
Subject: [PATCH 39/50] fix: websocket Close does not wait forever for a peer
 that does not read

---
 websocket/wshandle.go | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/websocket/wshandle.go b/websocket/wshandle.go
index 7b62b8b..5f43901 100644
--- a/websocket/wshandle.go
+++ b/websocket/wshandle.go
@@ -102,9 +102,13 @@ func (wh *Handler) Send(bs []byte) error {
 	return wh.sendws(bs)
 }
 
+// closeTimeout bounds how long Close waits for a peer that does not read.
+const closeTimeout = 3 * time.Second
+
 func (wh *Handler) Close() (err error) {
 	wh.setError(errors.New("connection is closed"))
 	if wh.conn != nil {
+		wh.conn.SetWriteDeadline(time.Now().Add(closeTimeout))
 		err = wh.conn.Close()
 	}
 	return
-- 
2.43.0


From 52f91221c582aa504f536c1b909cf9f82dd26fa6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:00:45 +0000
Subject: [PATCH 40/50] fix: websocket TimeOut covers the handshake as well as
 the connection

---
 websocket/wshandle.go | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/websocket/wshandle.go b/websocket/wshandle.go
index 5f43901..5404e76 100644
--- a/websocket/wshandle.go
+++ b/websocket/wshandle.go
@@ -8,6 +8,7 @@
 package websocket
 
 import (
+	"context"
 	"crypto/tls"
 	"crypto/x509"
 	"errors"
@@ -76,7 +77,13 @@ func NewHandler(cfg *Config) (wh *Handler, err error) {
 	}
 	if config.Location, err = url.ParseRequestURI(cfg.Url); err == nil {
 		if config.Origin, err = url.ParseRequestURI(cfg.Origin); err == nil {
-			conn, err = wss.DialConfig(config)
+			ctx := context.Background()
+			if cfg.TimeOut > 0 { // covers the handshake too
+				var cancel context.CancelFunc
+				ctx, cancel = context.WithTimeout(ctx, cfg.TimeOut)
+				defer cancel()
+			}
+			conn, err = config.DialContext(ctx)
 		}
 	}
 	if err == nil && conn != nil {
-- 
2.43.0


From a2b2f266c9d9ef69fc4ecfff10080a6274fde860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:33:45 +0000
Subject: [PATCH 41/50] fix: image scaling keeps thin images within the box and
 the pixel cap

---
 image/adjust.go | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/image/adjust.go b/image/adjust.go
index 11b8b2d..5aaefe2 100644
--- a/image/adjust.go
+++ b/image/adjust.go
@@ -101,15 +101,15 @@ func scaleImageWithRatio(img image.Image, newWidth, newHeight int, maxPixel int,
 	aspectRatio := float64(originalWidth) / float64(originalHeight)
 	if lowerMode {
 		if aspectRatio > float64(newWidth)/float64(newHeight) {
-			newHeight = int(float64(newWidth) / aspectRatio)
+			newHeight = keepRatio(newWidth, originalHeight, originalWidth)
 		} else {
-			newWidth = int(float64(newHeight) * aspectRatio)
+			newWidth = keepRatio(newHeight, originalWidth, originalHeight)
 		}
 	} else {
 		if aspectRatio > float64(newWidth)/float64(newHeight) {
-			newWidth = int(float64(newHeight) * aspectRatio)
+			newWidth = keepRatio(newHeight, originalWidth, originalHeight)
 		} else {
-			newHeight = int(float64(newWidth) / aspectRatio)
+			newHeight = keepRatio(newWidth, originalHeight, originalWidth)
 		}
 	}
 
@@ -121,6 +121,15 @@ func scaleImageWithRatio(img image.Image, newWidth, newHeight int, maxPixel int,
 	return resizedImg, nil
 }
 
+// keepRatio returns side*a/b, at least one pixel for a positive side. Multiplying first keeps whole results whole.
+func keepRatio(side, a, b int) int {
+	r := int(float64(side) * float64(a) / float64(b))
+	if r == 0 && side > 0 {
+		r = 1
+	}
+	return r
+}
+
 func scaleDownToLimit(a, b, limit int) (int, int) {
 	if a <= 0 || b <= 0 || limit <= 0 {
 		return 0, 0
@@ -130,5 +139,13 @@ func scaleDownToLimit(a, b, limit int) (int, int) {
 	}
 	fs := float64(limit) / float64(a*b)
 	sqrt := math.Sqrt(fs)
-	return int(float64(a) * sqrt), int(float64(b) * sqrt)
+	w, h := int(float64(a)*sqrt), int(float64(b)*sqrt)
+	// a thin image keeps one pixel across, and gives up length for it
+	if w == 0 {
+		w, h = 1, min(max(h, 1), limit)
+	}
+	if h == 0 {
+		w, h = min(w, limit), 1
+	}
+	return w, h
 }
-- 
2.43.0


From 2de0bebb6703b76a2caebb0c4e620953e1abec99 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:34:25 +0000
Subject: [PATCH 42/50] fix: resize mode 0 fits both limits

---
 image/image.go | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/image/image.go b/image/image.go
index 1e4f448..73048c2 100644
--- a/image/image.go
+++ b/image/image.go
@@ -522,7 +522,7 @@ func getMinAndkeepRatio(w, h, newwidth, newheight int) (int, int) {
 	}
 	r := float64(w) / float64(h)
 	if newwidth < w && newheight < h {
-		if newwidth > newheight {
+		if float64(newwidth)/float64(w) > float64(newheight)/float64(h) {
 			newwidth = int(float64(newheight) * r)
 		} else {
 			newheight = int(float64(newwidth) / r)
-- 
2.43.0


From 58ab0610cced67bb65095804978baa47673617df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:05 +0000
Subject: [PATCH 43/50] fix: ResizeGIF keeps thin GIFs at least a pixel wide
 and reports encoding errors

---
 image/image.go | 8 +++++---
 1 file changed, 5 insertions(+), 3 deletions(-)

diff --git a/image/image.go b/image/image.go
index 73048c2..01e742a 100644
--- a/image/image.go
+++ b/image/image.go
@@ -125,7 +125,9 @@ func ResizeGIF(srcData []byte, targetWidth, targetHeight int) ([]byte, error) {
 	}
 
 	var buf bytes.Buffer
-	gif.EncodeAll(&buf, resizedGif)
+	if err = gif.EncodeAll(&buf, resizedGif); err != nil {
+		return srcData, err
+	}
 
 	return buf.Bytes(), nil
 }
@@ -158,8 +160,8 @@ func resizeGIF(g *gif.GIF, targetWidth, targetHeight int) (*gif.GIF, error) {
 		}
 	}
 
-	newW := int(float64(canvasW) * scale)
-	newH := int(float64(canvasH) * scale)
+	newW := max(int(float64(canvasW)*scale), 1)
+	newH := max(int(float64(canvasH)*scale), 1)
 
 	newGIF := &gif.GIF{
 		Delay:     g.Delay,
-- 
2.43.0


From ca37a0097aa64715642d87cd2367119a778f854c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:09 +0000
Subject: [PATCH 44/50] fix: GetNextNodeStr with step 0 returns no nodes

---
 hashmap/consistenthash.go | 5 +----
 1 file changed, 1 insertion(+), 4 deletions(-)

diff --git a/hashmap/consistenthash.go b/hashmap/consistenthash.go
index ad76ca2..cb15777 100644
--- a/hashmap/consistenthash.go
+++ b/hashmap/consistenthash.go
@@ -108,7 +108,7 @@ func (t *Consistenthash) GetNextNodeStr(value string, step int) (nodes []int64,
 	n1, ok := t.m.Get(t.keys[idx])
 	m := map[int64]int8{}
 	nodes = make([]int64, 0)
-	for i := 1; i < len(t.keys); i++ {
+	for i := 1; i < len(t.keys) && len(nodes) != step; i++ {
 		if idx++; idx >= len(t.keys) {
 			idx = 0
 		}
@@ -118,9 +118,6 @@ func (t *Consistenthash) GetNextNodeStr(value string, step int) (nodes []int64,
 				nodes = append(nodes, node)
 			}
 		}
-		if len(nodes) == step {
-			return
-		}
 	}
 	return
 }
-- 
2.43.0


From ff45a745d4d05f55de9256e18aa0b2ce7131d8b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:45:09 +0000
Subject: [PATCH 45/50] fix: StrToTimeFormat does not panic without a time zone
 database

---
 util/encode.go | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/util/encode.go b/util/encode.go
index ff04ae3..76f642a 100644
--- a/util/encode.go
+++ b/util/encode.go
@@ -112,7 +112,10 @@ func MatchString(pattern string, s string) bool {
 }
 
 func StrToTimeFormat(s string) (t time.Time, err error) {
-	l, _ := time.LoadLocation("Asia/Shanghai")
+	l, err := time.LoadLocation("Asia/Shanghai")
+	if err != nil {
+		l = time.FixedZone("CST", 8*60*60)
+	}
 	t, err = time.ParseInLocation("2006-01-02 15:04:05", s, l)
 	return
 }
-- 
2.43.0


From 23112c263b578d2ecd8bb36bbdb47da18b1faa3e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:09:46 +0000
Subject: [PATCH 46/50] fix: Open closes the file when it cannot find its end

---
 fastio/file.go | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/fastio/file.go b/fastio/file.go
index 4f4e339..7b83a98 100644
--- a/fastio/file.go
+++ b/fastio/file.go
@@ -25,7 +25,11 @@ func Open(path string) (r File, err error) {
 	if err != nil {
 		return nil, err
 	}
-	return New(f)
+	if r, err = New(f); err != nil {
+		f.Close()
+		return nil, err
+	}
+	return r, nil
 }
 
 func New(f *os.File) (r File, err error) {
-- 
2.43.0


From 80eff6addc9d31ecf311ec951c839fad7b0d453d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:39 +0000
Subject: [PATCH 47/50] fix: BloomFilter counts bits of two segments as one
 item

---
 cache/bloom.go | 26 +++++++++++++-------------
 1 file changed, 13 insertions(+), 13 deletions(-)

diff --git a/cache/bloom.go b/cache/bloom.go
index de058aa..c72a423 100644
--- a/cache/bloom.go
+++ b/cache/bloom.go
@@ -66,14 +66,12 @@ func (bf *BloomFilter) setBit(index uint64) {
 	bf.bits[id][wordIndex] |= (uint64(1) << bitIndex)
 }
 
-// testBit checks if the bit at the given index is set (returns true if set, false otherwise).
-func (bf *BloomFilter) testBit(index uint64) bool {
-	defer recoverPanic(nil)
-	wordIndex := index / 64
-	bitIndex := index % 64
-	id, prevId := bf.getBitIndex()
-	offset := uint64(1) << bitIndex
-	return (bf.bits[id][wordIndex]&offset) != 0 || (bf.bits[prevId][wordIndex]&offset) != 0
+// testBit checks if the bit at the given index is set in one segment (returns true if set, false otherwise).
+func (bf *BloomFilter) testBit(segment int, index uint64) bool {
+	if bf.bits[segment] == nil {
+		return false
+	}
+	return bf.bits[segment][index/64]&(uint64(1)<<(index%64)) != 0
 }
 
 // Add adds an item (as byte slice) to the bloom filter using multiple hash functions.
@@ -93,13 +91,15 @@ func (bf *BloomFilter) Contains(item []byte) bool {
 	defer recoverPanic(nil)
 	bf.mux.Lock()
 	defer bf.mux.Unlock()
-	for i := 0; i < bf.hashCount; i++ {
+	id, prevId := bf.getBitIndex()
+	// All bits of an item are in one segment: bits found partly in one and partly in the other are not its own.
+	inCur, inPrev := true, true
+	for i := 0; i < bf.hashCount && (inCur || inPrev); i++ {
 		index := bf.hash(item, bf.seeds[i]) % (bf.arraySize * 64)
-		if !bf.testBit(index) {
-			return false
-		}
+		inCur = inCur && bf.testBit(id, index)
+		inPrev = inPrev && bf.testBit(prevId, index)
 	}
-	return true
+	return inCur || inPrev
 }
 
 // getBitIndex is called with the mutex held.
-- 
2.43.0


From bad6902cba7c1b2a5ae3b8b784402d51b654eb90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:29:39 +0000
Subject: [PATCH 48/50] fix: a function that ends its goroutine keeps its pool
 slot

---
 pool/gopool/gopool.go | 10 ++++++----
 1 file changed, 6 insertions(+), 4 deletions(-)

diff --git a/pool/gopool/gopool.go b/pool/gopool/gopool.go
index e29e33d..c54d156 100644
--- a/pool/gopool/gopool.go
+++ b/pool/gopool/gopool.go
@@ -28,15 +28,17 @@ func (fc *funcn) add(f func()) {
 }
 
 func (fc *funcn) run() {
+	running := false // f has not returned: it panicked or ended its goroutine
 	defer func() {
-		if err := recover(); err != nil {
-			if fc.pool.put(fc) {
-				go fc.run()
-			}
+		recover()
+		if running && fc.pool.put(fc) {
+			go fc.run()
 		}
 	}()
 	for f := range fc.task {
+		running = true
 		f()
+		running = false
 		if !fc.pool.put(fc) {
 			break
 		}
-- 
2.43.0


From 746e5e8c592d268601cd399baea22646aa5cf0ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:02:27 +0000
Subject: [PATCH 49/50] fix: LimitHashMap keeps -0 and 0 as two keys

---
 hashmap/limithashmap.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/hashmap/limithashmap.go b/hashmap/limithashmap.go
index b0485dd..5fde385 100644
--- a/hashmap/limithashmap.go
+++ b/hashmap/limithashmap.go
@@ -111,11 +111,11 @@ func NewLimitHashMapWithSegment[K int | int64 | int8 | int16 | int32 | uint | ui
 		}
 	case float64:
 		hashFunc = func(key K) uint64 {
-			return math.Float64bits(any(key).(float64))
+			return math.Float64bits(any(key).(float64) + 0) // -0 is equal to 0
 		}
 	case float32:
 		hashFunc = func(key K) uint64 {
-			return math.Float64bits(float64(any(key).(float32)))
+			return math.Float64bits(float64(any(key).(float32)) + 0)
 		}
 	case int8:
 		hashFunc = func(key K) uint64 {
-- 
2.43.0


From 1cecfa5e71b30e615d2a203dc11304304b7ea6fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:10:22 +0000
Subject: [PATCH 50/50] fix: Map and MapL Range visit a nil interface key

---
 hashmap/map.go | 18 ++++++------------
 1 file changed, 6 insertions(+), 12 deletions(-)

diff --git a/hashmap/map.go b/hashmap/map.go
index 35fa823..abf0e5e 100644
--- a/hashmap/map.go
+++ b/hashmap/map.go
@@ -64,12 +64,9 @@ func (t *MapL[K, V]) Del(key K) (ok bool) {
 // The iteration stops if the function returns false.
 func (t *MapL[K, V]) Range(f func(k K, v V) bool) {
 	t.m.Range(func(k, v any) bool {
-		if v != nil {
-			return f(k.(K), v.(V))
-		} else {
-			var t V
-			return f(k.(K), t)
-		}
+		key, _ := k.(K) // a nil interface has no type to assert
+		value, _ := v.(V)
+		return f(key, value)
 	})
 }
 
@@ -122,12 +119,9 @@ func (t *Map[K, V]) Del(key K) (ok bool) {
 // The iteration stops if the function returns false.
 func (t *Map[K, V]) Range(f func(k K, v V) bool) {
 	t.m.Range(func(k, v any) bool {
-		if v != nil {
-			return f(k.(K), v.(V))
-		} else {
-			var t V
-			return f(k.(K), t)
-		}
+		key, _ := k.(K) // a nil interface has no type to assert
+		value, _ := v.(V)
+		return f(key, value)
 	})
 }
 
-- 
2.43.0

