From e24dbd311480945a3c225bf1de7b821d626d8373 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:29 +0000
Subject: [PATCH 01/24] fix: give a copied cache its own order iterators

The copy constructor and copy assignment copied the map's iterators into the
source's queue and the last-accessed pointers into the source's map, so using
the copy modified (or, once the source was gone, dereferenced) the source.
---
 include/lru/internal/base-cache.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index fe49a72..a9c49ad 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -491,10 +491,10 @@ class BaseCache {
   : _map(other._map)
   , _order(other._order)
   , _stats(other._stats)
-  , _last_accessed(other._last_accessed)
+  , _last_accessed(other._last_accessed.key_equal())
   , _callback_manager(other._callback_manager)
   , _capacity(other._capacity) {
-    _reassign_references();
+    _reassign_references(_map, _order);
   }
 
   /// Move constructor.
@@ -509,10 +509,10 @@ class BaseCache {
       _map = other._map;
       _order = other._order;
       _stats = other._stats;
-      _last_accessed = other._last_accessed;
+      _last_accessed = LastAccessed(other._last_accessed.key_equal());
       _callback_manager = other._callback_manager;
       _capacity = other._capacity;
-      _reassign_references();
+      _reassign_references(_map, _order);
     }
 
     return *this;
@@ -1526,10 +1526,13 @@ class BaseCache {
   /// map.
   ///
   /// After a copy, the reference (wrappers) in the order queue point
-  /// to the keys of the other cache's map. Thus we need to re-assign them.
-  void _reassign_references() noexcept {
-    for (auto& key_reference : _order) {
-      key_reference = std::ref(_map.find(key_reference)->first);
+  /// to the keys of the other cache's map, and the order iterators in the map
+  /// into the other cache's queue. Thus we need to re-assign both.
+  static void _reassign_references(Map& map, Queue& order) {
+    for (auto iterator = order.begin(); iterator != order.end(); ++iterator) {
+      auto entry = map.find(*iterator);
+      *iterator = std::ref(entry->first);
+      entry->second.order = iterator;
     }
   }
 
-- 
2.43.0


From efa19be40fefdb182848bf527cc694a969407a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:37:36 +0000
Subject: [PATCH 02/24] fix: copy assignment must not terminate or lose entries
 on failure

It was noexcept although it allocates and copies, and it replaced the map
before the queue, so a failure in between left the two out of step.
---
 include/lru/internal/base-cache.hpp | 15 ++++++++++-----
 1 file changed, 10 insertions(+), 5 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index a9c49ad..c393d32 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -504,15 +504,20 @@ class BaseCache {
   }
 
   /// Copy assignment operator.
-  BaseCache& operator=(const BaseCache& other) noexcept {
+  BaseCache& operator=(const BaseCache& other) {
     if (this != &other) {
-      _map = other._map;
-      _order = other._order;
+      // Everything that may throw happens before this cache is modified.
+      auto map = other._map;
+      auto order = other._order;
+      auto callback_manager = other._callback_manager;
+      _reassign_references(map, order);
+
+      _map.swap(map);
+      _order.swap(order);
       _stats = other._stats;
       _last_accessed = LastAccessed(other._last_accessed.key_equal());
-      _callback_manager = other._callback_manager;
+      _callback_manager = std::move(callback_manager);
       _capacity = other._capacity;
-      _reassign_references(_map, _order);
     }
 
     return *this;
-- 
2.43.0


From d09755ba5f3d89b095faca533b01749272951d25 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:09 +0000
Subject: [PATCH 03/24] fix: copy non-const caches with the copy operations

Copying or assigning a non-const cache selected the forwarding range overloads,
which lost its capacity, order, statistics and callbacks, moved the values out
of the source and, on self-assignment, cleared the cache.
---
 include/lru/cache.hpp               | 3 ++-
 include/lru/internal/base-cache.hpp | 6 ++++--
 include/lru/internal/utility.hpp    | 8 ++++++++
 3 files changed, 14 insertions(+), 3 deletions(-)

diff --git a/include/lru/cache.hpp b/include/lru/cache.hpp
index 7150bfc..9ca8e43 100644
--- a/include/lru/cache.hpp
+++ b/include/lru/cache.hpp
@@ -124,7 +124,8 @@ class Cache
   /// \param range A range to construct the cache with.
   /// \param hash The hash function to use for the internal map.
   /// \param key_equal The key equality function to use for the internal map.
-  template <typename Range, typename = Internal::enable_if_range<Range>>
+  template <typename Range,
+            typename = Internal::enable_if_range_other_than<Range, Cache>>
   explicit Cache(Range&& range,
                  const HashFunction& hash = HashFunction(),
                  const KeyEqual& equal = KeyEqual())
diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index c393d32..a37851e 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -542,7 +542,8 @@ class BaseCache {
   ///
   /// \param range A range of pairs to assign to the cache.
   /// \returns The cache instance.
-  template <typename Range, typename = Internal::enable_if_range<Range>>
+  template <typename Range,
+            typename = Internal::enable_if_range_other_than<Range, BaseCache>>
   BaseCache& operator=(const Range& range) {
     _clear_and_increase_capacity(range);
     insert(range);
@@ -555,7 +556,8 @@ class BaseCache {
   ///
   /// \param range A range of pairs to assign to the cache.
   /// \returns The cache instance.
-  template <typename Range, typename = Internal::enable_if_range<Range>>
+  template <typename Range,
+            typename = Internal::enable_if_range_other_than<Range, BaseCache>>
   BaseCache& operator=(Range&& range) {
     _clear_and_increase_capacity(range);
     insert(std::move(range));
diff --git a/include/lru/internal/utility.hpp b/include/lru/internal/utility.hpp
index 2be5a8d..27f52a0 100644
--- a/include/lru/internal/utility.hpp
+++ b/include/lru/internal/utility.hpp
@@ -25,6 +25,7 @@
 #include <cstddef>
 #include <iterator>
 #include <tuple>
+#include <type_traits>
 #include <utility>
 
 namespace LRU {
@@ -81,6 +82,13 @@ template <typename T>
 using enable_if_range = std::pair<decltype(std::declval<T>().begin()),
                                   decltype(std::declval<T>().end())>;
 
+/// Like `enable_if_range`, but also disables the overload if the range is a
+/// `Base` (so that it does not compete with copy/move operations of `Base`).
+template <typename T, typename Base>
+using enable_if_range_other_than =
+    std::enable_if_t<!std::is_base_of<Base, std::decay_t<T>>::value,
+                     enable_if_range<T>>;
+
 /// A type trait that disables a template overload if a type is not an iterator
 /// over a pair.
 ///
-- 
2.43.0


From 69054cae9311421b59af0c13b39d5ae3e360fae3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:16 +0000
Subject: [PATCH 04/24] fix: do not move elements out of an lvalue range on
 assignment

The Range&& overload also accepts non-const lvalues.
---
 include/lru/internal/base-cache.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index a37851e..e0a5316 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -560,7 +560,7 @@ class BaseCache {
             typename = Internal::enable_if_range_other_than<Range, BaseCache>>
   BaseCache& operator=(Range&& range) {
     _clear_and_increase_capacity(range);
-    insert(std::move(range));
+    insert(std::forward<Range>(range));
     return *this;
   }
 
-- 
2.43.0


From aea9e58f10ab8cdc59c55bb8d59dc1749bbdbc81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:22 +0000
Subject: [PATCH 05/24] fix: initialise the capacity of a moved-from cache

The move constructor swapped an indeterminate capacity into the source.
---
 include/lru/internal/base-cache.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index e0a5316..01b15b6 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -498,7 +498,7 @@ class BaseCache {
   }
 
   /// Move constructor.
-  BaseCache(BaseCache&& other) {
+  BaseCache(BaseCache&& other) : _capacity(0) {
     // Following the copy-swap idiom.
     swap(other);
   }
-- 
2.43.0


From b04a6212ec9ba1680bef272f394400129028613c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:28 +0000
Subject: [PATCH 06/24] fix: swap and move statistics and callbacks along with
 the entries

Copying a cache carries them over, moving or swapping it lost them.
---
 include/lru/internal/base-cache.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 01b15b6..1367244 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -580,7 +580,9 @@ class BaseCache {
 
     swap(_order, other._order);
     swap(_map, other._map);
+    swap(_stats, other._stats);
     swap(_last_accessed, other._last_accessed);
+    swap(_callback_manager, other._callback_manager);
     swap(_capacity, other._capacity);
   }
 
-- 
2.43.0


From 08cfc9c349fc2ba4ee789ba6a0b3f6a4086de3a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:34 +0000
Subject: [PATCH 07/24] fix: let front() and back() throw EmptyCache

They were noexcept, so calling them on an empty cache ended the process.
---
 include/lru/cache.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/lru/cache.hpp b/include/lru/cache.hpp
index 9ca8e43..5c0ed6f 100644
--- a/include/lru/cache.hpp
+++ b/include/lru/cache.hpp
@@ -178,7 +178,7 @@ class Cache
   }
 
   /// \returns The most-recently inserted element.
-  const Key& front() const noexcept {
+  const Key& front() const {
     if (is_empty()) {
       throw LRU::Error::EmptyCache("front");
     } else {
@@ -188,7 +188,7 @@ class Cache
   }
 
   /// \returns The least-recently inserted element.
-  const Key& back() const noexcept {
+  const Key& back() const {
     if (is_empty()) {
       throw LRU::Error::EmptyCache("back");
     } else {
-- 
2.43.0


From 11957b837fbbd44ae192e109ef0d224d20429ec0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:58 +0000
Subject: [PATCH 08/24] fix: leave the order alone when updating a value fails

The entry was moved to the front before its value was assigned, while the last
accessed entry remained another one.
---
 include/lru/internal/base-cache.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 1367244..066edf7 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1414,11 +1414,12 @@ class BaseCache {
   /// \param iterator The iterator pointing to the key to move.
   /// \param new_value The updated value to move the key with.
   virtual void _move_to_front(MapIterator iterator, const Value& new_value) {
+    // The assignment may throw, so it must come before the reordering.
+    iterator->second.value = new_value;
     // Extract the current linked-list node and insert (splice it) at the end
     // The original iterator is not invalidated and now points to the new
     // position (which is still the same node).
     _move_to_front(iterator->second.order);
-    iterator->second.value = new_value;
   }
 
   /// Erases the element most recently inserted into the cache.
-- 
2.43.0


From e242e7d7c74ecb637fa78ff11212339de648fa72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:03 +0000
Subject: [PATCH 09/24] fix: restart the lifetime of an entry whose value is
 stored again

Storing a value under a key kept the insertion time of the old value, so a
value stored under an expired key was never served.
---
 include/lru/internal/base-cache.hpp        |  2 +-
 include/lru/internal/information.hpp       |  7 +++++++
 include/lru/internal/timed-information.hpp | 10 +++++++++-
 3 files changed, 17 insertions(+), 2 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 066edf7..49e7d45 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1415,7 +1415,7 @@ class BaseCache {
   /// \param new_value The updated value to move the key with.
   virtual void _move_to_front(MapIterator iterator, const Value& new_value) {
     // The assignment may throw, so it must come before the reordering.
-    iterator->second.value = new_value;
+    iterator->second.update(new_value);
     // Extract the current linked-list node and insert (splice it) at the end
     // The original iterator is not invalidated and now points to the new
     // position (which is still the same node).
diff --git a/include/lru/internal/information.hpp b/include/lru/internal/information.hpp
index 4a28a98..13f831c 100644
--- a/include/lru/internal/information.hpp
+++ b/include/lru/internal/information.hpp
@@ -117,6 +117,13 @@ struct Information {
     return !(*this == other);
   }
 
+  /// Replaces the stored value.
+  ///
+  /// \param new_value The new value of the information.
+  void update(const Value& new_value) {
+    value = new_value;
+  }
+
   /// The value of the information.
   Value value;
 
diff --git a/include/lru/internal/timed-information.hpp b/include/lru/internal/timed-information.hpp
index 72865a6..0cdfe42 100644
--- a/include/lru/internal/timed-information.hpp
+++ b/include/lru/internal/timed-information.hpp
@@ -106,8 +106,16 @@ struct TimedInformation : public Information<Key, Value> {
     return !(*this == other);
   }
 
+  /// Replaces the stored value, which starts a new lifetime.
+  ///
+  /// \param new_value The new value of the information.
+  void update(const typename super::ValueType& new_value) {
+    super::update(new_value);
+    insertion_time = Internal::Clock::now();
+  }
+
   /// The time at which the key of the information was insterted into a cache.
-  const Timestamp insertion_time;
+  Timestamp insertion_time;
 };
 
 }  // namespace Internal
-- 
2.43.0


From ae034e4e0b30ea4bd5a7180f1a95f16d50abf038 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:29 +0000
Subject: [PATCH 10/24] fix: check every entry in all_expired() and
 clear_expired()

Both assumed that the recency order is the order of insertion times, which a
single lookup or update breaks: live caches were reported as all expired (or
the reverse) and expired entries behind a live one were not purged.
---
 include/lru/timed-cache.hpp | 18 +++++++++++-------
 1 file changed, 11 insertions(+), 7 deletions(-)

diff --git a/include/lru/timed-cache.hpp b/include/lru/timed-cache.hpp
index 0038932..9345056 100644
--- a/include/lru/timed-cache.hpp
+++ b/include/lru/timed-cache.hpp
@@ -235,9 +235,13 @@ class TimedCache
     // By the laws of predicate logic, any statement about any empty set is true
     if (is_empty()) return true;
 
-    /// If the most-recently inserted key has expired, all others must have too.
-    auto latest = _map.find(_order.back());
-    return _has_expired(latest->second);
+    // The order of the queue is that of the last accesses, not that of the
+    // insertions, so every entry has to be checked.
+    for (const auto& pair : _map) {
+      if (!_has_expired(pair.second)) return false;
+    }
+
+    return true;
   }
 
   /// Erases all expired elements from the cache.
@@ -257,14 +261,14 @@ class TimedCache
 
     while (iterator != _order.end()) {
       auto map_iterator = _map.find(*iterator);
+      ++iterator;
 
-      // If the current element hasn't expired, also all elements inserted
-      // after will not have, so we can stop.
-      if (!_has_expired(map_iterator->second)) break;
+      // The order of the queue is that of the last accesses, not that of the
+      // insertions, so elements after a live one may have expired.
+      if (!_has_expired(map_iterator->second)) continue;
 
       _erase(map_iterator);
 
-      iterator = _order.begin();
       number_of_erasures += 1;
     }
 
-- 
2.43.0


From b147065b63dc18c064fe3c63ba9206c180db5bc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:39:34 +0000
Subject: [PATCH 11/24] fix: count a miss when the last accessed key has
 expired

Looking up an expired key registers a miss and calls the miss callbacks, except
when the key happened to be the one accessed last.
---
 include/lru/internal/base-cache.hpp | 9 +++++----
 include/lru/timed-cache.hpp         | 6 ++++--
 2 files changed, 9 insertions(+), 6 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 49e7d45..bb78a14 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -799,6 +799,7 @@ class BaseCache {
         // If this is the last accessed key, it's at the front anyway
         return true;
       } else {
+        _register_miss(key);
         return false;
       }
     }
@@ -819,7 +820,7 @@ class BaseCache {
   /// \see contains()
   virtual const Value& lookup(const Key& key) const {
     if (key == _last_accessed) {
-      auto& value = _value_for_last_accessed();
+      auto& value = _value_for_last_accessed(key);
       _register_hit(key, value);
       // If this is the last accessed key, it's at the front anyway
       return value;
@@ -846,7 +847,7 @@ class BaseCache {
   /// \see contains()
   virtual Value& lookup(const Key& key) {
     if (key == _last_accessed) {
-      auto& value = _value_for_last_accessed();
+      auto& value = _value_for_last_accessed(key);
       _register_hit(key, value);
       // If this is the last accessed key, it's at the front anyway
       return value;
@@ -1481,7 +1482,7 @@ class BaseCache {
   }
 
   /// \copydoc _value_for_last_accessed() const
-  virtual Value& _value_for_last_accessed() {
+  virtual Value& _value_for_last_accessed(const Key& key) {
     return _last_accessed.value();
   }
 
@@ -1491,7 +1492,7 @@ class BaseCache {
   /// additional
   /// checks (and possibly throw exceptions) or perform other operations to
   /// retrieve the value.
-  virtual const Value& _value_for_last_accessed() const {
+  virtual const Value& _value_for_last_accessed(const Key& key) const {
     return _last_accessed.value();
   }
 
diff --git a/include/lru/timed-cache.hpp b/include/lru/timed-cache.hpp
index 9345056..dbf37f0 100644
--- a/include/lru/timed-cache.hpp
+++ b/include/lru/timed-cache.hpp
@@ -351,9 +351,10 @@ class TimedCache
   }
 
   /// \copydoc _value_for_last_accessed() const
-  Value& _value_for_last_accessed() override {
+  Value& _value_for_last_accessed(const Key& key) override {
     auto& information = _last_accessed.information();
     if (_has_expired(information)) {
+      _register_miss(key);
       throw LRU::Error::KeyExpired();
     } else {
       return information.value;
@@ -363,9 +364,10 @@ class TimedCache
   /// Attempts to access the last accessed key's value.
   /// \throws LRU::Error::KeyExpired if the key has expired.
   /// \returns The value of the last accessed key.
-  const Value& _value_for_last_accessed() const override {
+  const Value& _value_for_last_accessed(const Key& key) const override {
     const auto& information = _last_accessed.information();
     if (_has_expired(information)) {
+      _register_miss(key);
       throw LRU::Error::KeyExpired();
     } else {
       return information.value;
-- 
2.43.0


From c6806fdda5fb8d66acd42b6ffd097ad2b82608e1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:07 +0000
Subject: [PATCH 12/24] fix: do not check for expiry a second time in lookup()

When the entry expired between the two checks, lookup() registered a hit and
then failed.
---
 include/lru/internal/base-cache.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index bb78a14..99fcf66 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -830,7 +830,8 @@ class BaseCache {
     if (iterator == end()) {
       throw LRU::Error::KeyNotFound();
     } else {
-      return iterator.value();
+      // find() has already checked the entry.
+      return iterator._iterator->second.value;
     }
   }
 
@@ -857,7 +858,8 @@ class BaseCache {
     if (iterator == end()) {
       throw LRU::Error::KeyNotFound();
     } else {
-      return iterator.value();
+      // find() has already checked the entry.
+      return iterator._iterator->second.value;
     }
   }
 
-- 
2.43.0


From 98c67c478e7203293714e8dd6d0e444f1473a5ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:12 +0000
Subject: [PATCH 13/24] fix: let ordered iterators erase expired entries

erase(iterator) threw KeyExpired for ordered iterators only.
---
 include/lru/internal/base-cache.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 99fcf66..3963f85 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1146,7 +1146,8 @@ class BaseCache {
     if (iterator == ordered_cend()) {
       throw LRU::Error::InvalidIterator();
     } else {
-      _erase(_map.find(iterator.key()));
+      // Not iterator.key(), as also an expired entry can be erased.
+      _erase(_map.find(*iterator._iterator));
     }
   }
 
-- 
2.43.0


From 788a18f52c4d90a76779bf5b5d2691d9fc2d47ab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:18 +0000
Subject: [PATCH 14/24] fix: do not round the age of an entry down to a whole
 duration

With an integral duration type such as std::chrono::seconds, entries were
served for up to one tick longer than the time to live.
---
 include/lru/timed-cache.hpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/lru/timed-cache.hpp b/include/lru/timed-cache.hpp
index dbf37f0..cb2d091 100644
--- a/include/lru/timed-cache.hpp
+++ b/include/lru/timed-cache.hpp
@@ -380,7 +380,11 @@ class TimedCache
   /// \returns True if the key has expired, else false.
   bool _has_expired(const Information& information) const noexcept {
     auto elapsed = Clock::now() - information.insertion_time;
-    return std::chrono::duration_cast<Duration>(elapsed) > _time_to_live;
+    // The cast may truncate, but comparing to the original may only be done
+    // for equal values, because the common type could overflow for others.
+    auto casted = std::chrono::duration_cast<Duration>(elapsed);
+    if (casted != _time_to_live) return casted > _time_to_live;
+    return elapsed > casted;
   }
 
   /// The duration after which a key is said to be expired.
-- 
2.43.0


From d37eed91c5040b4c149033a2176f3f413886a958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:24 +0000
Subject: [PATCH 15/24] fix: make Statistics::reset_all() compile

---
 include/lru/statistics.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/lru/statistics.hpp b/include/lru/statistics.hpp
index 0c97016..29b9ce4 100644
--- a/include/lru/statistics.hpp
+++ b/include/lru/statistics.hpp
@@ -208,7 +208,7 @@ class Statistics {
   /// Clears the statistics of all keys, but keeps on monitoring it them.
   void reset_all() {
     for (auto& pair : _key_map) {
-      _key_map.second.reset();
+      pair.second.reset();
     }
   }
 
-- 
2.43.0


From e625c4393806672e1d7b28f417a5c892c812da76 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:40:47 +0000
Subject: [PATCH 16/24] fix: erase a new map entry again if it cannot be queued

If inserting the key into the order queue (or evicting another one) threw, the
entry stayed in the map without a place in the queue, and later operations
dereferenced a singular iterator.
---
 include/lru/internal/base-cache.hpp | 20 ++++++++++++++++----
 1 file changed, 16 insertions(+), 4 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index 3963f85..f962064 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -922,8 +922,7 @@ class BaseCache {
     if (iterator == _map.end()) {
       auto result = _map.emplace(key, Information(value));
       assert(result.second);
-      auto order = _insert_new_key(result.first->first);
-      result.first->second.order = order;
+      _insert_new_entry(result.first);
 
       _last_accessed = result.first;
       return {true, {*this, result.first}};
@@ -1061,8 +1060,7 @@ class BaseCache {
 
     if (iterator == _map.end()) {
       auto result = _map.emplace(std::move(key), Information(value_arguments));
-      auto order = _insert_new_key(result.first->first);
-      result.first->second.order = order;
+      _insert_new_entry(result.first);
       assert(result.second);
 
       _last_accessed = result.first;
@@ -1550,6 +1548,20 @@ class BaseCache {
     }
   }
 
+  /// Inserts the key of a new map entry into the queue.
+  ///
+  /// If that fails, the map entry is erased again.
+  ///
+  /// \param iterator The iterator pointing to the new map entry.
+  void _insert_new_entry(MapIterator iterator) {
+    try {
+      iterator->second.order = _insert_new_key(iterator->first);
+    } catch (...) {
+      _map.erase(iterator);
+      throw;
+    }
+  }
+
   /// Inserts a new key into the queue.
   ///
   /// If the cache is full, the LRU node is re-used.
-- 
2.43.0


From 7323781175a8b70a6b2f5a363d7d50ba736bdd21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:02 +0000
Subject: [PATCH 17/24] fix: look the entry up before erasing anything of it

Erasing the last accessed key removed its place in the queue before a hash
lookup that may throw, which left the entry in the map only.
---
 include/lru/internal/base-cache.hpp | 10 +---------
 1 file changed, 1 insertion(+), 9 deletions(-)

diff --git a/include/lru/internal/base-cache.hpp b/include/lru/internal/base-cache.hpp
index f962064..ecb2a24 100644
--- a/include/lru/internal/base-cache.hpp
+++ b/include/lru/internal/base-cache.hpp
@@ -1450,16 +1450,8 @@ class BaseCache {
   /// \param key The key to erase.
   /// \param information The information associated with the key to erase.
   virtual void _erase(const Key& key, const Information& information) {
-    if (key == _last_accessed) {
-      _last_accessed.invalidate();
-    }
-
-    // To be sure, we should do this first, since the order stores a reference
-    // to the key in the map.
-    _order.erase(information.order);
-
     // Requires an additional hash-lookup, whereas erase(iterator) doesn't
-    _map.erase(key);
+    _erase(_map.find(key));
   }
 
   /// Convenience methhod to get the value for an insertion result into a map.
-- 
2.43.0


From f9e8dafc397ba58a83beaf367b93f3565736d036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:08 +0000
Subject: [PATCH 18/24] fix: let exceptions of the key equality pass the last
 accessed key

Comparing with the last accessed key calls the user's function object, but was
noexcept, so an exception ended the process.
---
 include/lru/internal/last-accessed.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/lru/internal/last-accessed.hpp b/include/lru/internal/last-accessed.hpp
index c6bfb25..4c0e1e4 100644
--- a/include/lru/internal/last-accessed.hpp
+++ b/include/lru/internal/last-accessed.hpp
@@ -120,14 +120,14 @@ class LastAccessed {
   /// \returns True if the key of the `LastAccessed` object's key equals the
   /// given key, else false.
   friend bool
-  operator==(const LastAccessed& last_accessed, const Key& key) noexcept {
+  operator==(const LastAccessed& last_accessed, const Key& key) {
     if (!last_accessed._is_valid) return false;
     return last_accessed._key_equal(key, last_accessed.key());
   }
 
   /// \copydoc operator==(const LastAccessed&,const Key&)
   friend bool
-  operator==(const Key& key, const LastAccessed& last_accessed) noexcept {
+  operator==(const Key& key, const LastAccessed& last_accessed) {
     return last_accessed == key;
   }
 
@@ -139,7 +139,7 @@ class LastAccessed {
   /// iterator, else false.
   template <typename Iterator, typename = enable_if_iterator<Iterator>>
   friend bool
-  operator==(const LastAccessed& last_accessed, Iterator iterator) noexcept {
+  operator==(const LastAccessed& last_accessed, Iterator iterator) {
     /// Fast comparisons to an iterator (not relying on implicit conversion)
     return last_accessed == iterator->first;
   }
@@ -147,7 +147,7 @@ class LastAccessed {
   /// \copydoc operator==(const LastAccessed&,Iterator)
   template <typename Iterator, typename = enable_if_iterator<Iterator>>
   friend bool
-  operator==(Iterator iterator, const LastAccessed& last_accessed) noexcept {
+  operator==(Iterator iterator, const LastAccessed& last_accessed) {
     return last_accessed == iterator;
   }
 
@@ -159,14 +159,14 @@ class LastAccessed {
   /// the given other object's key, else false.
   template <typename T>
   friend bool
-  operator!=(const LastAccessed& last_accessed, const T& other) noexcept {
+  operator!=(const LastAccessed& last_accessed, const T& other) {
     return !(last_accessed == other);
   }
 
   /// \copydoc operator!=(const LastAccessed&,const T&)
   template <typename T>
   friend bool
-  operator!=(const T& other, const LastAccessed& last_accessed) noexcept {
+  operator!=(const T& other, const LastAccessed& last_accessed) {
     return !(other == last_accessed);
   }
 
-- 
2.43.0


From 834c4d90662542b672efef46a29b234bd2a90be8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:13 +0000
Subject: [PATCH 19/24] fix: check an unordered iterator before reading its
 entry

entry(), key() and value() dereferenced the end iterator before rejecting it.
---
 include/lru/internal/base-unordered-iterator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/base-unordered-iterator.hpp b/include/lru/internal/base-unordered-iterator.hpp
index f294b13..017194e 100644
--- a/include/lru/internal/base-unordered-iterator.hpp
+++ b/include/lru/internal/base-unordered-iterator.hpp
@@ -179,11 +179,12 @@ class BaseUnorderedIterator
   /// \throws LRU::Error::KeyExpired if the key pointed to by the iterator has
   /// expired.
   Entry& entry() override {
+    _cache->throw_if_invalid(*this);
+
     if (!_entry.has_value()) {
       _entry.emplace(_iterator->first, _iterator->second.value);
     }
 
-    _cache->throw_if_invalid(*this);
     return *_entry;
   }
 
-- 
2.43.0


From ec4efbdd3c17e99ad159e2d5f9d5d7bbb7f9618a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:37 +0000
Subject: [PATCH 20/24] fix: do not allocate when an iterator is dereferenced

operator* and operator-> of the iterators (also used when a wrapped function
returns a cached result) are noexcept, but allocated their entry, so running
out of memory ended the process.
---
 include/lru/internal/optional.hpp | 49 ++++++++++++++++++++++---------
 1 file changed, 35 insertions(+), 14 deletions(-)

diff --git a/include/lru/internal/optional.hpp b/include/lru/internal/optional.hpp
index 8336d3b..5a7b5c5 100644
--- a/include/lru/internal/optional.hpp
+++ b/include/lru/internal/optional.hpp
@@ -40,8 +40,10 @@ using Optional = std::optional<T>;
 #endif
 
 #ifdef USE_LRU_OPTIONAL
-#include <memory>
+#include <new>
 #include <stdexcept>
+#include <type_traits>
+#include <utility>
 
 namespace LRU {
 namespace Internal {
@@ -49,7 +51,8 @@ namespace Internal {
 // A roll-your-own replacement of `std::optional`.
 //
 // This class is only to be used if `std::optional` is unavailable. It
-// implements an optional type simply on top of a `unique_ptr`. It is
+// implements an optional type on top of storage inside the object (because
+// it is used in functions that must not fail, and thus not allocate). It is
 // API-compatible with `std::optional`, as required for our purposes.
 template <typename T>
 class Optional {
@@ -77,7 +80,7 @@ class Optional {
   ///
   /// \param other The other optional object to move into this one.
   Optional(Optional&& other) noexcept {
-    swap(other);
+    _take(other);
   }
 
   /// Generalized move constructor.
@@ -86,9 +89,12 @@ class Optional {
   template <typename U,
             typename = std::enable_if_t<std::is_convertible<T, U>::value>>
   Optional(Optional<U>&& other) noexcept {
-    if (other) {
-      _value = std::make_unique<T>(std::move(*other));
-    }
+    if (other) emplace(std::move(*other));
+  }
+
+  /// Destructor.
+  ~Optional() {
+    reset();
   }
 
   /// Assignment operator.
@@ -96,7 +102,8 @@ class Optional {
   /// \param other The other object to assign from.
   /// \returns The resulting optional instance.
   Optional& operator=(Optional other) noexcept {
-    swap(other);
+    reset();
+    _take(other);
     return *this;
   }
 
@@ -104,7 +111,9 @@ class Optional {
   ///
   /// \param other The other optional to swap with.
   void swap(Optional& other) {
-    _value.swap(other._value);
+    Optional old(std::move(*this));
+    _take(other);
+    other._take(old);
   }
 
   /// Swaps the contents of two optionals.
@@ -117,7 +126,7 @@ class Optional {
 
   /// \returns True if the `Optional` has a value, else false.
   bool has_value() const noexcept {
-    return static_cast<bool>(_value);
+    return _value != nullptr;
   }
 
   /// \copydoc has_value()
@@ -128,13 +137,13 @@ class Optional {
   /// \returns A pointer to the current value. Behavior is undefined if the
   /// optional has no value.
   T* operator->() {
-    return _value.get();
+    return _value;
   }
 
   /// \returns A const pointer to the current value. Behavior is undefined if
   /// the `Optional` has no value.
   const T* operator->() const {
-    return _value.get();
+    return _value;
   }
 
   /// \returns A const reference to the current value. Behavior is undefined if
@@ -181,7 +190,8 @@ class Optional {
 
   /// Resets the `Optional` to have no value.
   void reset() noexcept {
-    _value.reset();
+    if (_value) _value->~T();
+    _value = nullptr;
   }
 
   /// Constructs the `Optional`'s value with the given arguments.
@@ -189,7 +199,8 @@ class Optional {
   /// \param args Arguments to perfeclty forward to the value's constructor.
   template <typename... Args>
   void emplace(Args&&... args) {
-    _value = std::make_unique<T>(std::forward<Args>(args)...);
+    reset();
+    _value = new (&_storage) T(std::forward<Args>(args)...);
   }
 
  private:
@@ -197,7 +208,17 @@ class Optional {
   friend class Optional;
 
   /// The value, as we implement it.
-  std::unique_ptr<T> _value;
+  /// Moves the value of another optional, if any, into this empty one.
+  void _take(Optional& other) {
+    if (other) emplace(std::move(*other));
+    other.reset();
+  }
+
+  /// The storage for the value.
+  std::aligned_storage_t<sizeof(T), alignof(T)> _storage;
+
+  /// Points to the value in the storage, if there is one.
+  T* _value = nullptr;
 };
 }  // namespace Internal
 }  // namespace LRU
-- 
2.43.0


From fbe67013f73c8f8782e84b957e4b82de1619344a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:41:56 +0000
Subject: [PATCH 21/24] fix: give every wrapped function its own cache

The cache was a static variable of the generic call operator, so all functions
of the same type wrapped anywhere shared one cache (and the cache arguments of
the one called first), and the cache arguments were references that dangled
once the call to wrap() was over.
---
 include/lru/wrap.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/include/lru/wrap.hpp b/include/lru/wrap.hpp
index e384968..0cf1691 100644
--- a/include/lru/wrap.hpp
+++ b/include/lru/wrap.hpp
@@ -23,8 +23,12 @@
 #define LRU_WRAP_HPP
 
 #include <cstddef>
+#include <memory>
 #include <tuple>
 #include <type_traits>
+#include <typeindex>
+#include <typeinfo>
+#include <unordered_map>
 #include <utility>
 
 #include <lru/cache.hpp>
@@ -48,9 +52,14 @@ template <typename Function,
           template <typename...> class CacheType = Cache,
           typename... Args>
 auto wrap(Function original_function, Args&&... args) {
+  // Every wrapped function has its own caches (one per types of arguments it
+  // is called with), which copies of it share.
+  using Caches = std::unordered_map<std::type_index, std::shared_ptr<void>>;
   return [
     original_function,
-    cache_args = std::forward_as_tuple(std::forward<Args>(args)...)
+    cache_args =
+        std::tuple<const std::decay_t<Args>...>(std::forward<Args>(args)...),
+    caches = std::make_shared<Caches>()
   ](auto&&... arguments) mutable {
     using Arguments = std::tuple<std::decay_t<decltype(arguments)>...>;
     using ReturnType = decltype(
@@ -59,9 +68,13 @@ auto wrap(Function original_function, Args&&... args) {
     static_assert(!std::is_void<ReturnType>::value,
                   "Return type of wrapped function must not be void");
 
-    static auto cache =
-        Internal::construct_from_tuple<CacheType<Arguments, ReturnType>>(
-            cache_args);
+    using WrapCache = CacheType<Arguments, ReturnType>;
+    auto& cache_pointer = (*caches)[typeid(WrapCache)];
+    if (!cache_pointer) {
+      cache_pointer = std::make_shared<WrapCache>(
+          Internal::construct_from_tuple<WrapCache>(cache_args));
+    }
+    auto& cache = *static_cast<WrapCache*>(cache_pointer.get());
 
     auto key = std::make_tuple(arguments...);
     auto iterator = cache.find(key);
-- 
2.43.0


From dc4fe16640a2657702bb2365aa60dfb32e705e5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:13 +0000
Subject: [PATCH 22/24] fix: move a found entry to the front before calling
 callbacks

A hit callback that stored another key into a full cache evicted the very entry
being looked up (if it was the least recently used one), which was then used
after its destruction.
---
 include/lru/cache.hpp       | 4 ++--
 include/lru/timed-cache.hpp | 4 ++--
 2 files changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/lru/cache.hpp b/include/lru/cache.hpp
index 5c0ed6f..2e758e6 100644
--- a/include/lru/cache.hpp
+++ b/include/lru/cache.hpp
@@ -153,9 +153,9 @@ class Cache
   UnorderedIterator find(const Key& key) override {
     auto iterator = _map.find(key);
     if (iterator != _map.end()) {
-      _register_hit(key, iterator->second.value);
       _move_to_front(iterator->second.order);
       _last_accessed = iterator;
+      _register_hit(key, iterator->second.value);
     } else {
       _register_miss(key);
     }
@@ -167,9 +167,9 @@ class Cache
   UnorderedConstIterator find(const Key& key) const override {
     auto iterator = _map.find(key);
     if (iterator != _map.end()) {
-      _register_hit(key, iterator->second.value);
       _move_to_front(iterator->second.order);
       _last_accessed = iterator;
+      _register_hit(key, iterator->second.value);
     } else {
       _register_miss(key);
     }
diff --git a/include/lru/timed-cache.hpp b/include/lru/timed-cache.hpp
index cb2d091..c8945bd 100644
--- a/include/lru/timed-cache.hpp
+++ b/include/lru/timed-cache.hpp
@@ -198,9 +198,9 @@ class TimedCache
     auto iterator = _map.find(key);
     if (iterator != _map.end()) {
       if (!_has_expired(iterator->second)) {
-        _register_hit(key, iterator->second.value);
         _move_to_front(iterator->second.order);
         _last_accessed = iterator;
+        _register_hit(key, iterator->second.value);
         return {*this, iterator};
       }
     }
@@ -215,9 +215,9 @@ class TimedCache
     auto iterator = _map.find(key);
     if (iterator != _map.end()) {
       if (!_has_expired(iterator->second)) {
-        _register_hit(key, iterator->second.value);
         _move_to_front(iterator->second.order);
         _last_accessed = iterator;
+        _register_hit(key, iterator->second.value);
         return {*this, iterator};
       }
     }
-- 
2.43.0


From d982df9a61370e418a2fda71535325bb91340a23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:35 +0000
Subject: [PATCH 23/24] fix: let exceptions of the hash function pass
 throw_if_invalid()

For ordered iterators the expiry check, and thus entry(), key() and value(),
looked the key up inside a noexcept function.
---
 include/lru/internal/base-ordered-iterator.hpp | 3 +++
 include/lru/timed-cache.hpp                    | 3 ++-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/include/lru/internal/base-ordered-iterator.hpp b/include/lru/internal/base-ordered-iterator.hpp
index a0ed951..6108546 100644
--- a/include/lru/internal/base-ordered-iterator.hpp
+++ b/include/lru/internal/base-ordered-iterator.hpp
@@ -298,6 +298,9 @@ class BaseOrderedIterator
   template <typename, typename, typename>
   friend class BaseOrderedIterator;
 
+  template <typename, typename, typename, typename, typename>
+  friend class LRU::TimedCache;
+
   /// Looks up the entry for a key if this was not done already.
   ///
   /// \returns The entry, which was possibly newly looked up.
diff --git a/include/lru/timed-cache.hpp b/include/lru/timed-cache.hpp
index c8945bd..9f95c72 100644
--- a/include/lru/timed-cache.hpp
+++ b/include/lru/timed-cache.hpp
@@ -334,7 +334,8 @@ class TimedCache
   /// expired.
   void throw_if_invalid(OrderedConstIterator ordered_iterator) const override {
     super::throw_if_invalid(ordered_iterator);
-    if (has_expired(ordered_iterator)) {
+    // Not has_expired(), which is noexcept, whereas the lookup may throw.
+    if (_has_expired(_map.find(*ordered_iterator._iterator)->second)) {
       throw LRU::Error::KeyExpired();
     }
   }
-- 
2.43.0


From 14c8872ee7b133941016da9cba42a64ba1fe3350 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:30:01 +0000
Subject: [PATCH 24/24] fix: Let unordered iterators of different constness be
 compared

The comparison operators of BaseUnorderedIterator are templates over the
other iterator's parameters, but read its private entry iterator, so that
comparing begin() of a cache with cbegin() did not compile.
---
 include/lru/internal/base-unordered-iterator.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/lru/internal/base-unordered-iterator.hpp b/include/lru/internal/base-unordered-iterator.hpp
index 017194e..8c0aa4d 100644
--- a/include/lru/internal/base-unordered-iterator.hpp
+++ b/include/lru/internal/base-unordered-iterator.hpp
@@ -205,6 +205,9 @@ class BaseUnorderedIterator
   }
 
  protected:
+  template <typename, typename>
+  friend class BaseUnorderedIterator;
+
   template <typename, typename, typename>
   friend class BaseOrderedIterator;
 
-- 
2.43.0

