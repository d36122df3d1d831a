From b9cdc13611248fce13864781a0f70ea6d867d496 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:36 +0000
Subject: [PATCH 01/40] fix: shared bucket lock taken in exclusive mode but
 released as shared

---
 seq/internal/concurrent_hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 569d6d5..32d6852 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -745,7 +745,7 @@ namespace seq
 			}
 			SEQ_ALWAYS_INLINE void lock_shared(node_lock& lock) const
 			{
-				if (lock.try_lock())
+				if (lock.try_lock_shared())
 					return;
 				this_type* _this = const_cast<this_type*>(this);
 				while (!lock.try_lock_shared()) {
-- 
2.43.0


From e42f4a2674cccf14809d1b3b8662f9ac3a9b7108 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 02/40] fix: concurrent table compared or merged with itself
 never returned

---
 seq/internal/concurrent_hash_table.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 32d6852..aa915ce 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1975,6 +1975,8 @@ namespace seq
 
 			auto merge(ConcurrentHashTable& other) -> size_t
 			{
+				if (this == std::addressof(other))
+					return 0;
 				// Lock internal data to avoid swap or move during merging
 				if constexpr (is_concurrent)
 					std::lock(const_cast<data_lock_type&>(d_data_lock), const_cast<data_lock_type&>(other.d_data_lock));
@@ -1996,6 +1998,8 @@ namespace seq
 			template<class ExecPolicy>
 			auto merge(ExecPolicy&& p, ConcurrentHashTable& other) -> size_t
 			{
+				if (this == std::addressof(other))
+					return 0;
 				// Lock internal data to avoid swap or move during merging
 				if constexpr (is_concurrent)
 					std::lock(const_cast<data_lock_type&>(d_data_lock), const_cast<data_lock_type&>(other.d_data_lock));
@@ -2019,6 +2023,8 @@ namespace seq
 
 			bool operator==(const ConcurrentHashTable& other) const
 			{
+				if (this == std::addressof(other))
+					return true;
 				// Lock internal data to avoid swap or move during comparison
 				if constexpr (is_concurrent)
 					std::lock(const_cast<data_lock_type&>(d_data_lock), const_cast<data_lock_type&>(other.d_data_lock));
-- 
2.43.0


From 29525aa811b12bdf13648801cc636cebfe5354cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 03/40] fix: const visit_all of the concurrent containers
 ignored the functor result

---
 seq/internal/concurrent_hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index aa915ce..4faa976 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1750,7 +1750,7 @@ namespace seq
 				if (!d)
 					return true;
 				for (unsigned i = 0; i < PrivateData::map_count; ++i)
-					if (!d->at(i).visit_all([&fun](const Value& v) { std::forward<F>(fun)(v); }))
+					if (!d->at(i).visit_all([&fun](const Value& v) { return std::forward<F>(fun)(v); }))
 						return false;
 				return true;
 			}
-- 
2.43.0


From 3f82fbcab2c80e5658ca0e7f21045a315554450f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 04/40] fix: non const visit_all modified values under a shared
 table lock

---
 seq/internal/concurrent_hash_table.hpp | 14 +++++++++++---
 1 file changed, 11 insertions(+), 3 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 4faa976..a4e22c8 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1264,13 +1264,21 @@ namespace seq
 			template<class F>
 			bool visit_all(F&& fun)
 			{
-				// Avoid rehash while calling visit_all
-				LockShared<node_lock> lock(const_cast<node_lock&>(d_rehash_lock));
+				// Avoid rehash while calling visit_all.
+				// Without bucket locks, the rehash lock also protects the values and must be exclusive.
+				LockShared<node_lock> lock;
+				LockUnique<node_lock> unique_lock;
+				lock_array* locks = AtomicLoad(d_locks);
+				if (locks)
+					lock.init(d_rehash_lock);
+				else
+					unique_lock.init(d_rehash_lock);
 				if (d_buckets == get_static_node())
 					return true;
 
 				size_t count = d_hash_mask + 1u;
-				lock_array* locks = AtomicLoad(d_locks);
+				if (!locks)
+					locks = AtomicLoad(d_locks);
 				auto iter = typename lock_array::iterator(locks);
 				for (size_t i = 0; i < count; ++i) {
 					LockUnique<node_lock> ll;
-- 
2.43.0


From f4516b704c27adcb521d6d348806fdfcfd12a23f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 05/40] fix: dangling chain pointer when erasing from a full
 bucket

---
 seq/internal/concurrent_hash_table.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index a4e22c8..324a446 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1044,6 +1044,7 @@ namespace seq
 				memset(n->hashs, 0, sizeof(n->hashs));
 
 				chain_node_type* d = v->right;
+				v->right = nullptr;
 				while (d) {
 					if (!std::is_trivially_destructible_v<Value>) {
 						for (unsigned i = 0; i < d->count(); ++i)
-- 
2.43.0


From 4e9200bcbdde0c53699300be961908cbcd89d944 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:44 +0000
Subject: [PATCH 06/40] fix: concurrent rehash released bucket locks it did not
 hold, and crashed when an allocation failed

---
 seq/internal/concurrent_hash_table.hpp | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 324a446..2872558 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -782,6 +782,7 @@ namespace seq
 				node_type* buckets = nullptr;
 				value_node_type* values = nullptr;
 				size_t i = 0;
+				size_t locked = 0; // number of locked buckets
 
 				// Reset chain count
 				d_chain_count = 0;
@@ -792,14 +793,18 @@ namespace seq
 					buckets = make_nodes(new_hash_mask + 1u);
 					values = make_value_nodes(new_hash_mask + 1u);
 
-					size_t count = (d_buckets != get_static_node()) ? d_hash_mask + 1u : 0u;
+					// The static node is locked as well (if locks already exist): it does not contain any value,
+					// but the table must not be replaced while another thread uses its bucket lock
+					size_t count = d_hash_mask + 1u;
 					auto iter = typename lock_array::iterator(locks);
 
 					for (i = 0; i < count; ++i) {
 
 						// Lock position
-						if (is_concurrent && locks)
+						if (is_concurrent && locks) {
 							iter->lock();
+							++locked;
+						}
 
 						d_buckets[i].for_each(d_values + i, [&](std::uint8_t* hashs, unsigned j, Value& val) {
 							auto pos = hash_key(extract_key::key(val)) & new_hash_mask;
@@ -826,11 +831,12 @@ namespace seq
 					}
 
 					// Destroy and deallocate
-					destroy_buckets(buckets, values, new_hash_mask + 1);
+					if (buckets)
+						destroy_buckets(buckets, values, new_hash_mask + 1);
 
 					if (is_concurrent && locks) {
 						// Unlock locked nodes
-						for (size_t j = 0; j <= i; ++j)
+						for (size_t j = 0; j < locked; ++j)
 							locks->at(j).unlock();
 					}
 					throw;
@@ -850,8 +856,7 @@ namespace seq
 				if (is_concurrent && locks) {
 					// Unlock all nodes
 					auto iter = typename lock_array::iterator(locks);
-					size_t count = old_buckets ? old_hash_mask + 1u : 0u;
-					for (i = 0; i < count; ++i, ++iter)
+					for (i = 0; i < locked; ++i, ++iter)
 						iter->unlock();
 				}
 
-- 
2.43.0


From 7343e0a13f84ce3c7431c0b7219c82ba6e69d23a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:52 +0000
Subject: [PATCH 07/40] fix: insertion racing with clear could wait forever for
 the table or use a detached one

---
 seq/internal/concurrent_hash_table.hpp | 30 +++++++++++++++++---------
 1 file changed, 20 insertions(+), 10 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 2872558..fd82b59 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -934,12 +934,18 @@ namespace seq
 					rehash_on_next_target(s);
 			}
 
+			template<bool WaitForBucket>
 			SEQ_NOINLINE(auto) update_lock(lock_array* locks, size_t hash, size_t& hash_mask, size_t& pos, node_lock*& l)
 			{
 				hash_mask = d_hash_mask;
-				if (((hash & hash_mask) != pos)) {
+				// Only look at the bucket array if the lock we hold protects it
+				bool no_table = WaitForBucket && (hash & hash_mask) == pos && d_buckets == get_static_node();
+				if (no_table || ((hash & hash_mask) != pos)) {
 					pos = (hash & hash_mask);
 					l->unlock();
+					if (no_table)
+						// Table cleared by another thread: never wait for a new one while holding a bucket lock
+						rehash_on_insert();
 					l = &locks->at(pos);
 					this->lock(*l);
 				}
@@ -959,16 +965,20 @@ namespace seq
 			SEQ_NOINLINE(auto)
 			get_node_global_lock(lock_array* locks, size_t hash, node_lock*& l) -> size_t
 			{
-				if (WaitForBucket)
-					while (d_buckets == get_static_node())
-						std::this_thread::yield();
 				l = &d_rehash_lock;
-				l->lock();
-				if ((locks = AtomicLoad(d_locks))) {
+				for (;;) {
+					l->lock();
+					if ((locks = AtomicLoad(d_locks))) {
+						l->unlock();
+						return this->template get_node<WaitForBucket>(locks, hash, l);
+					}
+					if (!WaitForBucket || d_buckets != get_static_node())
+						return (hash & d_hash_mask);
+					// Table not yet created, or cleared by another thread
 					l->unlock();
-					return this->template get_node<false>(locks, hash, l);
+					rehash_on_insert();
+					std::this_thread::yield();
 				}
-				return (hash & d_hash_mask);
 			}
 			template<bool WaitForBucket = true>
 			SEQ_CONCURRENT_INLINE auto get_node(lock_array* locks, size_t hash, node_lock*& l) -> size_t
@@ -980,8 +990,8 @@ namespace seq
 				size_t pos = hash & hash_mask;
 				l = &locks->at(pos);
 				this->lock(*l);
-				while ((WaitForBucket && d_buckets == get_static_node()) || hash_mask != d_hash_mask)
-					update_lock(locks, hash, hash_mask, pos, l);
+				while (hash_mask != d_hash_mask || (WaitForBucket && d_buckets == get_static_node()))
+					this->template update_lock<WaitForBucket>(locks, hash, hash_mask, pos, l);
 				return pos;
 			}
 
-- 
2.43.0


From a74acaecf565c35b4b77c6b480f5a814728c5616 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:52 +0000
Subject: [PATCH 08/40] fix: pointers published between threads were read with
 relaxed loads

---
 seq/internal/concurrent_hash_table.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index fd82b59..cedf208 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -205,7 +205,7 @@ namespace seq
 			// Allocate/initialize the array for given index (between 0 and 31)
 			lock_type* make_array(size_t index)
 			{
-				lock_type* l = arrays[index].load(std::memory_order_relaxed);
+				lock_type* l = arrays[index].load(std::memory_order_acquire);
 				if (l)
 					return l;
 				rebind_alloc<lock_type> al = *this;
@@ -233,7 +233,7 @@ namespace seq
 				}
 				auto operator*() const noexcept -> Lock&
 				{
-					lock_type* l = array->arrays[array_index].load(std::memory_order_relaxed);
+					lock_type* l = array->arrays[array_index].load(std::memory_order_acquire);
 					if SEQ_UNLIKELY (!l)
 						l = array->make_array(array_index);
 					return l[index];
@@ -279,7 +279,7 @@ namespace seq
 			{
 				unsigned ar_index = bit_scan_reverse_32(static_cast<unsigned>(i + 1u));
 				unsigned in_array = static_cast<unsigned>(i) - ((1u << ar_index) - 1u);
-				lock_type* l = arrays[ar_index].load(std::memory_order_relaxed);
+				lock_type* l = arrays[ar_index].load(std::memory_order_acquire);
 				if SEQ_UNLIKELY (!l)
 					l = const_cast<SharedLockArray*>(this)->make_array(ar_index);
 				return l[in_array];
@@ -305,11 +305,11 @@ namespace seq
 			return v;
 		}
 
-		/// @brief Relaxed atomic load
+		/// @brief Relaxed atomic load, or acquire load for pointers as the pointed object might just have been created by another thread
 		template<class T>
 		static SEQ_CONCURRENT_INLINE T AtomicLoad(const std::atomic<T>& v) noexcept
 		{
-			return v.load(std::memory_order_relaxed);
+			return v.load(std::is_pointer_v<T> ? std::memory_order_acquire : std::memory_order_relaxed);
 		}
 
 		/// @brief Movemask function of 8 bytes word
-- 
2.43.0


From a39f69261c2510fc1fdde474a8d465d24034e60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:52 +0000
Subject: [PATCH 09/40] fix: data race on the hash mask and rehash target read
 without lock

---
 seq/internal/concurrent_hash_table.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index cedf208..375bc4f 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -677,8 +677,8 @@ namespace seq
 			PrivateData* d_data;	       // pointer to upper PrivateData
 			lock_array_type d_locks;       // lock array
 			size_type d_size;	       // total size
-			size_t d_next_target;	       // next size before rehash
-			size_t d_hash_mask;	       // hash mask
+			size_type d_next_target;       // next size before rehash, atomic as it is read without lock
+			size_type d_hash_mask;	       // hash mask, atomic as it is read without lock
 			node_lock d_rehash_lock;       // unique lock for rehash
 			std::atomic<bool> d_in_rehash; // tells if we are in rehash
 			std::mutex d_rehash_mutex;
@@ -929,7 +929,7 @@ namespace seq
 			{
 				// Rehash on insert
 				size_t s = AtomicLoad(d_size);
-				if SEQ_UNLIKELY ((s >= d_next_target) && (d_buckets == get_static_node() || AtomicLoad(d_chain_count) > ((d_hash_mask + 1) >> 5)))
+				if SEQ_UNLIKELY ((s >= d_next_target) && (d_next_target == 0 || AtomicLoad(d_chain_count) > ((d_hash_mask + 1) >> 5)))
 					// delay rehash as long as there are few chains
 					rehash_on_next_target(s);
 			}
-- 
2.43.0


From 81bc3632e0d3c8fa8de0e72fa16737fc39ff93e3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:22 +0000
Subject: [PATCH 10/40] fix: copy assignment of the concurrent containers could
 deadlock, lost functors and mixed allocators

---
 seq/internal/concurrent_hash_table.hpp | 32 ++++++++++++--------------
 1 file changed, 15 insertions(+), 17 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 375bc4f..02fa383 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1693,9 +1693,7 @@ namespace seq
 			{
 			}
 			ConcurrentHashTable(const ConcurrentHashTable& other, const Alloc& alloc)
-			  : base_hash_equal(other)
-			  , Alloc(alloc)
-			  , d_data(PrivateData::make(alloc, other.hash_function(), other.key_eq()))
+			  : ConcurrentHashTable(other.get_hash_function(), other.get_key_eq(), alloc)
 			{
 				this->reserve(other.size());
 				other.visit_all([&](const Value& v) { this->emplace_policy_no_check<InsertConcurrentPolicy>(v); });
@@ -1705,9 +1703,7 @@ namespace seq
 			{
 			}
 			ConcurrentHashTable(ConcurrentHashTable&& other, const Alloc& alloc)
-			  : base_hash_equal(other)
-			  , Alloc(alloc)
-			  , d_data(PrivateData::make(alloc, other.hash_function(), other.key_eq()))
+			  : ConcurrentHashTable(other.get_hash_function(), other.get_key_eq(), alloc)
 			{
 				if (alloc == other.get_safe_allocator()) {
 					this->swap(other, false);
@@ -1736,17 +1732,19 @@ namespace seq
 			ConcurrentHashTable& operator=(const ConcurrentHashTable& other)
 			{
 				if (this != std::addressof(other)) {
-					clear();
-					{
-						// Allocator assignment
-						std::lock(d_data_lock, const_cast<data_lock_type&>(other.d_data_lock));
-						LockUnique<data_lock_type> l1(&d_data_lock, true);
-						LockUnique<data_lock_type> l2(&const_cast<data_lock_type&>(other.d_data_lock), true);
-
-						assign_allocator<Alloc>(*this, other.get_allocator());
-						assign_allocator<Alloc>(get_data_no_lock()->get_allocator(), other.get_allocator());
-					}
-					other.visit_all([this](const Value& v) { this->template emplace_policy<InsertConcurrentPolicy>([](const auto&) {}, v); });
+					// Copy first: no value is inserted in this table while a lock of other is held,
+					// and the functors are copied with the values
+					constexpr bool propagate = std::allocator_traits<Alloc>::propagate_on_container_copy_assignment::value;
+					ConcurrentHashTable tmp(other, propagate ? other.get_safe_allocator() : get_safe_allocator());
+
+					// Use the copy. The previous values are destroyed with tmp, using their own allocator.
+					LockUnique<data_lock_type> lock(d_data_lock);
+					PrivateData* data = AtomicLoad(d_data);
+					d_data = AtomicLoad(tmp.d_data);
+					tmp.d_data = data;
+					if constexpr (propagate)
+						std::swap(static_cast<Alloc&>(*this), static_cast<Alloc&>(tmp));
+					static_cast<base_hash_equal&>(*this).swap(tmp);
 				}
 				return *this;
 			}
-- 
2.43.0


From 9c876c0c000f132a374e14d3ccf8b26f86903b39 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:23 +0000
Subject: [PATCH 11/40] fix: data race in load_factor of the concurrent
 containers

---
 seq/internal/concurrent_hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index 02fa383..a14aebf 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1202,7 +1202,7 @@ namespace seq
 			SEQ_CONCURRENT_INLINE auto load_factor() const noexcept -> float
 			{
 				// Returns the current load factor
-				size_t bucket_count = d_buckets != get_static_node() ? d_hash_mask + 1u : 0u;
+				size_t bucket_count = d_next_target != 0 ? d_hash_mask + 1u : 0u;
 				return size() == 0 ? 0.f : static_cast<float>(size()) / static_cast<float>(bucket_count * node_type::size);
 			}
 			/// @brief Reserve enough space in the hash table
-- 
2.43.0


From a147ccff18492c750aba32a400bc6dea77a3e63b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:46:23 +0000
Subject: [PATCH 12/40] fix: comparison of concurrent maps converted the mapped
 values to the key type

---
 seq/utils.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seq/utils.hpp b/seq/utils.hpp
index df3fb5e..18b9f44 100644
--- a/seq/utils.hpp
+++ b/seq/utils.hpp
@@ -414,14 +414,14 @@ namespace seq
 				return value;
 			}
 
-			SEQ_ALWAYS_INLINE static auto value(const value_type& value) noexcept -> const key_type& { return value.second; }
+			SEQ_ALWAYS_INLINE static auto value(const value_type& value) noexcept -> const mapped_type& { return value.second; }
 			template<class U, class V>
-			SEQ_ALWAYS_INLINE static auto value(const std::pair<U, V>& value) noexcept -> const U&
+			SEQ_ALWAYS_INLINE static auto value(const std::pair<U, V>& value) noexcept -> const V&
 			{
 				return value.second;
 			}
 			template<class U, class V>
-			SEQ_ALWAYS_INLINE static auto value(const std::pair<const U, V>& value) noexcept -> const U&
+			SEQ_ALWAYS_INLINE static auto value(const std::pair<const U, V>& value) noexcept -> const V&
 			{
 				return value.second;
 			}
-- 
2.43.0


From c5ade6bb22dd392bc57c426b46bf87cc56ab2054 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:27 +0000
Subject: [PATCH 13/40] fix: radix containers: members that did not compile
 (merge, move with allocator, bounds with a non radix key)

---
 seq/internal/radix_tree.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 3c129f2..0181e36 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -1937,7 +1937,7 @@ namespace seq
 				if (alloc == other.get_allocator())
 					swap(other, false);
 				else if (other.size())
-					insert(make_move_iterator(other.begin()), make_move_iterator(other.end()), false);
+					insert(std::make_move_iterator(other.begin()), std::make_move_iterator(other.end()), false);
 			}
 
 			template<class Iter>
@@ -1991,7 +1991,7 @@ namespace seq
 
 				auto it = other.begin();
 				while (it != other.end()) {
-					if (this->insert(std::move(const_cast<value_type&>(*it))).second)
+					if (this->emplace(std::move(const_cast<value_type&>(*it))).second)
 						it = other.erase(it);
 					else
 						++it;
@@ -3311,7 +3311,7 @@ namespace seq
 			template<class U>
 			SEQ_ALWAYS_INLINE const_iterator lower_bound(const U& k) const
 			{
-				return lower_bound_hash(hash_key(k), k);
+				return lower_bound_hash(hash_key(k), ExtractKey{}(k));
 			}
 
 			SEQ_ALWAYS_INLINE const_iterator upper_bound_hash(const_hash_ref hash, const key_type& key) const
@@ -3324,7 +3324,7 @@ namespace seq
 			template<class U>
 			SEQ_ALWAYS_INLINE const_iterator upper_bound(const U& k) const
 			{
-				return upper_bound_hash(hash_key(k), k);
+				return upper_bound_hash(hash_key(k), ExtractKey{}(k));
 			}
 
 			/// @brief Find key based on its hash value
@@ -3340,7 +3340,7 @@ namespace seq
 			template<class U>
 			SEQ_ALWAYS_INLINE const_iterator prefix(const U& k) const
 			{
-				return prefix_hash(hash_key(k), k);
+				return prefix_hash(hash_key(k), ExtractKey{}(k));
 			}
 
 			class const_prefix_iterator
-- 
2.43.0


From 446cb9dd14ef6e3a527da8f51242df5baa33ca7b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:15:27 +0000
Subject: [PATCH 14/40] fix: flat containers: assign and insert of non random
 access ranges wrote through end()

---
 seq/flat_map.hpp | 83 +++++++++---------------------------------------
 1 file changed, 15 insertions(+), 68 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index c357539..f088395 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -444,64 +444,17 @@ namespace seq
 			template<class Iter, class Cat>
 			void assign_cat(Iter first, Iter last, Cat /*unused*/)
 			{
-				iterator it = d_deque.begin();
-				iterator en = d_deque.end();
-				bool sorted = true;
-				bool unique = true;
-
 				// Copy the range [first,last) to the tiered_vector using already allocated memory
+				d_deque.assign(first, last);
 
-				Iter prev = first;
-				size_type count = 1;
-				if (d_deque.size() > 0) {
-					*it = *first;
-					++it;
-					++first;
-				}
-				else {
-					d_deque.push_back(*first);
-					++first;
-				}
-
-				while (it != en && first != last) {
-					*it = *first;
-					if (sorted) {
-						if ((*this)(*first, *prev))
-							sorted = false;
-						else if (Unique && !(*this)(*prev, *first))
-							unique = false;
-					}
-					++it;
-					prev = first;
-					++first;
-					++count;
-				}
-				while (first != last) {
-					push_back(*first);
-					if (sorted) {
-						if ((*this)(*first, *prev))
-							sorted = false;
-						else if (Unique && !(*this)(*prev, *first))
-							unique = false;
-						prev = first;
-					}
-
-					++first;
-					++count;
-				}
-
-				// Resize if the tiered_vector was bigger
-				resize(count);
-
-				// Sort if necessary, remove non unique values if necessary
-				if (!sorted)
+				// Sort if necessary, remove non unique values
+				if (!std::is_sorted(d_deque.begin(), d_deque.end(), base()))
 					sort_full_deque<Stable>(d_deque, base());
-				if constexpr (Unique)
-					if ((!sorted || !unique)) {
-						iterator it =
-						  std::unique(d_deque.begin(), d_deque.end(), [this](const auto& l, const auto& r) { return !this->base()(extract_key::key(l), extract_key::key(r)); });
-						d_deque.erase(it, d_deque.end());
-					}
+				if constexpr (Unique) {
+					iterator it =
+					  std::unique(d_deque.begin(), d_deque.end(), [this](const auto& l, const auto& r) { return !this->base()(extract_key::key(l), extract_key::key(r)); });
+					d_deque.erase(it, d_deque.end());
+				}
 				d_deque.manager()->update_all_back_values();
 			}
 
@@ -746,20 +699,14 @@ namespace seq
 
 				size_t size_before = d_deque.size();
 
-				if constexpr (is_random_access_v<InputIt>)
-					// Resize tiered_vector
-					d_deque.resize(std::distance(first, last) + size_before);
-
 				// Append input to tiered_vector
-				auto dit = d_deque.begin() + static_cast<difference_type>(size_before);
-				if constexpr (is_random_access_v<InputIt>)
-					std::copy(first, last, dit);
+				if constexpr (is_random_access_v<InputIt>) {
+					d_deque.resize(std::distance(first, last) + size_before);
+					std::copy(first, last, d_deque.begin() + static_cast<difference_type>(size_before));
+				}
 				else {
-					while (first != last) {
-						*dit = *first;
-						++first;
-						++dit;
-					}
+					for (; first != last; ++first)
+						d_deque.push_back(*first);
 				}
 
 				if constexpr (!std::is_same_v<Tag, sorted_unique_t> && !std::is_same_v<Tag, sorted_equivalent_t>)
@@ -777,7 +724,7 @@ namespace seq
 				d_deque.manager()->update_all_back_values();
 			}
 
-			template<class InputIt, class Tag>
+			template<class Tag>
 			void insert(std::initializer_list<value_type> ilist, Tag t)
 			{
 				insert(ilist.begin(), ilist.end(), t);
-- 
2.43.0


From a3e99aef3224ffc3a127c37ba24b8f35893636a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:44 +0000
Subject: [PATCH 15/40] fix: constant value iterator copied its value in
 noexcept functions

---
 seq/utils.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seq/utils.hpp b/seq/utils.hpp
index 18b9f44..583e283 100644
--- a/seq/utils.hpp
+++ b/seq/utils.hpp
@@ -270,7 +270,7 @@ namespace seq
 			++pos;
 			return *this;
 		}
-		auto operator++(int) noexcept -> cvalue_iterator
+		auto operator++(int) -> cvalue_iterator
 		{
 			cvalue_iterator _Tmp = *this;
 			++(*this);
@@ -282,7 +282,7 @@ namespace seq
 			--pos;
 			return *this;
 		}
-		auto operator--(int) noexcept -> cvalue_iterator
+		auto operator--(int) -> cvalue_iterator
 		{
 			cvalue_iterator _Tmp = *this;
 			--(*this);
@@ -307,13 +307,13 @@ namespace seq
 	};
 
 	template<class T>
-	auto operator+(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept -> cvalue_iterator<T>
+	auto operator+(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) -> cvalue_iterator<T>
 	{
 		cvalue_iterator<T> res = it;
 		return res += diff;
 	}
 	template<class T>
-	auto operator-(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) noexcept -> cvalue_iterator<T>
+	auto operator-(const cvalue_iterator<T>& it, typename cvalue_iterator<T>::difference_type diff) -> cvalue_iterator<T>
 	{
 		cvalue_iterator<T> res = it;
 		return res -= diff;
-- 
2.43.0


From d4ab80ef8b7dc4ab1624cdd5357227b163a07846 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:44 +0000
Subject: [PATCH 16/40] fix: swap_branchless was noexcept whatever the swap of
 the elements does

---
 seq/algorithm.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index b3a6f5e..c4b952c 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -810,7 +810,7 @@ namespace seq
 		}
 
 		template<class T>
-		SEQ_ALWAYS_INLINE void swap_branchless(T&& a, T&& b, bool b_is_less) noexcept
+		SEQ_ALWAYS_INLINE void swap_branchless(T&& a, T&& b, bool b_is_less) noexcept(std::is_nothrow_swappable_v<std::remove_reference_t<T>>)
 		{
 			// Swap elements based on is_less.
 			// Uses branchless swap for relocatable types.
-- 
2.43.0


From 8e6d4619bd24ae088b9be47a6888c0f722d226fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:44 +0000
Subject: [PATCH 17/40] fix: constructors of ordered containers allocate and
 are not noexcept

---
 seq/ordered_map.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 7297ed9..575b360 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -1056,7 +1056,7 @@ namespace seq
 		/// @param hash hash function to use
 		/// @param equal comparison function to use for all key comparisons of this container
 		/// @param alloc allocator to use for all memory allocations of this container
-		ordered_set(const Hash& hash = Hash(), const KeyEqual& equal = KeyEqual(), const Allocator& alloc = Allocator()) noexcept
+		ordered_set(const Hash& hash = Hash(), const KeyEqual& equal = KeyEqual(), const Allocator& alloc = Allocator())
 		  : base_type(hash, equal, alloc)
 		{
 		}
@@ -1564,7 +1564,7 @@ namespace seq
 		using pointer = typename std::allocator_traits<Allocator>::pointer;
 		using const_pointer = typename std::allocator_traits<Allocator>::const_pointer;
 
-		ordered_map(const Hash& hash = Hash(), const KeyEqual& equal = KeyEqual(), const Allocator& alloc = Allocator()) noexcept
+		ordered_map(const Hash& hash = Hash(), const KeyEqual& equal = KeyEqual(), const Allocator& alloc = Allocator())
 		  : base_type(hash, equal, alloc)
 		{
 		}
-- 
2.43.0


From e34d2afde758cc67152b5a312c351435878577ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:44 +0000
Subject: [PATCH 18/40] fix: tiered_vector swallowed exceptions while copying
 another container and kept a dangling pointer

---
 seq/tiered_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index c1b298a..1dbe84e 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -2680,6 +2680,7 @@ namespace seq
 			}
 			catch (...) {
 				alloc.deallocate(res, 1);
+				throw;
 			}
 			return res;
 		}
-- 
2.43.0


From 8949b616d3c9c06643a45f355bdb76ce74e93acd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:44 +0000
Subject: [PATCH 19/40] fix: radix containers terminated when hash, equality or
 allocation throws

---
 seq/internal/radix_tree.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 0181e36..6e499a8 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -648,7 +648,7 @@ namespace seq
 
 			SEQ_ALWAYS_INLINE std::uint8_t tiny_hash() const noexcept { return static_cast<std::uint8_t>(this->value >> ((sizeof(size_t) - 8) * 8)); }
 			template<class U>
-			SEQ_ALWAYS_INLINE auto hash(const U& k) const noexcept
+			SEQ_ALWAYS_INLINE auto hash(const U& k) const noexcept(noexcept(hash_value(std::declval<const Hash&>(), k)))
 			{
 				return this_type(hash_value(static_cast<const Hash&>(*this), k), *this, *this);
 			}
@@ -658,7 +658,7 @@ namespace seq
 				return Less{}(l, r);
 			}
 			template<class L, class R>
-			SEQ_ALWAYS_INLINE bool equal(const L& l, const R& r) const noexcept
+			SEQ_ALWAYS_INLINE bool equal(const L& l, const R& r) const noexcept(noexcept(std::declval<const Equal&>()(l, r)))
 			{
 				return Equal::operator()(l, r);
 			}
@@ -2709,7 +2709,7 @@ namespace seq
 			}
 
 			template<class U>
-			SEQ_ALWAYS_INLINE auto check_prefix_insert(directory* dir, directory* d, size_t& hash_bits, unsigned pos, const hash_type& hash, const U& value) noexcept -> directory*
+			SEQ_ALWAYS_INLINE auto check_prefix_insert(directory* dir, directory* d, size_t& hash_bits, unsigned pos, const hash_type& hash, const U& value) -> directory*
 			{
 				// Check if the value to insert follows the directory prefix.
 				// If not, create an intermediate directory with a new prefix.
-- 
2.43.0


From 651ddbc7ab939a4b8cd58bc8258f8f4f19c6380b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:46:44 +0000
Subject: [PATCH 20/40] fix: concurrent containers terminated when a hash or a
 visitor throws

---
 seq/internal/concurrent_hash_table.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index a14aebf..abc27bf 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -494,8 +494,8 @@ namespace seq
 		/// @brief Find given value in a dense node.
 		/// Performs lookup on the full chain.
 		template<class ExtractKey, class Equal, class K, class Value, class F>
-		auto FindInDense(std::uint8_t th, const Equal& eq, K&& key, const ConcurrentDenseNode<Value>* n, F&& f) noexcept(noexcept(eq(std::forward<K>(key),
-																	     ExtractKey::key(std::declval<Value&>())))) -> size_t
+		auto FindInDense(std::uint8_t th, const Equal& eq, K&& key, const ConcurrentDenseNode<Value>* n, F&& f) noexcept(
+		  noexcept(eq(ExtractKey::key(std::declval<const Value&>()), std::forward<K>(key))) && noexcept(std::forward<F>(f)(std::declval<Value&>()))) -> size_t
 		{
 			do {
 				auto v = FindWithTh<ExtractKey, chain_concurrent_node_size>(th, eq, std::forward<K>(key), n->hashs, n->values());
@@ -511,7 +511,7 @@ namespace seq
 		/// Performs lookup on the full chain.
 		template<class ExtractKey, class Equal, class K, class Value, class F>
 		SEQ_CONCURRENT_INLINE auto FindInNode(std::uint8_t th, const Equal& eq, K&& key, const ConcurrentHashNode* node, const ConcurrentValueNode<Value>* values, F&& f) noexcept(
-		  noexcept(eq(std::forward<K>(key), ExtractKey::key(std::declval<Value&>())))) -> size_t
+		  noexcept(eq(ExtractKey::key(std::declval<const Value&>()), std::forward<K>(key))) && noexcept(std::forward<F>(f)(std::declval<Value&>()))) -> size_t
 		{
 			if (auto v = FindWithTh<ExtractKey, max_concurrent_node_size>(th, eq, std::forward<K>(key), node->hashs, values->values())) {
 				std::forward<F>(f)(const_cast<Value&>(*v));
@@ -1585,7 +1585,7 @@ namespace seq
 				SEQ_CONCURRENT_INLINE auto max_load_factor() const noexcept -> float { return AtomicLoad(load_factor); }
 
 				template<class K>
-				SEQ_CONCURRENT_INLINE auto hash_key(const K& key) const noexcept -> size_t
+				SEQ_CONCURRENT_INLINE auto hash_key(const K& key) const -> size_t
 				{
 					return hash_map::hash_key(this->hash_function(), key);
 				}
-- 
2.43.0


From 88fc58763cbd4ffc6b0971fa1aca72a00649f6ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:30:58 +0000
Subject: [PATCH 21/40] fix: radix containers: const operations raced on the
 cached first child

---
 seq/internal/radix_tree.hpp | 45 ++++++++++++++++++++++++++-----------
 1 file changed, 32 insertions(+), 13 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 6e499a8..68701bf 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -25,6 +25,7 @@
 #ifndef SEQ_RADIX_TREE_HPP
 #define SEQ_RADIX_TREE_HPP
 
+#include <atomic>
 #include "../bits.hpp"
 #include "../tagged_pointer.hpp"
 #include "../hash.hpp"
@@ -1192,11 +1193,25 @@ namespace seq
 			static constexpr unsigned alloc_size = sizeof(uint64_t);
 			static constexpr uint64_t invalid = static_cast<uint64_t>(-1);
 
+			/// @brief Cached position, possibly updated by concurrent const operations
+			class CachedPos
+			{
+				std::atomic<uint64_t> value{ static_cast<uint64_t>(-1) };
+
+			public:
+				SEQ_ALWAYS_INLINE operator uint64_t() const noexcept { return value.load(std::memory_order_relaxed); }
+				SEQ_ALWAYS_INLINE CachedPos& operator=(uint64_t v) noexcept
+				{
+					value.store(v, std::memory_order_relaxed);
+					return *this;
+				}
+			};
+
 			unsigned hash_len = 0;		      // hash len in bits, size = 1 << hash_len
 			unsigned dir_count = 0;		      // number of directories inside
 			unsigned child_count = 0;	      // total number of children
 			unsigned parent_pos = 0;	      // position within parent directory
-			uint64_t first_valid_child = invalid; // position of the first valid child, if possible a leaf node.
+			CachedPos first_valid_child; // position of the first valid child, if possible a leaf node.
 			uint64_t prefix_len = 0;	      // prefix len in bits.
 			Directory* parent = nullptr;	      // parent directory (null for root leaf)
 
@@ -1204,15 +1219,17 @@ namespace seq
 			/// This is used to get the prefix bits of this directory.
 			const T& any_child() const noexcept
 			{
-				if (first_valid_child == invalid)
-					const_cast<Directory*>(this)->compute_first_valid();
-				SEQ_ASSERT_DEBUG(first_valid_child < size(), "");
-				child_ptr ch = const_child((unsigned)first_valid_child);
+				uint64_t pos = first_valid_child;
+				if (pos == invalid)
+					pos = const_cast<Directory*>(this)->compute_first_valid();
+				SEQ_ASSERT_DEBUG(pos < size(), "");
+				child_ptr ch = const_child((unsigned)pos);
 				while (ch.tag() == IsDir) {
 					auto dir = ch.to_dir();
-					if (dir->first_valid_child == invalid)
-						dir->compute_first_valid();
-					ch = dir->const_child((unsigned)dir->first_valid_child);
+					pos = dir->first_valid_child;
+					if (pos == invalid)
+						pos = dir->compute_first_valid();
+					ch = dir->const_child((unsigned)pos);
 				}
 
 				if (ch.tag() == IsLeaf)
@@ -1220,17 +1237,19 @@ namespace seq
 				return ch.to_vector()->back();
 			}
 			/// @brief Recompute the first valid position within the directory, and if possible a leaf node
-			void compute_first_valid() noexcept
+			uint64_t compute_first_valid() noexcept
 			{
-				first_valid_child = invalid;
+				uint64_t pos = invalid;
 				for (unsigned i = 0; i < size(); ++i) {
 					if (const_child(i).tag() == IsLeaf) {
-						first_valid_child = i;
+						pos = i;
 						break;
 					}
-					else if (const_child(i).tag() && first_valid_child == invalid)
-						first_valid_child = i;
+					else if (const_child(i).tag() && pos == invalid)
+						pos = i;
 				}
+				first_valid_child = pos;
+				return pos;
 			}
 			SEQ_ALWAYS_INLINE void invalidate_first_valid() noexcept { first_valid_child = invalid; }
 
-- 
2.43.0


From 0f89428f58ff71599e4843531d4e33281be1b0bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 22/40] fix: ordered containers: copy assignment kept the old
 table and functors, swap left functors in place, dirty rehash wrote out of
 bounds

---
 seq/ordered_map.hpp | 97 +++++++++++++++++++++++++--------------------
 1 file changed, 54 insertions(+), 43 deletions(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 575b360..29b7706 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -257,6 +257,17 @@ namespace seq
 			float d_load_factor;  // maximum load factor
 
 		private:
+			// Mark the table as dirty on destruction, unless table is null
+			struct DirtyGuard
+			{
+				SparseFlatNodeHashTable* table;
+				~DirtyGuard() noexcept
+				{
+					if (table)
+						table->mark_dirty();
+				}
+			};
+
 			static auto null_node() -> node_type*
 			{
 				// Null node used to initialize d_buckets (avoid a check on lookup)
@@ -296,18 +307,15 @@ namespace seq
 				// The old table is dropped before creating the new one, avoiding memory peaks.
 				// Do not check for potential duplicate values.
 
-				try {
-					free_buckets(d_buckets);
-					d_buckets = null_node();
-					d_next_target = d_hash_mask = d_hash_len = 0;
-					d_max_dist = 1;
-					d_buckets = make_buckets((new_hash_mask + 1ULL));
-				}
-				catch (...) {
-					// mark as dirty
-					mark_dirty();
-					throw;
-				}
+				// mark as dirty in case of exception, including from the hash function or the comparison
+				DirtyGuard guard{ this };
+				free_buckets(d_buckets);
+				d_buckets = null_node();
+				d_next_target = d_hash_mask = d_hash_len = 0;
+				d_max_dist = 1;
+				d_buckets = make_buckets((new_hash_mask + 1ULL));
+				d_hash_mask = new_hash_mask;
+				d_hash_len = new_hash_len;
 
 				size_t hash, index;
 				size_t hmask = new_hash_mask;
@@ -355,9 +363,8 @@ namespace seq
 					d_buckets[index] = node_type(node_type::small_hash(hash), index == mask_hash(hash, new_hash_mask, new_hash_len) ? 0 : node_type::max_distance, first.as_uint());
 				}
 
-				d_hash_mask = new_hash_mask;
-				d_hash_len = new_hash_len;
 				d_next_target = static_cast<size_t>(static_cast<double>(bucket_size()) * static_cast<double>(d_load_factor));
+				guard.table = nullptr;
 			}
 
 			template<class Iter>
@@ -367,17 +374,15 @@ namespace seq
 				// The old table is dropped before creating the new one, avoiding memory peaks.
 				// Check for potential duplicate values, and erase duplicates from the sequence object in a stable way.
 
-				try {
-					free_buckets(d_buckets);
-					d_buckets = null_node();
-					d_next_target = d_hash_mask = d_hash_len = 0;
-					d_max_dist = 1;
-					d_buckets = make_buckets((new_hash_mask + 1ULL));
-				}
-				catch (...) {
-					mark_dirty();
-					throw;
-				}
+				// mark as dirty in case of exception, including from the hash function or the comparison
+				DirtyGuard guard{ this };
+				free_buckets(d_buckets);
+				d_buckets = null_node();
+				d_next_target = d_hash_mask = d_hash_len = 0;
+				d_max_dist = 1;
+				d_buckets = make_buckets((new_hash_mask + 1ULL));
+				d_hash_mask = new_hash_mask;
+				d_hash_len = new_hash_len;
 
 				size_t hash, index, dist;
 				size_t bsize = new_hash_mask + 1ULL;
@@ -429,14 +434,13 @@ namespace seq
 						node_type n = node_type(static_cast<tiny_hash>(h), static_cast<dist_type>(dist), it.as_uint());
 						std::swap(n, d_buckets[index]);
 						if (dist)
-							start_insert(d_buckets, bsize, index, static_cast<dist_type>(dist), n);
+							start_insert(d_buckets, new_hash_mask, index, static_cast<dist_type>(dist), n);
 					}
 					++it;
 				}
 
-				d_hash_mask = new_hash_mask;
-				d_hash_len = new_hash_len;
 				d_next_target = static_cast<size_t>(static_cast<double>(bucket_size()) * static_cast<double>(d_load_factor));
+				guard.table = nullptr;
 			}
 
 			SEQ_ALWAYS_INLINE void start_insert(node_type* buckets, size_t hash_mask, size_t index, typename node_type::dist_type dist, node_type node) noexcept
@@ -532,11 +536,28 @@ namespace seq
 
 			~SparseFlatNodeHashTable() { free_buckets(d_buckets); }
 
+			void copy_assign(const SparseFlatNodeHashTable& other)
+			{
+				// Drop the current table: it refers to the previous values and belongs to the previous allocator.
+				// The table is dirty until all values are copied.
+				free_buckets(d_buckets);
+				d_buckets = null_node();
+				d_next_target = d_hash_mask = d_hash_len = 0;
+				mark_dirty();
+
+				if constexpr (std::is_copy_assignable_v<Hash> && std::is_copy_assignable_v<Equal>)
+					base_type::operator=(other);
+				d_seq = other.d_seq;
+				d_load_factor = other.d_load_factor;
+				if (!other.dirty())
+					d_max_dist = 1;
+				rehash(0, true);
+			}
+
 			void swap(SparseFlatNodeHashTable& other) noexcept(
 			  noexcept(std::declval<sequence_type&>().swap(std::declval<sequence_type&>())) && noexcept(std::declval<base_type&>().swap(std::declval<base_type&>())))
 			{
 				if (this != std::addressof(other)) {
-					std::swap(static_cast<base_type&>(*this), static_cast<base_type&>(other));
 					std::swap(d_buckets, other.d_buckets);
 					std::swap(d_hash_mask, other.d_hash_mask);
 					std::swap(d_hash_len, other.d_hash_len);
@@ -1161,13 +1182,8 @@ namespace seq
 		/// @brief Copy assignment operator
 		auto operator=(const ordered_set& other) -> ordered_set&
 		{
-			if (this != std::addressof(other)) {
-				this->d_seq = other.sequence();
-				if (other.dirty())
-					this->mark_dirty();
-				max_load_factor(other.max_load_factor());
-				rehash();
-			}
+			if (this != std::addressof(other))
+				base_type::copy_assign(other);
 			return *this;
 		}
 
@@ -1627,13 +1643,8 @@ namespace seq
 
 		auto operator=(const ordered_map& other) -> ordered_map&
 		{
-			if (this != std::addressof(other)) {
-				this->d_seq = other.sequence();
-				if (other.dirty())
-					this->mark_dirty();
-				max_load_factor(other.max_load_factor());
-				rehash();
-			}
+			if (this != std::addressof(other))
+				base_type::copy_assign(other);
 			return *this;
 		}
 		auto operator=(ordered_map&& other) noexcept(noexcept(std::declval<base_type&>().swap(std::declval<base_type&>()))) -> ordered_map&
-- 
2.43.0


From 72c1fb5b0c321e40f208c49d51255e3e86a548a6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:09:59 +0000
Subject: [PATCH 23/40] fix: radix containers: hash and equality objects did
 not follow the values

---
 seq/internal/radix_tree.hpp | 24 ++++++++++++++++++------
 seq/radix_hash_map.hpp      |  8 ++++----
 2 files changed, 22 insertions(+), 10 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 68701bf..e28f5db 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -663,6 +663,8 @@ namespace seq
 			{
 				return Equal::operator()(l, r);
 			}
+			SEQ_ALWAYS_INLINE const Hash& hash_function() const noexcept { return *this; }
+			SEQ_ALWAYS_INLINE const Equal& key_eq() const noexcept { return *this; }
 		};
 
 	}
@@ -1945,7 +1947,7 @@ namespace seq
 			  , d_data(nullptr)
 			  , d_root(get_null_dir())
 			{
-				swap(other, false);
+				swap_data(other);
 			}
 			RadixTree(RadixTree&& other, const Allocator& alloc)
 			  : Hash(other)
@@ -1954,7 +1956,7 @@ namespace seq
 			  , d_root(get_null_dir())
 			{
 				if (alloc == other.get_allocator())
-					swap(other, false);
+					swap_data(other);
 				else if (other.size())
 					insert(std::make_move_iterator(other.begin()), std::make_move_iterator(other.end()), false);
 			}
@@ -1983,6 +1985,8 @@ namespace seq
 			{
 				if (std::addressof(other) != this) {
 					clear();
+					if constexpr (std::is_copy_assignable_v<Hash>)
+						static_cast<Hash&>(*this) = static_cast<const Hash&>(other);
 					assign_allocator<Allocator>(*this, other);
 					insert(other.begin(), other.end(), false);
 				}
@@ -2045,13 +2049,21 @@ namespace seq
 			/// @brief Destroy and deallocate all values, directories and nodes
 			void clear() { destroy_data(); }
 
-			/// @brief Swap 2 radix trees
-			void swap(RadixTree& other, bool swap_alloc = true) noexcept(noexcept(swap_allocator(std::declval<Allocator&>(), std::declval<Allocator&>())))
+			/// @brief Swap values, but neither hash functors nor allocators
+			void swap_data(RadixTree& other) noexcept
 			{
 				std::swap(d_data, other.d_data);
 				std::swap(d_root, other.d_root);
-				if (swap_alloc)
-					swap_allocator<Allocator>(*this, other);
+			}
+
+			/// @brief Swap 2 radix trees
+			void swap(RadixTree& other) noexcept(noexcept(swap_allocator(std::declval<Allocator&>(), std::declval<Allocator&>())) &&
+							     (!std::is_swappable_v<Hash> || std::is_nothrow_swappable_v<Hash>))
+			{
+				if constexpr (std::is_swappable_v<Hash>)
+					std::swap(static_cast<Hash&>(*this), static_cast<Hash&>(other));
+				swap_data(other);
+				swap_allocator<Allocator>(*this, other);
 			}
 
 			/// @brief Reserve capcity ahead, only works for unsorted trees
diff --git a/seq/radix_hash_map.hpp b/seq/radix_hash_map.hpp
index ecf36a8..5fe626f 100644
--- a/seq/radix_hash_map.hpp
+++ b/seq/radix_hash_map.hpp
@@ -250,7 +250,7 @@ namespace seq
 		/// @brief Returns the hash function
 		SEQ_ALWAYS_INLINE auto hash_function() const noexcept -> const hasher& { return d_tree.hash_function(); }
 		/// @brief Returns the equality comparison function
-		SEQ_ALWAYS_INLINE auto key_eq() const noexcept -> key_equal { return key_equal{}; }
+		SEQ_ALWAYS_INLINE auto key_eq() const noexcept -> key_equal { return d_tree.key_eq(); }
 
 		/// @brief Returns an iterator to the first element of the container.
 		SEQ_ALWAYS_INLINE auto end() noexcept -> iterator { return d_tree.end(); }
@@ -661,8 +661,8 @@ namespace seq
 		  : d_tree(std::move(other.d_tree), alloc)
 		{
 		}
-		radix_hash_map(std::initializer_list<value_type> init, const Hash& hash = Hash(), const key_equal& = key_equal(), const Allocator& alloc = Allocator())
-		  : radix_hash_map(init.begin(), init.end(), hash, key_equal(), alloc)
+		radix_hash_map(std::initializer_list<value_type> init, const Hash& hash = Hash(), const key_equal& eq = key_equal(), const Allocator& alloc = Allocator())
+		  : radix_hash_map(init.begin(), init.end(), hash, eq, alloc)
 		{
 		}
 		radix_hash_map(std::initializer_list<value_type> init, const Hash& hash, const Allocator& alloc)
@@ -697,7 +697,7 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto get_allocator() const noexcept -> const allocator_type& { return this->d_tree.get_allocator(); }
 
 		SEQ_ALWAYS_INLINE auto hash_function() const -> hasher { return this->d_tree.hash_function(); }
-		SEQ_ALWAYS_INLINE auto key_eq() const -> key_equal { return KeyEqual{}; }
+		SEQ_ALWAYS_INLINE auto key_eq() const -> key_equal { return this->d_tree.key_eq(); }
 
 		SEQ_ALWAYS_INLINE auto end() noexcept -> iterator { return this->d_tree.end(); }
 		SEQ_ALWAYS_INLINE auto end() const noexcept -> const_iterator { return this->d_tree.end(); }
-- 
2.43.0


From 60350f297665c574c3e9881ec1d5a358033354fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:14:37 +0000
Subject: [PATCH 24/40] fix: radix hash containers ignored the equality object
 in leaves

---
 seq/internal/radix_tree.hpp | 21 +++++++++++++++++----
 1 file changed, 17 insertions(+), 4 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index e28f5db..bcdc900 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -1682,6 +1682,19 @@ namespace seq
 			}
 		};
 
+		/// @brief Equal functor used by leaf nodes, uses the equality object of the tree
+		template<class Hasher, class ExtractKey>
+		struct LeafEqual
+		{
+			using is_transparent = int;
+			const Hasher* hasher;
+			template<class U, class V>
+			bool operator()(const U& a, const V& b) const noexcept(noexcept(std::declval<const Hasher&>().equal(ExtractKey{}(a), ExtractKey{}(b))))
+			{
+				return hasher->equal(ExtractKey{}(a), ExtractKey{}(b));
+			}
+		};
+
 		/// @brief Sorted vector node based on seq::flat_set
 		template<class T, class Hasher, class ExtractKey, class Allocator, bool sorted = true>
 		struct VectorNode
@@ -1838,7 +1851,7 @@ namespace seq
 			/// @brief Less structure operating on keys
 			using Less = VectorLess<Hash, ExtractKey>;
 			/// @brief Equal structure operating on keys
-			using Equal = VectorEqual<Hash, ExtractKey>;
+			using Equal = LeafEqual<Hash, ExtractKey>;
 
 			/// @brief Internal data
 			struct PrivateData
@@ -2765,7 +2778,7 @@ namespace seq
 			insert_in_leaf(directory* dir, node* child, size_t hash_bits, unsigned pos, const_hash_ref hash, std::uint8_t th, Policy policy, K&& key, Args&&... args)
 			{
 				// find key in node
-				auto found = child->template find_insert<EnsureSorted, extract_key_type, Equal, Less>(Equal{}, hash_bits, th, ExtractKey{}(key));
+				auto found = child->template find_insert<EnsureSorted, extract_key_type, Equal, Less>(Equal{ this }, hash_bits, th, ExtractKey{}(key));
 
 				if (found.first)
 					// key already exists!
@@ -3208,7 +3221,7 @@ namespace seq
 							return find_in_vector(d, bit_pos, pos, d->children()[pos].to_vector(), key);
 
 						case directory::IsLeaf:
-							th = d->children()[pos].to_node()->template find<extract_key_type, Equal, Less>(Equal{}, bit_pos, static_cast<std::uint8_t>(th), key);
+							th = d->children()[pos].to_node()->template find<extract_key_type, Equal, Less>(Equal{ this }, bit_pos, static_cast<std::uint8_t>(th), key);
 							if (th != static_cast<unsigned>(-1))
 								return const_iterator(d_data, d, pos, th, bit_pos);
 							return cend();
@@ -3252,7 +3265,7 @@ namespace seq
 							return find_in_vector_ptr(d, bit_pos, pos, d->children()[pos].to_vector(), key);
 
 						case directory::IsLeaf:
-							th = d->children()[pos].to_node()->template find<extract_key_type, Equal, Less>(Equal{}, bit_pos, static_cast<std::uint8_t>(th), key);
+							th = d->children()[pos].to_node()->template find<extract_key_type, Equal, Less>(Equal{ this }, bit_pos, static_cast<std::uint8_t>(th), key);
 							if (th != static_cast<unsigned>(-1))
 								return d->children()[pos].to_node()->values() + th;
 							return nullptr;
-- 
2.43.0


From 823932a5d61083e81ad6e21547ffe608841ecf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:28:01 +0000
Subject: [PATCH 25/40] fix: constructors of tiered_vector and sequence leaked
 when an element throws

---
 seq/sequence.hpp      | 31 +++++++++++++++++--------------
 seq/tiered_vector.hpp | 35 +++++++++++------------------------
 2 files changed, 28 insertions(+), 38 deletions(-)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index c525005..b8c5fc2 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -1356,6 +1356,16 @@ namespace seq
 			}
 		}
 
+		// Empty sequence without internal data
+		struct no_data
+		{
+		};
+		sequence(const Allocator& al, no_data) noexcept(std::is_nothrow_copy_constructible_v<Allocator>)
+		  : Allocator(al)
+		  , d_data(nullptr)
+		{
+		}
+
 	public:
 		/// @brief Default constructor, initialize internal data
 		sequence() noexcept(std::is_nothrow_default_constructible_v<Allocator>)
@@ -1375,8 +1385,7 @@ namespace seq
 		/// @param value fill value
 		/// @param al allocator object
 		sequence(size_type count, const T& value, const Allocator& al = Allocator())
-		  : Allocator(al)
-		  , d_data(make_data(al))
+		  : sequence(al)
 		{
 			resize(count, value);
 		}
@@ -1384,16 +1393,14 @@ namespace seq
 		/// @param count initial size
 		/// @param al allocator object
 		explicit sequence(size_type count, const Allocator& al = Allocator())
-		  : Allocator(al)
-		  , d_data(make_data(al))
+		  : sequence(al)
 		{
 			resize(count);
 		}
 		/// @brief Copy constructor
 		/// @param other input sequence to copy
 		sequence(const sequence& other)
-		  : Allocator(copy_allocator(other.get_allocator()))
-		  , d_data(nullptr)
+		  : sequence(copy_allocator(other.get_allocator()), no_data{})
 		{
 			if (other.size())
 				import(other);
@@ -1402,8 +1409,7 @@ namespace seq
 		/// @param other input sequence to copy
 		/// @param al allocator object
 		sequence(const sequence& other, const Allocator& al)
-		  : Allocator(al)
-		  , d_data(nullptr)
+		  : sequence(al, no_data{})
 		{
 			if (other.size())
 				import(other);
@@ -1420,8 +1426,7 @@ namespace seq
 		/// @param other another container to be used as source to initialize the elements of the container with
 		/// @param alloc allocator object
 		sequence(sequence&& other, const Allocator& alloc)
-		  : Allocator(alloc)
-		  , d_data(make_data(alloc))
+		  : sequence(alloc)
 		{
 			if (alloc == other.get_allocator())
 				std::swap(other.d_data, d_data);
@@ -1434,8 +1439,7 @@ namespace seq
 		/// @param lst initializer list
 		/// @param al allocator object
 		sequence(const std::initializer_list<T>& lst, const Allocator& al = Allocator())
-		  : Allocator(al)
-		  , d_data(make_data(al))
+		  : sequence(al)
 		{
 			assign(lst.begin(), lst.end());
 		}
@@ -1446,8 +1450,7 @@ namespace seq
 		/// @param al allocator object
 		template<class Iter>
 		sequence(Iter first, Iter last, const Allocator& al = Allocator())
-		  : Allocator(al)
-		  , d_data(make_data(al))
+		  : sequence(al)
 		{
 			assign(first, last);
 		}
diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 1dbe84e..a370f44 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -1366,12 +1366,7 @@ namespace seq
 			}
 			// Construct by copying the content of other
 			BucketManager(const this_type& other, cbuffer_pos new_bucket_size, size_type start = 0, size_type size = static_cast<size_t>(-1), const Allocator& al = Allocator())
-			  : Allocator(al)
-			  , d_buckets(al)
-			  , d_size(0)
-			  , d_bucket_size(new_bucket_size)
-			  , d_bucket_size1(new_bucket_size - 1)
-			  , d_bucket_size_bits(static_cast<cbuffer_pos>(bit_scan_reverse(static_cast<size_t>(new_bucket_size))))
+			  : BucketManager(new_bucket_size, al) // destroyed if anything below throws
 			{
 				// Retrieve size
 				size_type full_size = size;
@@ -1419,7 +1414,8 @@ namespace seq
 							--ptr;
 							for (T* p = current->buffer(); p != ptr; ++p)
 								destroy_ptr(p);
-							this->remove_back_bucket();
+							destroy_bucket(d_buckets.back().bucket);
+							d_buckets.pop_back();
 							throw;
 						}
 						size_type copied = end - pos;
@@ -1444,12 +1440,7 @@ namespace seq
 
 			// Construct by moving the content of other and destroying other's elements
 			BucketManager(this_type&& other, cbuffer_pos new_bucket_size, size_type start = 0, size_type size = static_cast<size_t>(-1), const Allocator& al = Allocator())
-			  : Allocator(al)
-			  , d_buckets(al)
-			  , d_size(0)
-			  , d_bucket_size(static_cast<cbuffer_pos>(new_bucket_size))
-			  , d_bucket_size1(static_cast<cbuffer_pos>(new_bucket_size - 1))
-			  , d_bucket_size_bits(static_cast<cbuffer_pos>(bit_scan_reverse(static_cast<size_t>(new_bucket_size))))
+			  : BucketManager(new_bucket_size, al) // destroyed if anything below throws
 			{
 
 				// Get size
@@ -1521,7 +1512,8 @@ namespace seq
 						--ptr;
 						for (T* p = current->buffer(); p != ptr; ++p)
 							destroy_ptr(p);
-						this->remove_back_bucket();
+						destroy_bucket(d_buckets.back().bucket);
+						d_buckets.pop_back();
 						other.destroy_all();
 						throw;
 					}
@@ -2858,8 +2850,7 @@ namespace seq
 		/// @param value the value to initialize elements of the container with
 		/// @param alloc allocator object
 		tiered_vector(size_type count, const T& value, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			resize(count, value);
 		}
@@ -2867,8 +2858,7 @@ namespace seq
 		/// @param count new tiered_vector size
 		/// @param alloc allocator object
 		explicit tiered_vector(size_type count, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			resize(count);
 		}
@@ -2904,8 +2894,7 @@ namespace seq
 		/// @param other another container to be used as source to initialize the elements of the container with
 		/// @param alloc allocator object
 		tiered_vector(tiered_vector&& other, const Allocator& alloc)
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			if (alloc == other.get_allocator()) {
 				std::swap(d_manager, other.d_manager);
@@ -2919,8 +2908,7 @@ namespace seq
 		/// @param lst initializer list
 		/// @param alloc allocator object
 		tiered_vector(const std::initializer_list<T>& lst, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			assign(lst.begin(), lst.end());
 		}
@@ -2931,8 +2919,7 @@ namespace seq
 		/// @param alloc allocator object
 		template<class Iter>
 		tiered_vector(Iter first, Iter last, const Allocator& alloc = Allocator())
-		  : Allocator(alloc)
-		  , d_manager(make_manager(alloc, min_block_size, alloc))
+		  : tiered_vector(alloc)
 		{
 			assign(first, last);
 		}
-- 
2.43.0


From 0346b7069923421356b625d79fffccee06c7cbcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:33:16 +0000
Subject: [PATCH 26/40] fix: ordered containers: allocator-extended move leaked
 the table when hash throws

---
 seq/ordered_map.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 29b7706..202f0ff 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -530,7 +530,14 @@ namespace seq
 				else {
 					// rehash
 					d_buckets = null_node();
-					rehash(0, true);
+					try {
+						rehash(0, true);
+					}
+					catch (...) {
+						// the destructor is not called
+						free_buckets(d_buckets);
+						throw;
+					}
 				}
 			}
 
-- 
2.43.0


From 17b2db1bdd50003b8889e5d4c508544e9b60e503 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:43:21 +0000
Subject: [PATCH 27/40] fix: constructors of radix containers leaked when an
 insertion throws

---
 seq/internal/radix_tree.hpp | 19 ++++---------------
 1 file changed, 4 insertions(+), 15 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index bcdc900..19c81de 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -1936,19 +1936,13 @@ namespace seq
 			}
 
 			RadixTree(const RadixTree& other)
-			  : Hash(other)
-			  , Allocator(copy_allocator(other.get_allocator()))
-			  , d_data(nullptr)
-			  , d_root(get_null_dir())
+			  : RadixTree(static_cast<const Hash&>(other), copy_allocator(other.get_allocator())) // destroyed if the insertion throws
 			{
 				if (other.size())
 					insert(other.begin(), other.end(), false);
 			}
 			RadixTree(const RadixTree& other, const Allocator& al)
-			  : Hash(other)
-			  , Allocator(al)
-			  , d_data(nullptr)
-			  , d_root(get_null_dir())
+			  : RadixTree(static_cast<const Hash&>(other), al) // destroyed if the insertion throws
 			{
 				if (other.size())
 					insert(other.begin(), other.end(), false);
@@ -1963,10 +1957,7 @@ namespace seq
 				swap_data(other);
 			}
 			RadixTree(RadixTree&& other, const Allocator& alloc)
-			  : Hash(other)
-			  , Allocator(alloc)
-			  , d_data(nullptr)
-			  , d_root(get_null_dir())
+			  : RadixTree(static_cast<const Hash&>(other), alloc) // destroyed if the insertion throws
 			{
 				if (alloc == other.get_allocator())
 					swap_data(other);
@@ -1976,9 +1967,7 @@ namespace seq
 
 			template<class Iter>
 			RadixTree(Iter first, Iter last, const Allocator& alloc = Allocator())
-			  : Allocator(alloc)
-			  , d_data(nullptr)
-			  , d_root(get_null_dir())
+			  : RadixTree(alloc) // destroyed if the insertion throws
 			{
 				insert(first, last);
 			}
-- 
2.43.0


From 06cd5dde4f239c5029ca262c993614b6f980e789 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:41 +0000
Subject: [PATCH 28/40] fix: devector::resize_front leaked the previous storage

---
 seq/devector.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index d622ee6..9c8ac5e 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -487,6 +487,9 @@ namespace seq
 							deallocate(_new, _new_capacity);
 							throw;
 						}
+
+						deallocate(data, capacity);
+
 						data = _new;
 						start = _new_start;
 						end = _new_end;
-- 
2.43.0


From c4fe02f0e7a17f46f1db4e27b6c3b268287e0d26 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 29/40] fix: (count, value) constructors, assign and insert
 were hidden by the range overloads for integral elements

---
 seq/devector.hpp      | 8 ++++----
 seq/sequence.hpp      | 4 ++--
 seq/tiered_vector.hpp | 8 ++++----
 3 files changed, 10 insertions(+), 10 deletions(-)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index 9c8ac5e..1f91218 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -674,7 +674,7 @@ namespace seq
 		/// @param count the size of the container
 		/// @param value the value to initialize elements of the container with
 		/// @param alloc allocator to use for all memory allocations of this container
-		devector(size_type count, const T& value, const Allocator& alloc)
+		devector(size_type count, const T& value, const Allocator& alloc = Allocator())
 		  : base_type(alloc)
 		{
 			assign(count, value);
@@ -691,7 +691,7 @@ namespace seq
 		/// @param first the range to copy the elements from
 		/// @param last the range to copy the elements from
 		/// @param alloc allocator to use for all memory allocations of this container
-		template<class InputIt>
+		template<class InputIt, std::enable_if_t<!std::is_integral_v<InputIt>, int> = 0>
 		devector(InputIt first, InputIt last, const Allocator& alloc = Allocator())
 		  : base_type(alloc)
 		{
@@ -884,7 +884,7 @@ namespace seq
 		/// @param first the range of elements to insert, can't be iterators into container for which insert is called
 		/// @param last the range of elements to insert, can't be iterators into container for which insert is called
 		/// @return iterator pointing to the first element inserted, or pos if first==last.
-		template<class InputIt>
+		template<class InputIt, std::enable_if_t<!std::is_integral_v<InputIt>, int> = 0>
 		auto insert(const_iterator pos, InputIt first, InputIt last) -> iterator
 		{
 			size_type off = static_cast<size_t>(pos - begin());
@@ -948,7 +948,7 @@ namespace seq
 		/// @brief Assign elements from range [first, last) to the container.
 		/// Invalidate all references and iterators.
 		/// Basic exception guarantee.
-		template<class InputIt>
+		template<class InputIt, std::enable_if_t<!std::is_integral_v<InputIt>, int> = 0>
 		void assign(InputIt first, InputIt last)
 		{
 			try {
diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index b8c5fc2..b62dba2 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -1448,7 +1448,7 @@ namespace seq
 		/// @param first begin iterator
 		/// @param last end iterator
 		/// @param al allocator object
-		template<class Iter>
+		template<class Iter, std::enable_if_t<!std::is_integral_v<Iter>, int> = 0>
 		sequence(Iter first, Iter last, const Allocator& al = Allocator())
 		  : sequence(al)
 		{
@@ -1964,7 +1964,7 @@ namespace seq
 		/// @param first range to copy the elements from
 		/// @param last range to copy the elements from
 		/// Basic exception guarantee.
-		template<class Iter>
+		template<class Iter, std::enable_if_t<!std::is_integral_v<Iter>, int> = 0>
 		void assign(Iter first, Iter last)
 		{
 			if SEQ_UNLIKELY (!d_data)
diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index a370f44..621c873 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -2917,7 +2917,7 @@ namespace seq
 		/// @param first first iterator of the range
 		/// @param last last iterator of the range
 		/// @param alloc allocator object
-		template<class Iter>
+		template<class Iter, std::enable_if_t<!std::is_integral_v<Iter>, int> = 0>
 		tiered_vector(Iter first, Iter last, const Allocator& alloc = Allocator())
 		  : tiered_vector(alloc)
 		{
@@ -3248,7 +3248,7 @@ namespace seq
 		/// @param first first iterator of the range
 		/// @param last last iterator of the range
 		/// Basic exception guarantee.
-		template<class Iter>
+		template<class Iter, std::enable_if_t<!std::is_integral_v<Iter>, int> = 0>
 		void insert(size_type pos, Iter first, Iter last)
 		{
 			make_manager_if_null();
@@ -3262,7 +3262,7 @@ namespace seq
 		/// @param last last iterator of the range
 		/// @return Iterator pointing to the first element inserted, or it if first==last
 		/// Basic exception guarantee.
-		template<class Iter>
+		template<class Iter, std::enable_if_t<!std::is_integral_v<Iter>, int> = 0>
 		auto insert(const_iterator it, Iter first, Iter last) -> iterator
 		{
 			size_type pos = it.absolutePos();
@@ -3378,7 +3378,7 @@ namespace seq
 
 		/// @brief Replaces the contents with copies of those in the range [first, last). The behavior is undefined if either argument is an iterator into *this.
 		/// Basic exception guarantee.
-		template<class Iter>
+		template<class Iter, std::enable_if_t<!std::is_integral_v<Iter>, int> = 0>
 		void assign(Iter first, Iter last)
 		{
 			make_manager_if_null();
-- 
2.43.0


From 4a73155961be9a2c99a801a1e0808a9422783f37 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 30/40] fix: flat containers: equal_range returned the next
 element for an absent key

---
 seq/flat_map.hpp | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index f088395..baaf5fc 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -831,7 +831,7 @@ namespace seq
 			SEQ_INLINE_BINARY_SEARCH auto equal_range(const K& x) -> std::pair<iterator, iterator>
 			{
 				iterator low = lower_bound(x);
-				if (low == end())
+				if (low == end() || base()(x, *low))
 					return std::pair<iterator, iterator>(low, low);
 				if constexpr (Unique)
 					return std::pair<iterator, iterator>(low, low + 1);
@@ -842,18 +842,18 @@ namespace seq
 			SEQ_INLINE_BINARY_SEARCH auto equal_range(const K& x) const -> std::pair<const_iterator, const_iterator>
 			{
 				const_iterator low = lower_bound(x);
-				if (low == end())
-					return std::pair<iterator, iterator>(low, low);
+				if (low == end() || base()(x, *low))
+					return std::pair<const_iterator, const_iterator>(low, low);
 				if constexpr (Unique)
-					return std::pair<iterator, iterator>(low, low + 1);
+					return std::pair<const_iterator, const_iterator>(low, low + 1);
 				const_iterator up = upper_bound(x);
-				return std::pair<iterator, iterator>(low, up);
+				return std::pair<const_iterator, const_iterator>(low, up);
 			}
 			template<class K>
 			SEQ_INLINE_BINARY_SEARCH auto equal_range_pos(const K& x) const -> std::pair<size_t, size_t>
 			{
 				size_t low = lower_bound_pos(x);
-				if (low == size())
+				if (low == size() || base()(x, d_deque[low]))
 					return std::pair<size_t, size_t>(low, low);
 				if constexpr (Unique)
 					return std::pair<size_t, size_t>(low, low + 1);
-- 
2.43.0


From c26c5015ffc30ef78689693e51207fcec98c3383 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:51:15 +0000
Subject: [PATCH 31/40] fix: flat containers: merge left stale search values,
 lost allocators and did not compile for maps; erase_if on an empty container

---
 seq/flat_map.hpp | 28 ++++++++++++++++++++--------
 1 file changed, 20 insertions(+), 8 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index baaf5fc..4adb8cd 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -356,7 +356,7 @@ namespace seq
 					}
 					if (first1 != last1) {
 						// skip equals elements
-						while (first2 != last2 && *first2 == *first1) {
+						while (first2 != last2 && !less(*first1, *first2)) {
 							if (remaining) {
 								*it_rem = std::move(*first2);
 								++it_rem;
@@ -388,7 +388,7 @@ namespace seq
 					}
 					if (first1 != last1) {
 						// skip equals elements
-						while (first2 != last2 && *first2 == *first1) {
+						while (first2 != last2 && !less(*first1, *first2)) {
 							if (remaining) {
 								remaining->push_back(std::move(*first2));
 							}
@@ -861,21 +861,31 @@ namespace seq
 				return std::pair<size_t, size_t>(low, up);
 			}
 
-			template<class C2, bool Unique2>
-			void merge(flat_tree<Key, Key, C2, Allocator, Unique2>& source)
+			// Update the back values cached by the tiered_vector, required after moving elements around
+			void update_back_values() noexcept
+			{
+				if (d_deque.manager())
+					d_deque.manager()->update_all_back_values();
+			}
+
+			template<class C2, bool Stable2, bool Unique2>
+			void merge(flat_tree<Key, Value, C2, Allocator, Stable2, Unique2>& source)
 			{
 				if (Unique) {
-					container_type out;
-					typename flat_tree<Key, Key, C2, Allocator, Unique2>::container_type rem;
+					container_type out(d_deque.get_allocator());
+					typename flat_tree<Key, Value, C2, Allocator, Stable2, Unique2>::container_type rem(source.d_deque.get_allocator());
 					detail::unique_merge_move(out, begin(), end(), source.begin(), source.end(), base(), &rem);
 					d_deque = std::move(out);
 					source.d_deque = std::move(rem);
+					update_back_values();
+					source.update_back_values();
 				}
 				else {
 					// add elements from source to this tiered_vector
 					size_t before_size = size();
 					d_deque.insert(d_deque.end(), source.begin(), source.end());
 					std::inplace_merge(d_deque.begin(), d_deque.begin() + before_size, d_deque.end(), base());
+					update_back_values();
 					source.clear();
 				}
 			}
@@ -2233,7 +2243,8 @@ namespace seq
 		auto it = std::remove_if(d.begin(), d.end(), p);
 		size_t res = d.end() - it;
 		d.erase(it, d.end());
-		d.manager()->update_all_back_values();
+		if (d.manager())
+			d.manager()->update_all_back_values();
 		return res;
 	}
 
@@ -2268,7 +2279,8 @@ namespace seq
 		auto it = std::remove_if(d.begin(), d.end(), p);
 		size_t res = d.end() - it;
 		d.erase(it, d.end());
-		d.manager()->update_all_back_values();
+		if (d.manager())
+			d.manager()->update_all_back_values();
 		return res;
 	}
 
-- 
2.43.0


From 09f2caca38472096a07bc6532070ba53e710e3d1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:00:44 +0000
Subject: [PATCH 32/40] fix: sequence::sort used a deallocated chunk when the
 compacted elements end on a chunk boundary

---
 seq/sequence.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index b62dba2..b59d839 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -912,6 +912,8 @@ namespace seq
 					if (node->start == node->end) {
 						_del = node;
 						last = static_cast<chunk_type*>(node->prev);
+						if (vec_chunk)
+							vec_chunk->pop_back(); // the empty chunk is deallocated below
 					}
 
 					last->next = endNode();
-- 
2.43.0


From aa90c8886e9b22f151c8c7f65d3d7a645e3b212e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:01:47 +0000
Subject: [PATCH 33/40] fix: members of flat_multiset, flat_multimap,
 ordered_map and sequence which did not compile

---
 seq/flat_map.hpp    | 8 ++++----
 seq/ordered_map.hpp | 4 ++--
 seq/sequence.hpp    | 2 +-
 3 files changed, 7 insertions(+), 7 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 4adb8cd..8c08728 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -1587,7 +1587,7 @@ namespace seq
 		}
 		auto operator=(const std::initializer_list<value_type>& init) -> flat_multiset&
 		{
-			static_cast<base_type&>(this) = init;
+			static_cast<base_type&>(*this) = init;
 			return *this;
 		}
 
@@ -1605,11 +1605,11 @@ namespace seq
 		template<class InputIt>
 		SEQ_ALWAYS_INLINE void insert(sorted_equivalent_t, InputIt first, InputIt last)
 		{
-			base_type::insert(sorted_equivalent_t{}, first, last);
+			base_type::insert(sorted_unique_t{}, first, last);
 		}
 
 		SEQ_ALWAYS_INLINE void insert(std::initializer_list<value_type> ilist) { base_type::insert(ilist); }
-		SEQ_ALWAYS_INLINE void insert(sorted_equivalent_t, std::initializer_list<value_type> ilist) { base_type::insert(sorted_equivalent_t{}, ilist); }
+		SEQ_ALWAYS_INLINE void insert(sorted_equivalent_t, std::initializer_list<value_type> ilist) { base_type::insert(sorted_unique_t{}, ilist); }
 
 		SEQ_ALWAYS_INLINE auto insert_pos(const value_type& value) -> size_t { return base_type::insert_pos(value).first; }
 		SEQ_ALWAYS_INLINE auto insert_pos(value_type&& value) -> size_t { return base_type::insert_pos(std::move(value)).first; }
@@ -2149,7 +2149,7 @@ namespace seq
 		}
 		auto operator=(const std::initializer_list<value_type>& init) -> flat_multimap&
 		{
-			static_cast<base_type&>(this) = init;
+			static_cast<base_type&>(*this) = init;
 			return *this;
 		}
 
diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 202f0ff..170b5b5 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -1718,12 +1718,12 @@ namespace seq
 		template<class Less>
 		void stable_sort(Less le)
 		{
-			sequence().stable_sort(LessAdapter<Less>(le));
+			sequence().sort(LessAdapter<Less>(le));
 			this->base_type::rehash();
 		}
 		void stable_sort()
 		{
-			sequence().stable_sort(LessAdapter<std::less<Key>>());
+			sequence().sort(LessAdapter<std::less<Key>>());
 			this->base_type::rehash();
 		}
 		void shrink_to_fit()
diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index b59d839..8032ba3 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -952,7 +952,7 @@ namespace seq
 				if (pos < this->size / 2)
 					return const_iterator(static_cast<chunk_type*>(end.next), end.next->start) + static_cast<difference_type>(pos);
 				else
-					return const_iterator(static_cast<chunk_type*>(&end), 0) - static_cast<difference_type>(this->size - pos);
+					return const_iterator(const_cast<chunk_type*>(endNode()), 0) - static_cast<difference_type>(this->size - pos);
 			}
 			// Returns an iterator at given position
 			SEQ_ALWAYS_INLINE auto iterator_at(size_t pos) noexcept -> iterator
-- 
2.43.0


From 5d7b18d03c374d1bb89718ab36207aef0ed37b98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:31 +0000
Subject: [PATCH 34/40] fix: radix containers stored elements at misaligned
 addresses

---
 seq/internal/radix_tree.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 19c81de..0c4665b 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -923,8 +923,12 @@ namespace seq
 			// maximum capacity (and size), lower for sorted elements
 			static constexpr unsigned max_capacity = Sorted ? 64 : 96;
 
-			// returns size of header and tiny hash values
-			static unsigned hash_for_size(unsigned /*size*/, unsigned capacity) noexcept { return header_size + capacity; }
+			// returns size of header and tiny hash values, rounded up to the alignment of T
+			static SEQ_ALWAYS_INLINE unsigned hash_for_size(unsigned /*size*/, unsigned capacity) noexcept
+			{
+				constexpr unsigned align = static_cast<unsigned>(alignof(T));
+				return (header_size + capacity + align - 1U) & ~(align - 1U);
+			}
 			// returns the capacity for a given size
 			static unsigned capacity_for_size(unsigned size) noexcept
 			{
@@ -951,8 +955,8 @@ namespace seq
 			SEQ_ALWAYS_INLINE const std::uint8_t* hashs() const noexcept { return reinterpret_cast<const std::uint8_t*>(toint32() + 2); }
 			SEQ_ALWAYS_INLINE std::uint8_t* hashs() noexcept { return reinterpret_cast<std::uint8_t*>(toint32() + 2); }
 			SEQ_ALWAYS_INLINE unsigned count() const noexcept { return *size(); }
-			SEQ_ALWAYS_INLINE T* values() noexcept { return reinterpret_cast<T*>(hashs() + *capacity()); }
-			SEQ_ALWAYS_INLINE const T* values() const noexcept { return reinterpret_cast<const T*>(hashs() + *capacity()); }
+			SEQ_ALWAYS_INLINE T* values() noexcept { return reinterpret_cast<T*>(reinterpret_cast<std::uint8_t*>(this) + hash_for_size(0, *capacity())); }
+			SEQ_ALWAYS_INLINE const T* values() const noexcept { return reinterpret_cast<const T*>(reinterpret_cast<const std::uint8_t*>(this) + hash_for_size(0, *capacity())); }
 			SEQ_ALWAYS_INLINE const T& back() const noexcept { return values()[count() - 1]; }
 			SEQ_ALWAYS_INLINE std::uint8_t get_tiny_hash(unsigned pos) const { return hashs()[pos]; }
 
-- 
2.43.0


From ce4e45c8d95ab64e43b79c8fa668401db24e7034 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:31 +0000
Subject: [PATCH 35/40] fix: members of flat, concurrent and radix_hash
 containers which did not compile for valid type arguments

---
 seq/flat_map.hpp                       | 8 ++++----
 seq/internal/concurrent_hash_table.hpp | 6 +++---
 seq/radix_hash_map.hpp                 | 1 +
 3 files changed, 8 insertions(+), 7 deletions(-)

diff --git a/seq/flat_map.hpp b/seq/flat_map.hpp
index 8c08728..833c3bd 100644
--- a/seq/flat_map.hpp
+++ b/seq/flat_map.hpp
@@ -131,19 +131,19 @@ namespace seq
 			void swap(LessAdapter& o) noexcept { std::swap(*this, o); }
 
 			template<class L, class R>
-			SEQ_ALWAYS_INLINE bool operator()(const L& l, const R& r) const noexcept(noexcept(Less{}(Extract::key(l), Extract::key(r))))
+			SEQ_ALWAYS_INLINE bool operator()(const L& l, const R& r) const noexcept(noexcept(std::declval<const Less&>()(Extract::key(l), Extract::key(r))))
 			{
 				return Less::operator()(Extract::key(l), Extract::key(r));
 			}
 			template<class L, class VC, bool SB, bool IA, class R>
 			SEQ_ALWAYS_INLINE bool operator()(const detail::StoreBucket<L, VC, SB, IA>& bucket, const R& r) const
-			  noexcept(noexcept(Less{}(Extract::key(std::declval<L&>()), Extract::key(r))))
+			  noexcept(noexcept(std::declval<const Less&>()(Extract::key(std::declval<L&>()), Extract::key(r))))
 			{
 				return Less::operator()(Extract::key(bucket.back()), Extract::key(r));
 			}
 			template<class L, class VC, bool SB, bool IA, class R>
 			SEQ_ALWAYS_INLINE bool operator()(const L& l, const detail::StoreBucket<R, VC, SB, IA>& bucket) const
-			  noexcept(noexcept(Less{}(Extract::key(l), Extract::key(std::declval<R&>()))))
+			  noexcept(noexcept(std::declval<const Less&>()(Extract::key(l), Extract::key(std::declval<R&>()))))
 			{
 				return Less::operator()(Extract::key(l), Extract::key(bucket.back()));
 			}
@@ -871,7 +871,7 @@ namespace seq
 			template<class C2, bool Stable2, bool Unique2>
 			void merge(flat_tree<Key, Value, C2, Allocator, Stable2, Unique2>& source)
 			{
-				if (Unique) {
+				if constexpr (Unique) {
 					container_type out(d_deque.get_allocator());
 					typename flat_tree<Key, Value, C2, Allocator, Stable2, Unique2>::container_type rem(source.d_deque.get_allocator());
 					detail::unique_merge_move(out, begin(), end(), source.begin(), source.end(), base(), &rem);
diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index abc27bf..f07be8e 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -710,9 +710,9 @@ namespace seq
 				return n;
 			}
 
-			void free_nodes(node_type* n, size_t count) noexcept(noexcept(node_allocator{ Allocator{} })) { node_allocator{ get_allocator() }.deallocate(n, count); }
-			void free_nodes(value_node_type* n, size_t count) noexcept(noexcept(value_node_allocator{ Allocator{} })) { value_node_allocator{ get_allocator() }.deallocate(n, count); }
-			void free_nodes(chain_node_type* n) noexcept(noexcept(chain_node_allocator{ Allocator{} })) { chain_node_allocator{ get_allocator() }.deallocate(n, 1); }
+			void free_nodes(node_type* n, size_t count) noexcept { node_allocator{ get_allocator() }.deallocate(n, count); }
+			void free_nodes(value_node_type* n, size_t count) noexcept { value_node_allocator{ get_allocator() }.deallocate(n, count); }
+			void free_nodes(chain_node_type* n) noexcept { chain_node_allocator{ get_allocator() }.deallocate(n, 1); }
 
 			void move_back(node_type* buckets, value_node_type* values, size_t new_hash_mask, node_type* old_buckets, value_node_type* old_values, size_t old_hash_mask) noexcept(
 			  std::is_nothrow_move_constructible_v<Value>)
diff --git a/seq/radix_hash_map.hpp b/seq/radix_hash_map.hpp
index 5fe626f..b50d498 100644
--- a/seq/radix_hash_map.hpp
+++ b/seq/radix_hash_map.hpp
@@ -836,6 +836,7 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto operator[](const Key& key) -> T& { return try_emplace(key).first->second; }
 		SEQ_ALWAYS_INLINE auto operator[](Key&& key) -> T& { return try_emplace(std::move(key)).first->second; }
 
+		SEQ_ALWAYS_INLINE auto erase(iterator pos) -> iterator { return d_tree.erase(pos.iter); }
 		SEQ_ALWAYS_INLINE auto erase(const_iterator pos) -> iterator { return d_tree.erase(pos.iter); }
 		SEQ_ALWAYS_INLINE auto erase(const Key& key) -> size_type { return d_tree.erase(key); }
 		template<class K, class KE = KeyEqual, class H = Hash, typename std::enable_if<has_is_transparent<KE>::value && has_is_transparent<H>::value>::type* = nullptr>
-- 
2.43.0


From e31cb385d25e21118faf9d917abcb42039b8d1ee Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:23:31 +0000
Subject: [PATCH 36/40] fix: radix containers: erase leaked emptied vector
 leaves, lost its size or root when an allocation fails, copied move-only
 elements; insert left hash values out of step when it throws

---
 seq/internal/radix_tree.hpp | 109 +++++++++++++++++++++---------------
 1 file changed, 63 insertions(+), 46 deletions(-)

diff --git a/seq/internal/radix_tree.hpp b/seq/internal/radix_tree.hpp
index 0c4665b..057da73 100644
--- a/seq/internal/radix_tree.hpp
+++ b/seq/internal/radix_tree.hpp
@@ -26,6 +26,7 @@
 #define SEQ_RADIX_TREE_HPP
 
 #include <atomic>
+#include <memory>
 #include "../bits.hpp"
 #include "../tagged_pointer.hpp"
 #include "../hash.hpp"
@@ -769,22 +770,28 @@ namespace seq
 				}
 			}
 			else {
+				if (!count) {
+					Policy::emplace(src, std::forward<Args>(args)...);
+					return;
+				}
+				// Build the new value first: src remains untouched if that throws
+				alignas(U) char buffer[sizeof(U)];
+				U* value = Policy::emplace(reinterpret_cast<U*>(buffer), std::forward<Args>(args)...);
+				bool created = false;
 				try {
-					if (count) {
-						new (dst + count - 1) U();
-						std::move_backward(src, src + count, dst + count);
-						src->~U();
-						Policy::emplace(src, std::forward<Args>(args)...);
-					}
-					else
-						Policy::emplace(src, std::forward<Args>(args)...);
+					new (dst + count - 1) U(std::move(src[count - 1]));
+					created = true;
+					std::move_backward(src, src + count - 1, dst + count - 1);
+					*src = std::move(*value);
 				}
 				catch (...) {
-					// destroy created element
-					if (count)
+					// destroy created elements
+					if (created)
 						(dst + count - 1)->~U();
+					value->~U();
 					throw;
 				}
+				value->~U();
 			}
 		}
 
@@ -1064,8 +1071,9 @@ namespace seq
 				}
 
 				if (Sorted && pos != size) {
-					insert_move_right(hashs() + pos + 1, hashs() + pos, (size - pos), EmplacePolicy{}, th);
+					// values first: moving the hash values does not throw
 					insert_move_right(values() + pos + 1, values() + pos, (size - pos), p, std::forward<K>(key), std::forward<Args>(args)...);
+					insert_move_right(hashs() + pos + 1, hashs() + pos, (size - pos), EmplacePolicy{}, th);
 				}
 				else {
 					Policy::emplace((values() + size), std::forward<K>(key), std::forward<Args>(args)...);
@@ -1079,34 +1087,39 @@ namespace seq
 			template<class NodeAllocator>
 			LeafNode* erase(NodeAllocator& al, unsigned pos)
 			{
-				erase_pos(values(), pos, *size());
-				erase_pos(hashs(), pos, *size());
-				(*size())--;
+				const unsigned new_size = *size() - 1;
+				const unsigned cap = new_size ? capacity_for_size(new_size) : 0;
 
-				if (*size() == 0) {
-					unsigned cap = capacity_for_size(1);
-					al.deallocate(this, hash_for_size(1, cap), cap);
-					return nullptr;
-				}
+				// Allocate the smaller node first: nothing changed yet if that throws
+				LeafNode* n = nullptr;
+				if (new_size && cap != *capacity())
+					n = al.allocate(hash_for_size(new_size, cap), cap);
 
-				unsigned cap = capacity_for_size(*size());
-				if (cap != *capacity()) {
-					// might throw, fine
-					LeafNode* n = al.allocate(hash_for_size(*size(), cap), cap);
-					*n->size() = *this->size();
-					*n->capacity() = cap;
-
-					try {
-						copy_destroy(n->values(), values(), *size());
-						copy_destroy(n->hashs(), this->hashs(), *size());
-					}
-					catch (...) {
-						al.deallocate(n, hash_for_size(*size(), cap), cap);
-						throw;
+				try {
+					erase_pos(values(), pos, *size());
+					erase_pos(hashs(), pos, *size());
+					(*size())--;
+
+					if (n) {
+						*n->size() = new_size;
+						*n->capacity() = cap;
+						copy_destroy(n->values(), values(), new_size);
+						copy_destroy(n->hashs(), this->hashs(), new_size);
 					}
+				}
+				catch (...) {
+					if (n)
+						al.deallocate(n, hash_for_size(new_size, cap), cap);
+					throw;
+				}
 
-					al.deallocate(this, hash_for_size(*size() + 1, *capacity()), *capacity());
-
+				if (new_size == 0) {
+					unsigned old_cap = capacity_for_size(1);
+					al.deallocate(this, hash_for_size(1, old_cap), old_cap);
+					return nullptr;
+				}
+				if (n) {
+					al.deallocate(this, hash_for_size(new_size + 1, *capacity()), *capacity());
 					return n;
 				}
 				return this;
@@ -1746,6 +1759,7 @@ namespace seq
 				return set.upper_bound_pos(key);
 			}
 			SEQ_ALWAYS_INLINE const T& at(size_t pos) const { return set.pos(pos); }
+			SEQ_ALWAYS_INLINE T& at(size_t pos) { return const_cast<T&>(set.pos(pos)); }
 		};
 
 		/// @brief Unsorted vector node based on seq::dvector
@@ -1807,6 +1821,7 @@ namespace seq
 				return vector.size();
 			}
 			SEQ_ALWAYS_INLINE const T& at(size_t pos) const noexcept { return vector[pos]; }
+			SEQ_ALWAYS_INLINE T& at(size_t pos) noexcept { return vector[pos]; }
 		};
 
 		/// @brief Root of a radix tree
@@ -2934,23 +2949,18 @@ namespace seq
 				return first;
 			}
 
-			size_t remove_directory(directory* d)
+			size_t remove_directory(directory* d, directory* new_root) noexcept
 			{
 				// Remove the directory from the tree
 				// and returns the total number fo removed elements.
 				// The directory itself and its values are not destroyed
 				// and can be used afterward.
+				// If d is the root directory, it is replaced by new_root.
 				//
 				// This leave the tree in a valid state.
 
-				if (!d->parent) {
-					// Root dir
-					// Create a new root of half the size, might throw, fine
-					auto* new_root = directory::make(d_data->base, d->hash_len - start_arity);
+				if (!d->parent)
 					d_data->base.root = d_root = new_root;
-				}
-
-				// The remaining does not throw
 
 				auto* p = d->parent;
 
@@ -2995,11 +3005,18 @@ namespace seq
 			{
 				const_iterator res = end();
 
+				// The root directory is replaced by a new one of half the size.
+				// Might throw, the tree is still valid at this point.
+				auto drop_dir = [this](directory* r) { directory::destroy(d_data->base, r); };
+				std::unique_ptr<directory, decltype(drop_dir)> new_root(nullptr, drop_dir);
+				if (!d->parent)
+					new_root.reset(directory::make(d_data->base, d->hash_len - start_arity));
+
 				// Move iterator value to tmp storage
 				alignas(T) char data[sizeof(T)];
 				T* value = it == end() ? nullptr : (T*)data;
 				if (value) {
-					new (value) T(std::move(*it));
+					new (value) T(std::move(const_cast<T&>(*it)));
 				}
 
 				// Check if 'it' is inside d.
@@ -3018,7 +3035,7 @@ namespace seq
 				}
 
 				try {
-					remove_directory(d);
+					remove_directory(d, new_root.release());
 
 					// Reinsert all values inside directory into the tree
 					d->for_each_leaf([this, &it](directory* dir, unsigned pos) {
@@ -3081,7 +3098,7 @@ namespace seq
 
 					if (v->size() == 0) {
 						// destroy empty vector
-						destroy_ptr(v);
+						d_data->base.destroy_vector(v);
 						d->children()[dpos] = child_ptr();
 						d->child_count--;
 					}
-- 
2.43.0


From 53de30fd5c17a7a7929281db39163ece5f839f17 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 37/40] fix: const visits of concurrent containers passed
 modifiable elements under a shared lock

---
 seq/internal/concurrent_hash_table.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/seq/internal/concurrent_hash_table.hpp b/seq/internal/concurrent_hash_table.hpp
index f07be8e..321f4c4 100644
--- a/seq/internal/concurrent_hash_table.hpp
+++ b/seq/internal/concurrent_hash_table.hpp
@@ -1233,7 +1233,7 @@ namespace seq
 					pos = (hash & d_hash_mask);
 
 				LockShared<node_lock> ll(lock, true);
-				return FindInNode<extract_key>(node_type::tiny_hash(hash), d_data->key_eq(), key, d_buckets + pos, d_values + pos, std::forward<F>(f));
+				return FindInNode<extract_key>(node_type::tiny_hash(hash), d_data->key_eq(), key, d_buckets + pos, d_values + pos, [&](const Value& v) { std::forward<F>(f)(v); });
 			}
 			template<class K, class F>
 			SEQ_CONCURRENT_INLINE size_t visit_hash(size_t hash, const K& key, F&& f)
-- 
2.43.0


From cb705e6cc5018c86f821d75500d5f73a5bfd2bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:30:04 +0000
Subject: [PATCH 38/40] fix: is_relocatable ignored the allocator of devector
 and the pointer type of unique_ptr

---
 seq/devector.hpp    | 2 +-
 seq/type_traits.hpp | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/seq/devector.hpp b/seq/devector.hpp
index 1f91218..123ce71 100644
--- a/seq/devector.hpp
+++ b/seq/devector.hpp
@@ -1218,7 +1218,7 @@ namespace seq
 
 	/// @brief  Specialization of is_relocatable for devector
 	template<class T, class Alloc>
-	struct is_relocatable<devector<T, Alloc>> : std::true_type
+	struct is_relocatable<devector<T, Alloc>> : is_relocatable<Alloc>
 	{
 	};
 
diff --git a/seq/type_traits.hpp b/seq/type_traits.hpp
index de4ab82..cb87f6e 100644
--- a/seq/type_traits.hpp
+++ b/seq/type_traits.hpp
@@ -167,7 +167,7 @@ namespace seq
 	template<class T, class D>
 	struct is_relocatable<std::unique_ptr<T, D>>
 	{
-		static constexpr bool value = is_relocatable<D>::value;
+		static constexpr bool value = is_relocatable<D>::value && is_relocatable<typename std::unique_ptr<T, D>::pointer>::value;
 	};
 	template<class T>
 	struct is_relocatable<std::shared_ptr<T>>
-- 
2.43.0


From 46aae9eb156a6113e039e335e87ff18c580e17fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:16 +0000
Subject: [PATCH 39/40] fix: ordered_map: insert(hint, P&&) did not compile,
 nor did erase(iterator) with transparent functors

---
 seq/ordered_map.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/seq/ordered_map.hpp b/seq/ordered_map.hpp
index 170b5b5..a069864 100644
--- a/seq/ordered_map.hpp
+++ b/seq/ordered_map.hpp
@@ -1766,7 +1766,7 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto insert(const_iterator hint, P&& value) -> iterator
 		{
 			(void)hint;
-			return this->base_type::template emplace<detail::Anywhere>(Policy::make(std::forward<P>(value)));
+			return this->base_type::template emplace<detail::Anywhere>(Policy::make(std::forward<P>(value))).first;
 		}
 		template<class InputIt>
 		void insert(InputIt first, InputIt last)
@@ -1975,6 +1975,7 @@ namespace seq
 		SEQ_ALWAYS_INLINE auto operator[](const Key& k) -> T& { return try_emplace(k).first->second; }
 		SEQ_ALWAYS_INLINE auto operator[](Key&& k) -> T& { return try_emplace(std::move(k)).first->second; }
 
+		SEQ_ALWAYS_INLINE auto erase(iterator pos) -> iterator { return this->base_type::erase(const_iterator(pos)); }
 		SEQ_ALWAYS_INLINE auto erase(const_iterator pos) -> iterator { return this->base_type::erase(pos); }
 		SEQ_ALWAYS_INLINE auto erase(const Key& key) -> size_type { return this->base_type::erase(key); }
 		template<class K, class KE = KeyEqual, class H = Hash, typename std::enable_if<has_is_transparent<KE>::value && has_is_transparent<H>::value>::type* = nullptr>
-- 
2.43.0


From c46fc0fb7269108d1c0e22d1e9e39539e5957ea7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:16 +0000
Subject: [PATCH 40/40] fix: sorting elements of type bool did not compile

---
 seq/algorithm.hpp     | 29 +++++++++++++++++++++++------
 seq/sequence.hpp      |  4 ++--
 seq/tiered_vector.hpp |  8 ++++----
 3 files changed, 29 insertions(+), 12 deletions(-)

diff --git a/seq/algorithm.hpp b/seq/algorithm.hpp
index c4b952c..d0f2496 100644
--- a/seq/algorithm.hpp
+++ b/seq/algorithm.hpp
@@ -1135,6 +1135,23 @@ namespace seq
 			return (count / 128u);
 		}
 
+		/// @brief Element of a sort buffer: the bits of std::vector<bool> cannot be one
+		template<class T>
+		struct sort_buffer_element
+		{
+			using type = T;
+		};
+		template<>
+		struct sort_buffer_element<bool>
+		{
+			struct type
+			{
+				bool value;
+			};
+		};
+		template<class T>
+		using sort_buffer_vector = std::vector<typename sort_buffer_element<T>::type>;
+
 	} // end algo_detail
 
 	/// @brief Buffer object used by net_sort(), net_sort_size() and inplace_merge()
@@ -1234,8 +1251,8 @@ namespace seq
 			// Compute buffer size
 			size_t min_size = std::min(s1, s2);
 			size_t buf_size = sort_buffer_size(buf, min_size);
-			std::vector<Key> buf_(buf_size);
-			return merge_adaptive_n<false>(wrap_iter(first), s1, wrap_iter(middle, s1), s2, wrap_iter(last, s1 + s2), c, buffer<Key*>{ buf_.data(), buf_.size() });
+			sort_buffer_vector<Key> buf_(buf_size);
+			return merge_adaptive_n<false>(wrap_iter(first), s1, wrap_iter(middle, s1), s2, wrap_iter(last, s1 + s2), c, buffer<Key*>{ reinterpret_cast<Key*>(buf_.data()), buf_.size() });
 		}
 		else
 			// Use provided buffer
@@ -1255,8 +1272,8 @@ namespace seq
 		if constexpr (std::is_same_v<buffer<void*>, Buffer>) {
 			// Compute buffer size
 			size_t buf_size = sort_buffer_size(buf, std::distance(iters[0], iters[count - 1]) / 2);
-			std::vector<Key> buf_(buf_size);
-			merge_sorted_runs_with_buffer(iters, 0, count - 1, c, buffer<Key*>{ buf_.data(), buf_.size() });
+			sort_buffer_vector<Key> buf_(buf_size);
+			merge_sorted_runs_with_buffer(iters, 0, count - 1, c, buffer<Key*>{ reinterpret_cast<Key*>(buf_.data()), buf_.size() });
 		}
 		else
 			// Use provided buffer
@@ -1312,8 +1329,8 @@ namespace seq
 			size_t buf_size = sort_buffer_size(buf, size / 2);
 			if (buf_size < 16)
 				buf_size = 16;
-			std::vector<Key> buf_(buf_size);
-			return merge_sort_internal(wrap_iter(begin, 0), size, cmp, seq::buffer<Key*>{ buf_.data(), buf_.size() });
+			sort_buffer_vector<Key> buf_(buf_size);
+			return merge_sort_internal(wrap_iter(begin, 0), size, cmp, seq::buffer<Key*>{ reinterpret_cast<Key*>(buf_.data()), buf_.size() });
 		}
 		else {
 			// Use provided buffer
diff --git a/seq/sequence.hpp b/seq/sequence.hpp
index 8032ba3..f061cdb 100644
--- a/seq/sequence.hpp
+++ b/seq/sequence.hpp
@@ -2188,8 +2188,8 @@ namespace seq
 		template<class Less>
 		void sort(Less less)
 		{
-			std::vector<T> buf(size() / 2);
-			sort(less, buffer<T*>{ buf.data(), buf.size() });
+			algo_detail::sort_buffer_vector<T> buf(size() / 2);
+			sort(less, buffer<T*>{ reinterpret_cast<T*>(buf.data()), buf.size() });
 		}
 
 		/// @brief Sort the sequence using given comparator.
diff --git a/seq/tiered_vector.hpp b/seq/tiered_vector.hpp
index 621c873..f7d16e2 100644
--- a/seq/tiered_vector.hpp
+++ b/seq/tiered_vector.hpp
@@ -2453,7 +2453,7 @@ namespace seq
 				}
 
 				// Create buffer to sort buckets
-				std::vector<T> buf(count / 2);
+				algo_detail::sort_buffer_vector<T> buf(count / 2);
 
 				std::vector<iterator> iters(bucket_count + 1);
 				iters[0] = iterator(this, d_buckets.data() + bucket_idx, 0);
@@ -2461,20 +2461,20 @@ namespace seq
 				// Sort first
 				{
 					auto& b = d_buckets[bucket_idx];
-					net_sort(b.bucket->buffer(), b.bucket->buffer() + b.bucket->size, c, buffer<T*>{ buf.data(), buf.size() });
+					net_sort(b.bucket->buffer(), b.bucket->buffer() + b.bucket->size, c, buffer<T*>{ reinterpret_cast<T*>(buf.data()), buf.size() });
 				}
 
 				// Sort remaining buckets
 				for (size_t i = bucket_idx + 1; i < d_buckets.size(); ++i) {
 					auto& b = d_buckets[i];
 					iters[i - bucket_idx] = iterator(this, d_buckets.data() + i, 0);
-					net_sort(b.bucket->buffer(), b.bucket->buffer() + b.bucket->size, c, buffer<T*>{ buf.data(), buf.size() });
+					net_sort(b.bucket->buffer(), b.bucket->buffer() + b.bucket->size, c, buffer<T*>{ reinterpret_cast<T*>(buf.data()), buf.size() });
 				}
 
 				iters.back() = iterator(this, 0); // end
 
 				// Merge sorted buckets
-				inplace_merge(iters.data(), iters.size(), c, buffer<T*>{ buf.data(), buf.size() });
+				inplace_merge(iters.data(), iters.size(), c, buffer<T*>{ reinterpret_cast<T*>(buf.data()), buf.size() });
 
 				// Reset begin position and update back value
 				for (size_t i = bucket_idx; i < d_buckets.size(); ++i) {
-- 
2.43.0

