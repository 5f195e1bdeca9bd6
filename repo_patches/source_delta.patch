From edecc307dd779367230588b16a535ce9e50bfe9a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 01/28] fix: values pre-decrement returns and publishes the
 decremented value

---
 include/xitren/comm/values/observable.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index 52dfcd6..ac02fe3 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -84,7 +84,7 @@ public:
     observable_type
     operator--() volatile noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
@@ -92,7 +92,7 @@ public:
     observable_type
     operator--() noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
@@ -330,7 +330,7 @@ public:
     observable_type
     operator--() volatile noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
@@ -338,7 +338,7 @@ public:
     observable_type
     operator--() noexcept
     {
-        auto const ret = std::atomic<observable_type>::fetch_sub(1) + 1;
+        auto const ret = std::atomic<observable_type>::fetch_sub(1) - 1;
         notify_observers(ret);
         return ret;
     }
-- 
2.43.0


From 8047c25da968619a1e899c3c22d73dd1c40b3a31 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 02/28] fix: values post-increment/decrement publish the new
 value, not the old one

---
 include/xitren/comm/values/observable.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index ac02fe3..cfa96ec 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -37,7 +37,7 @@ public:
     operator++(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -45,7 +45,7 @@ public:
     operator++(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -53,7 +53,7 @@ public:
     operator--(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
@@ -61,7 +61,7 @@ public:
     operator--(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
@@ -283,7 +283,7 @@ public:
     operator++(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -291,7 +291,7 @@ public:
     operator++(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_add(1);
-        notify_observers(ret);
+        notify_observers(ret + 1);
         return ret;
     }
 
@@ -299,7 +299,7 @@ public:
     operator--(int) volatile noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
@@ -307,7 +307,7 @@ public:
     operator--(int) noexcept
     {
         auto const ret = std::atomic<observable_type>::fetch_sub(1);
-        notify_observers(ret);
+        notify_observers(ret - 1);
         return ret;
     }
 
-- 
2.43.0


From bedcfd8f164c58354fc8f91e273263b907c1d538 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 03/28] fix: values dynamic registry erases the removed
 observer

---
 include/xitren/comm/values/observable.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xitren/comm/values/observable.hpp b/include/xitren/comm/values/observable.hpp
index cfa96ec..92ee7db 100644
--- a/include/xitren/comm/values/observable.hpp
+++ b/include/xitren/comm/values/observable.hpp
@@ -443,6 +443,7 @@ public:
         }
         auto it = std::remove(observers_.begin(), observers_.end(), &observer);
         if (it != observers_.end()) {
+            observers_.erase(it, observers_.end());
             return observer_errors::ok;
         } else {
             return observer_errors::not_found;
-- 
2.43.0


From dd56c2039881634267a1e2681a2d345c0d66bda2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 04/28] fix: static_heap is not copyable, its free list points
 into itself

---
 include/xitren/allocators/static_heap.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/include/xitren/allocators/static_heap.hpp b/include/xitren/allocators/static_heap.hpp
index 847acf7..d9eb592 100644
--- a/include/xitren/allocators/static_heap.hpp
+++ b/include/xitren/allocators/static_heap.hpp
@@ -157,6 +157,11 @@ class static_heap {
     }
 
 public:
+    static_heap(static_heap const&) = delete;
+    static_heap&
+    operator=(static_heap const&)
+        = delete;
+
     void
     on_fail(callback_t callback)
     {
-- 
2.43.0


From f8adaa5485691eaefeb8ef334ea787c806664c82 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 05/28] fix: v_port_get_heap_stats compiles and its result type
 is accessible

---
 include/xitren/allocators/static_heap.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/xitren/allocators/static_heap.hpp b/include/xitren/allocators/static_heap.hpp
index d9eb592..5f4f52d 100644
--- a/include/xitren/allocators/static_heap.hpp
+++ b/include/xitren/allocators/static_heap.hpp
@@ -28,6 +28,7 @@ class static_heap {
         size_t               x_block_size;       /**< The size of the free block. */
     };
 
+public:
     /* Used to pass information about the heap. */
     using heap_stats_t = struct {
         size_t x_available_heap_space_in_bytes;
@@ -39,6 +40,8 @@ class static_heap {
         size_t x_number_of_successful_frees;
     };
 
+private:
+
     static constexpr std::size_t port_byte_alignment = 8;
 
     // static constexpr auto
@@ -494,7 +497,7 @@ public:
 
         v_task_suspend_all();
         {
-            px_block = heapPROTECT_BLOCK_POINTER(x_start_.px_next_free_block);
+            px_block = heap_protect_block_pointer(x_start_.px_next_free_block);
 
             /* pxBlock will be NULL if the heap has not been initialised.  The heap
              * is initialised automatically when the first allocation is made. */
@@ -514,7 +517,7 @@ public:
 
                     /* Move to the next block in the chain until the last block is
                      * reached. */
-                    px_block = heapPROTECT_BLOCK_POINTER(px_block->px_next_free_block);
+                    px_block = heap_protect_block_pointer(px_block->px_next_free_block);
                 }
             }
         }
-- 
2.43.0


From 91d38631ddff32ed2e55d317957869fd5b5d2af5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 06/28] fix: static_heap rejects sizes its own bookkeeping does
 not fit in

---
 include/xitren/allocators/static_heap.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/xitren/allocators/static_heap.hpp b/include/xitren/allocators/static_heap.hpp
index 5f4f52d..c2c3171 100644
--- a/include/xitren/allocators/static_heap.hpp
+++ b/include/xitren/allocators/static_heap.hpp
@@ -95,6 +95,9 @@ private:
     /* Block sizes must not get too small. */
     static constexpr std::size_t heap_minimum_block_size = ((std::size_t)(x_heap_struct_size << 1));
 
+    /* The constructor writes an end marker into the storage. */
+    static_assert(Size >= x_heap_struct_size, "Size is too small to hold the heap's end marker");
+
     /* Assumes 8bit bytes! */
     static constexpr std::size_t heap_bits_per_byte = ((std::size_t)8);
 
-- 
2.43.0


From 66d5328269ccb985cf775376c678bbf156f45548 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 07/28] fix: static_heap_allocator rejects element counts whose
 byte size overflows

---
 include/xitren/allocators/static_heap_allocator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/xitren/allocators/static_heap_allocator.hpp b/include/xitren/allocators/static_heap_allocator.hpp
index d7b92b4..7bd076a 100644
--- a/include/xitren/allocators/static_heap_allocator.hpp
+++ b/include/xitren/allocators/static_heap_allocator.hpp
@@ -13,6 +13,7 @@ __ _(_) |_ _ _ ___ _ _
 #include <array>
 #include <cstdint>
 #include <functional>
+#include <new>
 
 namespace xitren::allocators {
 
@@ -42,6 +43,9 @@ public:
     Type*
     allocate(size_t size)    // NOLINT
     {
+        if (size > static_cast<size_t>(-1) / sizeof(Type)) {
+            throw std::bad_array_new_length();
+        }
         auto ptr = static_cast<Type*>(manager_.allocate(size * sizeof(Type)));
         if (ptr) {
             return ptr;
-- 
2.43.0


From 54bc943756efb1936c293e2ed8b352ea3b3ad451 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 08/28] fix: static_heap_allocator compares the heaps, not the
 adaptors

---
 include/xitren/allocators/static_heap_allocator.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xitren/allocators/static_heap_allocator.hpp b/include/xitren/allocators/static_heap_allocator.hpp
index 7bd076a..ccc8466 100644
--- a/include/xitren/allocators/static_heap_allocator.hpp
+++ b/include/xitren/allocators/static_heap_allocator.hpp
@@ -61,14 +61,14 @@ public:
 
     template <typename U>
     constexpr bool
-    operator==(static_heap_allocator<U, PoolSize> const& other) noexcept
+    operator==(static_heap_allocator<U, PoolSize> const& other) const noexcept
     {
-        return this == &other;
+        return &manager_ == &other.manager_;
     }
 
     template <typename U>
     constexpr bool
-    operator!=(static_heap_allocator<U, PoolSize> const& other) noexcept
+    operator!=(static_heap_allocator<U, PoolSize> const& other) const noexcept
     {
         return !this->operator==(other);
     }
-- 
2.43.0


From aec5d49524aa129f5b876d10b0de4af56db57c3c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 09/28] fix: mediator rejects a module beyond its capacity
 instead of writing out of bounds

---
 include/xitren/comm/mediator.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/xitren/comm/mediator.hpp b/include/xitren/comm/mediator.hpp
index 4db881e..e5c83c1 100644
--- a/include/xitren/comm/mediator.hpp
+++ b/include/xitren/comm/mediator.hpp
@@ -277,7 +277,8 @@ public:
     void
     add_module(base::module& c) override
     {
-        modules_[modules_cnt_++] = &c;
+        modules_.at(modules_cnt_) = &c;
+        modules_cnt_++;
     }
 
     /**
-- 
2.43.0


From 1f659b03cbb45c3c7961d917f681c4b5489f9e0b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 10/28] fix: mediator clears the vacated slot, not the one past
 the end

---
 include/xitren/comm/mediator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/comm/mediator.hpp b/include/xitren/comm/mediator.hpp
index e5c83c1..9411c19 100644
--- a/include/xitren/comm/mediator.hpp
+++ b/include/xitren/comm/mediator.hpp
@@ -294,8 +294,8 @@ public:
                 for (; i < modules_cnt_ - 1; i++) {
                     modules_[i] = modules_[i + 1];
                 }
-                modules_[modules_cnt_] = 0;
                 --modules_cnt_;
+                modules_[modules_cnt_] = 0;
                 return;
             }
         }
-- 
2.43.0


From d3471e2a0e235d73fe87a3cc3a2ed7dd443cb564 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 11/28] fix: pipeline_stage_pool has one queue per worker

---
 include/xitren/comm/pipeline_stage_pool.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/comm/pipeline_stage_pool.hpp b/include/xitren/comm/pipeline_stage_pool.hpp
index f0c5544..55c9477 100644
--- a/include/xitren/comm/pipeline_stage_pool.hpp
+++ b/include/xitren/comm/pipeline_stage_pool.hpp
@@ -46,7 +46,7 @@ class pipeline_stage_pool {
         atomic_cnt_type                    tail;
         atomic_cnt_type                    head;
     };
-    using pool_type     = std::array<queue_type, 8>;
+    using pool_type     = std::array<queue_type, PoolSize>;
     using thread_type   = std::vector<std::thread>;
     using function_type = std::function<const NextType(pipeline_stage_exception, const Type, const measure_data)>;
 
-- 
2.43.0


From c7cc41cfdbca0e2ebf9989e1948476f971080d4c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 12/28] fix: interval_event starts its thread after the periods
 are initialised

---
 include/xitren/func/interval_event.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/xitren/func/interval_event.hpp b/include/xitren/func/interval_event.hpp
index 89edbcc..3686f52 100644
--- a/include/xitren/func/interval_event.hpp
+++ b/include/xitren/func/interval_event.hpp
@@ -41,6 +41,8 @@ public:
     interval_event(std::function<void(void)> function, time_type repeat_every = 100ms,
                    time_type wait_between_checks = 20ms)
         : function_{std::move(function)},
+          period_{repeat_every},
+          period_between_checks_{wait_between_checks},
           thread_{[&] {
               std::this_thread::sleep_for(10ms);
               auto last_time{std::chrono::system_clock::now()};
@@ -52,9 +54,7 @@ public:
                   std::this_thread::sleep_for(period_between_checks_);
               }
               keep_running_.notify_one();
-          }},
-          period_{repeat_every},
-          period_between_checks_{wait_between_checks}
+          }}
     {
         thread_.detach();
     }
@@ -129,10 +129,10 @@ public:
 private:
     std::function<void(void)> function_;
     std::atomic_flag          keep_running_{true};
-    std::thread               thread_;
     time_type                 period_{};
     time_type                 period_between_checks_{};
     bool                      stop_{false};
+    std::thread               thread_;
 };
 
 }    // namespace xitren::func
-- 
2.43.0


From 399e9bb9e7ae14a3a27582735996a66ba363a70b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 13/28] fix: argv_parser keeps the whole token of a string
 option

---
 include/xitren/func/argv_parser.hpp | 11 ++++++++---
 1 file changed, 8 insertions(+), 3 deletions(-)

diff --git a/include/xitren/func/argv_parser.hpp b/include/xitren/func/argv_parser.hpp
index 48e5154..988d334 100644
--- a/include/xitren/func/argv_parser.hpp
+++ b/include/xitren/func/argv_parser.hpp
@@ -6,6 +6,7 @@
 #include <sstream>
 #include <string>
 #include <string_view>
+#include <type_traits>
 #include <variant>
 #include <vector>
 
@@ -73,9 +74,13 @@ private:
                 visit(
                     [this, idx, &argv](auto&& arg) {
                         if (idx < static_cast<int>(argv.size() - 1)) {
-                            std::stringstream value;
-                            value << argv[idx + 1];
-                            value >> this->*arg;
+                            if constexpr (std::is_same_v<std::decay_t<decltype(this->*arg)>, std::string>) {
+                                this->*arg = argv[idx + 1];
+                            } else {
+                                std::stringstream value;
+                                value << argv[idx + 1];
+                                value >> this->*arg;
+                            }
                         }
                     },
                     prop);
-- 
2.43.0


From f65c73e4453239dd64fde6cfcd1cef80aee45732 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 14/28] fix: is_lsb reports the endianness of the target

---
 include/xitren/func/data.hpp | 12 ++++--------
 1 file changed, 4 insertions(+), 8 deletions(-)

diff --git a/include/xitren/func/data.hpp b/include/xitren/func/data.hpp
index eab868b..7e7eb53 100644
--- a/include/xitren/func/data.hpp
+++ b/include/xitren/func/data.hpp
@@ -7,7 +7,9 @@ __ _(_) |_ _ _ ___ _ _
 */
 #pragma once
 
+#include <algorithm>
 #include <array>
+#include <bit>
 #include <concepts>
 #include <cstdint>
 
@@ -15,10 +17,7 @@ namespace xitren::func {
 
 /// Returns true if the current CPU is little endian, false otherwise.
 ///
-/// This function uses a compile-time constant expression to determine if the current CPU is little endian. It does so
-/// by creating a 16-bit integer value with the least and most significant bytes swapped, and then checking if the least
-/// significant byte is equal to 0x22. If the check passes, the current CPU is little endian, and the function returns
-/// true. Otherwise, it is big endian, and the function returns false.
+/// This function uses a compile-time constant expression to determine if the current CPU is little endian.
 ///
 /// This function can be used to optimize code for different endianness architectures, by allowing the compiler to make
 /// decisions at compile time based on the endianness of the CPU. This can lead to improved performance and reduced code
@@ -28,10 +27,7 @@ namespace xitren::func {
 static constexpr bool
 is_lsb()
 {
-    std::uint16_t               test{0x3322};
-    std::array<std::uint8_t, 2> arr{};
-    std::copy(&test, (&test) + 1, arr.begin());
-    return arr[0] == 0x22;
+    return std::endian::native == std::endian::little;
 }
 
 template <class Type>
-- 
2.43.0


From 149ca5fb4efc8a68a93d83f91d34901a362cb30d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:42:49 +0000
Subject: [PATCH 15/28] fix: fast_pimpl copies from a non-const object

---
 include/xitren/func/fast_pimpl.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/xitren/func/fast_pimpl.hpp b/include/xitren/func/fast_pimpl.hpp
index f22f236..32acaf1 100644
--- a/include/xitren/func/fast_pimpl.hpp
+++ b/include/xitren/func/fast_pimpl.hpp
@@ -50,6 +50,7 @@ public:
      * @tparam Args The types of the arguments to be passed to the object's constructor.
      */
     template <typename... Args>
+        requires(!(sizeof...(Args) == 1 && (std::is_same_v<std::remove_cvref_t<Args>, fast_pimpl> && ...)))
     explicit fast_pimpl(Args&&... args) noexcept(noexcept(type{std::declval<Args>()...}))
     {
         new (get()) type(std::forward<Args>(args)...);
-- 
2.43.0


From ddb29febc863d1c9bf677807690f7e668acba72f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 16/28] fix: lru put and get compile, evict from the index,
 refresh and expire by duration

---
 include/xitren/cache/lru.hpp | 41 +++++++++++++++++-------------------
 1 file changed, 19 insertions(+), 22 deletions(-)

diff --git a/include/xitren/cache/lru.hpp b/include/xitren/cache/lru.hpp
index 1c2c3bb..3bca4be 100644
--- a/include/xitren/cache/lru.hpp
+++ b/include/xitren/cache/lru.hpp
@@ -16,6 +16,7 @@ __ _(_) |_ _ _ ___ _ _
 #include <mutex>
 #include <optional>
 #include <string>
+#include <tuple>
 #include <unordered_map>
 
 namespace xitren::cache {
@@ -24,12 +25,15 @@ template <class Key, class Value, std::size_t Size, bool Exception = true>
 class lru {
     using timestamp          = std::chrono::time_point<std::chrono::system_clock>;
     using data_item          = std::tuple<Key, Value, timestamp>;
+    using duration           = typename timestamp::duration;
     using double_linked_list = std::list<data_item>;
-    using hash_map           = std::unordered_map<Key, data_item>;
+    using hash_map           = std::unordered_map<Key, typename double_linked_list::iterator>;
     using return_type        = std::optional<data_item>;
 
+    static_assert(Size > 0, "A cache holds at least one item");
+
 public:
-    explicit lru(timestamp expired) noexcept : expired_after_{expired} {}
+    explicit lru(duration expired) noexcept : expired_after_{expired} {}
 
     void
     put(Key key, Value value)
@@ -37,26 +41,17 @@ public:
 #ifdef PTHREAD_MUTEX_DEFAULT
         std::unique_lock<std::mutex> lock(access_);
 #endif
-        if (map_.contains(key)) {
-            auto is_key = [key](data_item item) { return item.template get<0>() == key; };
-            auto it     = std::find_if(list_.begin(), list_.end(), is_key);
-            if (it != list_.end()) {
-                auto obj = *it;
-                list_.erase(it);
-                list_.push_front(obj);
-                map_[key] = obj;
-            } else {
-                if constexpr (Exception) {
-                    throw cache_missed();
-                }
-            }
+        auto it = map_.find(key);
+        if (it != map_.end()) {
+            *(it->second) = data_item{key, value, get_time()};
+            list_.splice(list_.begin(), list_, it->second);
         } else {
             if (list_.size() >= Size) {
+                map_.erase(std::get<0>(list_.back()));
                 list_.pop_back();
             }
-            auto obj = data_item{key, value, get_time()};
-            list_.push_front(obj);
-            map_[key] = obj;
+            list_.push_front(data_item{key, value, get_time()});
+            map_[key] = list_.begin();
         }
     }
 
@@ -66,14 +61,16 @@ public:
 #ifdef PTHREAD_MUTEX_DEFAULT
         std::unique_lock<std::mutex> lock(access_);
 #endif
-        if (map_.contains(key)) {
-            auto [value, time] = map_[key];
-            if ((get_time() - time).count() >= expired_after_) {
+        auto it = map_.find(key);
+        if (it != map_.end()) {
+            if ((get_time() - std::get<2>(*(it->second))) >= expired_after_) {
                 if constexpr (Exception) {
                     throw cache_timeout();
                 }
                 return std::nullopt;
             }
+            list_.splice(list_.begin(), list_, it->second);
+            return *(it->second);
         } else {
             return std::nullopt;
         }
@@ -86,7 +83,7 @@ public:
     }
 
 private:
-    const timestamp    expired_after_;
+    const duration     expired_after_;
     double_linked_list list_{};
     hash_map           map_{};
 #ifdef PTHREAD_MUTEX_DEFAULT
-- 
2.43.0


From 237470fbdfc9b16b7fb050002ff34062c85f959a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 17/28] fix: packet_accessor refuses to deserialize a size
 outside its storage

---
 include/xitren/func/packet.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index a30ae3f..3d874be 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -198,6 +198,9 @@ public:
         constexpr size_type length = (sizeof(Header) + sizeof(Fields) + sizeof(typename Crc::value_type));
         static_assert(sizeof(Type) != 0);
         static_assert(Max >= length);
+        if ((size_ < length) || (size_ > Max)) {
+            return return_type{{}, {}, false, 0, nullptr};
+        }
         size_type const variable_part = (size_ - length) / sizeof(Type);
         if (((size_ - length) % sizeof(Type))) {
             return return_type{{}, {}, false, 0, nullptr};
-- 
2.43.0


From 3895fa700e9f057f4cd22071adaddc3c8c1717cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 18/28] fix: packet_accessor's size check does not overflow

---
 include/xitren/func/packet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index 3d874be..967e746 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -222,7 +222,7 @@ public:
         constexpr size_type length = (sizeof(Header) + sizeof(Fields) + sizeof(typename Crc::value_type));
         static_assert(sizeof(Type) != 0);
         static_assert(Max >= length);
-        if ((input.size * sizeof(Type) + length) > Max) {
+        if (input.size > (Max - length) / sizeof(Type)) {
             return false;
         }
         data<Header>::serialize(input.header, storage_.begin());
-- 
2.43.0


From 21e4aaf3453de81e767520c92f40b14fb157051b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:44:04 +0000
Subject: [PATCH 19/28] fix: packet accessors and array deserialization compile
 and check the received bytes

---
 include/xitren/func/packet.hpp | 19 +++++++++++--------
 1 file changed, 11 insertions(+), 8 deletions(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index 967e746..b05398b 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -10,8 +10,10 @@ __ _(_) |_ _ _ ___ _ _
 #include <xitren/crc_concept.hpp>
 #include <xitren/func/data.hpp>
 
+#include <algorithm>
 #include <array>
 #include <cstdint>
+#include <tuple>
 
 namespace xitren::func {
 
@@ -61,13 +63,13 @@ public:
         return fields_.header;
     }
 
-    constexpr Header&
+    constexpr Header const&
     header() const noexcept
     {
         return fields_.header;
     }
 
-    constexpr Fields&
+    constexpr Fields const&
     fields() const noexcept
     {
         return fields_.fields;
@@ -79,13 +81,13 @@ public:
         return fields_.fields;
     }
 
-    Crc&
+    typename Crc::value_type&
     crc() noexcept
     {
         return fields_.crc;
     }
 
-    constexpr Crc&
+    constexpr typename Crc::value_type const&
     crc() const noexcept
     {
         return fields_.crc;
@@ -115,10 +117,11 @@ public:
     static constexpr std::tuple<bool, Header, Fields>
     deserialize(std::array<std::uint8_t, Size> const& array) noexcept
     {
-        auto [header, fields, crc] = data<struct_type>::serialize(array);
-        std::array<std::uint8_t, Size - sizeof(Crc::value_type)> checker;
-        auto                                                     calc_crc = Crc::calculate(checker);
-        return {crc == calc_crc, header, fields};
+        static_assert(Size >= length);
+        struct_type              tt{data<struct_type>::deserialize(array.begin())};
+        typename Crc::value_type crc{tt.crc};
+        auto const               calc_crc = Crc::calculate(array.begin(), array.begin() + sizeof(struct_nocrc_type));
+        return {crc == calc_crc, Header{tt.header}, Fields{tt.fields}};
     }
 
     template <typename InputIterator>
-- 
2.43.0


From 490effa4ebabdca9218500041ea07eae35747226 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:11:11 +0000
Subject: [PATCH 20/28] fix: lru: an allocation failure in put leaves no list
 entry without its index entry

---
 include/xitren/cache/lru.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/xitren/cache/lru.hpp b/include/xitren/cache/lru.hpp
index 3bca4be..a1bfc46 100644
--- a/include/xitren/cache/lru.hpp
+++ b/include/xitren/cache/lru.hpp
@@ -50,8 +50,10 @@ public:
                 map_.erase(std::get<0>(list_.back()));
                 list_.pop_back();
             }
-            list_.push_front(data_item{key, value, get_time()});
-            map_[key] = list_.begin();
+            double_linked_list fresh{};
+            fresh.push_front(data_item{key, value, get_time()});
+            map_[key] = fresh.begin();
+            list_.splice(list_.begin(), fresh);
         }
     }
 
-- 
2.43.0


From e023d6aadaf9d45dfae7921ef00529bf2ec3569c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:21 +0000
Subject: [PATCH 21/28] fix: interval_event periods are atomic, the thread
 reads them while the setters write

---
 include/xitren/func/interval_event.hpp | 14 +++++++-------
 1 file changed, 7 insertions(+), 7 deletions(-)

diff --git a/include/xitren/func/interval_event.hpp b/include/xitren/func/interval_event.hpp
index 3686f52..e789d4b 100644
--- a/include/xitren/func/interval_event.hpp
+++ b/include/xitren/func/interval_event.hpp
@@ -47,11 +47,11 @@ public:
               std::this_thread::sleep_for(10ms);
               auto last_time{std::chrono::system_clock::now()};
               while (keep_running_.test_and_set()) {
-                  if ((std::chrono::system_clock::now() - last_time).count() >= period_.count()) {
-                      last_time += period_;
+                  if ((std::chrono::system_clock::now() - last_time).count() >= period_.load().count()) {
+                      last_time += period_.load();
                       function_();
                   }
-                  std::this_thread::sleep_for(period_between_checks_);
+                  std::this_thread::sleep_for(period_between_checks_.load());
               }
               keep_running_.notify_one();
           }}
@@ -89,7 +89,7 @@ public:
     /**
      * Returns the interval at which the function is called, in milliseconds.
      */
-    auto&
+    time_type
     period() const noexcept
     {
         return period_;
@@ -98,7 +98,7 @@ public:
     /**
      * Returns the interval between checks for whether the function should be called, in milliseconds.
      */
-    auto&
+    time_type
     period_between_checks() const noexcept
     {
         return period_between_checks_;
@@ -129,8 +129,8 @@ public:
 private:
     std::function<void(void)> function_;
     std::atomic_flag          keep_running_{true};
-    time_type                 period_{};
-    time_type                 period_between_checks_{};
+    std::atomic<time_type>    period_{};
+    std::atomic<time_type>    period_between_checks_{};
     bool                      stop_{false};
     std::thread               thread_;
 };
-- 
2.43.0


From d05efc1c7b382754e20a23c22f654d43267e36b4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:21 +0000
Subject: [PATCH 22/28] fix: interval_event compares the elapsed time with the
 period, not the counts of different units

---
 include/xitren/func/interval_event.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/xitren/func/interval_event.hpp b/include/xitren/func/interval_event.hpp
index e789d4b..08119b5 100644
--- a/include/xitren/func/interval_event.hpp
+++ b/include/xitren/func/interval_event.hpp
@@ -45,9 +45,9 @@ public:
           period_between_checks_{wait_between_checks},
           thread_{[&] {
               std::this_thread::sleep_for(10ms);
-              auto last_time{std::chrono::system_clock::now()};
+              auto last_time{std::chrono::system_clock::now() - period_.load()};
               while (keep_running_.test_and_set()) {
-                  if ((std::chrono::system_clock::now() - last_time).count() >= period_.load().count()) {
+                  if (std::chrono::system_clock::now() - last_time >= period_.load()) {
                       last_time += period_.load();
                       function_();
                   }
-- 
2.43.0


From ca3cc8c3c6f2d0272ac7e6cef334e4a1ca7ccb47 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 00:21:21 +0000
Subject: [PATCH 23/28] fix: pipeline_stage guards its statistics, read by
 callers while the worker updates them

---
 include/xitren/comm/pipeline_stage.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/xitren/comm/pipeline_stage.hpp b/include/xitren/comm/pipeline_stage.hpp
index 0299016..acb1672 100644
--- a/include/xitren/comm/pipeline_stage.hpp
+++ b/include/xitren/comm/pipeline_stage.hpp
@@ -76,6 +76,7 @@ public:
     auto
     time_for_unit() const
     {
+        std::lock_guard<std::mutex> const lock{stat_mutex_};
         int calc{};
         for (auto& item : stat_) {
             calc += item.first;
@@ -86,6 +87,7 @@ public:
     auto
     buffer_utilization() const
     {
+        std::lock_guard<std::mutex> const lock{stat_mutex_};
         int calc{};
         for (auto& item : stat_) {
             calc += item.second;
@@ -99,6 +101,7 @@ private:
     queue_type         queue_{};
     function_type      func_{};
     statistics_type    stat_{};
+    mutable std::mutex stat_mutex_{};
 
     std::thread worker_ = std::thread{[this]() {
         using namespace std::chrono_literals;
@@ -123,6 +126,7 @@ private:
                 func_(pipeline_stage_exception::no_error, data.value(),
                       measure_type{time_for_unit(), buffer_utilization()});
                 auto elapsed = std::chrono::system_clock::now() - last_time;
+                std::lock_guard<std::mutex> const lock{stat_mutex_};
                 stat_.push_front(measure_type{std::chrono::duration_cast<std::chrono::milliseconds>(elapsed).count(),
                                               queue_.tail - tail_});
                 if (stat_.size() > measure_points) {
-- 
2.43.0


From d07d82fce1281ac3e313af5722fefc76ecdfa669 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:00:57 +0000
Subject: [PATCH 24/28] fix: fields of fixed byte order can be compared when
 they are const

---
 include/xitren/func/data.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/xitren/func/data.hpp b/include/xitren/func/data.hpp
index 7e7eb53..c25e792 100644
--- a/include/xitren/func/data.hpp
+++ b/include/xitren/func/data.hpp
@@ -227,7 +227,7 @@ public:
      * @return True if the two lsb_ts are equal, false otherwise.
      */
     constexpr bool
-    operator==(lsb_t const& other)
+    operator==(lsb_t const& other) const
     {
         return this->get() == other.get();
     }
@@ -239,7 +239,7 @@ public:
      * @return True if the value of this lsb_t is less than the value of the other lsb_t, false otherwise.
      */
     constexpr bool
-    operator<(lsb_t const& other)
+    operator<(lsb_t const& other) const
     {
         return this->get() < other.get();
     }
@@ -251,7 +251,7 @@ public:
      * @return True if the value of this lsb_t is greater than the value of the other lsb_t, false otherwise.
      */
     constexpr bool
-    operator>(lsb_t const& other)
+    operator>(lsb_t const& other) const
     {
         return this->get() > other.get();
     }
@@ -263,7 +263,7 @@ public:
      * @return True if the value of this lsb_t is less than or equal to the value of the other lsb_t, false otherwise.
      */
     constexpr bool
-    operator<=(lsb_t const& other)
+    operator<=(lsb_t const& other) const
     {
         return this->get() <= other.get();
     }
@@ -276,7 +276,7 @@ public:
      * otherwise.
      */
     constexpr bool
-    operator>=(lsb_t const& other)
+    operator>=(lsb_t const& other) const
     {
         return this->get() >= other.get();
     }
@@ -380,7 +380,7 @@ public:
      * @return True if the two msb_ts are equal, false otherwise.
      */
     constexpr bool
-    operator==(msb_t const& other)
+    operator==(msb_t const& other) const
     {
         return this->get() == other.get();
     }
@@ -392,7 +392,7 @@ public:
      * @return True if the value of this msb_t is less than the value of the other msb_t, false otherwise.
      */
     constexpr bool
-    operator<(msb_t const& other)
+    operator<(msb_t const& other) const
     {
         return this->get() < other.get();
     }
@@ -404,7 +404,7 @@ public:
      * @return True if the value of this msb_t is greater than the value of the other msb_t, false otherwise.
      */
     constexpr bool
-    operator>(msb_t const& other)
+    operator>(msb_t const& other) const
     {
         return this->get() > other.get();
     }
@@ -416,7 +416,7 @@ public:
      * @return True if the value of this msb_t is less than or equal to the value of the other msb_t, false otherwise.
      */
     constexpr bool
-    operator<=(msb_t const& other)
+    operator<=(msb_t const& other) const
     {
         return this->get() <= other.get();
     }
@@ -429,7 +429,7 @@ public:
      * otherwise.
      */
     constexpr bool
-    operator>=(msb_t const& other)
+    operator>=(msb_t const& other) const
     {
         return this->get() >= other.get();
     }
-- 
2.43.0


From dddd3662f4e6e091f95d00799810f0a3a3856bfe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:15 +0000
Subject: [PATCH 25/28] fix: static_heap_allocator converts between value types
 as vector<bool> needs it

---
 include/xitren/allocators/static_heap_allocator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/allocators/static_heap_allocator.hpp b/include/xitren/allocators/static_heap_allocator.hpp
index ccc8466..e5a4eab 100644
--- a/include/xitren/allocators/static_heap_allocator.hpp
+++ b/include/xitren/allocators/static_heap_allocator.hpp
@@ -37,7 +37,7 @@ public:
     constexpr explicit static_heap_allocator(static_heap<PoolSize>& manager) : manager_{manager} {}
 
     template <class U>
-    explicit static_heap_allocator(static_heap_allocator<U, PoolSize> const& other) noexcept : manager_{other.manager_}
+    static_heap_allocator(static_heap_allocator<U, PoolSize> const& other) noexcept : manager_{other.manager_}
     {}
 
     Type*
-- 
2.43.0


From f22109582f0c401233d220ffeccd6e6a107d46f2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:15 +0000
Subject: [PATCH 26/28] fix: data and packet read from any input iterator

---
 include/xitren/func/data.hpp   | 2 +-
 include/xitren/func/packet.hpp | 4 ++--
 2 files changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/xitren/func/data.hpp b/include/xitren/func/data.hpp
index c25e792..e54fad0 100644
--- a/include/xitren/func/data.hpp
+++ b/include/xitren/func/data.hpp
@@ -57,7 +57,7 @@ union data {
     deserialize(InputIterator begin) noexcept
     {
         data<Type> tt{};
-        std::copy(begin, begin + sizeof(fields), tt.pure.begin());
+        std::copy_n(begin, sizeof(fields), tt.pure.begin());
         return tt.fields;
     }
 
diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index b05398b..41d3b00 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -47,7 +47,7 @@ public:
     template <std::input_iterator InputIterator>
     explicit constexpr packet(InputIterator begin) noexcept : pure_{}
     {
-        std::copy(begin, begin + length, pure_.begin());
+        std::copy_n(begin, length, pure_.begin());
     }
 
     constexpr packet() noexcept : pure_{} {}
@@ -129,7 +129,7 @@ public:
     deserialize(InputIterator begin) noexcept
     {
         data<packet> tt{};
-        std::copy(begin, begin + length, tt.pure.begin());
+        std::copy_n(begin, length, tt.pure.begin());
         return tt.fields;
     }
 
-- 
2.43.0


From 11179571d0a66677d3768edd80fdee592562a3cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:15 +0000
Subject: [PATCH 27/28] fix: packet_accessor checks a checksum of any type the
 concept admits

---
 include/xitren/func/packet.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index 41d3b00..483589a 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -214,7 +214,7 @@ public:
             = data<typename Crc::value_type>::deserialize(storage_.begin() + size_ - sizeof(typename Crc::value_type));
         typename Crc::value_type crc_calc
             = Crc::calculate(storage_.begin(), storage_.begin() + size_ - sizeof(typename Crc::value_type));
-        return return_type{header_conv, fields_conv, crc_conv.get() == crc_calc.get(), variable_part,
+        return return_type{header_conv, fields_conv, crc_conv == crc_calc, variable_part,
                            reinterpret_cast<Type const*>(storage_.begin() + sizeof(Header) + sizeof(Fields))};
     }
 
-- 
2.43.0


From 6365ebe650e10ebc9466a991914a003c1a85cda3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 02:29:23 +0000
Subject: [PATCH 28/28] fix: packet's accessors give references into the packet
 when built with g++

---
 include/xitren/func/packet.hpp | 18 ++++++++++++------
 1 file changed, 12 insertions(+), 6 deletions(-)

diff --git a/include/xitren/func/packet.hpp b/include/xitren/func/packet.hpp
index 483589a..df30d69 100644
--- a/include/xitren/func/packet.hpp
+++ b/include/xitren/func/packet.hpp
@@ -60,37 +60,43 @@ public:
     Header&
     header() noexcept
     {
-        return fields_.header;
+        Header* const member{&fields_.header};
+        return *member;
     }
 
     constexpr Header const&
     header() const noexcept
     {
-        return fields_.header;
+        Header const* const member{&fields_.header};
+        return *member;
     }
 
     constexpr Fields const&
     fields() const noexcept
     {
-        return fields_.fields;
+        Fields const* const member{&fields_.fields};
+        return *member;
     }
 
     Fields&
     fields() noexcept
     {
-        return fields_.fields;
+        Fields* const member{&fields_.fields};
+        return *member;
     }
 
     typename Crc::value_type&
     crc() noexcept
     {
-        return fields_.crc;
+        typename Crc::value_type* const member{&fields_.crc};
+        return *member;
     }
 
     constexpr typename Crc::value_type const&
     crc() const noexcept
     {
-        return fields_.crc;
+        typename Crc::value_type const* const member{&fields_.crc};
+        return *member;
     }
 
     constexpr bool
-- 
2.43.0

