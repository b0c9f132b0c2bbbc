From 8760e4a0133af3e504852609e57d5e8c80bc64b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:45 +0000
Subject: [PATCH 01/34] fix: make arena superblocks large enough for the
 request

A request larger than both the configured superblock size and 256 KiB got a
256 KiB superblock, in which it did not fit, and a null pointer was returned.
---
 core/src/memory/details/arena_memory_resource_impl.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index 54692b6..9346a9d 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -231,7 +231,7 @@ arena_memory_resource_impl::block arena_memory_resource_impl::expand_arena(
     std::size_t size) {
 
     if (size > this->size_superblocks_)
-        size = minimum_superblock_size;
+        size = std::max(size, minimum_superblock_size);
     else {
         size = size_superblocks_;
     }
-- 
2.43.0


From 1ee3b747988f0238ae5fec9f96047ee03bb5aaf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:40:45 +0000
Subject: [PATCH 02/34] fix: reuse free arena memory for large requests as well

Requests of 256 KiB and more never looked at the free blocks, and allocated a
new superblock every time, even for a block that was just released.
---
 core/src/memory/details/arena_memory_resource_impl.cpp | 8 +++-----
 1 file changed, 3 insertions(+), 5 deletions(-)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index 9346a9d..a673473 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -215,11 +215,9 @@ arena_memory_resource_impl::block arena_memory_resource_impl::coalesce_block(
 arena_memory_resource_impl::block arena_memory_resource_impl::get_block(
     std::size_t size) {
 
-    if (size < minimum_superblock_size) {
-        auto const b = first_fit(this->free_blocks_, size);
-        if (b.is_valid()) {
-            return b;
-        }
+    auto const b = first_fit(this->free_blocks_, size);
+    if (b.is_valid()) {
+        return b;
     }
 
     auto const superblock = expand_arena(size);
-- 
2.43.0


From c283ac08db4e23d1d6805aee35a0706b7fde2e2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:26 +0000
Subject: [PATCH 03/34] fix: return arena superblocks to upstream exactly as
 obtained

New superblocks were put on the free list twice, free blocks were merged
across superblocks that happened to be adjacent, and the merged blocks were
then given back upstream. An empty free list was dereferenced as well.
---
 .../details/arena_memory_resource_impl.cpp    | 41 +++++++++----------
 .../details/arena_memory_resource_impl.hpp    |  6 ++-
 2 files changed, 24 insertions(+), 23 deletions(-)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index a673473..4b72941 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -98,22 +98,14 @@ arena_memory_resource_impl::arena_memory_resource_impl(std::size_t initial_size,
         }
     }
     // initial size exceeds the maxium pool size
-    this->free_blocks_.emplace(this->expand_arena(initial_size));
+    auto const superblock = this->expand_arena(initial_size);
+    coalesce_block(this->free_blocks_, this->superblocks_, superblock);
 }
 
 arena_memory_resource_impl::~arena_memory_resource_impl() {
 
-    for (auto itr = allocated_blocks_.begin();
-         itr != allocated_blocks_.end();) {
-        auto aux = itr++;
-        deallocate(aux->pointer(), aux->size());
-    }
-
-    for (auto itr = free_blocks_.begin(); itr != free_blocks_.end();) {
-        auto aux = itr++;
-        void* p = aux->pointer();
-        std::size_t size = aux->size();
-        mm_.deallocate(p, size);
+    for (block const& superblock : superblocks_) {
+        mm_.deallocate(superblock.pointer(), superblock.size());
     }
 }
 
@@ -134,7 +126,7 @@ bool arena_memory_resource_impl::deallocate(void* p, std::size_t bytes,
 
     auto const b = free_block(p, bytes);
     if (b.is_valid()) {
-        coalesce_block(free_blocks_, b);
+        coalesce_block(free_blocks_, superblocks_, b);
     }
 
     return b.is_valid();
@@ -167,7 +159,8 @@ arena_memory_resource_impl::block arena_memory_resource_impl::first_fit(
 }
 
 arena_memory_resource_impl::block arena_memory_resource_impl::coalesce_block(
-    std::set<block>& free_blocks, block const& b) {
+    std::set<block>& free_blocks, std::set<block> const& superblocks,
+    block const& b) {
 
     // return the given block in case is not valid
     if (!b.is_valid())
@@ -177,10 +170,14 @@ arena_memory_resource_impl::block arena_memory_resource_impl::coalesce_block(
     auto const next = free_blocks.lower_bound(b);
     auto const previous = next == free_blocks.cbegin() ? next : std::prev(next);
 
-    // coalesce with neighboring blocks
-    bool const merge_prev = previous->is_contiguous_before(b);
-    bool const merge_next =
-        next != free_blocks.cend() && b.is_contiguous_before(*next);
+    // coalesce with neighboring blocks, but never across the boundary between
+    // two superblocks
+    bool const merge_prev = previous != next &&
+                            previous->is_contiguous_before(b) &&
+                            superblocks.count(b) == 0;
+    bool const merge_next = next != free_blocks.cend() &&
+                            b.is_contiguous_before(*next) &&
+                            superblocks.count(*next) == 0;
 
     block merged{};
     if (merge_prev && merge_next) {
@@ -221,7 +218,7 @@ arena_memory_resource_impl::block arena_memory_resource_impl::get_block(
     }
 
     auto const superblock = expand_arena(size);
-    coalesce_block(this->free_blocks_, superblock);
+    coalesce_block(this->free_blocks_, this->superblocks_, superblock);
     return first_fit(this->free_blocks_, size);
 }
 
@@ -233,11 +230,11 @@ arena_memory_resource_impl::block arena_memory_resource_impl::expand_arena(
     else {
         size = size_superblocks_;
     }
-    std::pair<std::set<block>::iterator, bool> ret =
-        free_blocks_.insert({mm_.allocate(size), size});
+    block const superblock{mm_.allocate(size), size};
+    superblocks_.insert(superblock);
 
     current_size_ += size;
-    return *(ret.first);
+    return superblock;
 }
 
 arena_memory_resource_impl::block arena_memory_resource_impl::free_block(
diff --git a/core/src/memory/details/arena_memory_resource_impl.hpp b/core/src/memory/details/arena_memory_resource_impl.hpp
index 7c290f8..860174b 100644
--- a/core/src/memory/details/arena_memory_resource_impl.hpp
+++ b/core/src/memory/details/arena_memory_resource_impl.hpp
@@ -118,7 +118,9 @@ private:
     };
 
     static block first_fit(std::set<block>& free_blocks, std::size_t size);
-    static block coalesce_block(std::set<block>& free_blocks, block const& b);
+    static block coalesce_block(std::set<block>& free_blocks,
+                                std::set<block> const& superblocks,
+                                block const& b);
 
     // @brief Get an available memory block of at least `size` bytes.
     //
@@ -149,6 +151,8 @@ private:
     // Address-ordered set of free blocks
     std::set<block> free_blocks_;
     std::set<block> allocated_blocks_;
+    // Address-ordered set of the memory blocks received from upstream
+    std::set<block> superblocks_;
 
 };  // class arena_memory_resource_impl
 
-- 
2.43.0


From e37fc7d62e21f217dfd6b3411fbd8f7d569b9dcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:48 +0000
Subject: [PATCH 04/34] fix: refuse sizes that can not be rounded up in the
 host resources

The host, arena and binary page resources round the requested size up. Near
the top of the size range this wrapped around, and a tiny block (or a null
pointer) was returned instead of throwing std::bad_alloc.
---
 core/src/memory/details/arena_memory_resource_impl.cpp |  5 +++++
 .../details/binary_page_memory_resource_impl.cpp       | 10 ++++++++++
 core/src/memory/host_memory_resource.cpp               |  8 ++++++++
 3 files changed, 23 insertions(+)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index 4b72941..18f06b9 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -12,6 +12,7 @@
 // System include(s).
 #include <algorithm>
 #include <cassert>
+#include <new>
 
 namespace {
 
@@ -111,6 +112,10 @@ arena_memory_resource_impl::~arena_memory_resource_impl() {
 
 void* arena_memory_resource_impl::allocate(std::size_t bytes, std::size_t) {
 
+    // sizes that can not be rounded up can not be allocated either
+    if (align_up(bytes) < bytes) {
+        throw std::bad_alloc();
+    }
     bytes = align_up(bytes);
 
     auto const b = get_block(bytes);
diff --git a/core/src/memory/details/binary_page_memory_resource_impl.cpp b/core/src/memory/details/binary_page_memory_resource_impl.cpp
index 33741eb..0f8e884 100644
--- a/core/src/memory/details/binary_page_memory_resource_impl.cpp
+++ b/core/src/memory/details/binary_page_memory_resource_impl.cpp
@@ -15,7 +15,9 @@
 // System include(s).
 #include <algorithm>
 #include <cassert>
+#include <limits>
 #include <memory>
+#include <new>
 #include <optional>
 #include <stdexcept>
 
@@ -27,6 +29,14 @@ binary_page_memory_resource_impl::binary_page_memory_resource_impl(
 
 void *binary_page_memory_resource_impl::allocate(std::size_t size,
                                                  std::size_t) {
+    /*
+     * Sizes above the largest power of two can not be rounded up to one.
+     */
+    if (size > (static_cast<std::size_t>(1UL)
+                << (std::numeric_limits<std::size_t>::digits - 1))) {
+        throw std::bad_alloc();
+    }
+
     /*
      * First, we round our allocation request up to a power of two, since
      * that is what the sizes of all our pages are.
diff --git a/core/src/memory/host_memory_resource.cpp b/core/src/memory/host_memory_resource.cpp
index c9454b1..49c38e0 100644
--- a/core/src/memory/host_memory_resource.cpp
+++ b/core/src/memory/host_memory_resource.cpp
@@ -37,6 +37,10 @@ void *host_memory_resource::do_allocate(std::size_t bytes,
     // values.
     const std::size_t align = std::max(alignment, alignof(std::max_align_t));
     const std::size_t size = bytes + (align - (bytes % align));
+    // Requests too large to be rounded up can not be served.
+    if (size < bytes) {
+        throw std::bad_alloc();
+    }
     void *ptr = std::aligned_alloc(align, size);
     // If the alignment failed for some reason, throw an exception.
     if (ptr == nullptr) {
@@ -48,6 +52,10 @@ void *host_memory_resource::do_allocate(std::size_t bytes,
     // pointer to the beginning of the unaligned memory blob before
     // the aligned pointer.
     std::size_t alloc_bytes = bytes + alignment + sizeof(void *) - 1;
+    // Requests too large to be padded can not be served.
+    if (alloc_bytes < bytes) {
+        throw std::bad_alloc();
+    }
     void *unaligned_ptr = std::malloc(alloc_bytes);
     // If the alignment failed for some reason, throw an exception.
     if (unaligned_ptr == nullptr) {
-- 
2.43.0


From 4b7dc31f32026cfa0709714f7a32ecfb1f0140e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:41:48 +0000
Subject: [PATCH 05/34] fix: apply the pool's size cut-off to the cached block
 actually used

The cut-off was tested before looking for a sufficiently aligned block, which
may be a lot larger than the one that was tested.
---
 .../details/pool_memory_resource_impl.cpp     | 20 +++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index a2d78be..c3c2326 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -119,16 +119,6 @@ void* pool_memory_resource_impl::allocate(std::size_t bytes,
             auto it = std::lower_bound(m_cached_oversized.begin(),
                                        m_cached_oversized.end(), oversized);
 
-            // If the size is bigger than the requested size by a factor
-            // bigger than or equal to the specified cutoff for size,
-            // allocate a new block.
-            if (it != m_cached_oversized.end()) {
-                const std::size_t size_factor = it->size / bytes;
-                if (size_factor >= m_options.cached_size_cutoff_factor) {
-                    it = m_cached_oversized.end();
-                }
-            }
-
             // Make sure that the alignment of the cached block is appropriate.
             if ((it != m_cached_oversized.end()) &&
                 (it->alignment < alignment)) {
@@ -140,6 +130,16 @@ void* pool_memory_resource_impl::allocate(std::size_t bytes,
                 ;
             }
 
+            // If the size is bigger than the requested size by a factor
+            // bigger than or equal to the specified cutoff for size,
+            // allocate a new block.
+            if (it != m_cached_oversized.end()) {
+                const std::size_t size_factor = it->size / bytes;
+                if (size_factor >= m_options.cached_size_cutoff_factor) {
+                    it = m_cached_oversized.end();
+                }
+            }
+
             // If the alignment is bigger than the requested one by a factor
             // bigger than or equal to the specified cutoff for alignment,
             // allocate a new block.
-- 
2.43.0


From 0cc50b47afbf2ad3dbb34ae622697e5da21ec6bd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:09 +0000
Subject: [PATCH 06/34] fix: make the pool's first chunks honour the configured
 minimum

The number of blocks was rounded down, giving chunks smaller than
min_bytes_per_chunk, and even without any block if min_blocks_per_chunk was 0.
---
 core/src/memory/details/pool_memory_resource_impl.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index c3c2326..6423020 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -181,9 +181,13 @@ void* pool_memory_resource_impl::allocate(std::size_t bytes,
 
         std::size_t n = bucket.previous_allocated_count;
         if (n == 0) {
-            n = m_options.min_blocks_per_chunk;
-            if (n < (m_options.min_bytes_per_chunk >> bytes_log2)) {
-                n = m_options.min_bytes_per_chunk >> bytes_log2;
+            n = std::max(m_options.min_blocks_per_chunk,
+                         static_cast<std::size_t>(1));
+            // Number of blocks needed to reach the minimal number of bytes.
+            const std::size_t n_bytes =
+                (m_options.min_bytes_per_chunk + bucket_size - 1) >> bytes_log2;
+            if (n < n_bytes) {
+                n = n_bytes;
             }
         } else {
             n = n * 3 / 2;
-- 
2.43.0


From 5ba02eece0f8c47c022dabdaffbbd6fcc298b5a3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:23 +0000
Subject: [PATCH 07/34] fix: validate the pool options before computing with
 them

The logarithm of a zero block size, which is undefined, was taken before such
options were rejected.
---
 core/src/memory/details/pool_memory_resource_impl.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/core/src/memory/details/pool_memory_resource_impl.cpp b/core/src/memory/details/pool_memory_resource_impl.cpp
index 6423020..6ecc8e8 100644
--- a/core/src/memory/details/pool_memory_resource_impl.cpp
+++ b/core/src/memory/details/pool_memory_resource_impl.cpp
@@ -35,7 +35,10 @@ namespace {
 ///
 /// @param opts The options to check
 ///
-void check_valid(const pool_memory_resource::options& opts) {
+/// @return The options received as an argument
+///
+const pool_memory_resource::options& check_valid(
+    const pool_memory_resource::options& opts) {
 
     CHECK_VALID(!vecmem::details::is_power_of_2(opts.smallest_block_size));
     CHECK_VALID(!vecmem::details::is_power_of_2(opts.largest_block_size));
@@ -62,6 +65,8 @@ void check_valid(const pool_memory_resource::options& opts) {
                 opts.min_bytes_per_chunk);
 
     CHECK_VALID(opts.alignment > opts.smallest_block_size);
+
+    return opts;
 }
 
 }  // namespace
@@ -69,11 +74,10 @@ void check_valid(const pool_memory_resource::options& opts) {
 pool_memory_resource_impl::pool_memory_resource_impl(
     memory_resource& upstream, const pool_memory_resource::options& opts)
     : m_upstream(upstream),
-      m_options(opts),
+      m_options(check_valid(opts)),
       m_smallest_block_log2(
           vecmem::details::log2_ri(opts.smallest_block_size)) {
 
-    check_valid(opts);
     m_pools.resize(vecmem::details::log2_ri(m_options.largest_block_size) -
                    m_smallest_block_log2 + 1);
     VECMEM_DEBUG_MSG(5, "Created %lu pools", m_pools.size());
-- 
2.43.0


From 975cf5bd6061f3d91456345beb917967e2825d59 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:42:26 +0000
Subject: [PATCH 08/34] fix: enforce the maximum size of the arena

The maximum was documented and stored, but never looked at.
---
 core/src/memory/details/arena_memory_resource_impl.cpp | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/core/src/memory/details/arena_memory_resource_impl.cpp b/core/src/memory/details/arena_memory_resource_impl.cpp
index 18f06b9..4cc3e5e 100644
--- a/core/src/memory/details/arena_memory_resource_impl.cpp
+++ b/core/src/memory/details/arena_memory_resource_impl.cpp
@@ -230,11 +230,18 @@ arena_memory_resource_impl::block arena_memory_resource_impl::get_block(
 arena_memory_resource_impl::block arena_memory_resource_impl::expand_arena(
     std::size_t size) {
 
+    // do not take more memory from upstream than allowed
+    std::size_t const available = maximum_size_ - current_size_;
+    if (size > available) {
+        throw std::bad_alloc();
+    }
+
     if (size > this->size_superblocks_)
         size = std::max(size, minimum_superblock_size);
     else {
         size = size_superblocks_;
     }
+    size = std::min(size, available);
     block const superblock{mm_.allocate(size), size};
     superblocks_.insert(superblock);
 
-- 
2.43.0


From b5086dacc74d553162d9d59c1f8100e6f501ca8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:45:57 +0000
Subject: [PATCH 09/34] fix: refuse object counts whose byte size can not be
 represented

make_unique_obj, make_unique_alloc and allocator::allocate_object wrapped
around in the multiplication and handed out a too small block.
---
 .../vecmem/memory/details/array_bytes.hpp     | 31 +++++++++++++++++++
 core/include/vecmem/memory/impl/allocator.ipp |  7 ++++-
 core/include/vecmem/memory/unique_ptr.hpp     |  7 +++--
 3 files changed, 41 insertions(+), 4 deletions(-)
 create mode 100644 core/include/vecmem/memory/details/array_bytes.hpp

diff --git a/core/include/vecmem/memory/details/array_bytes.hpp b/core/include/vecmem/memory/details/array_bytes.hpp
new file mode 100644
index 0000000..7ad23ab
--- /dev/null
+++ b/core/include/vecmem/memory/details/array_bytes.hpp
@@ -0,0 +1,31 @@
+/*
+ * VecMem project, part of the ACTS project (R&D line)
+ *
+ * (c) 2024 CERN for the benefit of the ACTS project
+ *
+ * Mozilla Public License Version 2.0
+ */
+
+#pragma once
+
+// System include(s).
+#include <cstddef>
+#include <limits>
+#include <new>
+
+namespace vecmem::details {
+
+/// Number of bytes needed for @c n objects of type @c T
+///
+/// @throws std::bad_array_new_length if the size can not be represented
+///
+template <typename T>
+std::size_t array_bytes(std::size_t n) {
+
+    if (n > std::numeric_limits<std::size_t>::max() / sizeof(T)) {
+        throw std::bad_array_new_length();
+    }
+    return n * sizeof(T);
+}
+
+}  // namespace vecmem::details
diff --git a/core/include/vecmem/memory/impl/allocator.ipp b/core/include/vecmem/memory/impl/allocator.ipp
index 6273cd2..72f58c4 100644
--- a/core/include/vecmem/memory/impl/allocator.ipp
+++ b/core/include/vecmem/memory/impl/allocator.ipp
@@ -8,6 +8,10 @@
 
 #pragma once
 
+// Local include(s).
+#include "vecmem/memory/details/array_bytes.hpp"
+
+// System include(s).
 #include <cstddef>
 
 namespace vecmem {
@@ -19,7 +23,8 @@ T *allocator::allocate_object(std::size_t n) {
      * also use the compiler's knowledge about the alignment requirements of
      * the class.
      */
-    return static_cast<T *>(m_mem.allocate(n * sizeof(T), alignof(T)));
+    return static_cast<T *>(
+        m_mem.allocate(details::array_bytes<T>(n), alignof(T)));
 }
 
 template <typename T>
diff --git a/core/include/vecmem/memory/unique_ptr.hpp b/core/include/vecmem/memory/unique_ptr.hpp
index a6362e6..ae1e5ed 100644
--- a/core/include/vecmem/memory/unique_ptr.hpp
+++ b/core/include/vecmem/memory/unique_ptr.hpp
@@ -11,6 +11,7 @@
 #include <memory>
 #include <type_traits>
 
+#include "vecmem/memory/details/array_bytes.hpp"
 #include "vecmem/memory/details/unique_alloc_deleter.hpp"
 #include "vecmem/memory/details/unique_obj_deleter.hpp"
 #include "vecmem/memory/memory_resource.hpp"
@@ -120,7 +121,7 @@ make_unique_obj(memory_resource& m, std::size_t n) {
      * Calculate the size of the allocation and use the memory resource to
      * perform an allocation of the requested size.
      */
-    std::size_t s = n * sizeof(std::remove_extent_t<T>);
+    std::size_t s = details::array_bytes<std::remove_extent_t<T>>(n);
     pointer_t p = static_cast<pointer_t>(m.allocate(s));
 
     /*
@@ -246,7 +247,7 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n) {
      * Calculate the size of the allocation and use the memory resource to
      * perform an allocation of the requested size.
      */
-    std::size_t s = n * sizeof(std::remove_extent_t<T>);
+    std::size_t s = details::array_bytes<std::remove_extent_t<T>>(n);
     pointer_t p = static_cast<pointer_t>(m.allocate(s));
 
     /*
@@ -395,7 +396,7 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n,
      * Calculate the size of the allocation and use the memory resource to
      * perform an allocation of the requested size.
      */
-    std::size_t s = n * sizeof(std::remove_extent_t<T>);
+    std::size_t s = details::array_bytes<std::remove_extent_t<T>>(n);
     pointer_t p = static_cast<pointer_t>(m.allocate(s));
 
     c(p, f, s);
-- 
2.43.0


From d55ab29e13a9f560b9879226c9a22b94631c1df6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:47:12 +0000
Subject: [PATCH 10/34] fix: align objects made by the pointer makers, and leak
 nothing on a throw

make_unique_obj and make_unique_alloc asked for default alignment even for
over-aligned types, and the pointer makers and allocator::new_object leaked
memory (and constructed elements) when a constructor threw.
---
 .../memory/details/object_alignment.hpp       | 28 +++++++
 core/include/vecmem/memory/impl/allocator.ipp |  9 ++-
 core/include/vecmem/memory/unique_ptr.hpp     | 73 +++++++++++++------
 3 files changed, 87 insertions(+), 23 deletions(-)
 create mode 100644 core/include/vecmem/memory/details/object_alignment.hpp

diff --git a/core/include/vecmem/memory/details/object_alignment.hpp b/core/include/vecmem/memory/details/object_alignment.hpp
new file mode 100644
index 0000000..c2fdf48
--- /dev/null
+++ b/core/include/vecmem/memory/details/object_alignment.hpp
@@ -0,0 +1,28 @@
+/*
+ * VecMem project, part of the ACTS project (R&D line)
+ *
+ * (c) 2024 CERN for the benefit of the ACTS project
+ *
+ * Mozilla Public License Version 2.0
+ */
+
+#pragma once
+
+// System include(s).
+#include <cstddef>
+#include <type_traits>
+
+namespace vecmem::details {
+
+/// Alignment to request for (an array of) objects of type @c T
+///
+/// This is the default alignment of memory resources, unless the type asks for
+/// a stricter one.
+///
+template <typename T>
+inline constexpr std::size_t object_alignment =
+    (alignof(std::remove_all_extents_t<T>) > alignof(std::max_align_t)
+         ? alignof(std::remove_all_extents_t<T>)
+         : alignof(std::max_align_t));
+
+}  // namespace vecmem::details
diff --git a/core/include/vecmem/memory/impl/allocator.ipp b/core/include/vecmem/memory/impl/allocator.ipp
index 72f58c4..b1b91a4 100644
--- a/core/include/vecmem/memory/impl/allocator.ipp
+++ b/core/include/vecmem/memory/impl/allocator.ipp
@@ -44,7 +44,7 @@ T *allocator::new_object(Args &&... args) {
      * constructing. We use the allocate_object method for this, with the
      * default argument of 1 for a single object.
      */
-    void *p = allocate_object<T>();
+    T *p = allocate_object<T>();
 
     /*
      * Next, we use the placement new operation to construct the object in
@@ -52,7 +52,12 @@ T *allocator::new_object(Args &&... args) {
      * forward the arguments passed to this method so they can be used to
      * call the constructor of the class.
      */
-    return new (p) T(std::forward<Args>(args)...);
+    try {
+        return new (p) T(std::forward<Args>(args)...);
+    } catch (...) {
+        deallocate_object<T>(p);
+        throw;
+    }
 }
 
 template <typename T>
diff --git a/core/include/vecmem/memory/unique_ptr.hpp b/core/include/vecmem/memory/unique_ptr.hpp
index ae1e5ed..7036d8d 100644
--- a/core/include/vecmem/memory/unique_ptr.hpp
+++ b/core/include/vecmem/memory/unique_ptr.hpp
@@ -12,6 +12,7 @@
 #include <type_traits>
 
 #include "vecmem/memory/details/array_bytes.hpp"
+#include "vecmem/memory/details/object_alignment.hpp"
 #include "vecmem/memory/details/unique_alloc_deleter.hpp"
 #include "vecmem/memory/details/unique_obj_deleter.hpp"
 #include "vecmem/memory/memory_resource.hpp"
@@ -80,18 +81,24 @@ make_unique_obj(memory_resource& m, Args&&... a) {
      * perform an allocation of the requested size.
      */
     std::size_t s = sizeof(T);
-    T* p = static_cast<T*>(m.allocate(s));
+    T* p = static_cast<T*>(m.allocate(s, details::object_alignment<T>));
 
     /*
      * Perform a placement-new with forwarded arguments to construct the
      * object.
      */
-    new (p) T(std::forward<Args>(a)...);
+    try {
+        new (p) T(std::forward<Args>(a)...);
+    } catch (...) {
+        m.deallocate(p, s, details::object_alignment<T>);
+        throw;
+    }
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(m, s));
+    return unique_obj_ptr<T>(
+        p, details::unique_obj_deleter<T>(m, s, details::object_alignment<T>));
 }
 
 /**
@@ -122,19 +129,31 @@ make_unique_obj(memory_resource& m, std::size_t n) {
      * perform an allocation of the requested size.
      */
     std::size_t s = details::array_bytes<std::remove_extent_t<T>>(n);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    pointer_t p =
+        static_cast<pointer_t>(m.allocate(s, details::object_alignment<T>));
 
     /*
      * Use placement-new to default-construct each of our elements.
      */
-    for (std::size_t i = 0; i < n; ++i) {
-        new (&p[i]) std::remove_extent_t<T>();
+    std::size_t i = 0;
+    try {
+        for (; i < n; ++i) {
+            new (&p[i]) std::remove_extent_t<T>();
+        }
+    } catch (...) {
+        /*
+         * Destroy the elements constructed so far, and free the memory.
+         */
+        details::unique_obj_deleter<T>(m, s, details::object_alignment<T>,
+                                       i)(p);
+        throw;
     }
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(m, s, 0, n));
+    return unique_obj_ptr<T>(p, details::unique_obj_deleter<T>(
+                                    m, s, details::object_alignment<T>, n));
 }
 
 /**
@@ -187,12 +206,14 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m) {
      * perform an allocation of the requested size.
      */
     std::size_t s = sizeof(T);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    pointer_t p =
+        static_cast<pointer_t>(m.allocate(s, details::object_alignment<T>));
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s));
+    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(
+                                      m, s, details::object_alignment<T>));
 }
 
 /**
@@ -248,12 +269,14 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n) {
      * perform an allocation of the requested size.
      */
     std::size_t s = details::array_bytes<std::remove_extent_t<T>>(n);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
+    pointer_t p =
+        static_cast<pointer_t>(m.allocate(s, details::object_alignment<T>));
 
     /*
      * Create a new unique_ptr, with its own deleter, and return it.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s, 0));
+    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(
+                                      m, s, details::object_alignment<T>));
 }
 
 /**
@@ -320,14 +343,18 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, const T* f,
      * perform an allocation of the requested size.
      */
     std::size_t s = sizeof(T);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
-
-    c(p, f, s);
+    pointer_t p =
+        static_cast<pointer_t>(m.allocate(s, details::object_alignment<T>));
 
     /*
-     * Create a new unique_ptr, with its own deleter, and return it.
+     * Create a new unique_ptr, with its own deleter. It takes care of the
+     * memory, should the copy fail.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s));
+    unique_alloc_ptr<T> result(p, details::unique_alloc_deleter<T>(
+                                      m, s, details::object_alignment<T>));
+    c(p, f, s);
+
+    return result;
 }
 
 /**
@@ -397,13 +424,17 @@ unique_alloc_ptr<T> make_unique_alloc(memory_resource& m, std::size_t n,
      * perform an allocation of the requested size.
      */
     std::size_t s = details::array_bytes<std::remove_extent_t<T>>(n);
-    pointer_t p = static_cast<pointer_t>(m.allocate(s));
-
-    c(p, f, s);
+    pointer_t p =
+        static_cast<pointer_t>(m.allocate(s, details::object_alignment<T>));
 
     /*
-     * Create a new unique_ptr, with its own deleter, and return it.
+     * Create a new unique_ptr, with its own deleter. It takes care of the
+     * memory, should the copy fail.
      */
-    return unique_alloc_ptr<T>(p, details::unique_alloc_deleter<T>(m, s, 0));
+    unique_alloc_ptr<T> result(p, details::unique_alloc_deleter<T>(
+                                      m, s, details::object_alignment<T>));
+    c(p, f, s);
+
+    return result;
 }
 }  // namespace vecmem
-- 
2.43.0


From e229c7b98b9396ccc2cb199d33a0248b4c357af2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 22:54:45 +0000
Subject: [PATCH 11/34] fix: report an average allocation of zero before the
 first allocation

The result of 0/0 was converted to an integer, which is undefined.
---
 core/src/utils/memory_monitor.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/core/src/utils/memory_monitor.cpp b/core/src/utils/memory_monitor.cpp
index a4003fa..a04570a 100644
--- a/core/src/utils/memory_monitor.cpp
+++ b/core/src/utils/memory_monitor.cpp
@@ -40,6 +40,10 @@ std::size_t memory_monitor::outstanding_allocation() const {
 
 std::size_t memory_monitor::average_allocation() const {
 
+    // Without any allocations there is nothing to average over.
+    if (m_n_alloc == 0) {
+        return 0;
+    }
     return static_cast<std::size_t>(std::round(
         static_cast<double>(m_total_alloc) / static_cast<double>(m_n_alloc)));
 }
-- 
2.43.0


From d0f8afde614edebf4bea1bac0697d4865f690994 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:17:23 +0000
Subject: [PATCH 12/34] fix: subtract atomically without negating the operand

Negating the smallest value of a signed type overflows.
---
 core/include/vecmem/memory/impl/posix_device_atomic_ref.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/vecmem/memory/impl/posix_device_atomic_ref.ipp b/core/include/vecmem/memory/impl/posix_device_atomic_ref.ipp
index b4253dd..29ebeef 100644
--- a/core/include/vecmem/memory/impl/posix_device_atomic_ref.ipp
+++ b/core/include/vecmem/memory/impl/posix_device_atomic_ref.ipp
@@ -120,7 +120,7 @@ template <typename T, device_address_space address>
 VECMEM_HOST auto posix_device_atomic_ref<T, address>::fetch_sub(
     value_type data, memory_order order) const -> value_type {
 
-    return __atomic_fetch_add(m_ptr, -data,
+    return __atomic_fetch_sub(m_ptr, data,
                               details::memorder_to_posix_builtin(order));
 }
 
-- 
2.43.0


From 8016910d6195348851f42f6453a1b59cb0ea6c8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:30:39 +0000
Subject: [PATCH 13/34] fix: read the size of a device SoA container atomically

The size may be read while other threads add elements to the container.
---
 core/include/vecmem/edm/impl/device.ipp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/include/vecmem/edm/impl/device.ipp b/core/include/vecmem/edm/impl/device.ipp
index fd4b112..c876601 100644
--- a/core/include/vecmem/edm/impl/device.ipp
+++ b/core/include/vecmem/edm/impl/device.ipp
@@ -38,7 +38,13 @@ VECMEM_HOST_AND_DEVICE auto device<schema<VARTYPES...>, INTERFACE>::size() const
     assert(details::device_capacities_match<VARTYPES...>(
         m_capacity, m_data, std::index_sequence_for<VARTYPES...>{}));
 
-    return (m_size == nullptr ? m_capacity : *m_size);
+    if (m_size == nullptr) {
+        return m_capacity;
+    }
+    // Other threads may be adding elements at the same time. (See the comment
+    // in @c vecmem::device_vector::size() about the const cast.)
+    device_atomic_ref<size_type> asize(*(const_cast<size_type*>(m_size)));
+    return asize.load();
 }
 
 template <typename... VARTYPES, template <typename> class INTERFACE>
-- 
2.43.0


From 2b0b89e1bbbb74b91772973f8b297469ce31519a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:49 +0000
Subject: [PATCH 14/34] fix: do not destroy unconstructed elements in the
 static vector constructor

The size was set before assign(...), which clears the vector first.
---
 core/include/vecmem/containers/impl/static_vector.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/vecmem/containers/impl/static_vector.ipp b/core/include/vecmem/containers/impl/static_vector.ipp
index 8a4baf9..aef55de 100644
--- a/core/include/vecmem/containers/impl/static_vector.ipp
+++ b/core/include/vecmem/containers/impl/static_vector.ipp
@@ -20,7 +20,7 @@ VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::static_vector()
 template <typename TYPE, std::size_t MAX_SIZE>
 VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::static_vector(
     size_type size, const_reference value)
-    : m_size(size), m_elements() {
+    : m_size(0), m_elements() {
 
     assign(size, value);
 }
-- 
2.43.0


From ef95001cf41bff6e4e49d405a5bb5dfdb05578bf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:49 +0000
Subject: [PATCH 15/34] fix: assign the elements of static vectors one by one

The implicit assignment operator copied the raw bytes of the elements,
without destroying the old ones or constructing the new ones.
---
 core/include/vecmem/containers/impl/static_vector.ipp | 11 +++++++++++
 core/include/vecmem/containers/static_vector.hpp      |  4 ++++
 2 files changed, 15 insertions(+)

diff --git a/core/include/vecmem/containers/impl/static_vector.ipp b/core/include/vecmem/containers/impl/static_vector.ipp
index aef55de..3ee2c95 100644
--- a/core/include/vecmem/containers/impl/static_vector.ipp
+++ b/core/include/vecmem/containers/impl/static_vector.ipp
@@ -36,6 +36,17 @@ VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::static_vector(
     }
 }
 
+template <typename TYPE, std::size_t MAX_SIZE>
+VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::operator=(
+    const static_vector& rhs) -> static_vector& {
+
+    // Avoid self-assignment.
+    if (this != &rhs) {
+        assign(rhs.begin(), rhs.end());
+    }
+    return *this;
+}
+
 template <typename TYPE, std::size_t MAX_SIZE>
 VECMEM_HOST_AND_DEVICE static_vector<TYPE, MAX_SIZE>::~static_vector() {
 
diff --git a/core/include/vecmem/containers/static_vector.hpp b/core/include/vecmem/containers/static_vector.hpp
index ef68ddb..2d3ff43 100644
--- a/core/include/vecmem/containers/static_vector.hpp
+++ b/core/include/vecmem/containers/static_vector.hpp
@@ -93,6 +93,10 @@ public:
     VECMEM_HOST_AND_DEVICE
     static_vector(const static_vector& parent);
 
+    /// Copy assignment operator
+    VECMEM_HOST_AND_DEVICE
+    static_vector& operator=(const static_vector& rhs);
+
     /// Destructor
     VECMEM_HOST_AND_DEVICE
     ~static_vector();
-- 
2.43.0


From 7e1e409aa0d1583146550e7e5663a9082602394f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:41:49 +0000
Subject: [PATCH 16/34] fix: align the elements of static vectors

---
 core/include/vecmem/containers/static_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/vecmem/containers/static_vector.hpp b/core/include/vecmem/containers/static_vector.hpp
index 2d3ff43..1493f0f 100644
--- a/core/include/vecmem/containers/static_vector.hpp
+++ b/core/include/vecmem/containers/static_vector.hpp
@@ -320,7 +320,7 @@ private:
     /// Size of the vector
     size_type m_size;
     /// Array that holds the PoD elements of the vector
-    array_type m_elements;
+    alignas(value_type) alignas(array_type) array_type m_elements;
 
 };  // class static_vector
 
-- 
2.43.0


From 460cd328f7b1bf71b040eb3c8aa52dac213184ed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:43:09 +0000
Subject: [PATCH 17/34] fix: move the elements of static vectors with their
 constructors

Types that are not trivially copyable were moved as raw bytes by insert(...),
emplace(...) and erase(...), and values that were elements of the vector
themselves were overwritten before they were inserted.
---
 .../vecmem/containers/impl/static_vector.ipp  | 96 +++++++++++++------
 .../vecmem/containers/static_vector.hpp       |  3 +
 2 files changed, 72 insertions(+), 27 deletions(-)

diff --git a/core/include/vecmem/containers/impl/static_vector.ipp b/core/include/vecmem/containers/impl/static_vector.ipp
index 3ee2c95..9ca90da 100644
--- a/core/include/vecmem/containers/impl/static_vector.ipp
+++ b/core/include/vecmem/containers/impl/static_vector.ipp
@@ -9,6 +9,7 @@
 // System include(s).
 #include <cassert>
 #include <cstring>
+#include <type_traits>
 #include <utility>
 
 namespace vecmem {
@@ -176,13 +177,14 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::insert(
     // Find the index of this iterator inside of the vector.
     auto id = element_id(pos);
 
-    // Move the payload of the existing elements after "pos".
-    memmove(static_cast<void*>(id.m_ptr + 1),
-            static_cast<const void*>(id.m_ptr),
-            (m_size - id.m_index) * value_size);
+    // Make a copy of the value, which may be one of the moved elements.
+    const value_type copy(value);
+
+    // Move the existing elements after "pos".
+    relocate(id.m_index, id.m_index + 1, m_size - id.m_index);
 
     // Instantiate the new value.
-    construct(id.m_index, value);
+    construct(id.m_index, copy);
 
     // Increment the size.
     ++m_size;
@@ -201,14 +203,15 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::insert(
     // Find the index of this iterator inside of the vector.
     auto id = element_id(pos);
 
-    // Move the payload of the existing elements after "pos".
-    memmove(static_cast<void*>(id.m_ptr + count),
-            static_cast<const void*>(id.m_ptr),
-            (m_size - id.m_index) * value_size);
+    // Make a copy of the value, which may be one of the moved elements.
+    const value_type copy(value);
+
+    // Move the existing elements after "pos".
+    relocate(id.m_index, id.m_index + count, m_size - id.m_index);
 
     // Instantiate all the new values.
     for (size_type i = 0; i < count; ++i) {
-        construct(id.m_index + i, value);
+        construct(id.m_index + i, copy);
     }
 
     // Increment the size.
@@ -229,13 +232,14 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::emplace(
     // Find the index of this iterator inside of the vector.
     auto id = element_id(pos);
 
-    // Move the payload of the existing elements after "pos".
-    memmove(static_cast<void*>(id.m_ptr + 1),
-            static_cast<const void*>(id.m_ptr),
-            (m_size - id.m_index) * value_size);
+    // Instantiate the new value. The arguments may refer to the moved elements.
+    value_type value(std::forward<Args>(args)...);
 
-    // Instantiate the new value.
-    new (id.m_ptr) value_type(std::forward<Args>(args)...);
+    // Move the existing elements after "pos".
+    relocate(id.m_index, id.m_index + 1, m_size - id.m_index);
+
+    // Put the new value in place.
+    new (id.m_ptr) value_type(std::move(value));
 
     // Increment the size.
     ++m_size;
@@ -249,14 +253,24 @@ template <typename... Args>
 VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::emplace_back(
     Args&&... args) -> reference {
 
-    return *(emplace(end(), std::forward<Args>(args)...));
+    // Make sure that one more position is available.
+    assert(m_size < array_max_size);
+
+    // Instantiate the new value.
+    pointer ptr = new (end()) value_type(std::forward<Args>(args)...);
+
+    // Increment the size.
+    ++m_size;
+
+    // Return a reference to the new element.
+    return *ptr;
 }
 
 template <typename TYPE, std::size_t MAX_SIZE>
 VECMEM_HOST_AND_DEVICE void static_vector<TYPE, MAX_SIZE>::push_back(
     const_reference value) {
 
-    insert(end(), value);
+    emplace_back(value);
 }
 
 template <typename TYPE, std::size_t MAX_SIZE>
@@ -269,10 +283,8 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::erase(
     // Destroy the object.
     destruct(id.m_index);
 
-    // Move up the payload of the elements from after the removed one.
-    memmove(static_cast<void*>(id.m_ptr),
-            static_cast<const void*>(id.m_ptr + 1),
-            (m_size - id.m_index - 1) * value_size);
+    // Move up the elements from after the removed one.
+    relocate(id.m_index + 1, id.m_index, m_size - id.m_index - 1);
 
     // Decrement the size.
     --m_size;
@@ -295,10 +307,8 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::erase(
         destruct(i);
     }
 
-    // Move up the payload of the elements from after the removed range.
-    memmove(static_cast<void*>(first_id.m_ptr),
-            static_cast<const void*>(last_id.m_ptr),
-            (m_size - last_id.m_index) * value_size);
+    // Move up the elements from after the removed range.
+    relocate(last_id.m_index, first_id.m_index, m_size - last_id.m_index);
 
     // Decrease the size.
     m_size -= (last_id.m_index - first_id.m_index);
@@ -310,7 +320,14 @@ VECMEM_HOST_AND_DEVICE auto static_vector<TYPE, MAX_SIZE>::erase(
 template <typename TYPE, std::size_t MAX_SIZE>
 VECMEM_HOST_AND_DEVICE void static_vector<TYPE, MAX_SIZE>::pop_back() {
 
-    erase(end() - 1);
+    // Make sure that the element exists.
+    assert(m_size > 0);
+
+    // Destroy the last element.
+    destruct(m_size - 1);
+
+    // Decrement the size.
+    --m_size;
 }
 
 template <typename TYPE, std::size_t MAX_SIZE>
@@ -494,6 +511,31 @@ VECMEM_HOST_AND_DEVICE void static_vector<TYPE, MAX_SIZE>::destruct(
     ptr->~value_type();
 }
 
+template <typename TYPE, std::size_t MAX_SIZE>
+VECMEM_HOST_AND_DEVICE void static_vector<TYPE, MAX_SIZE>::relocate(
+    size_type from, size_type to, size_type count) {
+
+    // Nothing needs to be done for elements staying in place.
+    if ((count == 0) || (from == to)) {
+        return;
+    }
+
+    pointer const source = begin() + from;
+    pointer const target = begin() + to;
+    if constexpr (std::is_trivially_copyable<value_type>::value) {
+        memmove(static_cast<void*>(target), static_cast<const void*>(source),
+                count * value_size);
+    } else {
+        // Choose the direction such that every element would be moved to a
+        // position that is unused at that time.
+        for (size_type i = 0; i < count; ++i) {
+            const size_type j = (to < from ? i : count - i - 1);
+            new (target + j) value_type(std::move(source[j]));
+            source[j].~value_type();
+        }
+    }
+}
+
 template <typename TYPE, std::size_t MAX_SIZE>
 VECMEM_HOST_AND_DEVICE typename static_vector<TYPE, MAX_SIZE>::ElementId
 static_vector<TYPE, MAX_SIZE>::element_id(const_iterator pos) {
diff --git a/core/include/vecmem/containers/static_vector.hpp b/core/include/vecmem/containers/static_vector.hpp
index 1493f0f..7f63d30 100644
--- a/core/include/vecmem/containers/static_vector.hpp
+++ b/core/include/vecmem/containers/static_vector.hpp
@@ -307,6 +307,9 @@ private:
     /// Destruct a vector element
     VECMEM_HOST_AND_DEVICE
     void destruct(size_type pos);
+    /// Move elements to a different position inside of the vector's storage
+    VECMEM_HOST_AND_DEVICE
+    void relocate(size_type from, size_type to, size_type count);
 
     /// Helper type for identifying an element in the array
     struct ElementId {
-- 
2.43.0


From 37db9e1ffb0d44693ef4668460df7a2f34a6855c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:50:21 +0000
Subject: [PATCH 18/34] fix: make array::front() const usable

It dereferenced the smart pointer to the array, which does not compile.
---
 core/include/vecmem/containers/impl/array.ipp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/core/include/vecmem/containers/impl/array.ipp b/core/include/vecmem/containers/impl/array.ipp
index 86e1859..172484a 100644
--- a/core/include/vecmem/containers/impl/array.ipp
+++ b/core/include/vecmem/containers/impl/array.ipp
@@ -86,7 +86,7 @@ auto array<T, N>::front() const -> const_reference {
             "Called vecmem::array::front() on an empty "
             "array");
     }
-    return (*m_memory);
+    return (m_memory[0]);
 }
 
 template <typename T, std::size_t N>
-- 
2.43.0


From b4ced22cbca33dff13f14ff92b8db16a462fc098 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:53:33 +0000
Subject: [PATCH 19/34] fix: make constant iterators of jagged device vectors
 constructible

The conversion accessed a private member of a different class.
---
 .../containers/details/jagged_device_vector_iterator.hpp      | 4 ++++
 .../vecmem/containers/impl/jagged_device_vector_iterator.ipp  | 2 +-
 2 files changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp b/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp
index 8bb0f5d..7e36c0d 100644
--- a/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp
+++ b/core/include/vecmem/containers/details/jagged_device_vector_iterator.hpp
@@ -173,6 +173,10 @@ public:
     /// @}
 
 private:
+    /// All instances of the iterator are friends, to be able to convert them
+    template <typename T>
+    friend class jagged_device_vector_iterator;
+
     /// Pointer to the data (in an array)
     data_pointer m_ptr;
 
diff --git a/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp b/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp
index 866484d..a6bbe84 100644
--- a/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp
+++ b/core/include/vecmem/containers/impl/jagged_device_vector_iterator.ipp
@@ -62,7 +62,7 @@ template <typename T>
 VECMEM_HOST_AND_DEVICE
 jagged_device_vector_iterator<TYPE>::jagged_device_vector_iterator(
     const jagged_device_vector_iterator<T>& parent)
-    : m_ptr(parent.m_ptr) {}
+    : jagged_device_vector_iterator(parent.m_ptr) {}
 
 template <typename TYPE>
 VECMEM_HOST_AND_DEVICE jagged_device_vector_iterator<TYPE>&
-- 
2.43.0


From 689a09b3c9fd272db2b4f78c9f3948be97685cc3 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:07:18 +0000
Subject: [PATCH 20/34] fix: align the elements of fixed-size jagged vector
 buffers

---
 core/include/vecmem/containers/impl/jagged_vector_buffer.ipp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp b/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp
index a449baa..07a537b 100644
--- a/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp
+++ b/core/include/vecmem/containers/impl/jagged_vector_buffer.ipp
@@ -96,9 +96,8 @@ jagged_vector_buffer<TYPE>::jagged_vector_buffer(
 
     // Allocate the "inner memory" for a fixed size buffer.
     if (type == buffer_type::fixed_size && total_elements != 0) {
-        m_inner_memory = vecmem::make_unique_alloc<char[]>(
-            resource, total_elements * sizeof(TYPE));
-        data_ptr = reinterpret_cast<TYPE*>(m_inner_memory.get());
+        std::tie(m_inner_memory, data_ptr) =
+            details::aligned_multiple_placement<TYPE>(resource, total_elements);
     }
     // Allocate the "inner memory" for a resizable buffer.
     else if (type == buffer_type::resizable && capacities.size() != 0) {
-- 
2.43.0


From ff1466df5c849f8390297d3ed520e2ed5d07ce20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:10:26 +0000
Subject: [PATCH 21/34] fix: initialize the size of empty resizable SoA buffers

---
 core/include/vecmem/utils/impl/copy.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index d73a789..6dc56b9 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -330,8 +330,9 @@ copy::event_type copy::set_sizes(
 template <typename SCHEMA>
 copy::event_type copy::setup(edm::view<SCHEMA> data) const {
 
-    // For empty containers nothing needs to be done.
-    if (data.capacity() == 0) {
+    // For empty containers nothing needs to be done. Unless they have a size
+    // variable, which needs to be initialized even then.
+    if ((data.capacity() == 0) && (data.size().ptr() == nullptr)) {
         return vecmem::copy::create_event();
     }
 
-- 
2.43.0


From 074258dc9ca26453f9ce2fb1437f8b1fa0c979aa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:09 +0000
Subject: [PATCH 22/34] fix: copy into jagged vectors with any allocator

---
 core/include/vecmem/utils/impl/copy.ipp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index 6dc56b9..d7f0c7e 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -263,8 +263,10 @@ copy::event_type copy::operator()(
         to_vec[i].resize(sizes[i]);
     }
 
-    // Perform the memory copy.
-    return operator()(from_view, vecmem::get_data(to_vec), cptype);
+    // Perform the memory copy. Note that the vector(s) may not use a VecMem
+    // allocator, so the memory resource needs to be specified explicitly.
+    host_memory_resource resource;
+    return operator()(from_view, vecmem::get_data(to_vec, &resource), cptype);
 }
 
 template <typename TYPE>
-- 
2.43.0


From 59e4b16cb064331387884e110b14b17038bff3b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:25:10 +0000
Subject: [PATCH 23/34] fix: do not pass null pointers to memcpy and memset

---
 core/src/utils/copy.cpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/core/src/utils/copy.cpp b/core/src/utils/copy.cpp
index 04288b1..2aa4f9f 100644
--- a/core/src/utils/copy.cpp
+++ b/core/src/utils/copy.cpp
@@ -27,6 +27,11 @@ namespace vecmem {
 void copy::do_copy(std::size_t size, const void* from_ptr, void* to_ptr,
                    type::copy_type) const {
 
+    // The pointers may be null if there is nothing to copy.
+    if (size == 0u) {
+        return;
+    }
+
     // Perform a simple POSIX memory copy.
     ::memcpy(to_ptr, from_ptr, size);
 
@@ -39,6 +44,11 @@ void copy::do_copy(std::size_t size, const void* from_ptr, void* to_ptr,
 
 void copy::do_memset(std::size_t size, void* ptr, int value) const {
 
+    // The pointer may be null if there is nothing to set.
+    if (size == 0u) {
+        return;
+    }
+
     // Perform the POSIX memory setting operation.
     ::memset(ptr, value, size);
 
-- 
2.43.0


From 830f0e81a476c33dc7f483e92e152ae25c19b628 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:02 +0000
Subject: [PATCH 24/34] fix: set the size of resizable targets when copying
 empty vectors

---
 core/include/vecmem/utils/impl/copy.ipp | 11 +++++++----
 1 file changed, 7 insertions(+), 4 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index d7f0c7e..ce381c4 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -495,8 +495,9 @@ bool copy::copy_view_impl(
     // Get the size of the source view.
     const typename data::vector_view<std::add_const_t<TYPE>>::size_type size =
         get_size(from_view);
-    // If it's zero, don't do an actual copy.
-    if (size == 0u) {
+    // If it's zero, don't do an actual copy. Unless the size of a resizable
+    // target needs to be set.
+    if ((size == 0u) && (to_view.size_ptr() == nullptr)) {
         return false;
     }
 
@@ -536,8 +537,10 @@ bool copy::copy_view_impl(
         create_event()->wait();
     }
 
-    // Copy the payload.
-    do_copy(size * sizeof(TYPE), from_view.ptr(), to_view.ptr(), cptype);
+    // Copy the payload, if there is any.
+    if (size != 0u) {
+        do_copy(size * sizeof(TYPE), from_view.ptr(), to_view.ptr(), cptype);
+    }
     return true;
 }
 
-- 
2.43.0


From 4d8c3d00c794f0e1a9e366572dc3388293762804 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:27:02 +0000
Subject: [PATCH 25/34] fix: allow filling empty jagged vectors

---
 core/include/vecmem/utils/impl/copy.ipp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index ce381c4..fdcfe59 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -176,6 +176,11 @@ template <typename TYPE>
 copy::event_type copy::memset(data::jagged_vector_view<TYPE> data,
                               int value) const {
 
+    // Check if anything needs to be done.
+    if (data.size() == 0) {
+        return vecmem::copy::create_event();
+    }
+
     // Do different things for jagged vectors that are contiguous in memory.
     if (is_contiguous(data.host_ptr(), data.capacity())) {
         // For contiguous jagged vectors we can just do a single memset
-- 
2.43.0


From cb7352deddcf8a9fe6da940b2d5d491383676f81 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:28:09 +0000
Subject: [PATCH 26/34] fix: do not access device memory directly when copying
 jagged vectors to a resource

---
 core/include/vecmem/utils/impl/copy.ipp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index fdcfe59..4ff99e5 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -222,9 +222,10 @@ data::jagged_vector_buffer<std::remove_cv_t<TYPE>> copy::to(
     const data::jagged_vector_view<TYPE>& data, memory_resource& resource,
     memory_resource* host_access_resource, type::copy_type cptype) const {
 
-    // Create the result buffer object.
+    // Create the result buffer object. Note that the sizes of the "inner
+    // vectors" may not be host-accessible, they need to be copied explicitly.
     data::jagged_vector_buffer<std::remove_cv_t<TYPE>> result(
-        data, resource, host_access_resource);
+        get_sizes(data), resource, host_access_resource);
     assert(result.size() == data.size());
 
     // Copy the description of the "inner vectors" if necessary.
-- 
2.43.0


From cf60dfe5deaae6149c0bcf9bd5d8e4c7ce90b8d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:02 +0000
Subject: [PATCH 27/34] fix: allow copying scalar-only containers into host
 containers

---
 core/include/vecmem/utils/impl/copy.ipp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index 4ff99e5..976e9a9 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -787,8 +787,12 @@ void copy::resize_impl(
     assert((cptype == type::device_to_host) || (cptype == type::host_to_host) ||
            (cptype == type::unknown));
 
-    // First, handle containers with no jagged vectors in them.
+    // Containers with just scalars in them do not have a size. Otherwise first
+    // handle containers with no jagged vectors in them.
     if constexpr (std::disjunction_v<
+                      edm::type::details::is_vector<VARTYPES>...> == false) {
+        return;
+    } else if constexpr (std::disjunction_v<
                       edm::type::details::is_jagged_vector<VARTYPES>...> ==
                   false) {
         // The single size of the source container.
-- 
2.43.0


From b753724cddec3783d82644131a5f189df26526df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:35:02 +0000
Subject: [PATCH 28/34] fix: copy SoA payloads in one block only between
 containers of the same shape

---
 core/include/vecmem/utils/copy.hpp      |  6 ++++
 core/include/vecmem/utils/impl/copy.ipp | 39 +++++++++++++++++++++++--
 2 files changed, 42 insertions(+), 3 deletions(-)

diff --git a/core/include/vecmem/utils/copy.hpp b/core/include/vecmem/utils/copy.hpp
index e548d85..44a6ea7 100644
--- a/core/include/vecmem/utils/copy.hpp
+++ b/core/include/vecmem/utils/copy.hpp
@@ -232,6 +232,12 @@ private:
     template <typename TYPE>
     static bool is_contiguous(const data::vector_view<TYPE>* data,
                               std::size_t size);
+    /// Check if two SoA containers have the same capacities everywhere
+    template <std::size_t INDEX, typename... VARTYPES>
+    static bool capacities_match(
+        const edm::view<edm::details::add_const_t<edm::schema<VARTYPES...>>>&
+            from,
+        const edm::view<edm::schema<VARTYPES...>>& to);
     /// Implementation for the variadic @c memset function
     template <std::size_t INDEX, typename... VARTYPES>
     void memset_impl(edm::view<edm::schema<VARTYPES...>> data, int value) const;
diff --git a/core/include/vecmem/utils/impl/copy.ipp b/core/include/vecmem/utils/impl/copy.ipp
index 976e9a9..5c8ed9e 100644
--- a/core/include/vecmem/utils/impl/copy.ipp
+++ b/core/include/vecmem/utils/impl/copy.ipp
@@ -390,11 +390,12 @@ copy::event_type copy::operator()(
         from_view,
     edm::view<edm::schema<VARTYPES...>> to_view, type::copy_type cptype) const {
 
-    // First, handle the simple case, when both views have a contiguous memory
-    // layout.
+    // First, handle the simple case, when both views have a contiguous, and
+    // identical memory layout.
     if ((from_view.payload().ptr() != nullptr) &&
         (to_view.payload().ptr() != nullptr) &&
-        (from_view.payload().capacity() == to_view.payload().capacity())) {
+        (from_view.payload().capacity() == to_view.payload().capacity()) &&
+        capacities_match<0, VARTYPES...>(from_view, to_view)) {
 
         // If the "common size" is zero, we're done.
         if (from_view.payload().capacity() == 0) {
@@ -754,6 +755,38 @@ bool copy::is_contiguous(const data::vector_view<TYPE>* data,
     return true;
 }
 
+template <std::size_t INDEX, typename... VARTYPES>
+bool copy::capacities_match(
+    const edm::view<edm::details::add_const_t<edm::schema<VARTYPES...>>>&
+        from_view,
+    const edm::view<edm::schema<VARTYPES...>>& to_view) {
+
+    // The (outer) capacities need to match.
+    if (from_view.capacity() != to_view.capacity()) {
+        return false;
+    }
+    // The capacities of all "inner vectors" need to match as well.
+    if constexpr (edm::type::details::is_jagged_vector<
+                      typename std::tuple_element<
+                          INDEX, std::tuple<VARTYPES...>>::type>::value) {
+        const auto& from = from_view.template get<INDEX>();
+        const auto& to = to_view.template get<INDEX>();
+        if (!std::equal(from.host_ptr(), from.host_ptr() + from.capacity(),
+                        to.host_ptr(), to.host_ptr() + to.capacity(),
+                        [](const auto& lhs, const auto& rhs) {
+                            return lhs.capacity() == rhs.capacity();
+                        })) {
+            return false;
+        }
+    }
+    // Check the next variable.
+    if constexpr (sizeof...(VARTYPES) > (INDEX + 1)) {
+        return capacities_match<INDEX + 1, VARTYPES...>(from_view, to_view);
+    } else {
+        return true;
+    }
+}
+
 template <std::size_t INDEX, typename... VARTYPES>
 void copy::memset_impl(edm::view<edm::schema<VARTYPES...>> data,
                        int value) const {
-- 
2.43.0


From 3fc1a9330336089214f3da2356a6f949cbf609b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:36:04 +0000
Subject: [PATCH 29/34] fix: initialize the data objects of scalar-only host
 containers

---
 core/include/vecmem/edm/impl/host.ipp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/vecmem/edm/impl/host.ipp b/core/include/vecmem/edm/impl/host.ipp
index fd4a616..c73cc68 100644
--- a/core/include/vecmem/edm/impl/host.ipp
+++ b/core/include/vecmem/edm/impl/host.ipp
@@ -208,7 +208,7 @@ VECMEM_HOST edm::data<edm::schema<VARTYPES...>> get_data(
     memory_resource* resource) {
 
     // Create the result object.
-    edm::data<edm::schema<VARTYPES...>> result;
+    edm::data<edm::schema<VARTYPES...>> result{};
     // Decide what memory resource to use for setting it up.
     memory_resource& mr = (resource != nullptr ? *resource : host.resource());
     // Set its size, if that's available. Note that if there are no vector
@@ -274,7 +274,7 @@ get_data(const edm::host<edm::schema<VARTYPES...>, INTERFACE>& host,
          memory_resource* resource) {
 
     // Create the result object.
-    edm::data<edm::details::add_const_t<edm::schema<VARTYPES...>>> result;
+    edm::data<edm::details::add_const_t<edm::schema<VARTYPES...>>> result{};
     // Decide what memory resource to use for setting it up.
     memory_resource& mr = (resource != nullptr ? *resource : host.resource());
     // Set its size, if that's available. Note that if there are no vector
-- 
2.43.0


From 681760af6639f4fbf2e3b14ffbe9157fec47a036 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:15 +0000
Subject: [PATCH 30/34] fix: allow constant element access to device containers
 with jagged variables

---
 core/include/vecmem/edm/details/proxy_traits.hpp | 6 ++----
 1 file changed, 2 insertions(+), 4 deletions(-)

diff --git a/core/include/vecmem/edm/details/proxy_traits.hpp b/core/include/vecmem/edm/details/proxy_traits.hpp
index 83be1ab..45b3da1 100644
--- a/core/include/vecmem/edm/details/proxy_traits.hpp
+++ b/core/include/vecmem/edm/details/proxy_traits.hpp
@@ -138,10 +138,8 @@ struct proxy_var_type<type::jagged_vector<VTYPE>, proxy_type::device,
     using const_return_type = return_type;
 
     /// Helper function constructing a vector proxy variable
-    VECMEM_HOST_AND_DEVICE
-    static type make(
-        typename jagged_device_vector<std::add_const_t<VTYPE>>::size_type i,
-        const jagged_device_vector<std::add_const_t<VTYPE>>& vec) {
+    template <typename ITYPE, typename VECTYPE>
+    VECMEM_HOST_AND_DEVICE static type make(ITYPE i, const VECTYPE& vec) {
 
         return vec.at(i);
     }
-- 
2.43.0


From 0a36d62975a0821111d2a28db2776735b770c7f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:48:25 +0000
Subject: [PATCH 31/34] fix: allow reading the rows of constant proxies of
 jagged variables

---
 core/include/vecmem/edm/details/proxy_traits.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/core/include/vecmem/edm/details/proxy_traits.hpp b/core/include/vecmem/edm/details/proxy_traits.hpp
index 45b3da1..44e5867 100644
--- a/core/include/vecmem/edm/details/proxy_traits.hpp
+++ b/core/include/vecmem/edm/details/proxy_traits.hpp
@@ -157,8 +157,8 @@ struct proxy_var_type<type::jagged_vector<VTYPE>, proxy_type::device,
     using return_type = std::add_lvalue_reference_t<type>;
     /// They are returned as const references to the non-const device vector in
     /// const access
-    using const_return_type = std::add_lvalue_reference_t<
-        std::add_const_t<device_vector<std::add_const_t<VTYPE>>>>;
+    using const_return_type =
+        std::add_lvalue_reference_t<std::add_const_t<type>>;
 
     /// Helper function constructing a vector proxy variable
     VECMEM_HOST_AND_DEVICE
-- 
2.43.0


From 6dad4fdd6f586844500fae02a95dc10843cc60e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:53:41 +0000
Subject: [PATCH 32/34] fix: SYCL queue wrappers assigned from a view let go of
 their own queue

---
 sycl/src/utils/sycl/queue_wrapper.sycl | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/sycl/src/utils/sycl/queue_wrapper.sycl b/sycl/src/utils/sycl/queue_wrapper.sycl
index f6f2d4e..56b0cd6 100644
--- a/sycl/src/utils/sycl/queue_wrapper.sycl
+++ b/sycl/src/utils/sycl/queue_wrapper.sycl
@@ -85,7 +85,8 @@ queue_wrapper& queue_wrapper::operator=(const queue_wrapper& rhs) {
         m_queue = m_managedQueue.get();
     } else {
         // If not, then let's just point at the same queue that somebody else
-        // owns.
+        // owns, giving up the queue that this object may have owned so far.
+        m_managedQueue.reset();
         m_queue = rhs.m_queue;
     }
 
-- 
2.43.0


From 87028c0bbe6be3315032b5e2343d912d3d3e73ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:20:27 +0000
Subject: [PATCH 33/34] fix: vecmem::atomic reports the outcome of a
 compare-exchange on CUDA and HIP devices

---
 core/include/vecmem/memory/impl/atomic.ipp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/core/include/vecmem/memory/impl/atomic.ipp b/core/include/vecmem/memory/impl/atomic.ipp
index 2b96d2c..95bf272 100644
--- a/core/include/vecmem/memory/impl/atomic.ipp
+++ b/core/include/vecmem/memory/impl/atomic.ipp
@@ -89,7 +89,13 @@ VECMEM_HOST_AND_DEVICE bool atomic<T>::compare_exchange_strong(
 
 #if (defined(__CUDA_ARCH__) || defined(__HIP_DEVICE_COMPILE__)) && \
     (!defined(SYCL_LANGUAGE_VERSION))
-    return atomicCAS(m_ptr, expected, desired);
+    const value_type old = atomicCAS(m_ptr, expected, desired);
+    if (old == expected) {
+        return true;
+    } else {
+        expected = old;
+        return false;
+    }
 #elif defined(CL_SYCL_LANGUAGE_VERSION) || defined(SYCL_LANGUAGE_VERSION)
     return __VECMEM_SYCL_ATOMIC_CALL2(compare_exchange_strong, m_ptr, expected,
                                       desired);
-- 
2.43.0


From cbf97170b78d00cdff80b733d67f643ae8347a6a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:52:09 +0000
Subject: [PATCH 34/34] fix: do not truncate the payload size of SoA buffers
 beyond 4 GiB

---
 core/include/vecmem/edm/details/buffer_traits.hpp | 11 ++++++++++-
 core/include/vecmem/edm/view.hpp                  |  4 ++++
 2 files changed, 14 insertions(+), 1 deletion(-)

diff --git a/core/include/vecmem/edm/details/buffer_traits.hpp b/core/include/vecmem/edm/details/buffer_traits.hpp
index 117b98a..22d3f60 100644
--- a/core/include/vecmem/edm/details/buffer_traits.hpp
+++ b/core/include/vecmem/edm/details/buffer_traits.hpp
@@ -17,6 +17,8 @@
 
 // System include(s).
 #include <array>
+#include <cstddef>
+#include <limits>
 #include <numeric>
 #include <tuple>
 #include <type_traits>
@@ -252,8 +254,15 @@ find_payload_view(
         reinterpret_cast<typename result_type::pointer>(find_last_pointer(
             payloads, sizes, std::index_sequence_for<TYPES...>()));
 
+    // A payload too large for the result's size type can not be described as a
+    // single block. Its variables are always accessible individually.
+    const std::size_t size = static_cast<std::size_t>(end_ptr - ptr);
+    if (size > std::numeric_limits<typename result_type::size_type>::max()) {
+        return {0u, nullptr};
+    }
+
     // Construct the result.
-    return {static_cast<typename result_type::size_type>(end_ptr - ptr), ptr};
+    return {static_cast<typename result_type::size_type>(size), ptr};
 }
 
 }  // namespace vecmem::edm::details
diff --git a/core/include/vecmem/edm/view.hpp b/core/include/vecmem/edm/view.hpp
index 2e3739c..b5edc9c 100644
--- a/core/include/vecmem/edm/view.hpp
+++ b/core/include/vecmem/edm/view.hpp
@@ -156,6 +156,10 @@ public:
     const memory_view_type& size() const;
 
     /// View at the single (device) memory allocation of the container
+    ///
+    /// It is empty for containers whose payload is not in a single block, or
+    /// is too large to be described by one view.
+    ///
     VECMEM_HOST_AND_DEVICE
     const memory_view_type& payload() const;
 
-- 
2.43.0

