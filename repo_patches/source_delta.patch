From b5c410112747366fcc1cb4002ad12395e449b8ff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 01/48] fix: small_vector::insert of several elements in place
 overwrote elements instead of shifting them

---
 src/utility/small_vector.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index 7e1408f..35ddf25 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -814,7 +814,8 @@ namespace gapp
                 last_ = new_middle;
                 detail::relocate_range_weak(alloc_, middle, old_last, new_middle);
                 last_ = new_last;
-                detail::assign_range(middle, old_last, value);
+                std::move_backward(first_ + offset, middle, old_last);
+                detail::assign_range(first_ + offset, first_ + offset + moved_size, value);
 
                 return first_ + offset;
             }
@@ -841,7 +842,8 @@ namespace gapp
                 last_ = new_middle;
                 detail::relocate_range_weak(alloc_, middle, old_last, new_middle);
                 last_ = new_last;
-                detail::assign_range(middle, old_last, src_first);
+                std::move_backward(first_ + offset, middle, old_last);
+                detail::assign_range(first_ + offset, first_ + offset + moved_size, src_first);
 
                 return first_ + offset;
             }
-- 
2.43.0


From 8ddabcb200e09ec64a1947b600b116b88384105a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 02/48] fix: small_vector::pop_back destroyed the past-the-end
 element instead of the last one

---
 src/utility/small_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index 35ddf25..a779d12 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -767,7 +767,7 @@ namespace gapp
             return *last_++;
         }
 
-        constexpr void pop_back() noexcept { GAPP_ASSERT(!empty()); detail::destroy(alloc_, last_--); }
+        constexpr void pop_back() noexcept { GAPP_ASSERT(!empty()); detail::destroy(alloc_, --last_); }
 
         constexpr void resize(size_type count) { resize_impl(count); }
         constexpr void resize(size_type count, const T& value) { resize_impl(count, value); }
-- 
2.43.0


From b789bc91d0a7c134d42812c98e0a405ae05a7150 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 03/48] fix: small_vector::insert and resize read a value
 argument that aliases an element after it was moved

---
 src/utility/small_vector.hpp | 37 +++++++++++++++++++++++++++++-------
 1 file changed, 30 insertions(+), 7 deletions(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index a779d12..720618c 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -810,12 +810,15 @@ namespace gapp
                 const auto new_last   = last_ + src_size;
                 const auto new_middle = middle + src_size;
 
-                detail::construct_range(alloc_, last_, new_middle, value);
+                /* The value might be an element of this vector, which is going to be moved. */
+                detail::allocator_managed<T, A> new_value(alloc_, value);
+
+                detail::construct_range(alloc_, last_, new_middle, *new_value);
                 last_ = new_middle;
                 detail::relocate_range_weak(alloc_, middle, old_last, new_middle);
                 last_ = new_last;
                 std::move_backward(first_ + offset, middle, old_last);
-                detail::assign_range(first_ + offset, first_ + offset + moved_size, value);
+                detail::assign_range(first_ + offset, first_ + offset + moved_size, *new_value);
 
                 return first_ + offset;
             }
@@ -969,10 +972,10 @@ namespace gapp
 
             detail::alloc_result_t<A> alloc_result = detail::allocate<T>(alloc_, new_capacity);
             detail::scope_exit guard1{ [&] { detail::deallocate(alloc_, alloc_result.data, alloc_result.size); } };
-            detail::relocate_range_weak(alloc_, first_, first_ + offset, alloc_result.data);
-            detail::scope_exit guard2{ [&] { detail::destroy_range(alloc_, alloc_result.data, alloc_result.data + offset); } };
             detail::construct_range(alloc_, alloc_result.data + offset, alloc_result.data + offset + src_size, value);
-            detail::scope_exit guard3{ [&] { detail::destroy_range(alloc_, alloc_result.data + offset, alloc_result.data + offset + src_size); } };
+            detail::scope_exit guard2{ [&] { detail::destroy_range(alloc_, alloc_result.data + offset, alloc_result.data + offset + src_size); } };
+            detail::relocate_range_weak(alloc_, first_, first_ + offset, alloc_result.data);
+            detail::scope_exit guard3{ [&] { detail::destroy_range(alloc_, alloc_result.data, alloc_result.data + offset); } };
             detail::relocate_range_weak(alloc_, first_ + offset, last_, alloc_result.data + offset + src_size);
             { guard1.release(); guard2.release(); guard3.release(); }
             detail::destroy_range(alloc_, first_, last_);
@@ -1004,6 +1007,23 @@ namespace gapp
             return alloc_result.data + offset;
         }
 
+        template<typename... Args>
+        constexpr void reallocate_resize(size_type new_capacity, size_type count, Args&&... args)
+        {
+            const size_type old_size = size();
+
+            /* The new elements must be constructed first, as the arguments might refer to an element of this vector. */
+            detail::alloc_result_t<A> alloc_result = detail::allocate<T>(alloc_, new_capacity);
+            detail::scope_exit guard1{ [&] { detail::deallocate(alloc_, alloc_result.data, alloc_result.size); } };
+            detail::construct_range(alloc_, alloc_result.data + old_size, alloc_result.data + count, std::forward<Args>(args)...);
+            detail::scope_exit guard2{ [&] { detail::destroy_range(alloc_, alloc_result.data + old_size, alloc_result.data + count); } };
+            detail::relocate_range_strong(alloc_, first_, last_, alloc_result.data);
+            { guard1.release(); guard2.release(); }
+            detail::destroy_range(alloc_, first_, last_);
+            deallocate();
+            set_storage(alloc_result.data, count, alloc_result.size);
+        }
+
         constexpr void deallocate() noexcept
         {
             if (!is_small() && data()) detail::deallocate(alloc_, first_, capacity());
@@ -1017,12 +1037,15 @@ namespace gapp
                 detail::destroy_range(alloc_, first_ + count, last_);
                 last_ = first_ + count;
             }
-            else
+            else if (count <= capacity())
             {
-                reserve(count);
                 detail::construct_range(alloc_, last_, first_ + count, std::forward<Args>(args)...);
                 last_ = first_ + count;
             }
+            else
+            {
+                reallocate_resize(next_capacity(count - capacity()), count, std::forward<Args>(args)...);
+            }
         }
 
         constexpr void set_storage(pointer first, pointer last, pointer last_alloc) noexcept
-- 
2.43.0


From c7eab5b4bbeb7f8a239946b6d08a78c5d3ed92a8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:45 +0000
Subject: [PATCH 04/48] fix: small_vector construction from a contiguous range
 of another type copied the raw bytes

---
 src/utility/small_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index 720618c..a269d50 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -196,7 +196,8 @@ namespace gapp::detail
     {
         using R = std::iter_reference_t<Iter>;
 
-        if constexpr (std::contiguous_iterator<Iter> && std::is_trivially_constructible_v<T, R> && has_trivial_construct_v<A&, T, R>)
+        if constexpr (std::contiguous_iterator<Iter> && std::is_same_v<std::remove_cvref_t<R>, T> &&
+                      std::is_trivially_constructible_v<T, R> && has_trivial_construct_v<A&, T, R>)
         {
             if (!std::is_constant_evaluated())
             {
-- 
2.43.0


From 06ddba86e01f6bab5059d058f40ea47bc23b7f0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:29:46 +0000
Subject: [PATCH 05/48] fix: small_vector leaked its elements when construction
 from an input range throws

---
 src/utility/small_vector.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utility/small_vector.hpp b/src/utility/small_vector.hpp
index a269d50..32fa8b8 100644
--- a/src/utility/small_vector.hpp
+++ b/src/utility/small_vector.hpp
@@ -412,7 +412,9 @@ namespace gapp
             last_alloc_(buffer_.end()),
             alloc_(allocator)
         {
+            detail::scope_exit guard{ [&] { detail::destroy_range(alloc_, first_, last_); deallocate(); } };
             while (src_first != src_last) emplace_back(*src_first++);
+            guard.release();
         }
 
         constexpr small_vector(std::initializer_list<T> init, const A& allocator = A()) :
-- 
2.43.0


From fdc3e81c574e29ea744d86901931e3cb114c0227 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:33:02 +0000
Subject: [PATCH 06/48] Verification hook for the random numbers, guarded by
 GAPP_VERIF_RNG

---
 src/utility/rng.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index b5c90ec..5704ee0 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -36,6 +36,12 @@
 #endif
 
 
+#ifdef GAPP_VERIF_RNG
+/* Verification hook: supplies the raw random numbers instead of the per-thread generators. */
+extern "C" std::uint64_t gapp_verif_next_random() noexcept;
+#endif
+
+
 /** Contains the PRNG classes and functions used for generating random numbers. */
 namespace gapp::rng
 {
@@ -239,6 +245,9 @@ namespace gapp::rng
         /** @return The next number of the sequence. Thread-safe. */
         result_type operator()() const noexcept
         {
+#ifdef GAPP_VERIF_RNG
+            return gapp_verif_next_random();
+#endif
             return std::invoke(generator_.instance);
         }
 
-- 
2.43.0


From bce07cef4d03a8dc4f68c3c356e3547202ef2e8e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:35:33 +0000
Subject: [PATCH 07/48] fix: circular_buffer::reset left a dangling buffer
 behind when the allocation fails

---
 src/utility/circular_buffer.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/circular_buffer.hpp b/src/utility/circular_buffer.hpp
index f257d26..644adf5 100644
--- a/src/utility/circular_buffer.hpp
+++ b/src/utility/circular_buffer.hpp
@@ -299,8 +299,9 @@ namespace gapp::detail
         {
             clear();
             if (new_capacity == capacity_) return;
+            pointer new_buffer = detail::allocate<T>(alloc_, new_capacity).data;
             if (buffer_) detail::deallocate(alloc_, buffer_, capacity_);
-            buffer_ = detail::allocate<T>(alloc_, new_capacity).data;
+            buffer_ = new_buffer;
             capacity_ = new_capacity;
         }
 
-- 
2.43.0


From aee32d9d86850af5e0032f1f0e74c9ef38416801 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:37:15 +0000
Subject: [PATCH 08/48] fix: circular_buffer::set_capacity freed the wrong
 buffer when moving the elements throws

---
 src/utility/circular_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/circular_buffer.hpp b/src/utility/circular_buffer.hpp
index 644adf5..6cae6de 100644
--- a/src/utility/circular_buffer.hpp
+++ b/src/utility/circular_buffer.hpp
@@ -278,7 +278,7 @@ namespace gapp::detail
             if (new_capacity == capacity()) return;
 
             pointer new_buffer = detail::allocate<T>(alloc_, new_capacity).data;
-            detail::scope_exit guard{ [&] { detail::deallocate(alloc_, buffer_, new_capacity); } };
+            detail::scope_exit guard{ [&] { detail::deallocate(alloc_, new_buffer, new_capacity); } };
             const size_type new_size = std::min<size_type>(new_capacity, size());
             std::uninitialized_copy_n(detail::make_move_iterator_if_noexcept(begin()), new_size, new_buffer);
             destroy();
-- 
2.43.0


From 4eaa48b44bb477ce38ebac12bb6852d1b620bd95 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:40:04 +0000
Subject: [PATCH 09/48] fix: circular_buffer::push_front(const&) was noexcept
 although copying may throw

---
 src/utility/circular_buffer.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/circular_buffer.hpp b/src/utility/circular_buffer.hpp
index 6cae6de..e09dbf6 100644
--- a/src/utility/circular_buffer.hpp
+++ b/src/utility/circular_buffer.hpp
@@ -202,7 +202,7 @@ namespace gapp::detail
         }
 
         constexpr void push_front(const value_type& value)
-        noexcept(std::is_nothrow_move_constructible_v<T>)
+        noexcept(std::is_nothrow_copy_constructible_v<T>)
         {
             GAPP_ASSERT(capacity() > 0);
             emplace_front(value);
-- 
2.43.0


From 74929ffb91c75e6cbec1b4971ef2c90ff20f1413 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:23 +0000
Subject: [PATCH 10/48] fix: floatIsLessAssumeNotGreater ignored the magnitude
 of the left operand, so paretoCompareLess disagreed with paretoCompare

---
 src/utility/math.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/math.hpp b/src/utility/math.hpp
index d4daad7..5fa30f0 100644
--- a/src/utility/math.hpp
+++ b/src/utility/math.hpp
@@ -216,7 +216,7 @@ namespace gapp::math
     template<std::floating_point T>
     bool floatIsLessAssumeNotGreater(T lhs, T rhs) noexcept
     {
-        const T scale = std::abs(rhs);
+        const T scale = std::max(std::abs(lhs), std::abs(rhs));
 
         if (scale == inf<T>) return lhs < rhs; // for infinities
 
-- 
2.43.0


From 625c2b9324ba59185a2f475fc7ff24eca9e59c1d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:23 +0000
Subject: [PATCH 11/48] fix: the difference of stable iterators was never
 negative

---
 src/utility/iterators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/iterators.hpp b/src/utility/iterators.hpp
index bdfd385..c8a2d6f 100644
--- a/src/utility/iterators.hpp
+++ b/src/utility/iterators.hpp
@@ -406,7 +406,7 @@ namespace gapp::detail
 
             GAPP_ASSERT(distance <= size_t(std::numeric_limits<difference_type>::max()), "Can't represent the result of the operation as difference_type.");
 
-            return difference_type(distance);
+            return lhs.idx_ >= rhs.idx_ ? difference_type(distance) : -difference_type(distance);
         }
 
     protected:
-- 
2.43.0


From d4b9f79459fd49c9d710c8d12ce52cbe2db427c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:23 +0000
Subject: [PATCH 12/48] fix: dynamic_bitset::resize did not initialize the new
 bits of the old last block when growing to more blocks

---
 src/utility/dynamic_bitset.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/utility/dynamic_bitset.hpp b/src/utility/dynamic_bitset.hpp
index a00c74d..7e85a41 100644
--- a/src/utility/dynamic_bitset.hpp
+++ b/src/utility/dynamic_bitset.hpp
@@ -119,14 +119,14 @@ namespace gapp::detail
 
         constexpr void resize(size_type new_size, bool value = false)
         {
-            blocks_.resize(new_size / block_size + bool(new_size % block_size), block_of<block_type>(value));
-
-            if (new_size > size_)
+            if (new_size > size_ && partial_block_size() != 0)
             {
                 blocks_.back() &= partial_block_mask();
                 blocks_.back() |= ~partial_block_mask() & block_of<block_type>(value);
             }
 
+            blocks_.resize(new_size / block_size + bool(new_size % block_size), block_of<block_type>(value));
+
             size_ = new_size;
         }
 
-- 
2.43.0


From 35911a5deaaad0345820ae4bf231d5a6f5235b0c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:51:23 +0000
Subject: [PATCH 13/48] fix: the queries of an empty dynamic_bitset read a
 block that does not exist

---
 src/utility/dynamic_bitset.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/utility/dynamic_bitset.hpp b/src/utility/dynamic_bitset.hpp
index 7e85a41..65e5903 100644
--- a/src/utility/dynamic_bitset.hpp
+++ b/src/utility/dynamic_bitset.hpp
@@ -245,6 +245,8 @@ namespace gapp::detail
 
         constexpr block_type partial_block() const noexcept
         {
+            if (partial_block_size() == 0) return zeros<block_type>;
+
             return blocks_.back() & partial_block_mask();
         }
     };
-- 
2.43.0


From 4fed88660da0b345a5223ee7a40e6f63a1752cb8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:57:28 +0000
Subject: [PATCH 14/48] fix: moving a signed iota_iterator backwards overflowed
 in its assertion

---
 src/utility/iterators.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/iterators.hpp b/src/utility/iterators.hpp
index c8a2d6f..4302404 100644
--- a/src/utility/iterators.hpp
+++ b/src/utility/iterators.hpp
@@ -541,7 +541,7 @@ namespace gapp::detail
         constexpr iota_iterator& operator+=(difference_type n)
         {
             GAPP_ASSERT(n > 0 ? (std::numeric_limits<T>::max() - n) >= value_ : true, "Can't increment iterator past its max value.");
-            GAPP_ASSERT(n < 0 ? size_t(-n) <= (value_ - std::numeric_limits<T>::min()) : true, "Can't decrement iterator past its min value.");
+            GAPP_ASSERT(n < 0 ? value_ >= T(std::numeric_limits<T>::min() - n) : true, "Can't decrement iterator past its min value.");
 
             value_ += n;
             return *this;
-- 
2.43.0


From 5ffe1226271f98011f3cf5aa6a5c5948ebf2dbfc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 15/48] fix: sampleUnique could return the same number twice
 for huge ranges

---
 src/utility/rng.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index 5704ee0..9ae7a9c 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -476,7 +476,7 @@ namespace gapp::rng
         {
             const auto n = rng::randomInt(lbound, limit);
             *number = selected.contains(n) ? limit : n;
-            selected.insert(n);
+            selected.insert(*number);
         }
 
         return numbers;
-- 
2.43.0


From 7e946929609314eb0c483930667c3e4c98546174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 16/48] fix: randomReal<float> returned values outside of [0,
 1)

---
 src/utility/rng.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index 9ae7a9c..d2ba4b1 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -348,7 +348,7 @@ namespace gapp::rng
     template<std::floating_point RealType>
     RealType randomReal()
     {
-        return (rng::prng() >> detail::exponent_bits<RealType>) * (std::numeric_limits<RealType>::epsilon() / 2.0);
+        return (rng::prng() >> (detail::bitsizeof<std::uint64_t> - std::numeric_limits<RealType>::digits)) * (std::numeric_limits<RealType>::epsilon() / 2.0);
     }
 
     template<std::floating_point RealType>
-- 
2.43.0


From d0c27670ae82ffa05e4941cbc20e37a7f71a7575 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 17/48] fix: randomReal(lbound, ubound) could return ubound
 because of rounding

---
 src/utility/rng.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index d2ba4b1..2eb3d2a 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -356,7 +356,9 @@ namespace gapp::rng
     {
         GAPP_ASSERT(lbound <= ubound);
 
-        return lbound + (ubound - lbound) * rng::randomReal();
+        const RealType value = lbound + (ubound - lbound) * rng::randomReal();
+
+        return (value < ubound) ? value : std::nextafter(ubound, lbound); // the upper bound could be reached by rounding
     }
 
     template<std::floating_point RealType>
-- 
2.43.0


From e35f05c83099461457ab375330c5156f437da309 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 16:59:38 +0000
Subject: [PATCH 18/48] fix: randomBinomial could count a success even when its
 probability is zero

---
 src/utility/rng.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/utility/rng.hpp b/src/utility/rng.hpp
index 2eb3d2a..a84c507 100644
--- a/src/utility/rng.hpp
+++ b/src/utility/rng.hpp
@@ -427,7 +427,7 @@ namespace gapp::rng
         GAPP_ASSERT(0.0 <= p && p <= 1.0);
 
         IntType res = 0;
-        while (n--) { res += (randomReal() <= p); }
+        while (n--) { res += (randomReal() < p); }
         return res;
     }
 
-- 
2.43.0


From 095f500c846766b16e42fb85207c6e1d96a26792 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:07:38 +0000
Subject: [PATCH 19/48] fix: ConeTree::buildTree wrote through a dangling
 reference when the nodes were reallocated

---
 src/utility/cone_tree.cpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/utility/cone_tree.cpp b/src/utility/cone_tree.cpp
index dccb94c..faafedc 100644
--- a/src/utility/cone_tree.cpp
+++ b/src/utility/cone_tree.cpp
@@ -159,11 +159,12 @@ namespace gapp::detail
                 Node left_child{ .first = node.first, .last = middle_idx };
                 Node right_child{ .first = middle_idx, .last = node.last };
 
+                /* The reference to the node is invalidated here. */
                 nodes_.push_back(left_child);
                 nodes_.push_back(right_child);
 
-                node.left = nodes_.size() - 2;
-                node.right = nodes_.size() - 1;
+                nodes_[i].left = nodes_.size() - 2;
+                nodes_[i].right = nodes_.size() - 1;
             }
         }
     }
-- 
2.43.0


From 948609488b9c485b265c6a59f26666a83f2a1976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:25 +0000
Subject: [PATCH 20/48] fix: using a fitness cache together with a dynamic
 fitness function failed an assertion

---
 src/core/ga_base.impl.hpp | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index 40d204f..e3d5356 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -463,10 +463,8 @@ namespace gapp
          * is no point doing it again. */
         if (!fitness_function_->is_dynamic() && sol.is_evaluated) return;
         
-        if (cached_generations_)
+        if (cached_generations_ && !fitness_function_->is_dynamic())
         {
-            GAPP_ASSERT(!fitness_function_->is_dynamic());
-
             const FitnessVector* fitness = fitness_cache_.get(sol);
             if (fitness)
             {
-- 
2.43.0


From 54a7ba136d864cfdf5ecdfcc7b8b19984ff85eef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:25 +0000
Subject: [PATCH 21/48] fix: the generation counter seen by the metrics and the
 callback was one less than the number of the generation

---
 src/core/ga_base.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index e3d5356..83a4201 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -527,12 +527,12 @@ namespace gapp
         });
 
         updatePopulation(std::move(children));
+        generation_cntr_++;
 
         if (keep_all_optimal_sols_) updateOptimalSolutions(solutions_, population_);
         metrics_.update(*this);
 
         if (on_generation_end_) on_generation_end_(*this);
-        generation_cntr_++;
     }
 
     template<typename T>
-- 
2.43.0


From 4ac623ac799ea40db7e537ee47fc0754438bfedc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:25 +0000
Subject: [PATCH 22/48] fix: the default mutation rate was only computed for
 the first run

---
 src/core/ga_base.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index 83a4201..e20af8d 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -349,7 +349,7 @@ namespace gapp
         if (use_default_algorithm_) algorithm_ = defaultAlgorithm();
         algorithm_->initialize(*this);
 
-        if (use_default_mutation_rate_) mutation_rate(defaultMutationRate());
+        if (use_default_mutation_rate_) mutation_->mutation_rate(defaultMutationRate());
 
         stop_condition_->initialize(*this);
 
-- 
2.43.0


From ca5bc7da75c2bd14a46caffb5355e65cabdc62e5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:25 +0000
Subject: [PATCH 23/48] fix: the optimal solutions of the initial population
 were kept with their duplicates

---
 src/core/ga_base.impl.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index e20af8d..b23d41a 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -338,7 +338,6 @@ namespace gapp
         population_ = generatePopulation(population_size_, std::move(initial_population));
         detail::parallel_for(population_.begin(), population_.end(), [this](Candidate<T>& sol) { evaluate(sol); });
         fitness_matrix_ = detail::toFitnessMatrix(population_);
-        if (keep_all_optimal_sols_) solutions_ = detail::findParetoFront(population_);
 
         GAPP_ASSERT(isValidEvaluatedPopulation(population_));
         GAPP_ASSERT(fitnessMatrixIsSynced());
@@ -349,6 +348,8 @@ namespace gapp
         if (use_default_algorithm_) algorithm_ = defaultAlgorithm();
         algorithm_->initialize(*this);
 
+        if (keep_all_optimal_sols_) updateOptimalSolutions(solutions_, population_);
+
         if (use_default_mutation_rate_) mutation_->mutation_rate(defaultMutationRate());
 
         stop_condition_->initialize(*this);
-- 
2.43.0


From 042f7db1962128cbb910b3788643d71c1c6c9ea6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:25 +0000
Subject: [PATCH 24/48] fix: the second part of an OR stop condition was not
 always evaluated, so it lost track when nested in another condition

---
 src/stop_condition/composite.hpp | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/src/stop_condition/composite.hpp b/src/stop_condition/composite.hpp
index 3be47c6..a342e26 100644
--- a/src/stop_condition/composite.hpp
+++ b/src/stop_condition/composite.hpp
@@ -29,8 +29,9 @@ namespace gapp::stopping::dtl
 
         bool stop_condition(const GaInfo& ga) override
         {
-            // short-circuiting is fine here, since the GA will be stopped anyway if left_ returns true.
-            return std::invoke(left_, ga) || std::invoke(right_, ga);   
+            // Both of the stop conditions should be evaluated, so avoid short circuits with logical ops
+            // (the GA might not be stopped if this is used as a part of another composite condition).
+            return std::invoke(left_, ga) | std::invoke(right_, ga);
         }
 
         Left left_;
-- 
2.43.0


From d0985b1e3ef1f4a7563eb4be6e1d7d13570a534d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:25 +0000
Subject: [PATCH 25/48] fix: the FitnessValue stop condition triggered for
 solutions that are incomparable to the threshold

---
 src/stop_condition/stop_condition.cpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/src/stop_condition/stop_condition.cpp b/src/stop_condition/stop_condition.cpp
index 953d0b4..b9d219b 100644
--- a/src/stop_condition/stop_condition.cpp
+++ b/src/stop_condition/stop_condition.cpp
@@ -48,7 +48,10 @@ namespace gapp::stopping
         return std::any_of(fitness_matrix.begin(), fitness_matrix.end(),
         [&](const auto& fitness_vector) noexcept
         {
-            return !math::paretoCompareLess(fitness_vector, fitness_threshold_);
+            return std::equal(fitness_vector.begin(), fitness_vector.end(), fitness_threshold_.begin(), [](double fitness, double threshold) noexcept
+            {
+                return !math::floatIsLess(fitness, threshold);
+            });
         });
     }
 
-- 
2.43.0


From db354026ed84823d7bcfe6e537bfe9078f99f42b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:25 +0000
Subject: [PATCH 26/48] fix: the unique_ptr setters of SingleObjective checked
 the old operator instead of the new one

---
 src/algorithm/single_objective.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/single_objective.cpp b/src/algorithm/single_objective.cpp
index 491b0cc..ae26d0b 100644
--- a/src/algorithm/single_objective.cpp
+++ b/src/algorithm/single_objective.cpp
@@ -29,7 +29,7 @@ namespace gapp::algorithm
 
     void SingleObjective::selection_method(std::unique_ptr<selection::Selection> selection)
     {
-        GAPP_ASSERT(selection_, "The selection method can't be a nullptr.");
+        GAPP_ASSERT(selection, "The selection method can't be a nullptr.");
 
         selection_ = std::move(selection);
     }
@@ -41,7 +41,7 @@ namespace gapp::algorithm
 
     void SingleObjective::replacement_method(std::unique_ptr<replacement::Replacement> replacement)
     {
-        GAPP_ASSERT(replacement_, "The population replacement method can't be a nullptr.");
+        GAPP_ASSERT(replacement, "The population replacement method can't be a nullptr.");
 
         replacement_ = std::move(replacement);
     }
-- 
2.43.0


From cb944e4f84e3fc93b9c88a3e97fabcb65989ef9e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:17:25 +0000
Subject: [PATCH 27/48] fix: AutoHypervolume updated the old hypervolumes
 wrongly for more than 2 objectives

---
 src/metrics/distribution_metrics.cpp | 12 ++++--------
 src/metrics/distribution_metrics.hpp |  2 +-
 2 files changed, 5 insertions(+), 9 deletions(-)

diff --git a/src/metrics/distribution_metrics.cpp b/src/metrics/distribution_metrics.cpp
index 278aea6..a710f5c 100644
--- a/src/metrics/distribution_metrics.cpp
+++ b/src/metrics/distribution_metrics.cpp
@@ -51,8 +51,8 @@ namespace gapp::metrics
         data_.clear();
         data_.reserve(ga.max_gen());
 
-        ideal_points_.clear();
-        ideal_points_.reserve(ga.max_gen(), ga.num_objectives());
+        fitness_matrices_.clear();
+        fitness_matrices_.reserve(ga.max_gen());
 
         worst_point_ = FitnessVector(ga.num_objectives(), math::inf<double>);
     }
@@ -62,7 +62,6 @@ namespace gapp::metrics
         const auto& fitness_matrix = ga.fitness_matrix();
 
         FitnessVector worst_point = detail::minFitness(fitness_matrix.begin(), fitness_matrix.end());
-        FitnessVector ideal_point = detail::maxFitness(fitness_matrix.begin(), fitness_matrix.end());
 
         FitnessVector prev_worst_point = worst_point_;
         detail::elementwise_min(worst_point_, worst_point, detail::inplace_t{});
@@ -71,15 +70,12 @@ namespace gapp::metrics
         {
             for (size_t i = 0; i < data_.size(); i++)
             {
-                const double old_vol = math::volumeBetween(ideal_points_[i], prev_worst_point);
-                const double new_vol = math::volumeBetween(ideal_points_[i], worst_point_);
-
-                data_[i] += (new_vol - old_vol);
+                data_[i] = detail::hypervolume(fitness_matrices_[i], worst_point_);
             }
         }
 
         data_.push_back(detail::hypervolume(fitness_matrix, worst_point_));
-        ideal_points_.append_row(std::move(ideal_point));
+        fitness_matrices_.push_back(fitness_matrix);
     }
 
 } // namespace gapp::metrics
diff --git a/src/metrics/distribution_metrics.hpp b/src/metrics/distribution_metrics.hpp
index 935bbc0..3c50a21 100644
--- a/src/metrics/distribution_metrics.hpp
+++ b/src/metrics/distribution_metrics.hpp
@@ -79,7 +79,7 @@ namespace gapp::metrics
         void update(const GaInfo& ga) override;
 
         FitnessVector worst_point_;
-        FitnessMatrix ideal_points_;
+        std::vector<FitnessMatrix> fitness_matrices_;
     };
 
 } // namespace gapp::metrics
-- 
2.43.0


From a4b450f4ae4238d6684fb07924b89fd7a7713ca1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:26:26 +0000
Subject: [PATCH 28/48] fix: composite stop conditions could not contain other
 composites, or any condition with a private initialize

---
 src/stop_condition/composite.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/src/stop_condition/composite.hpp b/src/stop_condition/composite.hpp
index a342e26..1be98ae 100644
--- a/src/stop_condition/composite.hpp
+++ b/src/stop_condition/composite.hpp
@@ -23,8 +23,8 @@ namespace gapp::stopping::dtl
     private:
         void initialize(const GaInfo& ga) override
         {
-            left_.initialize(ga);
-            right_.initialize(ga);
+            static_cast<StopCondition&>(left_).initialize(ga);
+            static_cast<StopCondition&>(right_).initialize(ga);
         }
 
         bool stop_condition(const GaInfo& ga) override
@@ -49,8 +49,8 @@ namespace gapp::stopping::dtl
     private:
         void initialize(const GaInfo& ga) override
         {
-            left_.initialize(ga);
-            right_.initialize(ga);
+            static_cast<StopCondition&>(left_).initialize(ga);
+            static_cast<StopCondition&>(right_).initialize(ga);
         }
 
         bool stop_condition(const GaInfo& ga) override
@@ -75,7 +75,7 @@ namespace gapp::stopping::dtl
     private:
         void initialize(const GaInfo& ga) override
         {
-            base_.initialize(ga);
+            static_cast<StopCondition&>(base_).initialize(ga);
         }
 
         bool stop_condition(const GaInfo& ga) override
-- 
2.43.0


From 5cd246ab82fef7c320ee78cf899ba128523176b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 17:27:14 +0000
Subject: [PATCH 29/48] fix: negating a negated stop condition copied it
 instead of negating it

---
 src/stop_condition/composite.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/stop_condition/composite.hpp b/src/stop_condition/composite.hpp
index 1be98ae..62f9011 100644
--- a/src/stop_condition/composite.hpp
+++ b/src/stop_condition/composite.hpp
@@ -103,7 +103,7 @@ namespace gapp::stopping
 
     constexpr auto operator!(std::derived_from<StopCondition> auto base) noexcept
     {
-        return dtl::NOT{ std::move(base) };
+        return dtl::NOT<decltype(base)>{ std::move(base) };
     }
 
 } // namespace gapp::stopping
-- 
2.43.0


From 3596a83c820a28f7eb10e6e1eed73b471a1be36f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:02:36 +0000
Subject: [PATCH 30/48] fix: rcu readers could still use the data that a
 concurrent update has deleted

---
 src/utility/rcu.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/utility/rcu.hpp b/src/utility/rcu.hpp
index 2851351..9e6b4f7 100644
--- a/src/utility/rcu.hpp
+++ b/src/utility/rcu.hpp
@@ -22,7 +22,7 @@ namespace gapp::detail
         static void read_lock() noexcept
         {
             reader.epoch.store(writer_epoch.load(std::memory_order_relaxed), std::memory_order_release);
-            std::ignore = reader.epoch.load(std::memory_order_acquire);
+            std::atomic_thread_fence(std::memory_order_seq_cst); // the protected data must not be read before the epoch is visible to the writers
         }
 
         static void read_unlock() noexcept
@@ -32,6 +32,7 @@ namespace gapp::detail
 
         static void synchronize() noexcept
         {
+            std::atomic_thread_fence(std::memory_order_seq_cst); // the readers whose epoch isn't visible yet must see the new data
             uint64_t current = writer_epoch.load(std::memory_order_acquire);
             uint64_t target  = current + 1;
             writer_epoch.compare_exchange_strong(current, target, std::memory_order_release);
-- 
2.43.0


From da56ef41726352daa987cd64e03df3e3442c072b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 18:57:30 +0000
Subject: [PATCH 31/48] fix: an exception could leave a parallel loop while its
 tasks were still running

An exception thrown by the part of the body that runs on the calling thread, or while the tasks are
submitted, left execute_loop at once, although the submitted tasks still used its local variables.
---
 src/utility/thread_pool.hpp | 19 ++++++++++++++++---
 1 file changed, 16 insertions(+), 3 deletions(-)

diff --git a/src/utility/thread_pool.hpp b/src/utility/thread_pool.hpp
index 05b26dd..76a2bff 100644
--- a/src/utility/thread_pool.hpp
+++ b/src/utility/thread_pool.hpp
@@ -21,6 +21,7 @@
 #include <stdexcept>
 #include <utility>
 #include <cstddef>
+#include <cstdint>
 
 namespace gapp::detail
 {
@@ -61,11 +62,23 @@ namespace gapp::detail
                     remaining_tasks.count_down();
                 };
 
-                bool success = scheduled_worker_queue().emplace(std::move(task));
-                if (!success) GAPP_THROW(std::runtime_error, "Attempting to submit a task to a stopped thread pool.");
+                GAPP_TRY
+                {
+                    bool success = scheduled_worker_queue().emplace(std::move(task));
+                    if (!success) GAPP_THROW(std::runtime_error, "Attempting to submit a task to a stopped thread pool.");
+                }
+                GAPP_CATCH (...)
+                {
+                    // The tasks that were already submitted still refer to the local variables, so they have to be waited for.
+                    thread_guard();
+                    remaining_tasks.count_down(uint32_t(task_count - 1 - i));
+                    first = last;
+                    break;
+                }
             }
 
-            while (first != last) { std::invoke(unary_op, *first++); }
+            GAPP_TRY { while (first != last) { std::invoke(unary_op, *first++); } }
+            GAPP_CATCH (...) { thread_guard(); }
 
             if (auto* local_queue = local_worker_queue(); !local_queue)
             {
-- 
2.43.0


From debba2265f8329d2034cba5ebda302e73636bf21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:52 +0000
Subject: [PATCH 32/48] fix: the swap, shuffle and shift mutations could be
 applied with a mutation rate of zero

---
 src/mutation/permutation.cpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/src/mutation/permutation.cpp b/src/mutation/permutation.cpp
index 5b31047..0a36b9a 100644
--- a/src/mutation/permutation.cpp
+++ b/src/mutation/permutation.cpp
@@ -36,7 +36,7 @@ namespace gapp::mutation::perm
     {
         if (chromosome.size() < 2) return;
 
-        if (rng::randomReal() <= mutation_rate())
+        if (rng::randomReal() < mutation_rate())
         {
             const auto idxs = rng::sampleUnique(0_sz, chromosome.size(), 2_sz);
 
@@ -49,7 +49,7 @@ namespace gapp::mutation::perm
     {
         if (chromosome.size() < 3) return;
 
-        if (rng::randomReal() <= mutation_rate())
+        if (rng::randomReal() < mutation_rate())
         {
             const auto idxs = rng::sampleUnique(0_sz, chromosome.size(), 3_sz);
 
@@ -65,7 +65,7 @@ namespace gapp::mutation::perm
 
         if (chrom_len < 2) return;
 
-        if (rng::randomReal() <= mutation_rate())
+        if (rng::randomReal() < mutation_rate())
         {
             const size_t min_len = 2;
             const size_t max_len = std::max(size_t(range_max_ * chrom_len), min_len);
@@ -84,7 +84,7 @@ namespace gapp::mutation::perm
 
         if (chrom_len < 2) return;
 
-        if (rng::randomReal() <= mutation_rate())
+        if (rng::randomReal() < mutation_rate())
         {
             const size_t min_len = 1;
             const size_t max_len = std::max(min_len, size_t(range_max_ * chrom_len));
-- 
2.43.0


From a67c228a3ea33636c37b031b37d53f66c23890ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:52 +0000
Subject: [PATCH 33/48] fix: the shift mutation could select the entire
 chromosome as the range to move

---
 src/mutation/permutation.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mutation/permutation.cpp b/src/mutation/permutation.cpp
index 0a36b9a..dd38bc8 100644
--- a/src/mutation/permutation.cpp
+++ b/src/mutation/permutation.cpp
@@ -87,7 +87,7 @@ namespace gapp::mutation::perm
         if (rng::randomReal() < mutation_rate())
         {
             const size_t min_len = 1;
-            const size_t max_len = std::max(min_len, size_t(range_max_ * chrom_len));
+            const size_t max_len = std::clamp(size_t(range_max_ * chrom_len), min_len, chrom_len - 1); // the whole chromosome can't be moved anywhere
             const size_t range_len = rng::randomInt(min_len, max_len);
 
             const auto idxs = rng::sampleUnique(0_sz, chrom_len - range_len + 1, 2);
-- 
2.43.0


From 137e7eaf8da4c94f8c271beb69101fc915d8627c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:52 +0000
Subject: [PATCH 34/48] fix: the integer uniform mutation never returned if a
 gene only had a single allowed value

---
 src/mutation/integer.cpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/src/mutation/integer.cpp b/src/mutation/integer.cpp
index c2d6791..75424eb 100644
--- a/src/mutation/integer.cpp
+++ b/src/mutation/integer.cpp
@@ -21,6 +21,8 @@ namespace gapp::mutation::integer
 
         for (const auto& idx : mutated_indices)
         {
+            if (bounds[idx].lower() == bounds[idx].upper()) continue; // there is no other value for the gene
+
             GeneType old_gene = chromosome[idx];
             GeneType new_gene = rng::randomInt(bounds[idx].lower(), bounds[idx].upper());
 
-- 
2.43.0


From f07a54d772497296b444cdc4ef4141f771794bc6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:34:52 +0000
Subject: [PATCH 35/48] fix: a nested mutation on the same thread overwrote the
 original candidate of the outer one

---
 src/mutation/mutation_base.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/mutation/mutation_base.impl.hpp b/src/mutation/mutation_base.impl.hpp
index 398e0f6..35a1584 100644
--- a/src/mutation/mutation_base.impl.hpp
+++ b/src/mutation/mutation_base.impl.hpp
@@ -26,7 +26,7 @@ namespace gapp::mutation
             /* If the candidate is already evaluated (happens when the crossover didn't change the candidate),
                its current fitness vector is valid, and we can save a fitness function call when the mutation
                doesn't change the chromosome. */
-            thread_local Candidate<T> old_candidate; old_candidate = candidate;
+            const Candidate<T> old_candidate = candidate;
 
             mutate(ga, candidate, candidate.chromosome);
             candidate.is_evaluated = (candidate == old_candidate);
-- 
2.43.0


From e86db33ac191aafe0a4d1342727b8154ca81157d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:24:07 +0000
Subject: [PATCH 36/48] fix: the shift mutation only moved genes forward in
 short chromosomes

---
 src/mutation/permutation.cpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/src/mutation/permutation.cpp b/src/mutation/permutation.cpp
index dd38bc8..fb566b1 100644
--- a/src/mutation/permutation.cpp
+++ b/src/mutation/permutation.cpp
@@ -90,9 +90,13 @@ namespace gapp::mutation::perm
             const size_t max_len = std::clamp(size_t(range_max_ * chrom_len), min_len, chrom_len - 1); // the whole chromosome can't be moved anywhere
             const size_t range_len = rng::randomInt(min_len, max_len);
 
-            const auto idxs = rng::sampleUnique(0_sz, chrom_len - range_len + 1, 2);
-            const auto src_first  = chromosome.begin() + ptrdiff_t(idxs[0]);
-            const auto dest_first = chromosome.begin() + ptrdiff_t(idxs[1]);
+            /* The order of the elements returned by sampleUnique isn't random, so the direction of the shift can't be based on it. */
+            const size_t num_positions = chrom_len - range_len + 1;
+            const size_t src_idx  = rng::randomInt(0_sz, num_positions - 1);
+            const size_t dest_idx = (src_idx + rng::randomInt(1_sz, num_positions - 1)) % num_positions;
+
+            const auto src_first  = chromosome.begin() + ptrdiff_t(src_idx);
+            const auto dest_first = chromosome.begin() + ptrdiff_t(dest_idx);
 
             const auto [first, middle, last] = (dest_first < src_first) ?
                 std::tuple(dest_first, src_first, src_first + range_len) :
-- 
2.43.0


From 1129caeaf09540b46c8e97f485c58eaff9133537 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:16 +0000
Subject: [PATCH 37/48] fix: NSGA-II used the crowding distances of other
 candidates for the selections

---
 src/algorithm/nsga2.cpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/nsga2.cpp b/src/algorithm/nsga2.cpp
index 0843784..410cffa 100644
--- a/src/algorithm/nsga2.cpp
+++ b/src/algorithm/nsga2.cpp
@@ -100,7 +100,7 @@ namespace gapp::algorithm
         });
 
         pareto_fronts.resize(popsize);
-        dists_ = crowdingDistances(fmat, pareto_fronts.fronts());
+        const auto dists = crowdingDistances(fmat, pareto_fronts.fronts());
         dists_.resize(popsize);
 
         small_vector<size_t> new_pop(popsize);
@@ -108,6 +108,7 @@ namespace gapp::algorithm
         {
             new_pop[i] = pareto_fronts[i].idx;
             ranks_[i]  = pareto_fronts[i].rank;
+            dists_[i]  = dists[pareto_fronts[i].idx];
         }
 
         return new_pop;
-- 
2.43.0


From 9a3d26d7ff8cad46c3a27ff4b7d1a10b7ce69f3d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:16 +0000
Subject: [PATCH 38/48] fix: the crowding distances of NSGA-II were NaN for
 infinite fitness values

---
 src/algorithm/nsga2.cpp | 6 +++++-
 1 file changed, 5 insertions(+), 1 deletion(-)

diff --git a/src/algorithm/nsga2.cpp b/src/algorithm/nsga2.cpp
index 410cffa..5b6d4e6 100644
--- a/src/algorithm/nsga2.cpp
+++ b/src/algorithm/nsga2.cpp
@@ -10,6 +10,7 @@
 #include "../utility/rng.hpp"
 #include "../utility/utility.hpp"
 #include <algorithm>
+#include <cmath>
 #include <iterator>
 #include <vector>
 #include <utility>
@@ -51,7 +52,10 @@ namespace gapp::algorithm
                 {
                     const size_t next = std::next(it)->idx;
                     const size_t prev = std::prev(it)->idx;
-                    crowding_distances[it->idx] += (fvec[next] - fvec[prev]) / finterval;
+                    if (fvec[next] == fvec[prev]) continue; // avoid inf - inf
+
+                    const double interval = fvec[next] - fvec[prev];
+                    crowding_distances[it->idx] += std::isinf(interval) ? 1.0 : interval / finterval; // avoid inf / inf
                 }
             }
         }
-- 
2.43.0


From d8dd438885ab642a11afcedefb77d385d4eded7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:27:50 +0000
Subject: [PATCH 39/48] fix: NSGA-III could pick a candidate of the partial
 front again instead of the closest remaining one

---
 src/algorithm/nsga3.cpp | 20 +++++++++++++++-----
 1 file changed, 15 insertions(+), 5 deletions(-)

diff --git a/src/algorithm/nsga3.cpp b/src/algorithm/nsga3.cpp
index e40f721..d63a50b 100644
--- a/src/algorithm/nsga3.cpp
+++ b/src/algorithm/nsga3.cpp
@@ -281,10 +281,17 @@ namespace gapp::algorithm
 
     FrontElement& NSGA3::Impl::findClosestAssociated(std::span<FrontElement> pareto_fronts, size_t ref) const noexcept
     {
-        return *detail::min_element(pareto_fronts.begin(), pareto_fronts.end(), [&](const FrontElement& sol)
+        auto closest = pareto_fronts.end();
+
+        for (auto it = pareto_fronts.begin(); it != pareto_fronts.end(); ++it)
         {
-            return (refIndexOf(sol) == ref) ? refDistOf(sol) : math::inf<double>;
-        });
+            if (refIndexOf(*it) != ref) continue;
+            if (closest == pareto_fronts.end() || refDistOf(*it) < refDistOf(*closest)) closest = it;
+        }
+
+        GAPP_ASSERT(closest != pareto_fronts.end(), "No candidates are associated with the reference line.");
+
+        return *closest;
     }
 
     void NSGA3::Impl::incrementNicheCount(std::vector<size_t>& refs, size_t ref)
@@ -374,12 +381,15 @@ namespace gapp::algorithm
             const size_t selected_ref_idx = *rng::randomElement(ref_indices.begin(), last_minimal_ref);
             pimpl_->incrementNicheCount(ref_indices, selected_ref_idx);
 
-            const size_t associated_sol_count = std::count_if(pareto_fronts.begin(), pareto_fronts.end(), [&](const FrontElement& sol)
+            /* Only the candidates of the partial front that haven't been selected yet can be picked. */
+            const std::span<FrontElement> remaining_sols{ partial_front.begin() + i, partial_front.end() };
+
+            const size_t associated_sol_count = std::count_if(remaining_sols.begin(), remaining_sols.end(), [&](const FrontElement& sol)
             {
                 return pimpl_->refIndexOf(sol) == selected_ref_idx;
             });
 
-            FrontElement& closest = pimpl_->findClosestAssociated(partial_front, selected_ref_idx);
+            FrontElement& closest = pimpl_->findClosestAssociated(remaining_sols, selected_ref_idx);
 
             /* Move the selected candidate to the front of the partial front so it can't be selected again. */
             std::swap(closest, partial_front[i]);
-- 
2.43.0


From 906cf3e9f6fa37233701638f621c6b093144211a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 40/48] fix: the scale of the sigma selection had no effect on
 the selection weights

---
 src/algorithm/soga_selection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/soga_selection.cpp b/src/algorithm/soga_selection.cpp
index a868b83..ca50d59 100644
--- a/src/algorithm/soga_selection.cpp
+++ b/src/algorithm/soga_selection.cpp
@@ -117,7 +117,7 @@ namespace gapp::selection
         FitnessVector fvec = detail::toFitnessVector(fmat.begin(), fmat.end());
         const double fmean = math::mean(fvec);
         const double fdev = math::stdDev(fvec, fmean);
-        const double idiv = 1.0 / std::clamp(fdev, math::small<double>, math::large<double>);
+        const double idiv = 1.0 / std::clamp(scale_ * fdev, math::small<double>, math::large<double>);
 
         std::transform(fvec.begin(), fvec.end(), fvec.begin(), [&](double f)
         {
-- 
2.43.0


From 33dd83dff7c8917a0ef0f9d3aac16c325aaa8949 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 41/48] fix: the weights of the rank selection were NaN for a
 single candidate

---
 src/algorithm/soga_selection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/soga_selection.cpp b/src/algorithm/soga_selection.cpp
index ca50d59..6283f21 100644
--- a/src/algorithm/soga_selection.cpp
+++ b/src/algorithm/soga_selection.cpp
@@ -99,7 +99,7 @@ namespace gapp::selection
         std::vector<double> weights(fmat.size());
         for (size_t i = 0; i < indices.size(); i++)
         {
-            const double t = i / (weights.size() - 1.0);
+            const double t = i / std::max(weights.size() - 1.0, 1.0);
             weights[indices[i]] = std::lerp(min_weight_, max_weight_, t);
         }
 
-- 
2.43.0


From d8fe371b36da1d9f6e490318072c97735cc9d066 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 42/48] fix: the tournament selection rejected populations
 smaller than the tournament

---
 src/algorithm/soga_selection.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/algorithm/soga_selection.cpp b/src/algorithm/soga_selection.cpp
index 6283f21..1bcf5b1 100644
--- a/src/algorithm/soga_selection.cpp
+++ b/src/algorithm/soga_selection.cpp
@@ -62,7 +62,7 @@ namespace gapp::selection
 
     size_t Tournament::selectImpl(const GaInfo&, const FitnessMatrix& fmat) const
     {
-        GAPP_ASSERT(fmat.size() >= tourney_size_);
+        GAPP_ASSERT(!fmat.empty());
         GAPP_ASSERT(fmat.ncols() == 1);
 
         small_vector<size_t> candidate_indices(tourney_size_);
-- 
2.43.0


From 6cdb4ae116d272e92c110ef5f65cd01b2a29b6cf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:38:11 +0000
Subject: [PATCH 43/48] fix: the boltzmann selection picked candidates of
 different fitness equally often at low temperatures

---
 src/algorithm/soga_selection.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/algorithm/soga_selection.cpp b/src/algorithm/soga_selection.cpp
index 1bcf5b1..44c12ef 100644
--- a/src/algorithm/soga_selection.cpp
+++ b/src/algorithm/soga_selection.cpp
@@ -152,9 +152,9 @@ namespace gapp::selection
         const double temperature = temperature_(ga.generation_cntr(), ga.max_gen());
 
         // can't capture the iterators by ref or value here
-        std::transform(fvec.begin(), fvec.end(), fvec.begin(), [&, f_min = *fmin](double f) noexcept
+        std::transform(fvec.begin(), fvec.end(), fvec.begin(), [&, f_max = *fmax](double f) noexcept
         {
-            const double fnorm = f / df - f_min / df; // normalize the fitness values to prevent overflows with std::exp
+            const double fnorm = f / df - f_max / df; // normalize the fitness values (to at most 0) to prevent overflows with std::exp
 
             return std::min(math::large<double>, std::exp(fnorm / temperature));
         });
-- 
2.43.0


From be3679f6b66cb083ccfde3c86ccee9950643a84e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 44/48] fix: the default algorithm was not used after
 constructing a GA with a null algorithm

---
 src/core/ga_base.impl.hpp | 1 -
 1 file changed, 1 deletion(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index b23d41a..f3d3fdd 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -54,7 +54,6 @@ namespace gapp
     GA<T>::GA(Positive<size_t> population_size, std::unique_ptr<typename algorithm::Algorithm> algorithm) :
         GA(population_size, std::move(algorithm), std::make_unique<typename GaTraits<T>::DefaultCrossover>(), std::make_unique<typename GaTraits<T>::DefaultMutation>(0.01))
     {
-        use_default_algorithm_ = false;
         use_default_mutation_rate_ = true;
     }
 
-- 
2.43.0


From 381cbabef1d61ee7e3b806a0ad4e8dfcf4903d72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:16:33 +0000
Subject: [PATCH 45/48] fix: a GA constructed from operator objects used the
 single-objective algorithm for every problem

---
 src/core/ga_base.impl.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/core/ga_base.impl.hpp b/src/core/ga_base.impl.hpp
index f3d3fdd..7f52664 100644
--- a/src/core/ga_base.impl.hpp
+++ b/src/core/ga_base.impl.hpp
@@ -82,7 +82,7 @@ namespace gapp
              std::derived_from<StoppingType, stopping::StopCondition>
     GA<T>::GA(Positive<size_t> population_size, CrossoverType crossover, MutationType mutation, StoppingType stop_condition) :
         GA(population_size,
-           std::make_unique<algorithm::SingleObjective>(),
+           std::unique_ptr<algorithm::Algorithm>{},
            std::make_unique<CrossoverType>(std::move(crossover)),
            std::make_unique<MutationType>(std::move(mutation)),
            std::make_unique<StoppingType>(std::move(stop_condition)))
-- 
2.43.0


From 98bbbc326e890b768623ac5716c2f0fbad76b3e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 46/48] fix: the optimum of the string finder problem was empty

---
 src/problems/integer.cpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/src/problems/integer.cpp b/src/problems/integer.cpp
index 06a528d..0cbf965 100644
--- a/src/problems/integer.cpp
+++ b/src/problems/integer.cpp
@@ -12,6 +12,7 @@ namespace gapp::problems
         BenchmarkFunction("StringFinder", target.size(), 1, Bounds<GeneType>{ 32, 32 + 95 }),
         target_(std::move(target))
     {
+        optimum_ = Chromosome<GeneType>(target_.begin(), target_.end());
         optimal_value_ = { double(num_vars()) };
         ideal_point_ = optimal_value_;
         nadir_point_ = optimal_value_;
-- 
2.43.0


From e92c7fc6678879e9d24922fd8ec21b9e767b387e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:00 +0000
Subject: [PATCH 47/48] fix: the documentation of the Rosenbrock and Levy
 problems

---
 src/problems/single_objective.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/problems/single_objective.hpp b/src/problems/single_objective.hpp
index 5c50e57..cc56a2a 100644
--- a/src/problems/single_objective.hpp
+++ b/src/problems/single_objective.hpp
@@ -83,7 +83,7 @@ namespace gapp::problems
     * 
     * Evaluated on the hypercube \f$ x_i \in [-2.048, 2.048] \f$.
     * 
-    * The global optimum is \f$ f(\vec{x}) = 0 \f$ at \f$ \vec{x} = (0, 0, ... , 0) \f$.
+    * The global optimum is \f$ f(\vec{x}) = 0 \f$ at \f$ \vec{x} = (1, 1, ... , 1) \f$.
     *
     * This benchmark function can be used for both the real- and binary-encoded %GAs.
     * 
@@ -221,7 +221,7 @@ namespace gapp::problems
     * Implementation of the Lévy function for any number of variables,
     * modified for maximization.
     * 
-    * \f[ -f(\vec{x}) = \sin^2(\pi w_1) + (w_d - 1)^2( 1 + \sin^2(2\pi w_d) ) + \sum_{i=1}^d (w_i - 1)^2 (1 + 10\sin^2(\pi w_i + 1)) \f]
+    * \f[ -f(\vec{x}) = \sin^2(\pi w_1) + (w_d - 1)^2( 1 + \sin^2(2\pi w_d) ) + \sum_{i=1}^{d-1} (w_i - 1)^2 (1 + 10\sin^2(\pi w_i + 1)) \f]
     * \f[ \textrm{where  } w_i = 1 + \frac{x_i - 1}{4} \f]
     *
     * Evaluated on the hypercube \f$ x_i \in [-10.0, 10.0] \f$.
-- 
2.43.0


From c676aa03b90608e8965590a38b7e228a89ebc299 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:34:27 +0000
Subject: [PATCH 48/48] fix: releasing or nesting a read lock of an RCU object
 ended the protection of the other objects the thread was reading

---
 src/utility/rcu.hpp | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/utility/rcu.hpp b/src/utility/rcu.hpp
index 9e6b4f7..44b0da9 100644
--- a/src/utility/rcu.hpp
+++ b/src/utility/rcu.hpp
@@ -21,12 +21,16 @@ namespace gapp::detail
     public:
         static void read_lock() noexcept
         {
+            if (reader.nesting++) return; // the epoch of the outermost read lock protects everything until that lock is released
+
             reader.epoch.store(writer_epoch.load(std::memory_order_relaxed), std::memory_order_release);
             std::atomic_thread_fence(std::memory_order_seq_cst); // the protected data must not be read before the epoch is visible to the writers
         }
 
         static void read_unlock() noexcept
         {
+            if (--reader.nesting) return;
+
             reader.epoch.store(NOT_READING, std::memory_order_release);
         }
 
@@ -61,6 +65,7 @@ namespace gapp::detail
             }
 
             std::atomic<uint64_t> epoch = NOT_READING;
+            size_t nesting = 0;
         };
 
         struct tls_reader_list
-- 
2.43.0

