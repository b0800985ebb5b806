From 604f7bd98d762ffda211a3486efa7dc60f77473f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:52 +0000
Subject: [PATCH 01/41] fix: compare every byte of boolean variable-length
 arrays

Equality stopped one byte short of the last full byte, so arrays that
differ only in that byte compared equal.
---
 include/cetl/variable_length_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 5f8f917..877fb53 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -1939,7 +1939,7 @@ public:
         {
             return false;
         }
-        if (size_ > 1 && !std::equal(data_, data_ + size_ - 2, rhs.data_, rhs.data_ + rhs.size_ - 2))
+        if (size_ > 1 && !std::equal(data_, data_ + size_ - 1, rhs.data_, rhs.data_ + rhs.size_ - 1))
         {
             return false;
         }
-- 
2.43.0


From 2befbcb9f27db5dca1654ab79939aad372bc8bdf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:23:52 +0000
Subject: [PATCH 02/41] fix: let exceptions from element copy assignment leave
 the array

noexcept(noexcept(trait::value)) is always true, so an element whose copy
assignment throws terminated the program in copy assignment and assign.
---
 include/cetl/variable_length_array.hpp | 5 ++---
 1 file changed, 2 insertions(+), 3 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 877fb53..ba559ec 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -261,7 +261,7 @@ protected:
     ///
     template <typename InputIt>
     static constexpr size_type fast_copy_assign(value_type* dst, size_type dst_capacity_count, InputIt src) noexcept(
-        noexcept(std::is_nothrow_assignable<value_type, std::remove_pointer_t<InputIt>>::value))
+        std::is_nothrow_copy_assignable<value_type>::value)
     {
         if (nullptr == dst)
         {
@@ -280,8 +280,7 @@ protected:
         value_type* dst,
         size_type   dst_capacity_count,
         InputIt     src,
-        size_type   src_len_count) noexcept(noexcept(std::is_nothrow_assignable<value_type,
-                                                                              std::remove_pointer_t<InputIt>>::value))
+        size_type   src_len_count) noexcept(std::is_nothrow_copy_assignable<value_type>::value)
     {
         if (nullptr == dst || nullptr == src)
         {
-- 
2.43.0


From 428d451f59c79b029e38b5838ffc7ac408b5f92f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:24:26 +0000
Subject: [PATCH 03/41] fix: copy construct arrays with the given allocator as
 is

select_on_container_copy_construction was applied to an explicitly given
allocator. It only applies to the allocator of the array being copied.
---
 include/cetl/variable_length_array.hpp | 10 +++++++---
 1 file changed, 7 insertions(+), 3 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index ba559ec..f8b786a 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -764,7 +764,7 @@ protected:
 
     constexpr VariableLengthArrayBase(const VariableLengthArrayBase& rhs, const allocator_type& rhs_alloc) noexcept(
         std::is_nothrow_copy_constructible<allocator_type>::value)
-        : alloc_(std::allocator_traits<allocator_type>::select_on_container_copy_construction(rhs_alloc))
+        : alloc_(rhs_alloc)
         , data_(nullptr)
         , capacity_(0)
         , size_(0)
@@ -1021,7 +1021,9 @@ public:
     }
 
     VariableLengthArray(const VariableLengthArray& rhs)
-        : VariableLengthArray(rhs, rhs.alloc_)
+        : VariableLengthArray(
+              rhs,
+              std::allocator_traits<allocator_type>::select_on_container_copy_construction(rhs.alloc_))
     {
     }
 
@@ -1881,7 +1883,9 @@ public:
     }
 
     VariableLengthArray(const VariableLengthArray& rhs)
-        : VariableLengthArray(rhs, rhs.alloc_)
+        : VariableLengthArray(
+              rhs,
+              std::allocator_traits<allocator_type>::select_on_container_copy_construction(rhs.alloc_))
     {
     }
 
-- 
2.43.0


From ec5dcece3a3318d00a0686b24837fe0d32b2051e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:25:34 +0000
Subject: [PATCH 04/41] fix: move elements between unequal allocators when move
 constructing arrays

Move construction with an explicit allocator that differs from the one of
the source recorded the source's capacity for a block of only size
elements, never destroyed the source's elements, and leaked its block.
With a propagating allocator it adopted a block of a foreign allocator.
---
 include/cetl/variable_length_array.hpp | 102 ++++++++++---------------
 1 file changed, 41 insertions(+), 61 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index f8b786a..851a9f1 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -592,6 +592,34 @@ protected:
         }
     }
 
+    // +----------------------------------------------------------------------+
+    // | MOVE CONSTRUCT IMPLEMENTATION
+    // +----------------------------------------------------------------------+
+    /// Takes the elements of another array into this, still empty, array without adopting its allocator.
+    constexpr void move_construct_from(VariableLengthArrayBase&& rhs, const size_type max_size)
+    {
+        if (alloc_ == rhs.alloc_)
+        {
+            data_         = rhs.data_;
+            capacity_     = rhs.capacity_;
+            size_         = rhs.size_;
+            rhs.size_     = 0;
+            rhs.capacity_ = 0;
+            rhs.data_     = nullptr;
+        }
+        else if (rhs.size_ > 0)
+        {
+            // The allocators are not equal, so we need to move the data over manually.
+            reserve(rhs.size_, max_size);
+            if (capacity_ >= rhs.size_)
+            {
+                size_ = fast_forward_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
+                fast_destroy(rhs.data_, rhs.size_);
+                rhs.size_ = 0;
+            }
+        }
+    }
+
     // +----------------------------------------------------------------------+
     // | Common Implementation
     // +----------------------------------------------------------------------+
@@ -786,61 +814,6 @@ protected:
         rhs.data_     = nullptr;
     }
 
-    template <typename UAlloc>
-    constexpr VariableLengthArrayBase(
-        VariableLengthArrayBase&& rhs,
-        const UAlloc&             rhs_alloc,
-        typename std::enable_if_t<is_pocma_or_is_always_equal<UAlloc>::value>* = nullptr) noexcept
-        : alloc_(std::allocator_traits<UAlloc>::select_on_container_copy_construction(rhs_alloc))
-        , data_(std::move(rhs.data_))
-        , capacity_(rhs.capacity_)
-        , size_(rhs.size_)
-        , max_size_max_(rhs.max_size_max_)
-    {
-        static_assert(std::is_nothrow_copy_constructible<UAlloc>::value,
-                      "Allocator must be nothrow copy constructible.");
-        rhs.size_     = 0;
-        rhs.capacity_ = 0;
-        rhs.data_     = nullptr;
-    }
-
-    template <typename UAlloc>
-    constexpr VariableLengthArrayBase(
-        VariableLengthArrayBase&& rhs,
-        const UAlloc&             rhs_alloc,
-        typename std::enable_if_t<!is_pocma_or_is_always_equal<UAlloc>::value>* = nullptr) noexcept
-        : alloc_(std::allocator_traits<UAlloc>::select_on_container_copy_construction(rhs_alloc))
-        , data_{nullptr}
-        , capacity_(0)
-        , size_(0)
-        , max_size_max_(rhs.max_size_max_)
-    {
-        static_assert(std::is_nothrow_copy_constructible<UAlloc>::value,
-                      "Allocator must be nothrow copy constructible.");
-        if (alloc_ == rhs.alloc_)
-        {
-            // The allocators may not always be equal, but they are this time.
-            data_     = std::move(rhs.data_);
-            capacity_ = rhs.capacity_;
-            size_     = rhs.size_;
-        }
-        else
-        {
-            // The allocators are not equal, so we need to move the data over
-            // manually.
-            if (rhs.size_ > 0)
-            {
-                data_ = std::allocator_traits<allocator_type>::allocate(alloc_, rhs.size_);
-                fast_forward_construct(data_, rhs.size_, rhs.data_, rhs.size_, alloc_);
-            }
-            capacity_ = rhs.capacity_;
-            size_     = rhs.size_;
-        }
-        rhs.size_     = 0;
-        rhs.capacity_ = 0;
-        rhs.data_     = nullptr;
-    }
-
     ~VariableLengthArrayBase() = default;
 
     // +----------------------------------------------------------------------+
@@ -1033,9 +1006,11 @@ public:
         return *this;
     }
 
-    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept
-        : Base(std::move(rhs), alloc)
+    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept(
+        std::allocator_traits<allocator_type>::is_always_equal::value)
+        : VariableLengthArray(rhs.max_size_max_, alloc)
     {
+        Base::move_construct_from(std::move(rhs), max_size());
     }
 
     VariableLengthArray(VariableLengthArray&& rhs) noexcept
@@ -1903,11 +1878,16 @@ public:
         rhs.last_byte_bit_fill_ = 0;
     }
 
-    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept
-        : Base(std::move(rhs), alloc)
-        , last_byte_bit_fill_{rhs.last_byte_bit_fill_}
+    VariableLengthArray(VariableLengthArray&& rhs, const allocator_type& alloc) noexcept(
+        std::allocator_traits<allocator_type>::is_always_equal::value)
+        : VariableLengthArray(rhs.max_size_max_, alloc)
     {
-        rhs.last_byte_bit_fill_ = 0;
+        Base::move_construct_from(std::move(rhs), bits2bytes(max_size()));
+        if (size_ > 0)
+        {
+            last_byte_bit_fill_     = rhs.last_byte_bit_fill_;
+            rhs.last_byte_bit_fill_ = 0;
+        }
     }
 
     VariableLengthArray& operator=(VariableLengthArray&& rhs) noexcept(
-- 
2.43.0


From da40ad15395ff9918b6dd311f456f781ddf429ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:13 +0000
Subject: [PATCH 05/41] fix: keep the capacity of an assigned array within its
 new maximum size

Assignment adopts the maximum size of the source but kept a larger block,
so the capacity, and then the size, could exceed max_size(). Move
assignment between unequal allocators did not adopt the maximum at all.
---
 include/cetl/variable_length_array.hpp | 12 +++++++-----
 1 file changed, 7 insertions(+), 5 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 851a9f1..533c9b8 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -424,9 +424,10 @@ protected:
         max_size_max_ = rhs.max_size_max_;
         if ((std::allocator_traits<allocator_type>::is_always_equal::value || alloc_ == rhs.alloc_ ||
              !std::allocator_traits<allocator_type>::propagate_on_container_copy_assignment::value) &&
-            rhs.size_ <= capacity_)
+            rhs.size_ <= capacity_ && capacity_ <= rhs_max_size)
         {
-            // First off, we're here because the incoming data will fit within our existing capacity.
+            // First off, we're here because the incoming data will fit within our existing capacity and because this
+            // capacity does not exceed the maximum size we are adopting.
 
             // Next we are here because either the allocators are equal or we are not going to adopt the incoming
             // allocator.
@@ -539,7 +540,8 @@ protected:
         }
         else
         {
-            if (rhs.size_ <= capacity_)
+            max_size_max_ = rhs.max_size_max_;
+            if (rhs.size_ <= capacity_ && capacity_ <= rhs_max_size)
             {
                 // We're here because the incoming data will fit within our existing capacity and because we can't
                 // just move the memory from the rhs allocator since that allocator is neither equal to our own nor are
@@ -1866,7 +1868,7 @@ public:
 
     VariableLengthArray& operator=(const VariableLengthArray& rhs)
     {
-        Base::copy_assign_from(rhs, rhs.max_size());
+        Base::copy_assign_from(rhs, bits2bytes(rhs.max_size()));
         last_byte_bit_fill_ = rhs.last_byte_bit_fill_;
         return *this;
     }
@@ -1895,7 +1897,7 @@ public:
         std::allocator_traits<allocator_type>::is_always_equal::value)
     {
         last_byte_bit_fill_ = rhs.last_byte_bit_fill_;
-        Base::template move_assign_from<allocator_type>(std::move(rhs), rhs.max_size());
+        Base::template move_assign_from<allocator_type>(std::move(rhs), bits2bytes(rhs.max_size()));
         return *this;
     }
 
-- 
2.43.0


From 2d6f5a5da695dcc7dec25e0915f54cdca8f8e708 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:26:56 +0000
Subject: [PATCH 06/41] fix: count the maximum size of boolean arrays in bits
 when they grow

Growth compared the maximum in bits with the capacity in bytes. An array
could get past max_size(), and report a capacity above it.
---
 include/cetl/variable_length_array.hpp | 12 ++++++++----
 1 file changed, 8 insertions(+), 4 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 533c9b8..dead5c3 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -2144,7 +2144,7 @@ public:
     ///
     constexpr size_type capacity() const noexcept
     {
-        return capacity_bits();
+        return std::min(capacity_bits(), max_size());
     }
 
     ///
@@ -2363,15 +2363,19 @@ public:
 private:
     constexpr bool ensure_size_plus_one()
     {
+        if (size_bits() >= max_size())
+        {
+            return false;
+        }
+
         if (capacity_ > 0 && (last_byte_bit_fill_ < 7 || size_ < capacity_))
         {
             // we have at least one byte of capacity (first allocation)
             // and we have room in the last byte or we have room for another byte
-            // but we haven't reached the max
-            return size_bits() < max_size();
+            return true;
         }
 
-        return Base::grow(max_size());
+        return Base::grow(bits2bytes(max_size()));
     }
 
     constexpr bool emplace_back_impl(bool value)
-- 
2.43.0


From 41e6bd138e86a9e7a62d18091316101241d93b8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:17 +0000
Subject: [PATCH 07/41] fix: keep the bit count of boolean arrays in step with
 their storage

The source of a move assignment, and the target of a copy that got no
memory, kept the bit count of a last byte that is gone.
---
 include/cetl/variable_length_array.hpp | 25 ++++++++++++++++++++-----
 1 file changed, 20 insertions(+), 5 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index dead5c3..b926d91 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -1853,10 +1853,11 @@ public:
     // +----------------------------------------------------------------------+
     VariableLengthArray(const VariableLengthArray& rhs, const allocator_type& alloc)
         : Base(rhs, alloc)
-        , last_byte_bit_fill_{rhs.last_byte_bit_fill_}
+        , last_byte_bit_fill_{0}
     {
         reserve_bits(rhs.size(), rhs.max_size());
         size_ = Base::fast_copy_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
+        update_last_byte_bit_fill(rhs.last_byte_bit_fill_);
     }
 
     VariableLengthArray(const VariableLengthArray& rhs)
@@ -1868,8 +1869,12 @@ public:
 
     VariableLengthArray& operator=(const VariableLengthArray& rhs)
     {
-        Base::copy_assign_from(rhs, bits2bytes(rhs.max_size()));
-        last_byte_bit_fill_ = rhs.last_byte_bit_fill_;
+        if (this != &rhs)
+        {
+            last_byte_bit_fill_ = 0;  // in case there is no memory, which leaves this array empty.
+            Base::copy_assign_from(rhs, bits2bytes(rhs.max_size()));
+            update_last_byte_bit_fill(rhs.last_byte_bit_fill_);
+        }
         return *this;
     }
 
@@ -1896,8 +1901,13 @@ public:
         std::allocator_traits<allocator_type>::propagate_on_container_move_assignment::value ||
         std::allocator_traits<allocator_type>::is_always_equal::value)
     {
-        last_byte_bit_fill_ = rhs.last_byte_bit_fill_;
-        Base::template move_assign_from<allocator_type>(std::move(rhs), bits2bytes(rhs.max_size()));
+        if (this != &rhs)
+        {
+            last_byte_bit_fill_ = 0;  // in case there is no memory, which leaves this array empty.
+            Base::template move_assign_from<allocator_type>(std::move(rhs), bits2bytes(rhs.max_size()));
+            update_last_byte_bit_fill(rhs.last_byte_bit_fill_);
+            rhs.update_last_byte_bit_fill(rhs.last_byte_bit_fill_);
+        }
         return *this;
     }
 
@@ -2416,6 +2426,11 @@ private:
         Base::reserve(bits2bytes(clamped_capacity), bits2bytes(max_size));
     }
 
+    constexpr void update_last_byte_bit_fill(const Storage bit_fill) noexcept
+    {
+        last_byte_bit_fill_ = (size_ == 0) ? Storage{0} : bit_fill;
+    }
+
     constexpr static size_type round8(const size_type value) noexcept
     {
         return (value + 7U) & ~static_cast<size_type>(7U);  // Careful, make sure the mask is long enough
-- 
2.43.0


From b18c0d58bf585c9a34de59d01d9e6d8dcccc3396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:27:38 +0000
Subject: [PATCH 08/41] fix: do not write past the storage of a boolean array
 that cannot grow

Without exceptions resize() went on after a failed allocation. assign()
also passed a null pointer to memset for arrays without storage.
---
 include/cetl/variable_length_array.hpp | 12 +++++++++---
 1 file changed, 9 insertions(+), 3 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index b926d91..19e2663 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -2314,11 +2314,13 @@ public:
         const std::size_t current_count = size_bits();
         if (clamped_count != current_count)
         {
-            const std::size_t byte_sized = bits2bytes(clamped_count);
-            if (byte_sized > capacity_)
+            if (bits2bytes(clamped_count) > capacity_)
             {
                 reserve_bits(clamped_count, max_size());
+                // without exceptions an allocation failure leaves us with what we have.
+                clamped_count = std::min(clamped_count, capacity_bits());
             }
+            const std::size_t byte_sized = bits2bytes(clamped_count);
             if (byte_sized == 0)
             {
                 size_               = 0;
@@ -2367,7 +2369,11 @@ public:
     {
         const size_type size_before = size_;
         resize(count, value);
-        (void) memset(data_, (value) ? 0xFF : 0, (size_ > size_before) ? size_before : size_);
+        const size_type back_fill_count = (size_ > size_before) ? size_before : size_;
+        if (back_fill_count > 0)
+        {
+            (void) memset(data_, (value) ? 0xFF : 0, back_fill_count);
+        }
     }
 
 private:
-- 
2.43.0


From 44e68080cc6f24c16558e9c9a8d49b118ce50a46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:28:43 +0000
Subject: [PATCH 09/41] fix: release elements and memory when an element
 constructor throws

A throwing element left behind the elements constructed before it, and
the block they were in, in array constructors, reserve, resize, growth and
shrink_to_fit.
---
 include/cetl/variable_length_array.hpp | 53 +++++++++++++++++++++++---
 1 file changed, 47 insertions(+), 6 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 19e2663..0281a16 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -252,6 +252,37 @@ protected:
         alloc.deallocate(src, src_capacity_count);
     }
 
+    // +----------------------------------------------------------------------+
+    // | exception support
+    // +----------------------------------------------------------------------+
+    /// Destroys the elements constructed so far unless told that all of them were constructed.
+    struct construction_guard
+    {
+        ~construction_guard()
+        {
+            fast_destroy(dst, count);
+        }
+
+        value_type* dst;
+        size_type   count;
+    };
+
+    /// Deallocates a block unless told that it was adopted.
+    struct allocation_guard
+    {
+        ~allocation_guard()
+        {
+            if (nullptr != data)
+            {
+                alloc.deallocate(data, capacity);
+            }
+        }
+
+        allocator_type& alloc;
+        value_type*     data;
+        size_type       capacity;
+    };
+
     // +----------------------------------------------------------------------+
     // | COPY ASSIGNMENT
     // +----------------------------------------------------------------------+
@@ -334,12 +365,15 @@ protected:
                                                          decltype(std::declval<const InputIt>()[0])>>())))
     {
         const size_type max_copy_size = std::min(dst_capacity_count, src_len_count);
+        construction_guard guard{dst, 0};
         for (size_type i = 0; i < max_copy_size; ++i)
         {
             std::allocator_traits<allocator_type>::construct(alloc,
                                                              &dst[static_cast<difference_type>(i)],
                                                              src[static_cast<difference_type>(i)]);
+            ++guard.count;
         }
+        guard.count = 0;
         return max_copy_size;
     }
 
@@ -372,10 +406,13 @@ protected:
             !is_array_of_type_trivially_copyable<std::add_pointer_t<value_type>, InputIt>::value>* = nullptr)
     {
         const size_type max_copy_size = std::min(dst_capacity_count, src_len_count);
+        construction_guard guard{dst, 0};
         for (size_type i = 0; i < max_copy_size; ++i)
         {
             std::allocator_traits<allocator_type>::construct(alloc, &dst[i], std::move_if_noexcept(src[i]));
+            ++guard.count;
         }
+        guard.count = 0;
         return max_copy_size;
     }
 
@@ -666,7 +703,9 @@ protected:
             new_data = std::allocator_traits<allocator_type>::allocate(alloc_, no_shrink_capacity);
             if (nullptr != new_data)
             {
+                allocation_guard guard{alloc_, new_data, no_shrink_capacity};
                 fast_forward_construct(new_data, no_shrink_capacity, data_, size_, alloc_);
+                guard.data = nullptr;
                 fast_deallocate(data_, size_, capacity_, alloc_);
                 data_     = new_data;
                 capacity_ = no_shrink_capacity;
@@ -695,17 +734,17 @@ protected:
                 }
 #endif
             }
-            for (std::size_t i = size_; i < new_size; ++i)
+            for (; size_ < new_size; ++size_)
             {
-                std::allocator_traits<allocator_type>::construct(alloc_, &data_[i], std::forward<Args>(args)...);
+                std::allocator_traits<allocator_type>::construct(alloc_, &data_[size_], std::forward<Args>(args)...);
             }
         }
         else
         {
             // shrink
             fast_destroy(&data_[new_size], size_ - new_size);
+            size_ = new_size;
         }
-        size_ = new_size;
     }
 
     ///
@@ -749,7 +788,9 @@ protected:
         {
             if (minimized_data != data_)
             {
+                allocation_guard guard{alloc_, minimized_data, size_};
                 fast_forward_construct(minimized_data, size_, data_, size_, alloc_);
+                guard.data = nullptr;
                 fast_deallocate(data_, size_, capacity_, alloc_);
             }  // else the allocator was able to simply shrink the reserved area for the same memory pointer.
             data_     = minimized_data;
@@ -937,7 +978,7 @@ public:
     ///                     `std::min(max_size_max, std::allocator_traits<allocator_type>::max_size(alloc))`
     /// @param alloc Allocator to use for all allocations.
     VariableLengthArray(std::initializer_list<value_type> l, size_type max_size_max, const allocator_type& alloc)
-        : Base(alloc, nullptr, 0, 0, max_size_max)
+        : VariableLengthArray(max_size_max, alloc)
     {
         reserve(l.size());
         size_ = Base::fast_copy_construct(data_, capacity_, l.begin(), l.size(), alloc_);
@@ -961,7 +1002,7 @@ public:
     /// @param alloc    Allocator to use for all allocations.
     template <class InputIt>
     VariableLengthArray(InputIt first, InputIt last, size_type max_size_max, const allocator_type& alloc)
-        : Base(alloc, nullptr, 0, 0, max_size_max)
+        : VariableLengthArray(max_size_max, alloc)
     {
         if (last >= first)
         {
@@ -989,7 +1030,7 @@ public:
     // | RULE OF FIVE
     // +----------------------------------------------------------------------+
     VariableLengthArray(const VariableLengthArray& rhs, const allocator_type& alloc)
-        : Base(rhs, alloc)
+        : VariableLengthArray(rhs.max_size_max_, alloc)
     {
         Base::reserve(rhs.size(), rhs.max_size());
         size_ = Base::fast_copy_construct(data_, capacity_, rhs.data_, rhs.size_, alloc_);
-- 
2.43.0


From 7c64db7d89131db80bf57f053aa66e62808f088f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:29:44 +0000
Subject: [PATCH 10/41] fix: accept own elements as arguments of array
 modifiers

push_back, emplace_back, resize and assign with a reference to an element
of the same array read the element after growing had moved it away.
---
 include/cetl/variable_length_array.hpp | 44 ++++++++++++++++++++++++--
 1 file changed, 42 insertions(+), 2 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 0281a16..3f9a8bf 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -13,6 +13,7 @@
 
 #include <algorithm>
 #include <cstring>
+#include <functional>
 #include <initializer_list>
 #include <limits>
 #include <memory>
@@ -1423,12 +1424,14 @@ public:
     ///
     constexpr void push_back(const value_type& value)
     {
+        // growing moves the elements, one of which may be the value.
+        const size_type own_index = is_own(value) ? static_cast<size_type>(std::addressof(value) - data_) : size_;
         if (!ensure_size_plus_one())
         {
             return;
         }
 
-        push_back_impl(value);
+        push_back_impl((own_index < size_) ? data_[own_index] : value);
     }
 
     ///
@@ -1442,12 +1445,14 @@ public:
     ///
     constexpr void push_back(value_type&& value)
     {
+        // growing moves the elements, one of which may be the value.
+        const size_type own_index = is_own(value) ? static_cast<size_type>(std::addressof(value) - data_) : size_;
         if (!ensure_size_plus_one())
         {
             return;
         }
 
-        push_back_impl(std::forward<value_type>(value));
+        push_back_impl(std::move((own_index < size_) ? data_[own_index] : value));
     }
 
     ///
@@ -1468,6 +1473,14 @@ public:
     template <class... Args>
     void emplace_back(Args&&... args)
     {
+        if (size_ == capacity_ && size_ < max_size() && is_own(args...))
+        {
+            // growing moves the elements, one of which is the argument.
+            value_type value(std::forward<Args>(args)...);
+            push_back(std::move(value));
+            return;
+        }
+
         if (!ensure_size_plus_one())
         {
             return;
@@ -1503,6 +1516,13 @@ public:
     /// @throw std::bad_alloc if the container cannot obtain enough memory to size up to `count`.
     constexpr void resize(size_type count, const value_type& value)
     {
+        if (count > capacity_ && is_own(value))
+        {
+            // growing moves the elements, one of which is the value.
+            const value_type copy(value);
+            Base::resize(count, max_size(), copy);
+            return;
+        }
         Base::resize(count, max_size(), value);
     }
 
@@ -1514,6 +1534,13 @@ public:
     /// @throw std::bad_alloc if the container cannot obtain enough memory to size up to `count`.
     constexpr void assign(size_type count, const value_type& value)
     {
+        if (is_own(value))
+        {
+            // the elements, one of which is the value, will be moved, overwritten or destroyed.
+            const value_type copy(value);
+            assign(count, copy);
+            return;
+        }
         const size_type size_before = size_;
         resize(count, value);
         const size_type back_fill_count = (size_ > size_before) ? size_before : size_;
@@ -1542,6 +1569,19 @@ private:
         return true;
     }
 
+    /// If a value given to a method is an element of this array.
+    constexpr bool is_own(const value_type& value) const noexcept
+    {
+        const std::less<const value_type*> is_before{};
+        return (size_ > 0) && !is_before(std::addressof(value), data_) &&
+               is_before(std::addressof(value), data_ + size_);
+    }
+    template <typename... Others>
+    constexpr bool is_own(const Others&...) const noexcept
+    {
+        return false;
+    }
+
     constexpr void push_back_impl(value_type&& value) noexcept(std::is_nothrow_move_constructible<value_type>::value)
     {
         CETL_DEBUG_ASSERT(size_ < capacity_, "CDE_vla_008: No capacity to push element.");
-- 
2.43.0


From a9bb886cfd76200cbd403dd7613b6aa50a674595 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:31:37 +0000
Subject: [PATCH 11/41] fix: do not give null pointers back to the allocator

Allocators only have to accept pointers they returned, and the one of
std::pmr declares the pointer as never null.
---
 include/cetl/variable_length_array.hpp | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 3f9a8bf..5ba9418 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -235,7 +235,10 @@ protected:
         typename std::enable_if_t<std::is_trivially_destructible<U>::value>* = nullptr)
     {
         fast_destroy(src, src_size_count);
-        alloc.deallocate(src, src_capacity_count);
+        if (nullptr != src)
+        {
+            alloc.deallocate(src, src_capacity_count);
+        }
     }
 
     ///
@@ -250,7 +253,10 @@ protected:
         typename std::enable_if_t<!std::is_trivially_destructible<U>::value>* = nullptr)
     {
         fast_destroy(src, src_size_count);
-        alloc.deallocate(src, src_capacity_count);
+        if (nullptr != src)
+        {
+            alloc.deallocate(src, src_capacity_count);
+        }
     }
 
     // +----------------------------------------------------------------------+
-- 
2.43.0


From 03806867a121669c6587ed99544f3118ad871976 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:41:38 +0000
Subject: [PATCH 12/41] fix: do not skip items when a boolean array cannot grow
 during construction

---
 include/cetl/variable_length_array.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 5ba9418..a260e75 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -1888,7 +1888,12 @@ public:
         reserve_bits(l.size(), max_size());
         for (auto list_item : l)
         {
+            const size_type size_before = size();
             emplace_back(list_item);
+            if (size() == size_before)
+            {
+                break;  // without exceptions: do not skip the items that could not be stored.
+            }
         }
     }
 
@@ -1919,7 +1924,12 @@ public:
             reserve_bits(length, max_size());
             for (; first != last; ++first)
             {
+                const size_type size_before = size();
                 emplace_back(*first);
+                if (size() == size_before)
+                {
+                    break;  // without exceptions: do not skip the items that could not be stored.
+                }
             }
         }
     }
-- 
2.43.0


From 1dd906dc5f854111e8d21fad59ab741fc8268d0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:49:16 +0000
Subject: [PATCH 13/41] fix: let exceptions from a reallocating memory resource
 reach the caller

---
 include/cetl/pf17/memory_resource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index e718ba2..2469c7c 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -276,7 +276,7 @@ private:
                     void*       ptr,
                     std::size_t old_size_bytes,
                     std::size_t new_size_bytes,
-                    std::size_t alignment) noexcept
+                    std::size_t alignment)
     {
         return mr.reallocate(ptr, old_size_bytes, new_size_bytes, alignment);
     }
-- 
2.43.0


From 4da503011a4c09add5016ec9c2d3ce1e4d441f90 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:50:11 +0000
Subject: [PATCH 14/41] fix: keep the buffer block in use when it cannot be
 reallocated

---
 .../cetl/pmr/buffer_memory_resource_delegate.hpp   | 14 ++++++++++----
 1 file changed, 10 insertions(+), 4 deletions(-)

diff --git a/include/cetl/pmr/buffer_memory_resource_delegate.hpp b/include/cetl/pmr/buffer_memory_resource_delegate.hpp
index 652f2db..bd8665e 100644
--- a/include/cetl/pmr/buffer_memory_resource_delegate.hpp
+++ b/include/cetl/pmr/buffer_memory_resource_delegate.hpp
@@ -110,8 +110,11 @@ private:
         void* result = nullptr;
         if (data == in_use_)
         {
-            result  = allocate_internal_buffer(new_object_count, new_align);
-            in_use_ = result;
+            result = allocate_internal_buffer(new_object_count, new_align);
+            if (nullptr != result)
+            {
+                in_use_ = result;
+            }
         }
         return result;
     }
@@ -128,8 +131,11 @@ private:
         void* result = nullptr;
         if (data == in_use_)
         {
-            result  = allocate_internal_buffer(new_object_count, new_align);
-            in_use_ = result;
+            result = allocate_internal_buffer(new_object_count, new_align);
+            if (nullptr != result)
+            {
+                in_use_ = result;
+            }
         }
         else
         {
-- 
2.43.0


From b3042b2d6579d998ca9e57aff73c2ef56c3fa2ec Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:51:18 +0000
Subject: [PATCH 15/41] fix: align the blocks of the monotonic resource for
 their header

---
 include/cetl/pf17/memory_resource.hpp | 7 +++++--
 1 file changed, 5 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index 2469c7c..1f25c20 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -693,7 +693,10 @@ protected:
             // Simple geometric progression of buffer size growth.
             const std::size_t next_buffer_size = std::min(max_size_v, grow_from_size + (grow_from_size / 2U));
 
-            void* raw = upstream_->allocate(sizeof(BufferControl) + next_buffer_size, alignment);
+            // The block starts with a BufferControl so it has to be suitably aligned for it as well.
+            const std::size_t block_alignment = std::max(alignment, alignof(BufferControl));
+
+            void* raw = upstream_->allocate(sizeof(BufferControl) + next_buffer_size, block_alignment);
             if (nullptr == raw)
             {
                 // out-of-memory with no exceptions.
@@ -701,7 +704,7 @@ protected:
             }
             void* buffer = &static_cast<BufferControl*>(raw)[1];
             current_buffer_ =
-                new (raw) BufferControl{buffer, next_buffer_size, alignment, next_buffer_size, current_buffer_};
+                new (raw) BufferControl{buffer, next_buffer_size, block_alignment, next_buffer_size, current_buffer_};
 
             result = do_allocate_from_current_buffer(size_bytes, alignment);
         }
-- 
2.43.0


From af41784e87c880570ee38698b6be1b777faee2b2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:16 +0000
Subject: [PATCH 16/41] fix: do not allocate without end in the monotonic
 resource

---
 include/cetl/pf17/memory_resource.hpp | 21 +++++++++++++++------
 1 file changed, 15 insertions(+), 6 deletions(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index 1f25c20..ef6bc6d 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -681,17 +681,26 @@ protected:
     {
         void* result = do_allocate_from_current_buffer(size_bytes, alignment);
 
-        const std::size_t max_size_v = max_size();
-
-        while (nullptr == result)
+        if (nullptr == result)
         {
+            const std::size_t block_overhead = sizeof(BufferControl) + alignment;
+            if (size_bytes > (std::numeric_limits<std::size_t>::max() / 2U) - block_overhead)
+            {
+                // cannot be served, and the calculations below would overflow.
+#if defined(__cpp_exceptions)
+                throw std::bad_alloc();
+#endif
+                return nullptr;
+            }
+
             // Grow the buffer starting with, at minimum 4 bytes, the current buffer size, or the requested size
             // plus alignment, whichever is larger.
             const std::size_t grow_from_size =
                 std::max({static_cast<std::size_t>(4), current_buffer_->buffer_size, size_bytes + alignment});
 
-            // Simple geometric progression of buffer size growth.
-            const std::size_t next_buffer_size = std::min(max_size_v, grow_from_size + (grow_from_size / 2U));
+            // Simple geometric progression of buffer size growth, but never less than what was asked for.
+            const std::size_t next_buffer_size =
+                std::max(size_bytes + alignment, std::min(max_size(), grow_from_size + (grow_from_size / 2U)));
 
             // The block starts with a BufferControl so it has to be suitably aligned for it as well.
             const std::size_t block_alignment = std::max(alignment, alignof(BufferControl));
@@ -700,7 +709,7 @@ protected:
             if (nullptr == raw)
             {
                 // out-of-memory with no exceptions.
-                break;
+                return nullptr;
             }
             void* buffer = &static_cast<BufferControl*>(raw)[1];
             current_buffer_ =
-- 
2.43.0


From 547d9711be2ea7b60f5ef030bc3a601169fe5946 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:52:19 +0000
Subject: [PATCH 17/41] fix: throw when the general-purpose resource runs out
 of memory

---
 include/cetl/pf17/sys/memory_resource.hpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pf17/sys/memory_resource.hpp b/include/cetl/pf17/sys/memory_resource.hpp
index 4193a0a..f0e0b75 100644
--- a/include/cetl/pf17/sys/memory_resource.hpp
+++ b/include/cetl/pf17/sys/memory_resource.hpp
@@ -44,7 +44,14 @@ protected:
 #endif
             return nullptr;
         }
-        return std::malloc(size_bytes);
+        void* result = std::malloc(size_bytes);
+#if defined(__cpp_exceptions)
+        if (nullptr == result && size_bytes > 0)
+        {
+            throw std::bad_alloc();
+        }
+#endif
+        return result;
     }
 
     void do_deallocate(void* p, std::size_t size_bytes, std::size_t alignment) override
-- 
2.43.0


From 2978ff31fd6db4651047041f8d554c39a6290308 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 01:53:05 +0000
Subject: [PATCH 18/41] fix: refuse to reallocate over-aligned memory which
 cannot be provided

---
 include/cetl/pf17/sys/memory_resource.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pf17/sys/memory_resource.hpp b/include/cetl/pf17/sys/memory_resource.hpp
index f0e0b75..c0c53cb 100644
--- a/include/cetl/pf17/sys/memory_resource.hpp
+++ b/include/cetl/pf17/sys/memory_resource.hpp
@@ -67,7 +67,10 @@ protected:
                         std::size_t alignment) override
     {
         (void) old_size_bytes;
-        (void) alignment;
+        if (alignment > alignof(std::max_align_t))
+        {
+            return nullptr;
+        }
         return std::realloc(ptr, new_size_bytes);
     }
 
-- 
2.43.0


From 005e498d546e4850f67ffb7b951982ee3644c8b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:01:11 +0000
Subject: [PATCH 19/41] fix: construct objects which take their allocator in
 either position

---
 include/cetl/pf17/memory_resource.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index ef6bc6d..9094d62 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -370,7 +370,9 @@ class polymorphic_allocator
     template <typename U, typename... Args>
     struct is_trailing_allocator_constructible
     {
+        // the leading-allocator convention takes precedence where a type supports both.
         static constexpr bool value = std::uses_allocator<U, polymorphic_allocator<T>>::value &&
+                                      !is_leading_allocator_constructible<U, Args...>::value &&
                                       std::is_constructible<U, Args..., const polymorphic_allocator<T>&>::value;
     };
 
-- 
2.43.0


From 7b008a59ab27d7a8f1049b2945bf7b4bd35b5f35 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:02:13 +0000
Subject: [PATCH 20/41] fix: do not construct pairs from arguments which no
 longer exist

---
 include/cetl/pf17/memory_resource.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index 9094d62..defc82c 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -407,7 +407,7 @@ class polymorphic_allocator
     make_pair_member_args(std::tuple<PTArgsT...>& pmArgs)
     {
         // https://cplusplus.github.io/LWG/issue2969
-        return std::tuple_cat(std::make_tuple(std::allocator_arg, *this), std::move(pmArgs));
+        return std::tuple_cat(std::make_tuple(std::allocator_arg, *this), std::tuple<PTArgsT&&...>(std::move(pmArgs)));
     }
 
     template <typename PairType, typename... PTArgsT>
@@ -416,7 +416,7 @@ class polymorphic_allocator
     make_pair_member_args(std::tuple<PTArgsT...>& pmArgs)
     {
         // https://cplusplus.github.io/LWG/issue2969
-        return std::tuple_cat(std::move(pmArgs), std::make_tuple(*this));
+        return std::tuple_cat(std::tuple<PTArgsT&&...>(std::move(pmArgs)), std::make_tuple(*this));
     }
 
     template <typename U, typename... UArgsT>
-- 
2.43.0


From f9a98595710ae42433a6dbc868b1fa0b058a5c05 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:03:14 +0000
Subject: [PATCH 21/41] fix: move from rvalue pairs when constructing pairs

---
 include/cetl/pf17/memory_resource.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pf17/memory_resource.hpp b/include/cetl/pf17/memory_resource.hpp
index defc82c..ce2fa92 100644
--- a/include/cetl/pf17/memory_resource.hpp
+++ b/include/cetl/pf17/memory_resource.hpp
@@ -571,7 +571,7 @@ public:
     }
 
     template <class FirstType, class SecondType, class MoveFromFirstType, class MoveFromSecondType>
-    void construct(std::pair<FirstType, FirstType>* p, std::pair<MoveFromFirstType, MoveFromSecondType>&& moveFrom)
+    void construct(std::pair<FirstType, SecondType>* p, std::pair<MoveFromFirstType, MoveFromSecondType>&& moveFrom)
     {
         construct(p,
                   std::piecewise_construct,
-- 
2.43.0


From 05c9a17ee333fe2e7c2a657f61f28f47aeadb60d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:22 +0000
Subject: [PATCH 22/41] fix: do not destroy an object whose constructor has
 thrown

---
 include/cetl/pmr/memory.hpp | 24 +++++++++++++++++++-----
 1 file changed, 19 insertions(+), 5 deletions(-)

diff --git a/include/cetl/pmr/memory.hpp b/include/cetl/pmr/memory.hpp
index be4e333..6dd2f57 100644
--- a/include/cetl/pmr/memory.hpp
+++ b/include/cetl/pmr/memory.hpp
@@ -235,13 +235,27 @@ public:
     static auto make_unique(PolymorphicAllocatorTypeU& alloc, Args&&... args) ->
         typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>
     {
-        typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>
-            p{alloc.allocate(1), typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>::deleter_type{alloc, 1}};
-        if (nullptr != p)
+        auto* const object = alloc.allocate(1);
+        if (nullptr != object)
         {
-            alloc.construct(p.get(), std::forward<Args>(args)...);
+            // Until the object is constructed its memory has to be given back without destroying it.
+#if defined(__cpp_exceptions)
+            try
+            {
+                alloc.construct(object, std::forward<Args>(args)...);
+            } catch (...)
+            {
+                alloc.deallocate(object, 1);
+                throw;
+            }
+#else
+            alloc.construct(object, std::forward<Args>(args)...);
+#endif
         }
-        return p;
+        return typename Factory::unique_ptr_t<
+            PolymorphicAllocatorTypeU>{object,
+                                       typename Factory::unique_ptr_t<PolymorphicAllocatorTypeU>::deleter_type{alloc,
+                                                                                                               1}};
     }
 };
 
-- 
2.43.0


From 6d9f81620679674b13fcae9927bb7ae3af302a64 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:07:22 +0000
Subject: [PATCH 23/41] fix: keep the resource of a deleter which is assigned
 to itself

---
 include/cetl/pmr/memory.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pmr/memory.hpp b/include/cetl/pmr/memory.hpp
index 6dd2f57..e45d779 100644
--- a/include/cetl/pmr/memory.hpp
+++ b/include/cetl/pmr/memory.hpp
@@ -69,7 +69,10 @@ public:
     /// @return Reference to this.
     MemoryResourceDeleter& operator=(MemoryResourceDeleter&& rhs) noexcept
     {
-        swap(std::move(rhs));
+        if (this != &rhs)
+        {
+            swap(std::move(rhs));
+        }
         return *this;
     }
 
-- 
2.43.0


From 5bb710681f11e9f2c808177f706933c7ee6404c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:05 +0000
Subject: [PATCH 24/41] fix: copy and move unbounded variants which have lost
 their value

---
 include/cetl/unbounded_variant.hpp | 20 ++++++++++++--------
 1 file changed, 12 insertions(+), 8 deletions(-)

diff --git a/include/cetl/unbounded_variant.hpp b/include/cetl/unbounded_variant.hpp
index f36dc41..7665d15 100644
--- a/include/cetl/unbounded_variant.hpp
+++ b/include/cetl/unbounded_variant.hpp
@@ -128,13 +128,13 @@ struct base_storage<void /*Pmr*/, Footprint, Alignment>
         return inplace_buffer_;
     }
 
-    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src) noexcept
+    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src, const bool src_has_value) noexcept
     {
         CETL_DEBUG_ASSERT(0UL == value_size_, "This object is expected to be a brand new (or reset) one.");
 
         value_size_ = src.value_size_;
 
-        return value_size_ > 0UL;
+        return src_has_value;
     }
 
     CETL_NODISCARD bool move_raw_storage_from(base_storage& src) noexcept
@@ -255,7 +255,7 @@ struct base_storage<Pmr, 0UL /*Footprint*/, Alignment>
         return allocated_buffer_;
     }
 
-    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src)
+    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src, const bool src_has_value)
     {
         CETL_DEBUG_ASSERT((0UL == value_size_) && (nullptr == allocated_buffer_),
                           "This object is expected to be a brand new (or reset) one.");
@@ -263,8 +263,10 @@ struct base_storage<Pmr, 0UL /*Footprint*/, Alignment>
         mem_res_ = src.get_memory_resource();
 
         // We don't allocate buffer for the valueless variant.
-        if (src.value_size_ == 0UL)
+        if (!src_has_value)
         {
+            value_size_ = src.value_size_;
+
             // Later we don't need to call copy-ctor for the valueless variant.
             return false;
         }
@@ -417,7 +419,7 @@ struct base_storage
         return allocated_buffer_;
     }
 
-    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src)
+    CETL_NODISCARD bool copy_raw_storage_from(const base_storage& src, const bool src_has_value)
     {
         CETL_DEBUG_ASSERT((0UL == value_size_) && (nullptr == allocated_buffer_),
                           "This object is expected to be a brand new (or reset) one.");
@@ -425,8 +427,10 @@ struct base_storage
         mem_res_ = src.get_memory_resource();
 
         // We don't even try to allocate buffer for the valueless variant.
-        if (src.value_size_ == 0UL)
+        if (!src_has_value)
         {
+            value_size_ = src.value_size_;
+
             // Later we don't need to call copy-ctor for the valueless variant.
             return false;
         }
@@ -903,7 +907,7 @@ private:
     {
         CETL_DEBUG_ASSERT(!base::has_value(), "Expected to be empty before copying from source.");
 
-        if (base::copy_raw_storage_from(src))
+        if (base::copy_raw_storage_from(src, src.has_value()))
         {
             CETL_DEBUG_ASSERT(nullptr != src.value_copier_, "");
 
@@ -991,7 +995,7 @@ private:
     {
         CETL_DEBUG_ASSERT(!base::has_value(), "Expected to be empty before moving from source.");
 
-        if (base::move_raw_storage_from(src))
+        if (base::move_raw_storage_from(src) && src.has_value())
         {
             CETL_DEBUG_ASSERT(nullptr != src.value_mover_, "");
 
-- 
2.43.0


From 41739123a2371a25f04edf4d7568804389350bc8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:23:05 +0000
Subject: [PATCH 25/41] fix: swap unbounded variants which have lost their
 value

---
 include/cetl/unbounded_variant.hpp | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/include/cetl/unbounded_variant.hpp b/include/cetl/unbounded_variant.hpp
index 7665d15..25ac0cd 100644
--- a/include/cetl/unbounded_variant.hpp
+++ b/include/cetl/unbounded_variant.hpp
@@ -1348,6 +1348,16 @@ public:
             return;
         }
 
+        // Release leftovers (if any) of the "valueless by exception" state - there is no value to swap.
+        if (valueless_by_exception())
+        {
+            reset();
+        }
+        if (rhs.valueless_by_exception())
+        {
+            rhs.reset();
+        }
+
         swapVariants(detail::IsPmr<Pmr>{}, IsMovableT{}, rhs);
     }
 
-- 
2.43.0


From 6f7107b089c0d6cf7198ddeee0c8b9d55f52b773 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:27:12 +0000
Subject: [PATCH 26/41] fix: release the memory of an unbounded variant whose
 construction has failed

---
 include/cetl/unbounded_variant.hpp | 18 ++++++++++++++++++
 1 file changed, 18 insertions(+)

diff --git a/include/cetl/unbounded_variant.hpp b/include/cetl/unbounded_variant.hpp
index 25ac0cd..fcaa709 100644
--- a/include/cetl/unbounded_variant.hpp
+++ b/include/cetl/unbounded_variant.hpp
@@ -201,6 +201,15 @@ struct base_storage<Pmr, 0UL /*Footprint*/, Alignment>
         CETL_DEBUG_ASSERT(nullptr != mem_res_, "");
     }
 
+    base_storage(const base_storage&)            = delete;
+    base_storage& operator=(const base_storage&) = delete;
+
+    // Releases the buffer of a variant whose construction has failed.
+    ~base_storage()
+    {
+        reset();
+    }
+
     template <typename Tp>
     void check_footprint() const noexcept
     {
@@ -360,6 +369,15 @@ struct base_storage
         CETL_DEBUG_ASSERT(nullptr != mem_res_, "");
     }
 
+    base_storage(const base_storage&)            = delete;
+    base_storage& operator=(const base_storage&) = delete;
+
+    // Releases the buffer of a variant whose construction has failed.
+    ~base_storage()
+    {
+        reset();
+    }
+
     template <typename Tp>
     void check_footprint() const noexcept
     {
-- 
2.43.0


From a549b776cd300177e932883fe38dceea3999bbcf Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:41:03 +0000
Subject: [PATCH 27/41] fix: do not keep the old target of a function after a
 failed assignment

---
 include/cetl/pmr/function.hpp | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/include/cetl/pmr/function.hpp b/include/cetl/pmr/function.hpp
index 2b99bc3..c617a7b 100644
--- a/include/cetl/pmr/function.hpp
+++ b/include/cetl/pmr/function.hpp
@@ -201,7 +201,11 @@ public:
               typename              = EnableIfLvIsCallable<FunctorDecay>>
     function& operator=(Functor&& functor)
     {
-        any_handler_ = detail::functor_handler<FunctorDecay, Result, Args...>{std::forward<Functor>(functor)};
+        detail::functor_handler<FunctorDecay, Result, Args...> handler{std::forward<Functor>(functor)};
+
+        // The current target is gone even if the assignment below throws.
+        handler_ptr_ = nullptr;
+        any_handler_ = std::move(handler);
         handler_ptr_ = get_if<handler_t>(&any_handler_);
         return *this;
     }
@@ -214,6 +218,8 @@ public:
     {
         if (this != &other)
         {
+            // The current target is gone even if the assignment below throws.
+            handler_ptr_ = nullptr;
             any_handler_ = other.any_handler_;
             handler_ptr_ = get_if<handler_t>(&any_handler_);
         }
-- 
2.43.0


From e0407e78e9eb9aba4bb73322e2fb63af826ea310 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:49:29 +0000
Subject: [PATCH 28/41] fix: let an lvalue convert implicitly to an optional of
 its type

---
 include/cetl/pf17/optional.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/cetl/pf17/optional.hpp b/include/cetl/pf17/optional.hpp
index 19b2e94..ed9ae94 100644
--- a/include/cetl/pf17/optional.hpp
+++ b/include/cetl/pf17/optional.hpp
@@ -317,17 +317,19 @@ struct is_optional<optional<T>> : std::true_type
 
 /// https://en.cppreference.com/w/cpp/utility/optional/optional
 /// CAVEAT: in C++14, std::is_convertible<F, T> is not true if T is not copyable, even if F is convertible to T,
-/// so we use std::is_convertible<F, T&&> instead.
+/// so we also use std::is_convertible<F, T&&>, which in turn is not true if F is an lvalue of T.
 /// The specification of std::optional<> prescribes the use of T over T&& because it is written for C++17.
+template <typename F, typename T>
+constexpr bool implicit = std::is_convertible<F, T>::value || std::is_convertible<F, T&&>::value;
 template <typename T, typename U, bool Explicit>
-constexpr bool enable_ctor4 = (!std::is_same<bool, std::decay_t<T>>::value) &&            //
-                              std::is_constructible<T, const U&>::value &&                //
-                              (std::is_convertible<const U&, T&&>::value != Explicit) &&  //
+constexpr bool enable_ctor4 = (!std::is_same<bool, std::decay_t<T>>::value) &&  //
+                              std::is_constructible<T, const U&>::value &&      //
+                              (implicit<const U&, T> != Explicit) &&            //
                               !convertible<T, optional<U>>;
 template <typename T, typename U, bool Explicit>
-constexpr bool enable_ctor5 = (!std::is_same<bool, std::decay_t<T>>::value) &&       //
-                              std::is_constructible<T, U&&>::value &&                //
-                              (std::is_convertible<U&&, T&&>::value != Explicit) &&  //
+constexpr bool enable_ctor5 = (!std::is_same<bool, std::decay_t<T>>::value) &&  //
+                              std::is_constructible<T, U&&>::value &&           //
+                              (implicit<U&&, T> != Explicit) &&                 //
                               !convertible<T, optional<U>>;
 template <typename T, typename U, bool Explicit>
 constexpr bool enable_ctor8 =
@@ -335,7 +337,7 @@ constexpr bool enable_ctor8 =
     (!std::is_same<std::decay_t<U>, in_place_t>::value) &&                                     //
     (!std::is_same<std::decay_t<U>, optional<T>>::value) &&                                    //
     (!(std::is_same<std::decay_t<T>, bool>::value && is_optional<std::decay_t<U>>::value)) &&  //
-    (std::is_convertible<U&&, T&&>::value != Explicit);
+    (implicit<U&&, T> != Explicit);
 
 template <typename Expression>
 using enable_comparison = std::enable_if_t<std::is_convertible<Expression, bool>::value, bool>;
-- 
2.43.0


From 0a2d3e68e4289b950e6d42d9a508afd2eabeb52d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:52:25 +0000
Subject: [PATCH 29/41] fix: let exceptions of the value leave the copy and
 move operations of optional

---
 include/cetl/pf17/optional.hpp | 18 +++++++++---------
 1 file changed, 9 insertions(+), 9 deletions(-)

diff --git a/include/cetl/pf17/optional.hpp b/include/cetl/pf17/optional.hpp
index ed9ae94..c4c36d7 100644
--- a/include/cetl/pf17/optional.hpp
+++ b/include/cetl/pf17/optional.hpp
@@ -192,8 +192,8 @@ template <typename T>
 struct base_move_construction<T, false> : base_copy_construction<T>
 {
     using base_copy_construction<T>::base_copy_construction;
-    constexpr base_move_construction() noexcept                              = default;
-    constexpr base_move_construction(const base_move_construction&) noexcept = default;
+    constexpr base_move_construction() noexcept                     = default;
+    constexpr base_move_construction(const base_move_construction&) = default;
     constexpr base_move_construction(base_move_construction&& other) noexcept(
         std::is_nothrow_move_constructible<T>::value)
         : base_copy_construction<T>(copy_tag{}, std::move(other))
@@ -221,9 +221,9 @@ template <typename T>
 struct base_copy_assignment<T, false> : base_move_construction<T>
 {
     using base_move_construction<T>::base_move_construction;
-    constexpr base_copy_assignment() noexcept                            = default;
-    constexpr base_copy_assignment(const base_copy_assignment&) noexcept = default;
-    constexpr base_copy_assignment(base_copy_assignment&&) noexcept      = default;
+    constexpr base_copy_assignment() noexcept                   = default;
+    constexpr base_copy_assignment(const base_copy_assignment&) = default;
+    constexpr base_copy_assignment(base_copy_assignment&&)      = default;
     constexpr base_copy_assignment& operator=(const base_copy_assignment& other) noexcept(
         std::is_nothrow_copy_assignable<T>::value && std::is_nothrow_copy_constructible<T>::value)
     {
@@ -263,10 +263,10 @@ template <typename T>
 struct base_move_assignment<T, false> : base_copy_assignment<T>
 {
     using base_copy_assignment<T>::base_copy_assignment;
-    constexpr base_move_assignment() noexcept                                       = default;
-    constexpr base_move_assignment(const base_move_assignment&) noexcept            = default;
-    constexpr base_move_assignment(base_move_assignment&&) noexcept                 = default;
-    constexpr base_move_assignment& operator=(const base_move_assignment&) noexcept = default;
+    constexpr base_move_assignment() noexcept                              = default;
+    constexpr base_move_assignment(const base_move_assignment&)            = default;
+    constexpr base_move_assignment(base_move_assignment&&)                 = default;
+    constexpr base_move_assignment& operator=(const base_move_assignment&) = default;
     constexpr base_move_assignment& operator=(base_move_assignment&& other) noexcept(
         std::is_nothrow_move_assignable<T>::value && std::is_nothrow_move_constructible<T>::value)
     {
-- 
2.43.0


From fa72015ea270893cb58e19e4e19cba4c132276f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 02:54:48 +0000
Subject: [PATCH 30/41] fix: compare optionals by the corresponding operator of
 their values

---
 include/cetl/pf17/optional.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cetl/pf17/optional.hpp b/include/cetl/pf17/optional.hpp
index c4c36d7..52076bf 100644
--- a/include/cetl/pf17/optional.hpp
+++ b/include/cetl/pf17/optional.hpp
@@ -678,7 +678,7 @@ constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() != st
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return !(lhs == rhs);
+    return (lhs.has_value() != rhs.has_value()) || (lhs.has_value() && ((*lhs) != (*rhs)));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() < std::declval<const U&>())> operator<(
@@ -692,21 +692,21 @@ constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() <= st
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return !(rhs < lhs);
+    return (!lhs.has_value()) || (rhs.has_value() && ((*lhs) <= (*rhs)));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() > std::declval<const U&>())> operator>(
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return rhs < lhs;
+    return lhs.has_value() && ((!rhs.has_value()) || ((*lhs) > (*rhs)));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() >= std::declval<const U&>())> operator>=(
     const optional<T>& lhs,
     const optional<U>& rhs)
 {
-    return !(lhs < rhs);
+    return (!rhs.has_value()) || (lhs.has_value() && ((*lhs) >= (*rhs)));
 }
 /// @}
 
@@ -805,7 +805,7 @@ constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() != st
     const T&           value,
     const optional<U>& opt)
 {
-    return (!opt.has_value()) || ((*opt) != value);
+    return (!opt.has_value()) || (value != (*opt));
 }
 template <typename T, typename U>
 constexpr detail::opt::enable_comparison<decltype(std::declval<const T&>() < std::declval<const U&>())> operator<(
-- 
2.43.0


From 94d76ce4a34791ddbbfdcdcbe88180f1b2fe66ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:33:59 +0000
Subject: [PATCH 31/41] fix: require the alternative, not the source, of a
 variant assignment to be movable

---
 include/cetl/pf17/variant.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pf17/variant.hpp b/include/cetl/pf17/variant.hpp
index 3357e0f..9a191d2 100644
--- a/include/cetl/pf17/variant.hpp
+++ b/include/cetl/pf17/variant.hpp
@@ -1079,8 +1079,8 @@ private:
     template <std::size_t Ix, typename U, typename Alt = nth_type<Ix>>
     std::enable_if_t<!allows_direct_conversion<U, Alt>> convert_from(U&& from)
     {  // This is never noexcept, otherwise we would have chosen the simpler case.
-        static_assert(std::is_move_constructible<U>::value && std::is_nothrow_move_constructible<U>::value,
-                      "U shall be nothrow move constructible in this context; the implementation appears broken");
+        static_assert(std::is_move_constructible<Alt>::value && std::is_nothrow_move_constructible<Alt>::value,
+                      "Alt shall be nothrow move constructible in this context; the implementation appears broken");
         this->template set<Ix>(Alt(std::forward<U>(from)));
     }
 };
-- 
2.43.0


From 1a2b6e3eaaf319f32e004aa6f3c131849721246c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 03:35:56 +0000
Subject: [PATCH 32/41] fix: emplace from a list any alternative which can be
 made from it

---
 include/cetl/pf17/variant.hpp | 10 +++++-----
 1 file changed, 5 insertions(+), 5 deletions(-)

diff --git a/include/cetl/pf17/variant.hpp b/include/cetl/pf17/variant.hpp
index 9a191d2..7e530b1 100644
--- a/include/cetl/pf17/variant.hpp
+++ b/include/cetl/pf17/variant.hpp
@@ -991,8 +991,8 @@ public:
     template <typename T,
               typename U,
               typename... Args,
-              std::size_t Ix                                                  = index_of<T>,
-              std::enable_if_t<std::is_constructible<T, Args...>::value, int> = 0>
+              std::size_t Ix                                                                             = index_of<T>,
+              std::enable_if_t<std::is_constructible<T, std::initializer_list<U>&, Args...>::value, int> = 0>
     T& emplace(const std::initializer_list<U> il, Args&&... ar)
     {
         return this->template set<Ix>(il, std::forward<Args>(ar)...);
@@ -1009,9 +1009,9 @@ public:
     template <std::size_t Ix,
               typename U,
               typename... Args,
-              std::enable_if_t<(Ix < sizeof...(Ts)), int>                     = 0,
-              typename T                                                      = variant_alternative_t<Ix, variant>,
-              std::enable_if_t<std::is_constructible<T, Args...>::value, int> = 0>
+              std::enable_if_t<(Ix < sizeof...(Ts)), int> = 0,
+              typename T                                  = variant_alternative_t<Ix, variant>,
+              std::enable_if_t<std::is_constructible<T, std::initializer_list<U>&, Args...>::value, int> = 0>
     T& emplace(const std::initializer_list<U> il, Args&&... ar)
     {
         return this->template set<Ix>(il, std::forward<Args>(ar)...);
-- 
2.43.0


From 87d9d337ef6aa311360aad4a3913bc58ab3ebe33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:04:16 +0000
Subject: [PATCH 33/41] fix: pass on references which a variant visitor returns

---
 include/cetl/pf17/variant.hpp | 17 ++++++++++++-----
 1 file changed, 12 insertions(+), 5 deletions(-)

diff --git a/include/cetl/pf17/variant.hpp b/include/cetl/pf17/variant.hpp
index 7e530b1..e1f01d1 100644
--- a/include/cetl/pf17/variant.hpp
+++ b/include/cetl/pf17/variant.hpp
@@ -66,6 +66,13 @@ using req = std::enable_if_t<C, int>;
 
 // --------------------------------------------------------------------------------------------------------------------
 
+/// The common type of Ts, except that if all Ts are the same type then it is that very type, even if it is a reference.
+template <typename T, typename... Ts>
+struct common_result
+{
+    using type = std::conditional_t<conjunction_v<std::is_same<T, Ts>...>, T, std::common_type_t<T, Ts...>>;
+};
+
 template <typename>
 struct chronomorphize_impl;
 template <std::size_t... Is>
@@ -78,8 +85,8 @@ struct chronomorphize_impl<std::index_sequence<Is...>>
         static decltype(auto)
         lookup(F&& fun, const std::size_t index, Args&&... ar)
     {
-        using R = std::common_type_t<decltype(std::forward<F>(fun)(std::integral_constant<std::size_t, Is>{},
-                                                                   std::forward<Args>(ar)...))...>;
+        using R = typename common_result<decltype(std::forward<F>(fun)(std::integral_constant<std::size_t, Is>{},
+                                                                       std::forward<Args>(ar)...))...>::type;
 #if __cplusplus >= 201703L
         constexpr
 #else
@@ -752,7 +759,7 @@ constexpr decltype(auto) visit(F&& fun, V&& var)
 {
     // https://twitter.com/PavelKirienko/status/1761525562370040002
     return chronomorphize(
-        [&fun, &var](const auto index) {
+        [&fun, &var](const auto index) -> decltype(auto) {
             return std::forward<F>(fun)(alt<index.value>(std::forward<V>(var)));  //
         },
         var);
@@ -765,9 +772,9 @@ constexpr decltype(auto) visit(F&& fun, V0&& var0, Vs&&... vars)
     // per variant. The recursive structure below builds a Cartesian product of the variant combinations
     // one level at a time starting with the leftmost variant. The complexity is one table jump per variant level.
     return visit(
-        [&](auto&& hh) {  // https://twitter.com/PavelKirienko/status/1761525562370040002
+        [&](auto&& hh) -> decltype(auto) {  // https://twitter.com/PavelKirienko/status/1761525562370040002
             return visit(
-                [&](auto&&... tt) {
+                [&](auto&&... tt) -> decltype(auto) {
                     return std::forward<F>(fun)(std::forward<decltype(hh)>(hh), std::forward<decltype(tt)>(tt)...);
                 },
                 std::forward<Vs>(vars)...);
-- 
2.43.0


From ea366bbc8347ed7ce3f214fcaeb7703f958ab72d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:27:40 +0000
Subject: [PATCH 34/41] fix: compare variants by the corresponding operator of
 their alternatives

---
 include/cetl/pf17/variant.hpp | 86 +++++++++++++++++++++++++++++++++--
 1 file changed, 82 insertions(+), 4 deletions(-)

diff --git a/include/cetl/pf17/variant.hpp b/include/cetl/pf17/variant.hpp
index e1f01d1..50a5730 100644
--- a/include/cetl/pf17/variant.hpp
+++ b/include/cetl/pf17/variant.hpp
@@ -782,6 +782,52 @@ constexpr decltype(auto) visit(F&& fun, V0&& var0, Vs&&... vars)
         std::forward<V0>(var0));
 }
 
+// --------------------------------------------------------------------------------------------------------------------
+
+/// The comparison operators of the alternatives; if an alternative does not have one, it is derived from == and <.
+/// @{
+template <typename T>
+constexpr auto not_equal(const T& lhs, const T& rhs, const int) -> decltype(static_cast<bool>(lhs != rhs))
+{
+    return static_cast<bool>(lhs != rhs);
+}
+template <typename T>
+constexpr bool not_equal(const T& lhs, const T& rhs, const long)
+{
+    return !(lhs == rhs);
+}
+template <typename T>
+constexpr auto greater(const T& lhs, const T& rhs, const int) -> decltype(static_cast<bool>(lhs > rhs))
+{
+    return static_cast<bool>(lhs > rhs);
+}
+template <typename T>
+constexpr bool greater(const T& lhs, const T& rhs, const long)
+{
+    return static_cast<bool>(rhs < lhs);
+}
+template <typename T>
+constexpr auto less_equal(const T& lhs, const T& rhs, const int) -> decltype(static_cast<bool>(lhs <= rhs))
+{
+    return static_cast<bool>(lhs <= rhs);
+}
+template <typename T>
+constexpr bool less_equal(const T& lhs, const T& rhs, const long)
+{
+    return !(rhs < lhs);
+}
+template <typename T>
+constexpr auto greater_equal(const T& lhs, const T& rhs, const int) -> decltype(static_cast<bool>(lhs >= rhs))
+{
+    return static_cast<bool>(lhs >= rhs);
+}
+template <typename T>
+constexpr bool greater_equal(const T& lhs, const T& rhs, const long)
+{
+    return !(lhs < rhs);
+}
+/// @}
+
 }  // namespace var
 }  // namespace detail
 
@@ -1209,7 +1255,15 @@ constexpr bool operator==(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
 template <typename... Ts>
 constexpr bool operator!=(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
 {
-    return !(lhs == rhs);
+    if ((lhs.index() != rhs.index()) || lhs.valueless_by_exception())
+    {
+        return !(lhs == rhs);
+    }
+    return detail::var::chronomorphize<sizeof...(Ts)>(
+        [&lhs, &rhs](const auto index) {
+            return detail::var::not_equal(get<index.value>(lhs), get<index.value>(rhs), 0);
+        },
+        lhs.index());
 }
 template <typename... Ts>
 constexpr bool operator<(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
@@ -1238,17 +1292,41 @@ constexpr bool operator<(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
 template <typename... Ts>
 constexpr bool operator>(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
 {
-    return rhs < lhs;
+    if ((lhs.index() != rhs.index()) || lhs.valueless_by_exception())
+    {
+        return rhs < lhs;
+    }
+    return detail::var::chronomorphize<sizeof...(Ts)>(
+        [&lhs, &rhs](const auto index) {
+            return detail::var::greater(get<index.value>(lhs), get<index.value>(rhs), 0);
+        },
+        lhs.index());
 }
 template <typename... Ts>
 constexpr bool operator<=(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
 {
-    return !(rhs < lhs);
+    if ((lhs.index() != rhs.index()) || lhs.valueless_by_exception())
+    {
+        return !(rhs < lhs);
+    }
+    return detail::var::chronomorphize<sizeof...(Ts)>(
+        [&lhs, &rhs](const auto index) {
+            return detail::var::less_equal(get<index.value>(lhs), get<index.value>(rhs), 0);
+        },
+        lhs.index());
 }
 template <typename... Ts>
 constexpr bool operator>=(const variant<Ts...>& lhs, const variant<Ts...>& rhs)
 {
-    return !(lhs < rhs);
+    if ((lhs.index() != rhs.index()) || lhs.valueless_by_exception())
+    {
+        return !(lhs < rhs);
+    }
+    return detail::var::chronomorphize<sizeof...(Ts)>(
+        [&lhs, &rhs](const auto index) {
+            return detail::var::greater_equal(get<index.value>(lhs), get<index.value>(rhs), 0);
+        },
+        lhs.index());
 }
 
 }  // namespace pf17
-- 
2.43.0


From 4702778a66d67feea517e954093c551a6d724825 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:55 +0000
Subject: [PATCH 35/41] fix: find an empty string view at the end of another
 one

---
 include/cetl/pf17/string_view.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pf17/string_view.hpp b/include/cetl/pf17/string_view.hpp
index ce2ca61..ca50724 100644
--- a/include/cetl/pf17/string_view.hpp
+++ b/include/cetl/pf17/string_view.hpp
@@ -333,7 +333,7 @@ public:
             return npos;
         }
         const const_iterator result = std::search(data_ + pos, data_ + size_, sv.data_, sv.data_ + sv.size_);
-        return result != data_ + size_ ? static_cast<size_type>(result - data_) : npos;
+        return (result != data_ + size_ || sv.empty()) ? static_cast<size_type>(result - data_) : npos;
     }
 
     /// Performs stream output on string view.
-- 
2.43.0


From 5004a0d331f0b9e68068d5c3460d02e582a72c8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:55 +0000
Subject: [PATCH 36/41] fix: search string views by the traits of their
 characters

---
 include/cetl/pf17/string_view.hpp | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/cetl/pf17/string_view.hpp b/include/cetl/pf17/string_view.hpp
index ca50724..a99f4c7 100644
--- a/include/cetl/pf17/string_view.hpp
+++ b/include/cetl/pf17/string_view.hpp
@@ -320,7 +320,8 @@ public:
         {
             return npos;
         }
-        const const_iterator result = std::find(data_ + pos, data_ + size_, ch);
+        const const_iterator result =
+            std::find_if(data_ + pos, data_ + size_, [ch](const CharT c) { return traits_type::eq(c, ch); });
         return result != data_ + size_ ? static_cast<size_type>(result - data_) : npos;
     }
 
@@ -332,7 +333,11 @@ public:
         {
             return npos;
         }
-        const const_iterator result = std::search(data_ + pos, data_ + size_, sv.data_, sv.data_ + sv.size_);
+        const const_iterator result = std::search(data_ + pos,
+                                                  data_ + size_,
+                                                  sv.data_,
+                                                  sv.data_ + sv.size_,
+                                                  [](const CharT a, const CharT b) { return traits_type::eq(a, b); });
         return (result != data_ + size_ || sv.empty()) ? static_cast<size_type>(result - data_) : npos;
     }
 
-- 
2.43.0


From 01bc1c430030e69a9c4d8a48fcf3ef6915277757 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 04:51:55 +0000
Subject: [PATCH 37/41] fix: pad the output of string views like that of
 strings

---
 include/cetl/pf17/string_view.hpp | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/include/cetl/pf17/string_view.hpp b/include/cetl/pf17/string_view.hpp
index a99f4c7..46e1763 100644
--- a/include/cetl/pf17/string_view.hpp
+++ b/include/cetl/pf17/string_view.hpp
@@ -363,10 +363,9 @@ public:
                 };
 
                 const std::streamsize padding_len = width - sv_length;
-                const bool            left        = os.flags() & std::basic_ios<CharT, Traits>::left;
-                const bool            right       = os.flags() & std::basic_ios<CharT, Traits>::right;
+                const bool            left        = (os.flags() & std::ios_base::adjustfield) == std::ios_base::left;
 
-                if (right)
+                if (!left)
                 {
                     pad(padding_len);
                 }
@@ -380,8 +379,8 @@ public:
             {
                 os.write(sv.data(), sv_length);
             }
+            os.width(0);
         }
-        os.width(0);
         return os;
     }
 
-- 
2.43.0


From 879f986ebe7ecfc8a279a752bd2958df47875e23 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 07:14:39 +0000
Subject: [PATCH 38/41] fix: emplace elements made of several own elements
 while growing

---
 include/cetl/variable_length_array.hpp | 17 +++++++++++++----
 1 file changed, 13 insertions(+), 4 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index a260e75..8d3c765 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -1479,9 +1479,9 @@ public:
     template <class... Args>
     void emplace_back(Args&&... args)
     {
-        if (size_ == capacity_ && size_ < max_size() && is_own(args...))
+        if (size_ == capacity_ && size_ < max_size() && is_any_own(args...))
         {
-            // growing moves the elements, one of which is the argument.
+            // growing moves the elements, one of which an argument refers to.
             value_type value(std::forward<Args>(args)...);
             push_back(std::move(value));
             return;
@@ -1582,8 +1582,17 @@ private:
         return (size_ > 0) && !is_before(std::addressof(value), data_) &&
                is_before(std::addressof(value), data_ + size_);
     }
-    template <typename... Others>
-    constexpr bool is_own(const Others&...) const noexcept
+
+    /// If any of the arguments given to a method is an element of this array or a part of one.
+    template <typename First, typename... Others>
+    bool is_any_own(const First& first, const Others&... others) const noexcept
+    {
+        const std::less<const volatile void*> is_before{};
+        const auto* const                     address = reinterpret_cast<const volatile char*>(std::addressof(first));
+        return ((size_ > 0) && !is_before(address, data_) && is_before(address, data_ + size_)) ||
+               is_any_own(others...);
+    }
+    constexpr bool is_any_own() const noexcept
     {
         return false;
     }
-- 
2.43.0


From ac0d7258dd3c5f28e9432b41d31f2bfccd5e3a1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 10:50:40 +0000
Subject: [PATCH 39/41] fix: detect swap functions which return a value

is_swappable only accepted functions whose result is void, unlike the standard trait, so that the
result depended on the language standard.
---
 include/cetl/pf17/type_traits.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/cetl/pf17/type_traits.hpp b/include/cetl/pf17/type_traits.hpp
index 8836be0..569db26 100644
--- a/include/cetl/pf17/type_traits.hpp
+++ b/include/cetl/pf17/type_traits.hpp
@@ -28,7 +28,7 @@ template <typename T, typename = void>
 struct is_swappable : std::false_type
 {};
 template <typename T>
-struct is_swappable<T, decltype(swap(std::declval<T&>(), std::declval<T&>()))> : std::true_type
+struct is_swappable<T, decltype(static_cast<void>(swap(std::declval<T&>(), std::declval<T&>())))> : std::true_type
 {};
 
 template <typename T, bool = is_swappable<T>::value>
-- 
2.43.0


From 90e31af26838625d8717dc134d4b231a95620ac8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:10:22 +0000
Subject: [PATCH 40/41] fix: move-assign arrays of elements without a default
 constructor

Move assignment element by element emptied the source with resize(0),
which needs a default constructor. Destroy the moved-from elements
directly instead.
---
 include/cetl/variable_length_array.hpp | 6 ++++--
 1 file changed, 4 insertions(+), 2 deletions(-)

diff --git a/include/cetl/variable_length_array.hpp b/include/cetl/variable_length_array.hpp
index 8d3c765..0a69b6d 100644
--- a/include/cetl/variable_length_array.hpp
+++ b/include/cetl/variable_length_array.hpp
@@ -611,7 +611,8 @@ protected:
                                            alloc_);
                 }
                 size_ = rhs.size_;
-                rhs.resize(0, rhs_max_size);
+                fast_destroy(rhs.data_, rhs.size_);
+                rhs.size_ = 0;
                 // TODO: should we release the rhs capacity too?
             }
             else
@@ -633,7 +634,8 @@ protected:
                 move_assign_alloc(rhs.alloc_);
                 reserve(new_size, rhs_max_size);
                 size_ = fast_forward_construct(data_, capacity_, rhs.data_, new_size, alloc_);
-                rhs.resize(0, rhs_max_size);
+                fast_destroy(rhs.data_, rhs.size_);
+                rhs.size_ = 0;
             }
         }
     }
-- 
2.43.0


From 20648742763267c446eb885fecc4b8622b5be755 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Mon, 16 Nov 2026 11:41:08 +0000
Subject: [PATCH 41/41] fix: make visit_helpers.hpp include what it uses

The header uses std::forward but did not include <utility>, so it did
not compile on its own.
---
 include/cetl/visit_helpers.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/cetl/visit_helpers.hpp b/include/cetl/visit_helpers.hpp
index b522a10..adf53d1 100644
--- a/include/cetl/visit_helpers.hpp
+++ b/include/cetl/visit_helpers.hpp
@@ -10,6 +10,7 @@
 #define CETL_VISIT_HELPERS_HPP_INCLUDED
 
 #include <type_traits>
+#include <utility>
 
 namespace cetl
 {
-- 
2.43.0

