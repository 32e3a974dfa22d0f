From 9221e91faa5206bc9527508ba805065d8e296aff Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:20:16 +0000
Subject: [PATCH 01/65] fix: ref_ptr move assignment from a holder of the same
 object leaked a reference

---
 include/neolib/core/reference_counted.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/reference_counted.hpp b/include/neolib/core/reference_counted.hpp
index 9c9dfc9..5b4aab2 100644
--- a/include/neolib/core/reference_counted.hpp
+++ b/include/neolib/core/reference_counted.hpp
@@ -436,7 +436,7 @@ namespace neolib
         template <typename Interface2 = Interface, typename = std::enable_if_t<std::is_base_of_v<Interface2, Interface>, sfinae>>
         void reset(Interface2* aPtr, Interface2* aManagedPtr, bool aReferenceCounted, bool aAddRef)
         {
-            if (iPtr == aPtr && iManagedPtr == aManagedPtr)
+            if (iPtr == aPtr && iManagedPtr == aManagedPtr && (aAddRef || !aReferenceCounted))
                 return;
             Interface* compatiblePtr = dynamic_cast<Interface*>(aPtr);
             if (aPtr != nullptr && compatiblePtr == nullptr)
-- 
2.43.0


From dfd6cb33d06417f86fd8daf8b2768191b57d076f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:23:10 +0000
Subject: [PATCH 02/65] fix: switchable_mutex named a dependent member template
 without 'template'

---
 include/neolib/core/mutex.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/mutex.hpp b/include/neolib/core/mutex.hpp
index 737b783..c48e400 100644
--- a/include/neolib/core/mutex.hpp
+++ b/include/neolib/core/mutex.hpp
@@ -472,19 +472,19 @@ namespace neolib
     public:
         void set_single_threaded()
         {
-            iActiveMutex.emplace<neolib::null_mutex>();
+            iActiveMutex.template emplace<neolib::null_mutex>();
         }
         void set_multi_threaded()
         {
-            iActiveMutex.emplace<std::recursive_mutex>();
+            iActiveMutex.template emplace<std::recursive_mutex>();
         }
         void set_multi_threaded_profiled()
         {
-            iActiveMutex.emplace<neolib::recursive_mutex<ProfilerTag>>();
+            iActiveMutex.template emplace<neolib::recursive_mutex<ProfilerTag>>();
         }
         void set_multi_threaded_spinlock()
         {
-            iActiveMutex.emplace<neolib::recursive_mutex<ProfilerTag, true>>();
+            iActiveMutex.template emplace<neolib::recursive_mutex<ProfilerTag, true>>();
         }
     public:
         void lock() noexcept final
-- 
2.43.0


From db2b0ab6717e22f0639151eff9aa5703cb0af614 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:24:43 +0000
Subject: [PATCH 03/65] fix: scoped_pointer::saved() returned a pointer as a
 reference and could not be used

---
 include/neolib/core/scoped.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/scoped.hpp b/include/neolib/core/scoped.hpp
index 8a38173..fa19d19 100644
--- a/include/neolib/core/scoped.hpp
+++ b/include/neolib/core/scoped.hpp
@@ -90,7 +90,7 @@ namespace neolib
         scoped_pointer(T*& aPointer, T* aValue) noexcept : iPointer{ aPointer }, iSaved{ aPointer }, iIgnore{ false } { iPointer = aValue; }
         ~scoped_pointer() noexcept { if (!iIgnore) iPointer = iSaved; }
     public:
-        T const& saved() const noexcept { return iSaved; }
+        T* saved() const noexcept { return iSaved; }
         void ignore() noexcept { iIgnore = true; }
     private:
         T*& iPointer;
-- 
2.43.0


From 87206d462de03e789cd32b3b21ac64e0279d3964 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:48 +0000
Subject: [PATCH 04/65] fix: copying or assigning a non-const any recursed
 without end

---
 include/neolib/core/any.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/any.hpp b/include/neolib/core/any.hpp
index 250cc06..92d5677 100644
--- a/include/neolib/core/any.hpp
+++ b/include/neolib/core/any.hpp
@@ -82,7 +82,7 @@ namespace neolib
         {
         }
         any(i_any&& aOther) :
-            any{ static_cast<any&>(aOther) } // todo - is it doable?
+            any{ std::move(static_cast<any&>(aOther)) } // todo - is it doable?
         {
         }
         any(const any& aOther) :
@@ -100,7 +100,7 @@ namespace neolib
             aOther.ptr = nullptr;
         }
         template <typename ValueType>
-        any(ValueType&& aValue, std::enable_if_t<!is_variant_v<std::decay_t<ValueType>>, sfinae> = {}) :
+        any(ValueType&& aValue, std::enable_if_t<!is_variant_v<std::decay_t<ValueType>> && !std::is_base_of_v<i_any, std::decay_t<ValueType>>, sfinae> = {}) :
             std::any{ std::decay_t<ValueType>{aValue} },
             cptr{ &any::do_cptr<std::decay_t<ValueType>> },
             ptr{ &any::do_ptr<std::decay_t<ValueType>> }
@@ -122,7 +122,7 @@ namespace neolib
         any& operator=(i_any&& aRhs)
         {
             // todo - is it doable?
-            return *this = static_cast<any&>(aRhs);
+            return *this = std::move(static_cast<any&>(aRhs));
         }
         any& operator=(const any& aRhs)
         {
@@ -140,7 +140,7 @@ namespace neolib
             aRhs.ptr = nullptr;
             return *this;
         }
-        template<typename ValueType>
+        template<typename ValueType, typename = std::enable_if_t<!std::is_base_of_v<i_any, std::decay_t<ValueType>>, sfinae>>
         any& operator=(ValueType&& aRhs)
         {
             std::any::operator=(std::decay_t<ValueType>{aRhs});
-- 
2.43.0


From f801fdc1d56f715cb01cc193eb2232b6b073ab33 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:48 +0000
Subject: [PATCH 05/65] fix: any_cast on a pointer and any::emplace could not
 be instantiated

---
 include/neolib/core/any.hpp   | 8 ++++----
 include/neolib/core/i_any.hpp | 4 ++--
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/include/neolib/core/any.hpp b/include/neolib/core/any.hpp
index 92d5677..80b027f 100644
--- a/include/neolib/core/any.hpp
+++ b/include/neolib/core/any.hpp
@@ -152,7 +152,7 @@ namespace neolib
         template<class ValueType, class... Args>
         std::decay_t<ValueType>& emplace(Args&&... args)
         {
-            auto& result = std::any::emplace<ValueType>(std::forward<Args...>(args...));
+            auto& result = std::any::emplace<ValueType>(std::forward<Args>(args)...);
             cptr = &any::do_cptr<std::decay_t<ValueType>>;
             ptr = &any::do_ptr<std::decay_t<ValueType>>;
             return result;
@@ -160,7 +160,7 @@ namespace neolib
         template<class ValueType, class U, class... Args>
         std::decay_t<ValueType>& emplace(std::initializer_list<U> il, Args&&... args)
         {
-            auto& result = std::any::emplace<ValueType>(il, std::forward<Args...>(args...));
+            auto& result = std::any::emplace<ValueType>(il, std::forward<Args>(args)...);
             cptr = &any::do_cptr<std::decay_t<ValueType>>;
             ptr = &any::do_ptr<std::decay_t<ValueType>>;
             return result;
@@ -281,12 +281,12 @@ namespace neolib
     template<class T>
     inline const T* any_cast(const any* operand) noexcept
     {
-        return std::any_cast<const T*>(&operand->as_std_any());
+        return std::any_cast<T>(&operand->as_std_any());
     }
     template<class T>
     inline T* any_cast(any* operand) noexcept
     {
-        return std::any_cast<T*>(&operand->as_std_any());
+        return std::any_cast<T>(&operand->as_std_any());
     }
     template<class T>
     inline T unsafe_any_cast(const any& operand) noexcept
diff --git a/include/neolib/core/i_any.hpp b/include/neolib/core/i_any.hpp
index 9846fcb..75a514b 100644
--- a/include/neolib/core/i_any.hpp
+++ b/include/neolib/core/i_any.hpp
@@ -95,12 +95,12 @@ namespace neolib
     template<class T>
     inline const T* any_cast(const i_any* operand) noexcept
     {
-        return std::any_cast<const T*>(&operand->as_std_any());
+        return std::any_cast<T>(&operand->as_std_any());
     }
     template<class T>
     inline T* any_cast(i_any* operand) noexcept
     {
-        return std::any_cast<T*>(&operand->as_std_any());
+        return std::any_cast<T>(&operand->as_std_any());
     }
     template<class T>
     inline T unsafe_any_cast(const i_any& operand) noexcept
-- 
2.43.0


From ca8c53e6dfc86e4bc82ee1c7802935e0386042c8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 23:56:48 +0000
Subject: [PATCH 06/65] fix: assigning an empty variant, or itself, through
 i_variant kept or destroyed the old value

---
 include/neolib/core/variant.hpp | 5 ++++-
 1 file changed, 4 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/variant.hpp b/include/neolib/core/variant.hpp
index c07587c..133f4a2 100644
--- a/include/neolib/core/variant.hpp
+++ b/include/neolib/core/variant.hpp
@@ -284,7 +284,10 @@ namespace neolib
         };
         abstract_type& assign(std::size_t aIndex, void const* aPtr) final
         {
-            RuntimeTypeDispatchToEmplace<Types...>::assign(*this, aIndex, aPtr);
+            if (aIndex == 0)
+                std_type::operator=(none_t{});
+            else if (aIndex != index() || aPtr != ptr())
+                RuntimeTypeDispatchToEmplace<Types...>::assign(*this, aIndex, aPtr);
             return *this;
         }
     };
-- 
2.43.0


From f590531db18a67fa18d198cee90d04d126304ae9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:16 +0000
Subject: [PATCH 07/65] fix: gap_vector insertion of more elements than the
 default gap overlapped the following elements

---
 include/neolib/core/gap_vector.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index 396d8bb..003cbca 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -745,7 +745,7 @@ namespace neolib
                 if (room() < aCount)
                     grow(aCount);
                 auto const pos = std::next(iData, posIndex);
-                auto const initialGapSize = std::min(room(), DefaultGapSize);
+                auto const initialGapSize = std::min(room(), std::max(DefaultGapSize, aCount));
                 auto src = iDataEnd;
                 auto dest = std::next(iDataEnd, initialGapSize);
                 while (src != pos)
-- 
2.43.0


From d21359c61f7ff25fcc314aea04a443bf27d9618f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:16 +0000
Subject: [PATCH 08/65] fix: gap_vector did not destroy moved-from elements
 when opening a gap or reallocating

---
 include/neolib/core/gap_vector.hpp | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index 003cbca..d27944f 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -472,6 +472,8 @@ namespace neolib
 
                 iDataEnd = std::uninitialized_move(existingData, existingDataEnd, iData);
 
+                for (auto e = existingData; e != existingDataEnd; ++e)
+                    std::allocator_traits<allocator_type>::destroy(iAlloc, e);
                 std::allocator_traits<allocator_type>::deallocate(iAlloc, existingData, existingCapacity);
             }
             catch(...)
@@ -757,7 +759,7 @@ namespace neolib
                     else
                         *dest = std::move(*src);
                 };
-                auto const garbageCount = std::min<size_type>(aCount, iDataEnd - pos);
+                auto const garbageCount = std::min<size_type>(initialGapSize, iDataEnd - pos);
                 for (auto garbage = std::next(pos, garbageCount); garbage != pos;)
                     std::allocator_traits<allocator_type>::destroy(iAlloc, --garbage);
                 std::advance(iDataEnd, initialGapSize);
-- 
2.43.0


From 8ae6764fa69e2cb382298da269e8484cac0de673 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:16 +0000
Subject: [PATCH 09/65] fix: gap_vector self assignment emptied the vector

---
 include/neolib/core/gap_vector.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index d27944f..09d01bf 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -294,7 +294,8 @@ namespace neolib
     public:
         constexpr gap_vector& operator=(const gap_vector& other)
         {
-            assign(other.begin(), other.end());
+            if (&other != this)
+                assign(other.begin(), other.end());
             return *this;
         }
         constexpr gap_vector& operator=(gap_vector&& other) noexcept
-- 
2.43.0


From b6675666e3757de6644470d8e183596ab026c450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:16 +0000
Subject: [PATCH 10/65] fix: gap_vector insertion of an own element read it
 after it was moved

---
 include/neolib/core/gap_vector.hpp | 12 +++++-------
 1 file changed, 5 insertions(+), 7 deletions(-)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index 09d01bf..b10ff95 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -566,9 +566,7 @@ namespace neolib
         }
         constexpr iterator insert(const_iterator pos, value_type const& value)
         {
-            auto const memory = allocate_from_gap(pos, 1);
-            std::allocator_traits<allocator_type>::construct(iAlloc, memory, value);
-            return iterator{ *this, memory };
+            return insert(pos, value_type{ value }); // value may be one of our own elements
         }
         constexpr iterator insert(const_iterator pos, value_type&& value)
         {
@@ -578,8 +576,9 @@ namespace neolib
         }
         constexpr iterator insert(const_iterator pos, size_type count, value_type const& value)
         {
+            value_type const copy{ value }; // value may be one of our own elements
             auto const memory = allocate_from_gap(pos, count);
-            std::uninitialized_fill_n(memory, count, value);
+            std::uninitialized_fill_n(memory, count, copy);
             return iterator{ *this, memory };
         }
         template<class InputIt>
@@ -603,9 +602,8 @@ namespace neolib
         template<class... Args>
         constexpr iterator emplace(const_iterator pos, Args&&... args)
         {
-            auto const memory = allocate_from_gap(pos, 1);
-            std::allocator_traits<allocator_type>::construct(iAlloc, memory, std::forward<Args>(args)...);
-            return iterator{ *this, memory };
+            value_type value(std::forward<Args>(args)...); // args may refer to our own elements
+            return insert(pos, std::move(value));
         }
         constexpr void push_back(value_type const& value)
         {
-- 
2.43.0


From 93b60c0fdd17c1c90a04652a2320865a57855e6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:16 +0000
Subject: [PATCH 11/65] fix: gap_vector swap and move left storage with the
 wrong allocator

---
 include/neolib/core/gap_vector.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index b10ff95..2b53aae 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -329,6 +329,7 @@ namespace neolib
     public:
         constexpr void swap(gap_vector& other) noexcept
         {
+            std::swap(iAlloc, other.iAlloc);
             std::swap(iData, other.iData);
             std::swap(iDataEnd, other.iDataEnd);
             std::swap(iStorageEnd, other.iStorageEnd);
-- 
2.43.0


From 6011ea2f8a9105077159950d271d83b898066860 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 00:51:41 +0000
Subject: [PATCH 12/65] fix: gap_vector taking a count and an integral value
 picked the iterator overloads

---
 include/neolib/core/gap_vector.hpp | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index 2b53aae..7c854f6 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -260,7 +260,7 @@ namespace neolib
         {
             resize(count);
         }
-        template<class InputIt>
+        template<class InputIt, class = std::enable_if_t<!std::is_integral_v<InputIt>>>
         constexpr gap_vector(InputIt first, InputIt last, const Allocator& alloc = Allocator()) : iAlloc{ alloc }
         {
             (void)insert(begin(), first, last);
@@ -315,7 +315,7 @@ namespace neolib
             clear();
             insert(begin(), count, value);
         }
-        template<class InputIt>
+        template<class InputIt, class = std::enable_if_t<!std::is_integral_v<InputIt>>>
         constexpr void assign(InputIt first, InputIt last) 
         {
             clear();
@@ -582,7 +582,7 @@ namespace neolib
             std::uninitialized_fill_n(memory, count, copy);
             return iterator{ *this, memory };
         }
-        template<class InputIt>
+        template<class InputIt, class = std::enable_if_t<!std::is_integral_v<InputIt>>>
         constexpr iterator insert(const_iterator pos, InputIt first, InputIt last)
         {
             auto const insertPosIndex = std::distance(cbegin(), pos);
-- 
2.43.0


From eb182433cb11e25014c9df19437592f3c3ccf915 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:21 +0000
Subject: [PATCH 13/65] fix: segmented_array insertion overfilled a segment
 when the tail did not fit in the following one

---
 include/neolib/core/segmented_array.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/segmented_array.hpp b/include/neolib/core/segmented_array.hpp
index 1e28731..f644d2c 100644
--- a/include/neolib/core/segmented_array.hpp
+++ b/include/neolib/core/segmented_array.hpp
@@ -745,7 +745,7 @@ namespace neolib
             if (aPosition.iNode == nullptr)
                 aPosition = begin();
             segment_type& segment = aPosition.iNode->segment();
-            if (aPosition.iSegmentPosition < segment.size() && available(nextNode->segment()) < segment.size() - aPosition.iSegmentPosition)
+            if (aPosition.iSegmentPosition < segment.size() && available((lastNode ? lastNode : nextNode)->segment()) < segment.size() - aPosition.iSegmentPosition)
                 lastNode = allocate_node(nextNode);
             return lastNode ? lastNode : nextNode;
         }
-- 
2.43.0


From a6a1c7fed9abd7b2b07656fc669bf392936352c5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:21:21 +0000
Subject: [PATCH 14/65] fix: a moved-from array_tree could not be used again

---
 include/neolib/core/array_tree.hpp | 11 ++---------
 1 file changed, 2 insertions(+), 9 deletions(-)

diff --git a/include/neolib/core/array_tree.hpp b/include/neolib/core/array_tree.hpp
index aabab03..7112afb 100644
--- a/include/neolib/core/array_tree.hpp
+++ b/include/neolib/core/array_tree.hpp
@@ -237,16 +237,9 @@ namespace neolib
             set_root_node(iNil);
         }
         array_tree(array_tree&& other) :
-            iAllocator{ std::move(other.iAllocator) },
-            iRoot{ nullptr },
-            iFront{ nullptr },
-            iBack{ nullptr },
-            iNil{ nullptr }
+            array_tree{ other.iAllocator }
         {
-            std::swap(iRoot, other.iRoot);
-            std::swap(iFront, other.iFront);
-            std::swap(iBack, other.iBack);
-            std::swap(iNil, other.iNil);
+            swap(other);
         }
         ~array_tree()
         {
-- 
2.43.0


From 72d577d12cedbf91ede41037b4341506a7b838ac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 01:33:14 +0000
Subject: [PATCH 15/65] fix: segmented_array insertion of an own element read
 it after it was moved

---
 include/neolib/core/segmented_array.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/segmented_array.hpp b/include/neolib/core/segmented_array.hpp
index f644d2c..aeb18ef 100644
--- a/include/neolib/core/segmented_array.hpp
+++ b/include/neolib/core/segmented_array.hpp
@@ -521,9 +521,10 @@ namespace neolib
         iterator insert(const_iterator aPosition, size_type aCount, const value_type& aValue)
         {
             auto pos = aPosition.iContainerPosition;
+            value_type const value{ aValue }; // aValue may be one of our own elements, which we may move
             while (aCount > 0)
             {
-                aPosition = insert(aPosition, &aValue, &aValue+1);
+                aPosition = insert(aPosition, &value, &value+1);
                 ++aPosition;
                 --aCount;
             }
-- 
2.43.0


From 5ad19c0eb84911084f8ad2b59725264e3da45dea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:30 +0000
Subject: [PATCH 16/65] fix: stepping a set's iterator backwards did nothing

---
 include/neolib/core/container_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/container_iterator.hpp b/include/neolib/core/container_iterator.hpp
index 855d6de..bda7ff8 100644
--- a/include/neolib/core/container_iterator.hpp
+++ b/include/neolib/core/container_iterator.hpp
@@ -81,7 +81,7 @@ namespace neolib
             operator container_iterator() const { return iContainerIterator; }
         public:
             abstract_iterator& operator++() override { ++iContainerIterator; return *this; }
-            abstract_iterator& operator--() override { if constexpr(std::bidirectional_iterator<container_iterator>) --iContainerIterator; return *this; }
+            abstract_iterator& operator--() override { if constexpr (requires(container_iterator& i) { --i; }) --iContainerIterator; return *this; }
             reference operator*() const override { return to_abstract(*iContainerIterator); }
             pointer operator->() const override { return &(**this); }
             bool operator==(const abstract_base_iterator& aOther) const override { return iContainerIterator == static_cast<const const_iterator&>(aOther).iContainerIterator; }
@@ -168,7 +168,7 @@ namespace neolib
             operator container_iterator() const { return iContainerIterator; }
         public:
             abstract_iterator& operator++() override { ++iContainerIterator; return *this; }
-            abstract_iterator& operator--() override { if constexpr (std::bidirectional_iterator<container_iterator>) --iContainerIterator; return *this; }
+            abstract_iterator& operator--() override { if constexpr (requires(container_iterator& i) { --i; }) --iContainerIterator; return *this; }
             reference operator*() const override { return to_abstract(*iContainerIterator); }
             pointer operator->() const override { return &(**this); }
             bool operator==(const abstract_base_iterator& aOther) const override { return iContainerIterator == static_cast<const iterator&>(aOther).iContainerIterator; }
-- 
2.43.0


From 2e0bb738ed62d6a9272b260425a6f4db72162f2a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:30 +0000
Subject: [PATCH 17/65] fix: unordered_multimap::emplace could not be
 instantiated

---
 include/neolib/core/unordered_map.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/unordered_map.hpp b/include/neolib/core/unordered_map.hpp
index 28ee4ca..e316ff3 100644
--- a/include/neolib/core/unordered_map.hpp
+++ b/include/neolib/core/unordered_map.hpp
@@ -321,7 +321,7 @@ namespace neolib
         {
             auto result = iMap.emplace(std::forward<Key2>(aKey),
                 typename std_type::mapped_type{ aKey, mapped_type{ std::forward<Args>(aArgs)... } });
-            return result.first->second;
+            return result->second;
         }
     private:
         abstract_iterator* do_insert(const abstract_key_type& aKey, const abstract_mapped_type& aMapped) final
-- 
2.43.0


From bceb5106b316fb808ba122692add18a8db300100 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:04:30 +0000
Subject: [PATCH 18/65] fix: multiset could not be instantiated and its find
 returned nothing

---
 include/neolib/core/i_set.hpp | 2 +-
 include/neolib/core/set.hpp   | 2 +-
 2 files changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/i_set.hpp b/include/neolib/core/i_set.hpp
index 86374ef..ca044bc 100644
--- a/include/neolib/core/i_set.hpp
+++ b/include/neolib/core/i_set.hpp
@@ -83,7 +83,7 @@ namespace neolib
     public:
         iterator insert(const abstract_value_type& aValue) { return do_insert(aValue); }
         const_iterator find(const abstract_key_type& aKey) const { return do_find(aKey); }
-        iterator find(const abstract_key_type& aKey) { do_find(aKey); }
+        iterator find(const abstract_key_type& aKey) { return do_find(aKey); }
         // todo: equal_range, lower_bound, upper_bound
     private:
         virtual abstract_iterator* do_insert(const abstract_value_type& aValue) = 0;
diff --git a/include/neolib/core/set.hpp b/include/neolib/core/set.hpp
index dc27829..8f96a89 100644
--- a/include/neolib/core/set.hpp
+++ b/include/neolib/core/set.hpp
@@ -145,7 +145,7 @@ namespace neolib
         typedef Alloc allocator_type;
         typedef mutable_multiset<value_type, compare_type, allocator_type> std_type;
     private:
-        typedef typename abstract_type::base_type abstract_container;
+        typedef typename abstract_type::abstract_container abstract_container;
     public:
         typedef typename abstract_type::size_type size_type;
         typedef container::const_iterator<abstract_value_type, typename std_type::const_iterator> container_const_iterator;
-- 
2.43.0


From 7860b55ffb658fc0cf4f98e30d04f931b3eb4839 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:32:30 +0000
Subject: [PATCH 19/65] fix: string::capacity reported the size

---
 include/neolib/core/string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string.hpp b/include/neolib/core/string.hpp
index 6dfbc88..44204a5 100644
--- a/include/neolib/core/string.hpp
+++ b/include/neolib/core/string.hpp
@@ -108,7 +108,7 @@ namespace neolib
         abstract_iterator* do_erase(const abstract_const_iterator& aFirst, const abstract_const_iterator& aLast) final { return new container_iterator{ iString.erase(static_cast<const container_const_iterator&>(aFirst), static_cast<const container_const_iterator&>(aLast)) }; }
         // from i_sequence_container
     public:
-        size_type capacity() const final { return iString.size(); }
+        size_type capacity() const final { return iString.capacity(); }
         void reserve(size_type aCapacity) final { iString.reserve(aCapacity); }
         void resize(size_type aSize) final { iString.resize(aSize); }
         void resize(size_type aSize, const value_type& aValue) final { iString.resize(aSize, aValue); }
-- 
2.43.0


From 701f83d81342d17110165161c0d6aa4db23e829d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:12 +0000
Subject: [PATCH 20/65] fix: quick_string::find_last_not_of searched for the
 characters it was told to skip

---
 include/neolib/core/quick_string.hpp | 20 ++++++++++----------
 1 file changed, 10 insertions(+), 10 deletions(-)

diff --git a/include/neolib/core/quick_string.hpp b/include/neolib/core/quick_string.hpp
index b6c6075..fa08db5 100644
--- a/include/neolib/core/quick_string.hpp
+++ b/include/neolib/core/quick_string.hpp
@@ -499,37 +499,37 @@ namespace neolib
         size_type find_last_not_of(const basic_quick_string& str, size_type pos = npos) const
         {
             if (is_view())
-                return get_view_string().find_last_of(str.to_std_string_view(), pos);
+                return get_view_string().find_last_not_of(str.to_std_string_view(), pos);
             else
-                return get_string().find_last_of(str.to_std_string_view(), pos);
+                return get_string().find_last_not_of(str.to_std_string_view(), pos);
         }
         size_type find_last_not_of(const string_type& str, size_type pos = npos) const
         {
             if (is_view())
-                return get_view_string().find_last_of(str, pos);
+                return get_view_string().find_last_not_of(str, pos);
             else
-                return get_string().find_last_of(str, pos);
+                return get_string().find_last_not_of(str, pos);
         }
         size_type find_last_not_of(const CharT* s, size_type pos, size_type n) const
         {
             if (is_view())
-                return get_view_string().find_last_of(s, pos, n);
+                return get_view_string().find_last_not_of(s, pos, n);
             else
-                return get_string().find_last_of(s, pos, n);
+                return get_string().find_last_not_of(s, pos, n);
         }
         size_type find_last_not_of(const CharT* s, size_type pos = npos) const
         {
             if (is_view())
-                return get_view_string().find_last_of(s, pos);
+                return get_view_string().find_last_not_of(s, pos);
             else
-                return get_string().find_last_of(s, pos);
+                return get_string().find_last_not_of(s, pos);
         }
         size_type find_last_not_of(CharT c, size_type pos = npos) const
         {
             if (is_view())
-                return get_view_string().find_last_of(c, pos);
+                return get_view_string().find_last_not_of(c, pos);
             else
-                return get_string().find_last_of(c, pos);
+                return get_string().find_last_not_of(c, pos);
         }
         string_type substr(size_type pos = 0, size_type n = npos) const
         {
-- 
2.43.0


From 4a500b21e954c29e164acf131b17d2028b78b65c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:12 +0000
Subject: [PATCH 21/65] fix: assigning a character to a quick_string assigned
 two characters

---
 include/neolib/core/quick_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/quick_string.hpp b/include/neolib/core/quick_string.hpp
index fa08db5..9213d42 100644
--- a/include/neolib/core/quick_string.hpp
+++ b/include/neolib/core/quick_string.hpp
@@ -157,7 +157,7 @@ namespace neolib
         }
         basic_quick_string& operator=(CharT c) 
         { 
-            iContents = string_type{ 1, c }; 
+            iContents = string_type(1, c); 
             return *this; 
         }
         // iterators
-- 
2.43.0


From bb3876f1c9fb9154a54a0fc3a3fd0b6244803dcd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:35:12 +0000
Subject: [PATCH 22/65] fix: part of a quick_string could extend beyond its end

---
 include/neolib/core/quick_string.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/quick_string.hpp b/include/neolib/core/quick_string.hpp
index 9213d42..d28061e 100644
--- a/include/neolib/core/quick_string.hpp
+++ b/include/neolib/core/quick_string.hpp
@@ -98,7 +98,7 @@ namespace neolib
         {
         }
         basic_quick_string(const basic_quick_string& str, size_type pos, size_type n = npos) :
-            iContents{ view_contents_type{ string_view_type{ str.cbegin() + pos, (n == npos ? str.size() - pos : n) }, str.get_allocator() } } 
+            iContents{ view_contents_type{ string_view_type{ str.cbegin() + pos, std::min<size_type>(n, str.size() - pos) }, str.get_allocator() } } 
         {
         }
         explicit basic_quick_string(const string_view_type& view, const Alloc& a = Alloc()) :
-- 
2.43.0


From d75fadb29a5d13ea5a84de9992e6f088509f1b52 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:45 +0000
Subject: [PATCH 23/65] fix: tokens could return an empty token more than the
 maximum asked for

---
 include/neolib/core/string_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 5198ddb..087c6dd 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -164,7 +164,7 @@ namespace neolib
             aTokens.push_back(value_type{ b, e });
             b = e;
         }
-        else if (b == e && last && last.value() != e && !aSkipEmptyTokens)
+        else if (b == e && last && last.value() != e && !aSkipEmptyTokens && (aMaxTokens == 0 || tokens < aMaxTokens))
             aTokens.push_back(value_type{ e, e });
         return b;
     }
-- 
2.43.0


From f88e7c8184a9ad34575ff8f43f708f1c8c362b14 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:38:45 +0000
Subject: [PATCH 24/65] fix: wildcard_match of strings could not be
 instantiated

---
 include/neolib/core/string_utils.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 087c6dd..350522e 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -560,7 +560,7 @@ namespace neolib
     template <typename CharT, typename Traits, typename Alloc>
     inline bool wildcard_match(const std::basic_string<CharT, Traits, Alloc>& aText, const std::basic_string<CharT, Traits, Alloc>& aPattern)
     {
-        return do_wildcard_match<CharT, Traits, std::basic_string<CharT, Traits, Alloc>::const_iterator>(aText.begin(), aText.end(), aPattern.begin(), aPattern.end());
+        return do_wildcard_match<CharT, Traits, typename std::basic_string<CharT, Traits, Alloc>::const_iterator>(aText.begin(), aText.end(), aPattern.begin(), aPattern.end());
     }
 
     class string_search_fsa
-- 
2.43.0


From 55e415bbcad11a7da1c55916711315512874bc8c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:41:40 +0000
Subject: [PATCH 25/65] fix: wildcard_match required the last part of the
 pattern to match where it first occurs

---
 include/neolib/core/string_utils.hpp | 7 ++++++-
 1 file changed, 6 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/string_utils.hpp b/include/neolib/core/string_utils.hpp
index 350522e..33d52e1 100644
--- a/include/neolib/core/string_utils.hpp
+++ b/include/neolib/core/string_utils.hpp
@@ -537,7 +537,12 @@ namespace neolib
         for (typename substrings_t::const_iterator i = substrings.begin(); i != substrings.end();)
         {
             substring_t theSubstring = *i++;
-            FwdIter nextMatch = std::search(previousMatch, aTextEnd, theSubstring.first, theSubstring.second, detail::wildcard_compare<Traits>());
+            auto const length = theSubstring.second - theSubstring.first;
+            if (aTextEnd - previousMatch < length)
+                return false;
+            // a substring at the end of the pattern can only match at the end of the text
+            bool const matchEnd = (theSubstring.second == aPatternEnd && theSubstring.first != aPatternBegin);
+            FwdIter nextMatch = std::search(matchEnd ? aTextEnd - length : previousMatch, aTextEnd, theSubstring.first, theSubstring.second, detail::wildcard_compare<Traits>());
             if (nextMatch == aTextEnd)
                 return false;
             if (theSubstring.first == aPatternBegin && nextMatch != aTextBegin)
-- 
2.43.0


From 1ee3fbd951c92cc42e4e2df22cd8d88e85b64199 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 02:52:17 +0000
Subject: [PATCH 26/65] fix: swapping two small vectors exchanged pointers into
 their own buffers

---
 include/neolib/core/static_vector.hpp | 9 +++++++++
 1 file changed, 9 insertions(+)

diff --git a/include/neolib/core/static_vector.hpp b/include/neolib/core/static_vector.hpp
index 67bf52a..ff99560 100644
--- a/include/neolib/core/static_vector.hpp
+++ b/include/neolib/core/static_vector.hpp
@@ -135,6 +135,15 @@ namespace neolib
             std_type::operator=(ilist);
             return *this;
         }
+        // modifiers
+    public:
+        constexpr void swap(growable_static_vector& other)
+        {
+            // elements may be stored in place so exchanging storage is not possible
+            growable_static_vector temp{ other };
+            other = *this;
+            *this = temp;
+        }
         // operations
     public:
         const std_type& as_std_vector() const
-- 
2.43.0


From 50c022b161b268385fb44642098724d15a78a164 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:28 +0000
Subject: [PATCH 27/65] fix: sync_trigger wrote to an event destroyed by a slot
 and left stale acceptance behind

---
 include/neolib/task/event.hpp | 13 +++++++------
 1 file changed, 7 insertions(+), 6 deletions(-)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index f003f02..2b0f839 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -176,6 +176,13 @@ namespace neolib
                 workLists.push_back(std::make_unique<work_list>());
             auto& workList = *workLists[stack - 1];
             scoped_pointer<work_list> activeWorkList{ iActiveWorkList, &workList };
+            scoped_cleanup cleanup{ [&]()
+            {
+                workList.slots.clear();
+                workList.accepted = false;
+                if (destroyed)
+                    activeWorkList.ignore();
+            } };
             workList.slots = iSlots;
             lock.unlock();
 
@@ -188,15 +195,9 @@ namespace neolib
                 if (destroyed)
                     return trigger_result::Unaccepted;
                 if (workList.accepted)
-                {
-                    workList.accepted = false;
                     return trigger_result::Accepted;
-                }
             }
 
-            workList.slots.clear();
-            workList.accepted = false;
-
             return trigger_result::Unaccepted;
         }
         void async_trigger(Args... aArgs) const final
-- 
2.43.0


From e19b7015066a016a22aa81871b3a0da8641f792c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:28 +0000
Subject: [PATCH 28/65] fix: slots owned by an event altered its list of slots
 while it was being destroyed

---
 include/neolib/task/event.hpp | 1 +
 1 file changed, 1 insertion(+)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index 2b0f839..8ce0615 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -141,6 +141,7 @@ namespace neolib
         }
         ~event()
         {
+            this->set_destroyed();
         }
     public:
         event& operator=(event const& aOther)
-- 
2.43.0


From c1fc6d959831aab401a672f249224397e1688958 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:28 +0000
Subject: [PATCH 29/65] fix: assigning a sink to itself dropped its
 subscriptions

---
 include/neolib/task/i_event.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/neolib/task/i_event.hpp b/include/neolib/task/i_event.hpp
index 7ef64c5..29270a9 100644
--- a/include/neolib/task/i_event.hpp
+++ b/include/neolib/task/i_event.hpp
@@ -298,6 +298,8 @@ namespace neolib
     public:
         sink& operator=(sink const& aOther)
         {
+            if (&aOther == this)
+                return *this;
             std::scoped_lock lock{ iMutex, aOther.iMutex };
             clear();
             iSlots = aOther.iSlots;
-- 
2.43.0


From 93c35964126e870422834af58527484dede95f56 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:28 +0000
Subject: [PATCH 30/65] fix: event queues of different threads were registered
 without locking the registry

---
 src/task/event.cpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/task/event.cpp b/src/task/event.cpp
index 173b55f..6c9faf8 100644
--- a/src/task/event.cpp
+++ b/src/task/event.cpp
@@ -77,14 +77,14 @@ namespace neolib
 
     async_event_queue::async_event_queue()
     {
-        std::scoped_lock lock{ iMutex };
+        std::scoped_lock lock{ instance_map().mutex };
         if (instance_map().find(std::this_thread::get_id()) == instance_map().end())
             instance_map()[std::this_thread::get_id()] = this;
     }
 
     async_event_queue::~async_event_queue()
     {
-        std::scoped_lock lock{ iMutex };
+        std::scoped_lock lock{ instance_map().mutex };
         auto existing = instance_map().find(std::this_thread::get_id());
         if (existing != instance_map().end())
             instance_map().erase(existing);
-- 
2.43.0


From 51ece4d5562120f2d2dc09f154bc4875f34e243d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:30:28 +0000
Subject: [PATCH 31/65] fix: queued calls were made again after one of them
 threw

---
 src/task/event.cpp | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/task/event.cpp b/src/task/event.cpp
index 6c9faf8..6cdc213 100644
--- a/src/task/event.cpp
+++ b/src/task/event.cpp
@@ -109,6 +109,13 @@ namespace neolib
         if (workLists.size() < stack)
             workLists.push_back(std::make_unique<work_list>());
         auto& workList = *workLists[stack - 1];
+        std::size_t done = 0;
+        scoped_cleanup cleanup{ [&]()
+        {
+            std::scoped_lock lock{ iMutex };
+            iQueue.multiple.insert(iQueue.multiple.begin(), std::next(workList.begin(), done), workList.end());
+            workList.clear();
+        } };
         workList.swap(iQueue.multiple);
         for (auto const& se : iQueue.single)
             workList.push_back(se.second);
@@ -117,12 +124,12 @@ namespace neolib
         bool didSome = false;
         for (auto& entry : workList)
         {
+            ++done;
             if (entry.eventDestroyed || entry.slotDestroyed)
                 continue;
             entry.callback();
             didSome = true;
         }
-        workList.clear();
         return didSome;
     }
 }
\ No newline at end of file
-- 
2.43.0


From dc959672bc5b6b653514695ced8a61826208d623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:31:38 +0000
Subject: [PATCH 32/65] fix: a call queued for a destroyed event swallowed that
 of a new event at its address

---
 include/neolib/task/event.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/task/event.hpp b/include/neolib/task/event.hpp
index 8ce0615..a90b2bb 100644
--- a/include/neolib/task/event.hpp
+++ b/include/neolib/task/event.hpp
@@ -100,7 +100,7 @@ namespace neolib
                 auto existing = iQueue.single.find(key);
                 if (existing != iQueue.single.end())
                 {
-                    existing->second.callback = callback;
+                    existing->second = queue_entry{ &event, event, &aSlot, aSlot, callback };
                     return;
                 }
                 iQueue.single.emplace(key, queue_entry{ &event, event, &aSlot, aSlot, callback });
-- 
2.43.0


From c92a69576086dc206df48ef4a53df3e6b2d4d61d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:42:04 +0000
Subject: [PATCH 33/65] fix: a jar gave out cookies in use once its cookies had
 run out

---
 include/neolib/core/jar.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/jar.hpp b/include/neolib/core/jar.hpp
index a65b8e3..13d791b 100644
--- a/include/neolib/core/jar.hpp
+++ b/include/neolib/core/jar.hpp
@@ -410,9 +410,9 @@ namespace neolib
                 return nextCookie;
             }
             auto const nextCookie = static_cast<cookie_type>(static_cast<underlying_cookie_type>(iNextAvailableCookie.load()) + underlying_cookie_type{ 1 });
-            iNextAvailableCookie = nextCookie;
             if (nextCookie == INVALID_COOKIE)
                 throw cookies_exhausted();
+            iNextAvailableCookie = nextCookie;
             assert(std::find(free_cookies().begin(), free_cookies().end(), nextCookie) == free_cookies().end());
             return nextCookie;
         }
@@ -730,9 +730,9 @@ namespace neolib
                 return nextCookie;
             }
             auto const nextCookie = static_cast<cookie_type>(static_cast<underlying_cookie_type>(iNextAvailableCookie.load()) + underlying_cookie_type{ 1 });
-            iNextAvailableCookie = nextCookie;
             if (nextCookie == INVALID_COOKIE)
                 throw cookies_exhausted();
+            iNextAvailableCookie = nextCookie;
             assert(std::find(free_cookies().begin(), free_cookies().end(), nextCookie) == free_cookies().end());
             return nextCookie;
         }
-- 
2.43.0


From 443490e19fede8559e7a05126d463d09fce57690 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 03:45:28 +0000
Subject: [PATCH 34/65] fix: setting the service provider in use again
 destroyed it and its registrations

---
 src/core/service.cpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/core/service.cpp b/src/core/service.cpp
index 5ca35a4..261e431 100644
--- a/src/core/service.cpp
+++ b/src/core/service.cpp
@@ -96,6 +96,8 @@ namespace neolib::services
 
         void migrate_to(i_service_provider& aOtherProvider) final
         {
+            if (&aOtherProvider == this)
+                return;
             std::scoped_lock lock{ mutex, aOtherProvider };
             for (auto& service : services)
                 aOtherProvider.register_service(*service.second, service.first);
@@ -146,6 +148,8 @@ namespace neolib::services
         auto& instance = get_service_provider_instance();
         std::unique_lock lock{ instance.mutex };
         auto previous = instance.instance;
+        if (previous.get() == &aServiceProvider)
+            return;
         instance.instance = std::shared_ptr<i_service_provider>{ std::shared_ptr<i_service_provider>{}, &aServiceProvider };
         if (previous != nullptr)
             previous->migrate_to(aServiceProvider);
-- 
2.43.0


From 114d95bb06af1263edb3bf5e6f89cd55f56241f4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:27:40 +0000
Subject: [PATCH 35/65] fix: setting values of enumerations whose underlying
 type is not int32_t are accessed as what they are

---
 include/neolib/app/i_setting_value.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/neolib/app/i_setting_value.hpp b/include/neolib/app/i_setting_value.hpp
index f51284d..7af4cee 100644
--- a/include/neolib/app/i_setting_value.hpp
+++ b/include/neolib/app/i_setting_value.hpp
@@ -149,6 +149,8 @@ namespace neolib
             {
                 if constexpr (std::is_same_v<T, i_enum>)
                     return *static_cast<i_enum const*>(data());
+                else if constexpr (std::is_enum_v<T>)
+                    return static_cast<i_enum_t<T> const*>(data())->template value<T>();
                 else if constexpr (std::is_scalar_v<T>)
                     return static_cast<i_enum const*>(data())->value<T>();
                 else
@@ -164,6 +166,8 @@ namespace neolib
             {
                 if constexpr (std::is_same_v<T, i_enum>)
                     *static_cast<i_enum*>(data()) = aNewValue;
+                else if constexpr (std::is_enum_v<T>)
+                    static_cast<i_enum_t<T>*>(data())->template set_value<T>(aNewValue);
                 else if constexpr (std::is_scalar_v<T>)
                     static_cast<i_enum*>(data())->set_value<T>(aNewValue);
                 else
-- 
2.43.0


From f249357eb496859d3346aad7f9d8959ee8ff7a48 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:22 +0000
Subject: [PATCH 36/65] fix: comparing an i_optional with a value called a
 member that does not exist

---
 include/neolib/core/i_optional.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/i_optional.hpp b/include/neolib/core/i_optional.hpp
index 2827497..62b22b7 100644
--- a/include/neolib/core/i_optional.hpp
+++ b/include/neolib/core/i_optional.hpp
@@ -120,7 +120,7 @@ namespace neolib
     {
         if (!lhs.has_value())
             return false;
-        return lhs.get() == rhs;
+        return lhs.value() == rhs;
     }
 
     template <typename T, typename U, typename = std::enable_if_t<!is_optional_v<U>, sfinae>>
@@ -128,7 +128,7 @@ namespace neolib
     {
         if (!rhs.has_value())
             return false;
-        return lhs == rhs.get();
+        return lhs == rhs.value();
     }
 
     template <typename T, typename U, typename = std::enable_if_t<!is_optional_v<U>, sfinae>>
@@ -136,7 +136,7 @@ namespace neolib
     {
         if (!lhs.has_value())
             return std::partial_ordering::less;
-        return lhs.get() <=> rhs;
+        return lhs.value() <=> rhs;
     }
 
     template <typename T, typename U, typename = std::enable_if_t<!is_optional_v<U>, sfinae>>
@@ -144,6 +144,6 @@ namespace neolib
     {
         if (!rhs.has_value())
             return std::partial_ordering::greater;
-        return lhs <=> rhs.get();
+        return lhs <=> rhs.value();
     }
 }
-- 
2.43.0


From 3417b637216bc5efbcd2835be888bdd84cb68aac Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 04:59:22 +0000
Subject: [PATCH 37/65] fix: reading '?' into an optional that has a value left
 the value in it

---
 include/neolib/core/optional.hpp | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/include/neolib/core/optional.hpp b/include/neolib/core/optional.hpp
index 533428a..7ad6a47 100644
--- a/include/neolib/core/optional.hpp
+++ b/include/neolib/core/optional.hpp
@@ -365,6 +365,8 @@ namespace neolib
             aOptional.emplace();
             aStream >> aOptional.value();
         }
+        else
+            aOptional.reset();
         return aStream;
     }
 }
-- 
2.43.0


From 0657be636818631fb618fd3b7cd5815f647c1145 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:08:34 +0000
Subject: [PATCH 38/65] fix: gap_vector::at read out of bounds for positions
 that wrap around when the gap is added

---
 include/neolib/core/gap_vector.hpp | 10 ++++------
 1 file changed, 4 insertions(+), 6 deletions(-)

diff --git a/include/neolib/core/gap_vector.hpp b/include/neolib/core/gap_vector.hpp
index 7c854f6..67045c6 100644
--- a/include/neolib/core/gap_vector.hpp
+++ b/include/neolib/core/gap_vector.hpp
@@ -344,16 +344,14 @@ namespace neolib
     public:
         constexpr const_reference at(size_type pos) const
         {
-            pos = adjusted_index(pos);
-            if (pos < iDataEnd - iData)
-                return iData[pos];
+            if (pos < size())
+                return iData[adjusted_index(pos)];
             throw std::out_of_range("neolib::gap_vector::at");
         }
         constexpr reference at(size_type pos)
         {
-            pos = adjusted_index(pos);
-            if (pos < iDataEnd - iData)
-                return iData[pos];
+            if (pos < size())
+                return iData[adjusted_index(pos)];
             throw std::out_of_range("neolib::gap_vector::at");
         }
         constexpr const_reference operator[](size_type pos) const
-- 
2.43.0


From 8bdfad1f824140340f3b21a61bb1fa6be9c71320 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:22 +0000
Subject: [PATCH 39/65] fix: version::operator< compared its own maintenance
 number with itself

---
 include/neolib/app/version.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/app/version.hpp b/include/neolib/app/version.hpp
index 2cd76ab..d0eef04 100644
--- a/include/neolib/app/version.hpp
+++ b/include/neolib/app/version.hpp
@@ -78,7 +78,7 @@ namespace neolib
     public:
         bool operator<(const version& aOther) const
         {
-            return std::make_tuple(iMajor, iMinor, iMaintenance, iBuild) < std::make_tuple(aOther.iMajor, aOther.iMinor, iMaintenance, aOther.iBuild);
+            return std::make_tuple(iMajor, iMinor, iMaintenance, iBuild) < std::make_tuple(aOther.iMajor, aOther.iMinor, aOther.iMaintenance, aOther.iBuild);
         }
         bool operator>(const version& aOther) const
         {
-- 
2.43.0


From 16fb75ede971ea90f8e997572858d7f4921ca0fa Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:22 +0000
Subject: [PATCH 40/65] fix: version: the name in a version string was never
 read

---
 include/neolib/app/version.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/app/version.hpp b/include/neolib/app/version.hpp
index d0eef04..48d5a0c 100644
--- a/include/neolib/app/version.hpp
+++ b/include/neolib/app/version.hpp
@@ -57,7 +57,7 @@ namespace neolib
             iMajor(0), iMinor(0), iMaintenance(0), iBuild(0), iName("")
         {
             neolib::vecarray<std::string, 5> bits;
-            neolib::tokens(aVersionString, std::string(". "), bits, 4);
+            neolib::tokens(aVersionString, std::string(". "), bits, 5);
             if (bits.size() > 0)
                 iMajor = neolib::string_to_uint32(bits[0]);
             if (bits.size() > 1)
@@ -67,7 +67,7 @@ namespace neolib
             if (bits.size() > 3)
                 iBuild = neolib::string_to_uint32(bits[3]);
             if (bits.size() > 4)
-                iName = bits[3];
+                iName = bits[4];
         }
         version(const i_version& aOther) :
             iMajor(aOther.version_major()), iMinor(aOther.version_minor()), iMaintenance(aOther.version_maintenance()), iBuild(aOther.version_build()), iName(aOther.version_name())
-- 
2.43.0


From e15d3d04fb8b49869ed0be0d6d19b4b3cbd35333 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:22 +0000
Subject: [PATCH 41/65] fix: basic_enum::to_string dereferenced end() for a
 value without enumerator

---
 include/neolib/core/enum.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/enum.hpp b/include/neolib/core/enum.hpp
index bb94a36..26f605e 100644
--- a/include/neolib/core/enum.hpp
+++ b/include/neolib/core/enum.hpp
@@ -101,7 +101,7 @@ namespace neolib
     public:
         void to_string(i_string& aString) const final
         {
-            aString = enumerators().find(value())->second();
+            aString = enum_to_string(static_cast<enum_type>(value()));
         }
         const typename base_type::enumerators_t& enumerators() const final
         {
-- 
2.43.0


From 98f8b22d3572eeb099e7c140914d0ce1b4a43cef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:22 +0000
Subject: [PATCH 42/65] fix: string_to_number dropped the fraction and the
 exponent of a number

---
 include/neolib/core/string_numeric.hpp | 16 ++++++++++++----
 1 file changed, 12 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/string_numeric.hpp b/include/neolib/core/string_numeric.hpp
index 2f941cd..0890a1c 100644
--- a/include/neolib/core/string_numeric.hpp
+++ b/include/neolib/core/string_numeric.hpp
@@ -120,24 +120,32 @@ namespace neolib
     inline number_t string_to_number(const std::basic_string_view<CharT, Traits>& aStringView)
     {
         namespace qi = boost::spirit::qi;
+        auto const fractional = [&aStringView](auto next)
+        {
+            return next != aStringView.end() && (*next == CharT{ '.' } || *next == CharT{ 'e' } || *next == CharT{ 'E' });
+        };
         {
             std::int32_t result = 0;
-            if (qi::parse(aStringView.begin(), aStringView.end(), qi::int_, result))
+            auto next = aStringView.begin();
+            if (qi::parse(next, aStringView.end(), qi::int_, result) && !fractional(next))
                 return result;
         }
         {
             std::uint32_t result = 0u;
-            if (qi::parse(aStringView.begin(), aStringView.end(), qi::uint_, result))
+            auto next = aStringView.begin();
+            if (qi::parse(next, aStringView.end(), qi::uint_, result) && !fractional(next))
                 return result;
         }
         {
             std::int64_t result = 0ll;
-            if (qi::parse(aStringView.begin(), aStringView.end(), qi::long_long, result))
+            auto next = aStringView.begin();
+            if (qi::parse(next, aStringView.end(), qi::long_long, result) && !fractional(next))
                 return result;
         }
         {
             std::uint64_t result = 0ull;
-            if (qi::parse(aStringView.begin(), aStringView.end(), qi::ulong_long, result))
+            auto next = aStringView.begin();
+            if (qi::parse(next, aStringView.end(), qi::ulong_long, result) && !fractional(next))
                 return result;
         }
         {
-- 
2.43.0


From 4c81467e372b26f264c32ce8a27dbca957486506 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:22 +0000
Subject: [PATCH 43/65] fix: string_to_int32 discarded its own result

---
 include/neolib/core/string_numeric.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/string_numeric.hpp b/include/neolib/core/string_numeric.hpp
index 0890a1c..32dc4ac 100644
--- a/include/neolib/core/string_numeric.hpp
+++ b/include/neolib/core/string_numeric.hpp
@@ -57,7 +57,7 @@ namespace neolib
     inline std::int32_t string_to_int32(const std::basic_string<CharT, Traits, Alloc>& aString, int aBase = 10)
     {
         if (aBase == 10) // todo: does spirit provide other bases?
-            string_to_int32(static_cast<std::basic_string_view<CharT, Traits>>(aString));
+            return string_to_int32(static_cast<std::basic_string_view<CharT, Traits>>(aString));
         return strtol(aString.c_str(), nullptr, aBase);
     }
         
-- 
2.43.0


From d1dd2ad67bfd3dfccd4375703342286554baf215 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:22 +0000
Subject: [PATCH 44/65] fix: segmented_tree: postfix increment and decrement of
 iterators moved the result instead of the iterator

---
 include/neolib/core/segmented_tree.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/neolib/core/segmented_tree.hpp b/include/neolib/core/segmented_tree.hpp
index 31ac047..354f30e 100644
--- a/include/neolib/core/segmented_tree.hpp
+++ b/include/neolib/core/segmented_tree.hpp
@@ -304,10 +304,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_iterator operator++(int) const
+            basic_iterator operator++(int)
             {
                 basic_iterator temp = *this;
-                ++temp;
+                ++*this;
                 return temp;
             }
             basic_iterator& operator--()
@@ -327,10 +327,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_iterator operator--(int) const
+            basic_iterator operator--(int)
             {
                 basic_iterator temp = *this;
-                --temp;
+                --*this;
                 return temp;
             }
         public:
@@ -470,10 +470,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_const_iterator operator++(int) const
+            basic_const_iterator operator++(int)
             {
                 basic_const_iterator temp = *this;
-                ++temp;
+                ++*this;
                 return temp;
             }
             basic_const_iterator& operator--()
@@ -493,10 +493,10 @@ namespace neolib
                 }
                 return *this;
             }
-            basic_const_iterator operator--(int) const
+            basic_const_iterator operator--(int)
             {
                 basic_const_iterator temp = *this;
-                --temp;
+                --*this;
                 return temp;
             }
         public:
-- 
2.43.0


From 23dd6d521b6fd5392b6133aa42c66306c0280b7a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:22 +0000
Subject: [PATCH 45/65] fix: segmented_tree::erase left the descendants of the
 erased node in size()

---
 include/neolib/core/segmented_tree.hpp | 9 +++++----
 1 file changed, 5 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/segmented_tree.hpp b/include/neolib/core/segmented_tree.hpp
index 354f30e..04f4468 100644
--- a/include/neolib/core/segmented_tree.hpp
+++ b/include/neolib/core/segmented_tree.hpp
@@ -210,11 +210,11 @@ namespace neolib
                 if (!is_root())
                     parent().increment_descendent_count();
             }
-            void decrement_descendent_count()
+            void decrement_descendent_count(std::size_t aCount)
             {
-                --iDescendentCount;
+                iDescendentCount -= aCount;
                 if (!is_root())
-                    parent().decrement_descendent_count();
+                    parent().decrement_descendent_count(aCount);
             }
             std::size_t skipped_descendent_count() const
             {
@@ -789,8 +789,9 @@ namespace neolib
         {
             auto mutablePos = std::next(begin(), std::distance(cbegin(), pos));
             node& parent = mutablePos.parent_node();
+            auto const count = mutablePos.descendent_count() + 1;
             auto result = iterator{ parent, parent.children().erase(mutablePos.base()) };
-            parent.decrement_descendent_count();
+            parent.decrement_descendent_count(count);
             return result;
         }
         void sort()
-- 
2.43.0


From 29aedb9754688769db9f699ee564681c1712056e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:55:22 +0000
Subject: [PATCH 46/65] fix: segmented_tree::ksize was wrong with nested
 skipped nodes and after modifying a skipped node

---
 include/neolib/core/segmented_tree.hpp | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/segmented_tree.hpp b/include/neolib/core/segmented_tree.hpp
index 04f4468..2fec2f4 100644
--- a/include/neolib/core/segmented_tree.hpp
+++ b/include/neolib/core/segmented_tree.hpp
@@ -208,13 +208,21 @@ namespace neolib
             {
                 ++iDescendentCount;
                 if (!is_root())
+                {
+                    if (iSkipChildren)
+                        parent().increment_skipped_descendent_count(1);
                     parent().increment_descendent_count();
+                }
             }
             void decrement_descendent_count(std::size_t aCount)
             {
                 iDescendentCount -= aCount;
                 if (!is_root())
+                {
+                    if (iSkipChildren)
+                        parent().decrement_skipped_descendent_count(aCount);
                     parent().decrement_descendent_count(aCount);
+                }
             }
             std::size_t skipped_descendent_count() const
             {
@@ -223,13 +231,13 @@ namespace neolib
             void increment_skipped_descendent_count(std::size_t aCount)
             {
                 iSkippedDescendentCount += aCount;
-                if (!is_root())
+                if (!is_root() && !iSkipChildren) // when our children are skipped all of them are already accounted for
                     parent().increment_skipped_descendent_count(aCount);
             }
             void decrement_skipped_descendent_count(std::size_t aCount)
             {
                 iSkippedDescendentCount -= aCount;
-                if (!is_root())
+                if (!is_root() && !iSkipChildren)
                     parent().decrement_skipped_descendent_count(aCount);
             }
             void update_parents(node& parent)
@@ -790,6 +798,8 @@ namespace neolib
             auto mutablePos = std::next(begin(), std::distance(cbegin(), pos));
             node& parent = mutablePos.parent_node();
             auto const count = mutablePos.descendent_count() + 1;
+            mutablePos.unskip_children();
+            parent.decrement_skipped_descendent_count(mutablePos.our_node().skipped_descendent_count());
             auto result = iterator{ parent, parent.children().erase(mutablePos.base()) };
             parent.decrement_descendent_count(count);
             return result;
-- 
2.43.0


From b5c756601384adb6733db3cf85ee58bdc2856a96 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:29 +0000
Subject: [PATCH 47/65] fix: indexitor: the foreign index of end() counted the
 elements below the last node twice

---
 include/neolib/core/indexitor.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/indexitor.hpp b/include/neolib/core/indexitor.hpp
index c8fa962..d42dabd 100644
--- a/include/neolib/core/indexitor.hpp
+++ b/include/neolib/core/indexitor.hpp
@@ -537,7 +537,7 @@ namespace neolib
             if (aPosition.iNode != nullptr)
                 return do_foreign_index(aPosition.iNode) + aPosition.iNode->skip().first;
             else
-                return empty() ? foreign_index_type{} : do_foreign_index(static_cast<const node*>(base_type::back_node())) + base_type::back_node()->foreign_index();
+                return empty() ? foreign_index_type{} : do_foreign_index(static_cast<const node*>(base_type::back_node())) + base_type::back_node()->centre_foreign_index();
         }
         foreign_index_type skip_before(const_iterator aPosition) const
         {
-- 
2.43.0


From 9e52cdc557287f5f17631e60c4ebbf76269bfbf8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 05:59:30 +0000
Subject: [PATCH 48/65] fix: indexitor: copying dropped the skips

---
 include/neolib/core/indexitor.hpp | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/include/neolib/core/indexitor.hpp b/include/neolib/core/indexitor.hpp
index d42dabd..dc444d1 100644
--- a/include/neolib/core/indexitor.hpp
+++ b/include/neolib/core/indexitor.hpp
@@ -315,7 +315,8 @@ namespace neolib
         indexitor(const indexitor& aOther, const Alloc& aAllocator = Alloc()) :
             iAllocator(aAllocator), iSize(0)
         {
-            insert(begin(), aOther.begin(), aOther.end());
+            for (auto i = aOther.begin(); i != aOther.end(); ++i)
+                push_back(*i, skip_type{ aOther.skip_before(i), aOther.skip_after(i) });
         }
         ~indexitor()
         {
-- 
2.43.0


From b4e4d766def324399576a67b949e842b4a719939 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:00:06 +0000
Subject: [PATCH 49/65] fix: indexitor::find_by_foreign_index found elements in
 the gap after them

---
 include/neolib/core/indexitor.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/indexitor.hpp b/include/neolib/core/indexitor.hpp
index dc444d1..fd28b62 100644
--- a/include/neolib/core/indexitor.hpp
+++ b/include/neolib/core/indexitor.hpp
@@ -515,7 +515,7 @@ namespace neolib
             auto n = base_type::find_node_by_foreign_index(aForeignIndex, nodeIndex, nodeForeignIndex, aPred);
             if (!n->is_nil() &&
                 !aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->skip().first) &&
-                aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->foreign_index() - static_cast<node*>(n)->skip().second))
+                aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->centre_foreign_index() - static_cast<node*>(n)->skip().second))
                 return std::make_pair(const_iterator{*this, static_cast<node*>(n)}, nodeForeignIndex + static_cast<node*>(n)->skip().first);
             else
                 return std::make_pair(end(), foreign_index(end()));
@@ -528,7 +528,7 @@ namespace neolib
             auto n = base_type::find_node_by_foreign_index(aForeignIndex, nodeIndex, nodeForeignIndex, aPred);
             if (!n->is_nil() && 
                 !aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->skip().first) &&
-                aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->foreign_index() - static_cast<node*>(n)->skip().second))
+                aPred(aForeignIndex - nodeForeignIndex, static_cast<node*>(n)->centre_foreign_index() - static_cast<node*>(n)->skip().second))
                 return std::make_pair(iterator{*this, static_cast<node*>(n)}, nodeForeignIndex + static_cast<node*>(n)->skip().first);
             else
                 return std::make_pair(end(), foreign_index(end()));
-- 
2.43.0


From 1435e0aef6aa19af25fb6c7bf17d15debac6046f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:46 +0000
Subject: [PATCH 50/65] fix: small_vector was declared twice with default
 template arguments (ill-formed)

---
 include/neolib/core/small_vector.hpp | 6 ------
 1 file changed, 6 deletions(-)

diff --git a/include/neolib/core/small_vector.hpp b/include/neolib/core/small_vector.hpp
index 50bbc48..07a5497 100644
--- a/include/neolib/core/small_vector.hpp
+++ b/include/neolib/core/small_vector.hpp
@@ -37,9 +37,3 @@
 
 #include <neolib/neolib.hpp>
 #include <neolib/core/static_vector.hpp>
-
-namespace neolib
-{
-    template<typename T, std::size_t Capacity, std::size_t MaxCapacity = -1, typename Alloc = std::allocator<T>>
-    using small_vector = growable_static_vector<T, Capacity, MaxCapacity, Alloc>;
-}
-- 
2.43.0


From 191d081044e75011706a3d44f98d74a925ac6686 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:46 +0000
Subject: [PATCH 51/65] fix: intrusive_sort did not include what it uses

---
 include/neolib/core/intrusive_sort.hpp | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/include/neolib/core/intrusive_sort.hpp b/include/neolib/core/intrusive_sort.hpp
index ce97414..36cd993 100644
--- a/include/neolib/core/intrusive_sort.hpp
+++ b/include/neolib/core/intrusive_sort.hpp
@@ -36,6 +36,9 @@
 #pragma once
 
 #include <neolib/neolib.hpp>
+#include <cmath>
+#include <iterator>
+#include <functional>
 
 namespace neolib 
 {
-- 
2.43.0


From e5eeee2b8092e19103c4573887f83f955b77e6e2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 06:59:46 +0000
Subject: [PATCH 52/65] fix: ecs::add_handle wrote past the end of the handles

---
 src/ecs/ecs.cpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/ecs/ecs.cpp b/src/ecs/ecs.cpp
index 0d5d91c..df7ee22 100644
--- a/src/ecs/ecs.cpp
+++ b/src/ecs/ecs.cpp
@@ -539,7 +539,7 @@ namespace neolib::ecs
         std::unique_lock lock{ mutex() };
         auto nextHandleId = next_handle_id();
         if (iHandles.size() <= nextHandleId)
-            iHandles.resize(nextHandleId);
+            iHandles.resize(nextHandleId + 1);
         iHandles[nextHandleId] = aHandle;
         return nextHandleId;
     }
-- 
2.43.0


From f411084d7268a4c4dfa9e75e721ace114a4f1151 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 07:57:41 +0000
Subject: [PATCH 53/65] fix: the heap sort of intrusive_sort left the last
 element out of the heap

---
 include/neolib/core/intrusive_sort.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/intrusive_sort.hpp b/include/neolib/core/intrusive_sort.hpp
index 36cd993..9192f9f 100644
--- a/include/neolib/core/intrusive_sort.hpp
+++ b/include/neolib/core/intrusive_sort.hpp
@@ -114,7 +114,7 @@ namespace neolib
             while (start > first)
             {
                 --start;
-                siftDown(first, start, end, swapper, comp);
+                siftDown(first, start, last, swapper, comp);
             }
         }
             
-- 
2.43.0


From 54e39c3141ebbb1602db104e5a96fd1dcc81913e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:58 +0000
Subject: [PATCH 54/65] fix: any_iterator: post-increment and post-decrement
 moved the copy they returned

---
 include/neolib/core/any_iterator.hpp | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/any_iterator.hpp b/include/neolib/core/any_iterator.hpp
index 7dc119e..4e5dadf 100644
--- a/include/neolib/core/any_iterator.hpp
+++ b/include/neolib/core/any_iterator.hpp
@@ -134,7 +134,7 @@ namespace neolib
             if (empty())
                 throw is_empty();
             any_const_iterator ret = *this;
-            ++ret;
+            ++(*iHolder);
             return ret;
         }
         any_const_iterator& operator--()
@@ -149,7 +149,7 @@ namespace neolib
             if (empty())
                 throw is_empty();
             any_const_iterator ret = *this;
-            --ret;
+            --(*iHolder);
             return ret;
         }
         friend bool operator==(const any_const_iterator& aLeft, const any_const_iterator& aRight)
@@ -290,7 +290,7 @@ namespace neolib
             if (empty())
                 throw is_empty();
             any_iterator ret = *this;
-            ++ret;
+            ++(*iHolder);
             return ret;
         }
         any_iterator& operator--()
@@ -305,7 +305,7 @@ namespace neolib
             if (empty())
                 throw is_empty();
             any_iterator ret = *this;
-            --ret;
+            --(*iHolder);
             return ret;
         }
         friend bool operator==(const any_iterator& aLeft, const any_iterator& aRight)
-- 
2.43.0


From 89e4c44b3b59aa68bb89020d4a9dd3e47ba27c72 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:58 +0000
Subject: [PATCH 55/65] fix: any_iterator wrote past its storage for iterators
 of nearly its size

---
 include/neolib/core/any_iterator.hpp | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/include/neolib/core/any_iterator.hpp b/include/neolib/core/any_iterator.hpp
index 4e5dadf..f48e15a 100644
--- a/include/neolib/core/any_iterator.hpp
+++ b/include/neolib/core/any_iterator.hpp
@@ -176,7 +176,7 @@ namespace neolib
         template <typename T>
         holder_base* create(const T& aData)
         {
-            if (sizeof(T) <= sizeof(iSpace.iBytes))
+            if (sizeof(holder<T>) <= sizeof(iSpace.iBytes))
                 iHolder = new (iSpace.iBytes) holder<T>(aData);
             else
                 iHolder = new holder<T>(aData);
@@ -332,7 +332,7 @@ namespace neolib
         template <typename T>
         holder_base* create(const T& aData)
         {
-            if (sizeof(T) <= sizeof(iSpace.iBytes))
+            if (sizeof(holder<T>) <= sizeof(iSpace.iBytes))
                 iHolder = new (iSpace.iBytes) holder<T>(aData);
             else
                 iHolder = new holder<T>(aData);
-- 
2.43.0


From 6209b60f1e9c395167b42f1ce1767adeafd69ed1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:58 +0000
Subject: [PATCH 56/65] fix: any_iterator lost its iterator when assigned to
 itself

---
 include/neolib/core/any_iterator.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/neolib/core/any_iterator.hpp b/include/neolib/core/any_iterator.hpp
index f48e15a..46815b9 100644
--- a/include/neolib/core/any_iterator.hpp
+++ b/include/neolib/core/any_iterator.hpp
@@ -113,6 +113,8 @@ namespace neolib
         ~any_const_iterator() { destroy(); }
         any_const_iterator& operator=(const any_const_iterator& aOther) 
         { 
+            if (&aOther == this)
+                return *this;
             destroy(); 
             if (aOther.iHolder) 
                 iHolder = aOther.iHolder->clone(*this); 
@@ -271,6 +273,8 @@ namespace neolib
         ~any_iterator() { destroy(); }
         any_iterator& operator=(const any_iterator& aOther) 
         { 
+            if (&aOther == this)
+                return *this;
             destroy(); 
             if (aOther.iHolder) 
                 iHolder = aOther.iHolder->clone(*this); 
-- 
2.43.0


From ef10cdc4c1accb448eae021da92b5f43e99a40ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:58 +0000
Subject: [PATCH 57/65] fix: any_ref lost its object when assigned to itself

---
 include/neolib/core/any_ref.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/neolib/core/any_ref.hpp b/include/neolib/core/any_ref.hpp
index 4ae9918..5b674ba 100644
--- a/include/neolib/core/any_ref.hpp
+++ b/include/neolib/core/any_ref.hpp
@@ -148,6 +148,8 @@ namespace neolib
         ~any_ref() { destroy(); }
         any_ref& operator=(const any_ref& aOther) 
         { 
+            if (&aOther == this)
+                return *this;
             destroy(); 
             if (aOther.iHolder) 
                 iHolder = aOther.iHolder->clone(iSpace.iBytes); 
@@ -188,6 +190,8 @@ namespace neolib
         ~any_const_ref() { destroy(); }
         any_const_ref& operator=(const any_const_ref& aOther) 
         { 
+            if (&aOther == this)
+                return *this;
             destroy(); 
             if (aOther.iHolder) 
                 iHolder = aOther.iHolder->clone(iSpace.iBytes); 
-- 
2.43.0


From 26ec89860b743813f80753ac670ae9832d4491db Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:58 +0000
Subject: [PATCH 58/65] fix: generic_iterator: assignment copied the pointer to
 the wrapped iterator

---
 include/neolib/core/generic_iterator.hpp | 32 +++++++++++++++++++++---
 1 file changed, 28 insertions(+), 4 deletions(-)

diff --git a/include/neolib/core/generic_iterator.hpp b/include/neolib/core/generic_iterator.hpp
index 3eb0e83..c6ba3e6 100644
--- a/include/neolib/core/generic_iterator.hpp
+++ b/include/neolib/core/generic_iterator.hpp
@@ -148,10 +148,19 @@ namespace neolib
         }
         virtual ~generic_iterator()
         {
-            if (iInPlace)
-                iWrappedIterator->~i_wrapper();
-            else
-                delete iWrappedIterator;
+            destroy();
+        }
+        generic_iterator& operator=(const generic_iterator& aOther)
+        {
+            if (&aOther == this)
+                return *this;
+            destroy();
+            if (aOther.iWrappedIterator != nullptr)
+            {
+                iWrappedIterator = aOther.iInPlace ? aOther.iWrappedIterator->clone(iIteratorStorage) : aOther.iWrappedIterator->clone();
+                iInPlace = aOther.iInPlace;
+            }
+            return *this;
         }
     public:
         generic_iterator& operator++()
@@ -261,6 +270,16 @@ namespace neolib
                 iInPlace = false;
             }
         }
+        void destroy()
+        {
+            auto const wrappedIterator = iWrappedIterator;
+            iWrappedIterator = nullptr;
+            if (!iInPlace)
+                delete wrappedIterator;
+            else if (wrappedIterator != nullptr)
+                wrappedIterator->~i_wrapper();
+            iInPlace = false;
+        }
         i_wrapper& wrapped_iterator()
         {
             return *iWrappedIterator;
@@ -296,6 +315,11 @@ namespace neolib
             generic_iterator(aOther)
         {
         }
+        specialized_generic_iterator& operator=(const specialized_generic_iterator& aOther)
+        {
+            generic_iterator::operator=(aOther);
+            return *this;
+        }
     public:
         specialized_generic_iterator& operator++()
         {
-- 
2.43.0


From 26634b41bfc240468e04fbe3525fa40674752169 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:58 +0000
Subject: [PATCH 59/65] fix: iter_swap of zip iterators copied one element over
 the other

---
 include/neolib/core/zip_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/zip_iterator.hpp b/include/neolib/core/zip_iterator.hpp
index efd050c..e2a4a14 100644
--- a/include/neolib/core/zip_iterator.hpp
+++ b/include/neolib/core/zip_iterator.hpp
@@ -216,7 +216,7 @@ namespace std
     template <typename... Iterators>
     inline void iter_swap(neolib::zip_iterator<Iterators...> a, neolib::zip_iterator<Iterators...> b)
     {
-        auto temp = *a;
+        typename neolib::zip_iterator<Iterators...>::value_type temp{ *a };
         *a = *b;
         *b = temp;
     }
-- 
2.43.0


From 92e076842fbb230ab11774d6d3338f970ca0cfa4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:07:58 +0000
Subject: [PATCH 60/65] fix: zip_iterator: operator-> took the address of the
 iterators (ill-formed)

---
 include/neolib/core/zip_iterator.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/zip_iterator.hpp b/include/neolib/core/zip_iterator.hpp
index e2a4a14..629e131 100644
--- a/include/neolib/core/zip_iterator.hpp
+++ b/include/neolib/core/zip_iterator.hpp
@@ -182,7 +182,7 @@ namespace neolib
         template <std::size_t Index>
         void set_pointer(pointer& aResult)
         {
-            std::get<Index>(aResult) = &std::get<Index>(contents());
+            std::get<Index>(aResult) = &*std::get<Index>(contents());
             if constexpr (Index < std::tuple_size<iterators>::value - 1)
                 set_pointer<Index + 1>(aResult);
         }
-- 
2.43.0


From 927349eb58252a90700215ca5abd9ce60150395c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:45 +0000
Subject: [PATCH 61/65] fix: assigning a swizzle to the same swizzle of another
 vector copied every component

---
 include/neolib/core/swizzle.hpp | 6 ++++++
 1 file changed, 6 insertions(+)

diff --git a/include/neolib/core/swizzle.hpp b/include/neolib/core/swizzle.hpp
index 23608c8..1cd6915 100644
--- a/include/neolib/core/swizzle.hpp
+++ b/include/neolib/core/swizzle.hpp
@@ -84,6 +84,12 @@ namespace neolib
                 static constexpr uint32_t value = Index;
             };
         public:
+            swizzle& operator=(const swizzle& aRhs)
+            {
+                swizzle_rebind_t<vector_type, S> rhs;
+                aRhs.copy(&rhs.v[0]);
+                return *this = rhs;
+            }
             swizzle& operator=(const value_type& aRhs)
             {
                 static_assert(greater_than<vector_type::Size, Indexes...>::result, "Swizzle too big");
-- 
2.43.0


From 8307670821aae637532595b50bf34b631d6c92bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:45 +0000
Subject: [PATCH 62/65] fix: basic_matrix: an initializer list of too many
 columns was written past the matrix

---
 include/neolib/core/numerical.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index db0e3f8..30d09a1 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -931,7 +931,7 @@ namespace neolib
             struct rebind { using type = basic_matrix<T2, Rows, Columns>; };
         public:
             basic_matrix() : m{ {} } {}
-            basic_matrix(std::initializer_list<std::initializer_list<value_type>> aColumns) { std::copy(aColumns.begin(), aColumns.end(), m.begin()); }
+            basic_matrix(std::initializer_list<std::initializer_list<value_type>> aColumns) { if (aColumns.size() > Columns) throw std::out_of_range("neolib::basic_matrix: initializer list too big"); std::copy(aColumns.begin(), aColumns.end(), m.begin()); }
             basic_matrix(const basic_matrix& other) : m{ other.m } {}
             basic_matrix(basic_matrix&& other) : m{ std::move(other.m) } {}
             template <typename T2>
-- 
2.43.0


From be20c79475579a5aba9c2510af4fbde05c3fcb8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:37:45 +0000
Subject: [PATCH 63/65] fix: aabb_contains compared the corners
 lexicographically

---
 include/neolib/core/numerical.hpp | 18 ++++++++++--------
 1 file changed, 10 insertions(+), 8 deletions(-)

diff --git a/include/neolib/core/numerical.hpp b/include/neolib/core/numerical.hpp
index 30d09a1..b1d3c31 100644
--- a/include/neolib/core/numerical.hpp
+++ b/include/neolib/core/numerical.hpp
@@ -2193,15 +2193,16 @@ namespace neolib
         }
 
         template <typename Vertex>
-        inline bool aabb_contains(const basic_aabb<Vertex>& outer, const basic_aabb<Vertex>& inner)
+        inline bool aabb_contains(const basic_aabb<Vertex>& outer, const Vertex& point)
         {
-            return inner.min >= outer.min && inner.max <= outer.max;
+            return point.x >= outer.min.x && point.y >= outer.min.y && point.z >= outer.min.z &&
+                point.x <= outer.max.x && point.y <= outer.max.y && point.z <= outer.max.z;
         }
 
         template <typename Vertex>
-        inline bool aabb_contains(const basic_aabb<Vertex>& outer, const Vertex& point)
+        inline bool aabb_contains(const basic_aabb<Vertex>& outer, const basic_aabb<Vertex>& inner)
         {
-            return point >= outer.min && point <= outer.max;
+            return aabb_contains(outer, inner.min) && aabb_contains(outer, inner.max);
         }
 
         template <typename Vertex>
@@ -2422,15 +2423,16 @@ namespace neolib
         }
 
         template <typename Vertex>
-        inline bool aabb_contains(const basic_aabb_2d<Vertex>& outer, const basic_aabb_2d<Vertex>& inner)
+        inline bool aabb_contains(const basic_aabb_2d<Vertex>& outer, const Vertex& point)
         {
-            return inner.min >= outer.min && inner.max <= outer.max;
+            return point.x >= outer.min.x && point.y >= outer.min.y &&
+                point.x <= outer.max.x && point.y <= outer.max.y;
         }
 
         template <typename Vertex>
-        inline bool aabb_contains(const basic_aabb_2d<Vertex>& outer, const Vertex& point)
+        inline bool aabb_contains(const basic_aabb_2d<Vertex>& outer, const basic_aabb_2d<Vertex>& inner)
         {
-            return point >= outer.min && point <= outer.max;
+            return aabb_contains(outer, inner.min) && aabb_contains(outer, inner.max);
         }
 
         template <typename Vertex>
-- 
2.43.0


From f54715c3403b7edf7e5e6a401772ecaaf103cfe5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 08:45:45 +0000
Subject: [PATCH 64/65] fix: avx_simd_mul_4d returned the products in reverse

---
 include/neolib/core/simd.hpp | 16 ++++++++--------
 1 file changed, 8 insertions(+), 8 deletions(-)

diff --git a/include/neolib/core/simd.hpp b/include/neolib/core/simd.hpp
index b5f284d..0393df0 100644
--- a/include/neolib/core/simd.hpp
+++ b/include/neolib/core/simd.hpp
@@ -141,20 +141,20 @@ namespace neolib
             alignas(32) __m256d lhs = _mm256_set_pd(x1, y1, z1, w1);
             alignas(32) __m256d rhs = _mm256_set_pd(x2, y2, z2, w2);
             alignas(32) __m256d ans = _mm256_mul_pd(lhs, rhs);
-            a = to_scalar(ans, 0);
-            b = to_scalar(ans, 1);
-            c = to_scalar(ans, 2);
-            d = to_scalar(ans, 3);
+            a = to_scalar(ans, 3);
+            b = to_scalar(ans, 2);
+            c = to_scalar(ans, 1);
+            d = to_scalar(ans, 0);
         }
         else
         {
             alignas(32) __m256 lhs = _mm256_set_ps(x1, y1, z1, w1, 0.0f, 0.0f, 0.0f, 0.0f);
             alignas(32) __m256 rhs = _mm256_set_ps(x2, y2, z2, w2, 0.0f, 0.0f, 0.0f, 0.0f);
             alignas(32) __m256 ans = _mm256_mul_ps(lhs, rhs);
-            a = to_scalar(ans, 0);
-            b = to_scalar(ans, 1);
-            c = to_scalar(ans, 2);
-            d = to_scalar(ans, 3);
+            a = to_scalar(ans, 7);
+            b = to_scalar(ans, 6);
+            c = to_scalar(ans, 5);
+            d = to_scalar(ans, 4);
         }
     }
 #endif
-- 
2.43.0


From 56009b556f1450915aa667125ea8b19373cb2233 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 09:24:31 +0000
Subject: [PATCH 65/65] fix: string_packet: a line cut off before its carriage
 return was joined with the next line

---
 include/neolib/io/string_packet.hpp | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/neolib/io/string_packet.hpp b/include/neolib/io/string_packet.hpp
index 07c5a9e..71d86c7 100644
--- a/include/neolib/io/string_packet.hpp
+++ b/include/neolib/io/string_packet.hpp
@@ -135,9 +135,13 @@ namespace neolib
             if (aFirst == aLast)
                 return false;
 
+            const_pointer const start = aFirst;
             if (skip_delimiters(aFirst, aLast))
                 return true;
 
+            if (aFirst != start && !contents().empty())
+                return true;
+
             if (aFirst == aLast)
                 return false;
 
-- 
2.43.0

