From a8b81604bf9ebbeba186946f52db34af4c78f420 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:49:56 +0000
Subject: [PATCH 01/50] fix: RefPtr assignment retains the new object before
 releasing the old one

Self-assignment, assigning a handle's own raw pointer, and assigning from a
handle owned by the object being released used freed memory.
---
 amtl/am-refcounting.h | 28 +++++++++++++++++-----------
 1 file changed, 17 insertions(+), 11 deletions(-)

diff --git a/amtl/am-refcounting.h b/amtl/am-refcounting.h
index b44a3d2..f963107 100644
--- a/amtl/am-refcounting.h
+++ b/amtl/am-refcounting.h
@@ -264,30 +264,23 @@ class RefPtr
 
     template <typename S>
     RefPtr& operator =(S* thing) {
-        Release();
-        thing_ = thing;
-        AddRef();
+        reset(thing);
         return *this;
     }
 
     template <typename S>
     RefPtr& operator =(const AlreadyRefed<S>& other) {
-        Release();
-        thing_ = other.take();
+        replace(other.take());
         return *this;
     }
 
     RefPtr& operator =(const RefPtr& other) {
-        Release();
-        thing_ = other.thing_;
-        AddRef();
+        reset(other.thing_);
         return *this;
     }
 
     RefPtr& operator =(RefPtr&& other) {
-        Release();
-        thing_ = other.thing_;
-        other.thing_ = nullptr;
+        replace(ReturnAndVoid(other.thing_));
         return *this;
     }
 
@@ -305,6 +298,19 @@ class RefPtr
     }
 
   private:
+    // Retain a new object, then release the old one. The new object might be
+    // the old one, or be owned by it.
+    void reset(T* thing) {
+        if (thing)
+            thing->AddRef();
+        replace(thing);
+    }
+    void replace(T* thing) {
+        T* old = thing_;
+        thing_ = thing;
+        if (old)
+            old->Release();
+    }
     void AddRef() {
         if (thing_)
             thing_->AddRef();
-- 
2.43.0


From 1e9e91e817dffc39a5340e116cc9af28c70c2c88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:54:33 +0000
Subject: [PATCH 02/50] fix: Function copies from non-const wrappers and
 self-assignment

A non-const wrapper lvalue was wrapped as a callable of its own, so a copy of
an empty wrapper was non-empty, and self-assignment used the destroyed
callable. Assigning a temporary callable copied it instead of moving it.
---
 amtl/am-function.h | 27 ++++++++++++++++++++-------
 1 file changed, 20 insertions(+), 7 deletions(-)

diff --git a/amtl/am-function.h b/amtl/am-function.h
index 6b26677..7c00fb0 100644
--- a/amtl/am-function.h
+++ b/amtl/am-function.h
@@ -33,6 +33,7 @@
 #include <stddef.h>
 
 #include <new>
+#include <type_traits>
 #include <utility>
 
 namespace ke {
@@ -97,6 +98,11 @@ class Function<ReturnType(ArgTypes...)>
 {
     typedef impl::FunctionHolderBase<ReturnType, ArgTypes...> HolderType;
 
+    // The templates below must not be chosen for other wrappers of this type.
+    template <typename T>
+    using EnableIfCallable =
+        typename std::enable_if<!std::is_same<typename std::decay<T>::type, Function>::value>::type;
+
   public:
     Function()
      : impl_(nullptr)
@@ -107,11 +113,14 @@ class Function<ReturnType(ArgTypes...)>
     Function(const Function& other) {
         assign(other);
     }
+    Function(Function& other)
+     : impl_(other ? other.impl_->clone(nullptr) : nullptr)
+    {}
     Function(Function&& other) {
         move(std::forward<Function>(other));
     }
 
-    template <typename T>
+    template <typename T, typename = EnableIfCallable<T>>
     Function(T&& obj) {
         assign(std::forward<T>(obj));
     }
@@ -126,20 +135,24 @@ class Function<ReturnType(ArgTypes...)>
         return *this;
     }
     Function& operator =(const Function& other) {
-        destroy();
-        assign(other);
+        if (this != &other) {
+            destroy();
+            assign(other);
+        }
         return *this;
     }
     Function& operator =(Function&& other) {
-        destroy();
-        move(std::move(other));
+        if (this != &other) {
+            destroy();
+            move(std::move(other));
+        }
         return *this;
     }
 
-    template <typename T>
+    template <typename T, typename = EnableIfCallable<T>>
     Function& operator =(T&& other) {
         destroy();
-        assign(other);
+        assign(std::forward<T>(other));
         return *this;
     }
 
-- 
2.43.0


From f691af5045ef6dd1609cca9ce330f7c89e3855e8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:55:21 +0000
Subject: [PATCH 03/50] fix: Function stores callables of up to three words
 inline, as documented

The inline buffer also has to hold the holder's vtable pointer. Callables that
need more alignment than the buffer has are kept out of line.
---
 amtl/am-function.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amtl/am-function.h b/amtl/am-function.h
index 7c00fb0..4c57959 100644
--- a/amtl/am-function.h
+++ b/amtl/am-function.h
@@ -214,7 +214,7 @@ class Function<ReturnType(ArgTypes...)>
         typedef typename std::decay<T>::type CallableType;
         typedef impl::FunctionHolder<CallableType, ReturnType, ArgTypes...> ImplType;
 
-        if (sizeof(ImplType) <= sizeof(buffer_)) {
+        if (sizeof(ImplType) <= sizeof(buffer_) && alignof(ImplType) <= alignof(double)) {
             impl_ = reinterpret_cast<ImplType*>(inline_buffer());
             new (inline_buffer()) ImplType(std::forward<T>(obj));
         } else {
@@ -226,7 +226,8 @@ class Function<ReturnType(ArgTypes...)>
     HolderType* impl_;
     union {
         double alignment_;
-        char alias_[impl::kMinFunctionInlineBufferSize];
+        // The holder has a vtable pointer in addition to the callable.
+        char alias_[sizeof(void*) + impl::kMinFunctionInlineBufferSize];
     } buffer_;
 };
 
-- 
2.43.0


From c75f339723a8283beb7b5a85409729f63644fdb0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:56:51 +0000
Subject: [PATCH 04/50] fix: Maybe::operator-> returns a pointer

It returned T& from a T*, so any use of it failed to compile.
---
 amtl/am-maybe.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amtl/am-maybe.h b/amtl/am-maybe.h
index 159b27d..7dea5b8 100644
--- a/amtl/am-maybe.h
+++ b/amtl/am-maybe.h
@@ -79,7 +79,7 @@ class Maybe
         return initialized_;
     }
 
-    T& operator ->() {
+    T* operator ->() {
         assert(isValid());
         return t_.address();
     }
@@ -87,7 +87,7 @@ class Maybe
         assert(isValid());
         return *t_.address();
     }
-    const T& operator ->() const {
+    const T* operator ->() const {
         assert(isValid());
         return t_.address();
     }
-- 
2.43.0


From ca359fcb173a133a968d0f7418e741928d9428fe Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 05/50] fix: Maybe assignment and moves destroy the values they
 drop

Assignment leaked the old value, self-assignment emptied the object, and a
moved-from value was never destroyed.
---
 amtl/am-maybe.h | 19 ++++++++++++++-----
 1 file changed, 14 insertions(+), 5 deletions(-)

diff --git a/amtl/am-maybe.h b/amtl/am-maybe.h
index 7dea5b8..c1a0fb5 100644
--- a/amtl/am-maybe.h
+++ b/amtl/am-maybe.h
@@ -109,17 +109,26 @@ class Maybe
     }
 
     Maybe& operator =(const Maybe& other) {
-        initialized_ = false;
-        copyFrom(other);
+        if (this != &other) {
+            reset();
+            copyFrom(other);
+        }
         return *this;
     }
     Maybe& operator =(Maybe&& other) {
-        initialized_ = false;
-        moveFrom(std::move(other));
+        if (this != &other) {
+            reset();
+            moveFrom(std::move(other));
+        }
         return *this;
     }
 
   private:
+    void reset() {
+        if (isValid())
+            t_.address()->~T();
+        initialized_ = false;
+    }
     void copyFrom(const Maybe& other) {
         if (other.initialized_) {
             init(*other.t_.address());
@@ -128,7 +137,7 @@ class Maybe
     void moveFrom(Maybe&& other) {
         if (other.initialized_) {
             init(std::move(*other.t_.address()));
-            other.initialized_ = false;
+            other.reset();
         }
     }
 
-- 
2.43.0


From 6b64cc3f756e16ec083e8e94bfcb2e0925754e01 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:57:06 +0000
Subject: [PATCH 06/50] fix: StorageBuffer is suitably aligned for over-aligned
 types

---
 amtl/am-storagebuffer.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-storagebuffer.h b/amtl/am-storagebuffer.h
index f328922..b233219 100644
--- a/amtl/am-storagebuffer.h
+++ b/amtl/am-storagebuffer.h
@@ -49,7 +49,7 @@ class StorageBuffer
 
   private:
     union {
-        char buffer_[sizeof(T)];
+        alignas(T) char buffer_[sizeof(T)];
         uint64_t aligned_;
     };
 };
-- 
2.43.0


From eb58d75d8b4e1d45de830f153db3619270cc5636 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 07/50] fix: FixedArray uses the allocator policy it was given

The policy argument was ignored, and copies and moves did not carry the policy
along, so memory could be freed through a different policy object.
---
 amtl/am-fixedarray.h | 13 ++++++++++---
 1 file changed, 10 insertions(+), 3 deletions(-)

diff --git a/amtl/am-fixedarray.h b/amtl/am-fixedarray.h
index 85df0b5..e685ecb 100644
--- a/amtl/am-fixedarray.h
+++ b/amtl/am-fixedarray.h
@@ -31,6 +31,7 @@
 
 #include <assert.h>
 
+#include <utility>
 #include <vector>
 
 #include <amtl/am-allocator-policies.h>
@@ -43,20 +44,26 @@ class FixedArray : private AllocPolicy
   public:
     FixedArray() : size_(0), data_(nullptr)
     {}
-    FixedArray(size_t size, AllocPolicy = AllocPolicy()) {
+    FixedArray(size_t size, AllocPolicy ap = AllocPolicy())
+     : AllocPolicy(std::move(ap))
+    {
         if (!allocate(size))
             return;
         for (size_t i = 0; i < size_; i++)
             new (&data_[i]) T();
     }
-    FixedArray(const FixedArray& other) {
+    FixedArray(const FixedArray& other)
+     : AllocPolicy(other)
+    {
         if (!allocate(other.size()))
             return;
         for (size_t i = 0; i < size_; i++)
             new (&data_[i]) T(other[i]);
     }
 
-    FixedArray(FixedArray&& other) {
+    FixedArray(FixedArray&& other)
+     : AllocPolicy(std::move(other))
+    {
         size_ = other.size_;
         data_ = other.data_;
         other.size_ = 0;
-- 
2.43.0


From 513b3860cbc06556191edd779493b6221be24738 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 21:58:56 +0000
Subject: [PATCH 08/50] fix: FixedArray self-assignment, and leak on move
 assignment

---
 amtl/am-fixedarray.h | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/amtl/am-fixedarray.h b/amtl/am-fixedarray.h
index e685ecb..b50845e 100644
--- a/amtl/am-fixedarray.h
+++ b/amtl/am-fixedarray.h
@@ -131,6 +131,9 @@ class FixedArray : private AllocPolicy
     T* buffer() const { return data_; }
 
     FixedArray& operator =(const FixedArray& other) {
+        if (this == &other)
+            return *this;
+
         destruct();
         if (size_ != other.size()) {
             deallocate();
@@ -142,6 +145,13 @@ class FixedArray : private AllocPolicy
         return *this;
     }
     FixedArray& operator =(FixedArray&& other) {
+        if (this == &other)
+            return *this;
+
+        destruct();
+        deallocate();
+
+        AllocPolicy::operator =(std::move(other));
         size_ = other.size_;
         data_ = other.data_;
         other.size_ = 0;
-- 
2.43.0


From 64d4e6f4c683ad36529a1f437da77a0fb7b8f352 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 09/50] fix: FixedArray allocation failure leaves an empty
 array, and size overflow is reported

A refused allocation left the requested length with a null buffer, so the
destructor and assignment ran over a null pointer, and a length whose byte size
overflows allocated a small buffer.
---
 amtl/am-fixedarray.h | 27 ++++++++++++++++++++++-----
 1 file changed, 22 insertions(+), 5 deletions(-)

diff --git a/amtl/am-fixedarray.h b/amtl/am-fixedarray.h
index b50845e..047fc6c 100644
--- a/amtl/am-fixedarray.h
+++ b/amtl/am-fixedarray.h
@@ -30,6 +30,8 @@
 #define _include_amtl_fixedarray_h_
 
 #include <assert.h>
+#include <stddef.h>
+#include <stdint.h>
 
 #include <utility>
 #include <vector>
@@ -42,7 +44,7 @@ template <typename T, typename AllocPolicy = SystemAllocatorPolicy>
 class FixedArray : private AllocPolicy
 {
   public:
-    FixedArray() : size_(0), data_(nullptr)
+    FixedArray() : size_(0), data_(nullptr), failed_(false)
     {}
     FixedArray(size_t size, AllocPolicy ap = AllocPolicy())
      : AllocPolicy(std::move(ap))
@@ -66,8 +68,10 @@ class FixedArray : private AllocPolicy
     {
         size_ = other.size_;
         data_ = other.data_;
+        failed_ = other.failed_;
         other.size_ = 0;
         other.data_ = nullptr;
+        other.failed_ = false;
     }
 
     template <typename U = std::allocator<T>>
@@ -95,7 +99,7 @@ class FixedArray : private AllocPolicy
 
     // This call may be skipped if the allocator policy is infallible.
     bool initialize() {
-        return size_ == 0 || !!data_;
+        return !failed_;
     }
 
     size_t size() const {
@@ -135,7 +139,7 @@ class FixedArray : private AllocPolicy
             return *this;
 
         destruct();
-        if (size_ != other.size()) {
+        if (size_ != other.size() || failed_) {
             deallocate();
             if (!allocate(other.size()))
                 return *this;
@@ -154,8 +158,10 @@ class FixedArray : private AllocPolicy
         AllocPolicy::operator =(std::move(other));
         size_ = other.size_;
         data_ = other.data_;
+        failed_ = other.failed_;
         other.size_ = 0;
         other.data_ = nullptr;
+        other.failed_ = false;
         return *this;
     }
 
@@ -174,9 +180,19 @@ class FixedArray : private AllocPolicy
 
   private:
     bool allocate(size_t size) {
+        size_ = 0;
+        data_ = nullptr;
+        failed_ = true;
+        if (size > SIZE_MAX / sizeof(T)) {
+            this->reportAllocationOverflow();
+            return false;
+        }
+        data_ = (T*)this->am_malloc(sizeof(T) * size);
+        if (!data_ && size)
+            return false;
         size_ = size;
-        data_ = (T*)this->am_malloc(sizeof(T) * size_);
-        return !!data_;
+        failed_ = false;
+        return true;
     }
     void destruct() {
         for (size_t i = 0; i < size_; i++)
@@ -189,6 +205,7 @@ class FixedArray : private AllocPolicy
   private:
     size_t size_;
     T* data_;
+    bool failed_;
 };
 
 } // namespace ke
-- 
2.43.0


From a1802cf5f84f34496a40fc28cf681dbfa9906e7d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:01:23 +0000
Subject: [PATCH 10/50] fix: ScopeGuard of an lvalue callable can be moved

std::move of a reference member does not bind to the reference being
initialised, so moving such a guard did not compile (and before C++17 neither
did creating one).
---
 amtl/am-raii.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-raii.h b/amtl/am-raii.h
index b942e50..66cfb80 100644
--- a/amtl/am-raii.h
+++ b/amtl/am-raii.h
@@ -82,7 +82,7 @@ class ScopeGuard
         cancelled_(false)
     {}
     ScopeGuard(ScopeGuard&& other) noexcept
-      : callback_(std::move(other.callback_)),
+      : callback_(std::forward<T>(other.callback_)),
         cancelled_(other.cancelled_)
     {
         other.cancel();
-- 
2.43.0


From 625b7d397fbc0960b1c72e3a5d0eff0642c70273 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 11/50] fix: HashTable reports overflow instead of growing past
 its maximum capacity

---
 amtl/am-hashtable.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-hashtable.h b/amtl/am-hashtable.h
index 51a384b..5d5279b 100644
--- a/amtl/am-hashtable.h
+++ b/amtl/am-hashtable.h
@@ -245,7 +245,7 @@ class HashTable : private AllocPolicy
     }
 
     bool grow() {
-        if (capacity_ >= kMaxCapacity) {
+        if (capacity_ > kMaxCapacity / 2) {
             this->reportAllocationOverflow();
             return false;
         }
-- 
2.43.0


From 259101675f96739731a2490131ce87f0c4cd2578 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 12/50] fix: a HashTable whose init() failed can be destroyed
 and initialised again

---
 amtl/am-hashtable.h | 7 +++----
 1 file changed, 3 insertions(+), 4 deletions(-)

diff --git a/amtl/am-hashtable.h b/amtl/am-hashtable.h
index 5d5279b..28e8f02 100644
--- a/amtl/am-hashtable.h
+++ b/amtl/am-hashtable.h
@@ -414,15 +414,14 @@ class HashTable : private AllocPolicy
             return false;
         }
 
-        minCapacity_ = uint32_t(capacity);
-
         assert(IsPowerOfTwo(capacity));
-        capacity_ = uint32_t(capacity);
 
-        table_ = createTable(capacity_);
+        table_ = createTable(uint32_t(capacity));
         if (!table_)
             return false;
 
+        minCapacity_ = uint32_t(capacity);
+        capacity_ = uint32_t(capacity);
         return true;
     }
 
-- 
2.43.0


From 40a925b3828b359b7665e138918e45a72e731157 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:10:54 +0000
Subject: [PATCH 13/50] fix: HashMap and HashSet expose the allocator policy
 they were given

---
 amtl/am-hashmap.h | 6 +++---
 amtl/am-hashset.h | 6 +++---
 2 files changed, 6 insertions(+), 6 deletions(-)

diff --git a/amtl/am-hashmap.h b/amtl/am-hashmap.h
index 2f705bb..2aa5253 100644
--- a/amtl/am-hashmap.h
+++ b/amtl/am-hashmap.h
@@ -48,7 +48,7 @@ namespace ke {
 //
 // Note that like HashTable, a HashMap is not usable until init() has been called.
 template <typename K, typename V, typename HashPolicy, typename AllocPolicy = SystemAllocatorPolicy>
-class HashMap : private AllocPolicy
+class HashMap
 {
   private:
     struct Entry {
@@ -163,10 +163,10 @@ class HashMap : private AllocPolicy
     }
 
     AllocPolicy& allocPolicy() {
-        return *this;
+        return table_.allocPolicy();
     }
     const AllocPolicy& allocPolicy() const {
-        return *this;
+        return table_.allocPolicy();
     }
 
   private:
diff --git a/amtl/am-hashset.h b/amtl/am-hashset.h
index cbc90fc..26689e5 100644
--- a/amtl/am-hashset.h
+++ b/amtl/am-hashset.h
@@ -45,7 +45,7 @@ namespace ke {
 //
 // Like HashMap and HashTable, init() must be called to construct the set.
 template <typename K, typename HashPolicy, typename AllocPolicy = SystemAllocatorPolicy>
-class HashSet : private AllocPolicy
+class HashSet
 {
     struct Policy {
         typedef K Payload;
@@ -146,10 +146,10 @@ class HashSet : private AllocPolicy
     }
 
     AllocPolicy& allocPolicy() {
-        return *this;
+        return table_.allocPolicy();
     }
     const AllocPolicy& allocPolicy() const {
-        return *this;
+        return table_.allocPolicy();
     }
 
   private:
-- 
2.43.0


From ef846bdc07643a8b61b81062bfe76ef1aea572a0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:26:26 +0000
Subject: [PATCH 14/50] fix: InlineList nodes know in release builds that they
 left the list

---
 amtl/am-inlinelist.h | 3 +--
 1 file changed, 1 insertion(+), 2 deletions(-)

diff --git a/amtl/am-inlinelist.h b/amtl/am-inlinelist.h
index 5226cd5..54851f7 100644
--- a/amtl/am-inlinelist.h
+++ b/amtl/am-inlinelist.h
@@ -212,10 +212,9 @@ class InlineList
         t->next_->prev_ = t->prev_;
         length_--;
 
-#if !defined(NDEBUG)
+        // isInList() depends on these being cleared.
         t->next_ = nullptr;
         t->prev_ = nullptr;
-#endif
     }
 
     void append(Node* t) {
-- 
2.43.0


From bd977f43f68a4c947351121232bcd194b582d7df Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 15/50] fix: SafeVsprintf reports no characters when formatting
 fails

---
 amtl/am-string.h | 12 ++++++++++--
 1 file changed, 10 insertions(+), 2 deletions(-)

diff --git a/amtl/am-string.h b/amtl/am-string.h
index d5d2178..1b82794 100644
--- a/amtl/am-string.h
+++ b/amtl/am-string.h
@@ -155,9 +155,17 @@ SafeVsprintf(char* buffer, size_t maxlength, const char* fmt, va_list ap)
     if (!maxlength)
         return 0;
 
-    size_t len = KE_VSNPRINTF(buffer, maxlength, fmt, ap);
+    int len = KE_VSNPRINTF(buffer, maxlength, fmt, ap);
 
-    if (len >= maxlength) {
+#if !defined(_MSC_VER)
+    // On Windows a negative value also means that the output was truncated.
+    if (len < 0) {
+        buffer[0] = '\0';
+        return 0;
+    }
+#endif
+
+    if (size_t(len) >= maxlength) {
         buffer[maxlength - 1] = '\0';
         return maxlength - 1;
     }
-- 
2.43.0


From 5ac49b60800935781d0ae2b6efab390d027467bc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 16/50] fix: SafeStrcpyN of no characters leaves an empty
 string

---
 amtl/am-string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-string.h b/amtl/am-string.h
index 1b82794..4dcb7dc 100644
--- a/amtl/am-string.h
+++ b/amtl/am-string.h
@@ -238,7 +238,7 @@ SafeStrcat(char* dest, size_t maxlength, const char* src)
 static inline size_t
 SafeStrcpyN(char* dest, size_t maxlength, const char* src, size_t n)
 {
-    if (!dest || !maxlength || !n)
+    if (!dest || !maxlength)
         return 0;
 
     char* iter = dest;
-- 
2.43.0


From 487405a0d493f19f62dcc3c4eb5bd4315560b6f1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:30:53 +0000
Subject: [PATCH 17/50] fix: SafeStrcpyN stops at the end of the source, as
 SafeStrcpy does

---
 amtl/am-string.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-string.h b/amtl/am-string.h
index 4dcb7dc..80cb7b9 100644
--- a/amtl/am-string.h
+++ b/amtl/am-string.h
@@ -243,7 +243,7 @@ SafeStrcpyN(char* dest, size_t maxlength, const char* src, size_t n)
 
     char* iter = dest;
     size_t count = maxlength;
-    while (--count && n--)
+    while (--count && n-- && *src)
         *iter++ = *src++;
     *iter = '\0';
 
-- 
2.43.0


From 7eba0bf230cdf0e93e5a4c450a3d854cb393564e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:44 +0000
Subject: [PATCH 18/50] fix: Log2 of values wider than 32 bits on LP64

---
 amtl/am-bits.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amtl/am-bits.h b/amtl/am-bits.h
index f90cdeb..c67ca08 100644
--- a/amtl/am-bits.h
+++ b/amtl/am-bits.h
@@ -97,7 +97,11 @@ Log2(size_t number)
     assert(number != 0);
 
 #    ifdef __GNUC__
+#        ifdef __LP64__
+    return 63 - __builtin_clzl(number);
+#        else
     return 31 - __builtin_clz(number);
+#        endif
 #    else
     size_t bit;
     asm("bsr %1, %0\n" : "=r"(bit) : "rm"(number));
-- 
2.43.0


From 0c16a089cd9db8fe84310ee345879e12804ec23c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:44 +0000
Subject: [PATCH 19/50] fix: IsUintAddSafe detects overflow instead of always
 answering yes

---
 amtl/am-bits.h | 6 +-----
 1 file changed, 1 insertion(+), 5 deletions(-)

diff --git a/amtl/am-bits.h b/amtl/am-bits.h
index c67ca08..fd068d1 100644
--- a/amtl/am-bits.h
+++ b/amtl/am-bits.h
@@ -186,11 +186,7 @@ template <typename T>
 static inline bool
 IsUintAddSafe(const T& a, const T& b)
 {
-    if (!a || !b)
-        return true;
-    size_t log2_a = Log2(a);
-    size_t log2_b = Log2(b);
-    return (log2_a < sizeof(T) * 8) && (log2_b < sizeof(T) * 8);
+    return a <= T(~T(0)) - b;
 }
 
 static inline bool
-- 
2.43.0


From cf2bab3309fa8af8ce1e5c02298a623e7ca4be21 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:44 +0000
Subject: [PATCH 20/50] fix: IsUintMultiplySafe called some overflowing
 products safe

---
 amtl/am-bits.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/amtl/am-bits.h b/amtl/am-bits.h
index fd068d1..40bda7d 100644
--- a/amtl/am-bits.h
+++ b/amtl/am-bits.h
@@ -214,9 +214,7 @@ IsUintMultiplySafe(const T& a, const T& b)
     if (a <= 1 || b <= 1)
         return true;
 
-    size_t log2_a = Log2(a);
-    size_t log2_b = Log2(b);
-    return log2_a + log2_b < sizeof(T) * 8;
+    return a <= T(~T(0)) / b;
 }
 
 static inline bool
-- 
2.43.0


From f9e9b0eb6b8c65fadc8c6f5042b08b6c950d6a2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:42:44 +0000
Subject: [PATCH 21/50] fix: TryUint64Multiply missed overflows whose product
 wraps to zero

---
 amtl/am-arithmetic.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-arithmetic.h b/amtl/am-arithmetic.h
index 45ced6e..289a326 100644
--- a/amtl/am-arithmetic.h
+++ b/amtl/am-arithmetic.h
@@ -37,7 +37,7 @@ static inline bool
 TryUint64Multiply(uint64_t left, uint64_t right, uint64_t* out)
 {
     uint64_t r = left * right;
-    if (r != 0 && ((r / left) != right))
+    if (left != 0 && ((r / left) != right))
         return false;
 
     *out = r;
-- 
2.43.0


From f6d8afb3bfdfe56ded0b5de4c9fa2aaa5c780966 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 22/50] fix: IsInfinite of doubles looked at the bits of a
 float

---
 amtl/am-float.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/amtl/am-float.h b/amtl/am-float.h
index 1adc865..9989b26 100644
--- a/amtl/am-float.h
+++ b/amtl/am-float.h
@@ -38,7 +38,7 @@
 namespace ke {
 
 static const uint32_t kFloat32ExponentMask = 0x7F800000;
-static const uint64_t kFloat64ExponentMask = 0x7FFF000000000000ULL;
+static const uint64_t kFloat64ExponentMask = 0x7FF0000000000000ULL;
 
 struct float32_bits {
     static const uint32_t kExponentMask = kFloat32ExponentMask;
@@ -64,10 +64,10 @@ struct float64_bits {
 
     union layout {
         uint64_t bits;
-        float value;
+        double value;
     };
 
-    static layout to_layout(float value) {
+    static layout to_layout(double value) {
         layout impl;
         impl.value = value;
         return impl;
-- 
2.43.0


From 98527cd15841d45b4c42b6eb52ad71056e13bbef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:46:05 +0000
Subject: [PATCH 23/50] fix: IsInfinite was true of NaNs

---
 amtl/am-float.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amtl/am-float.h b/amtl/am-float.h
index 9989b26..986ba6c 100644
--- a/amtl/am-float.h
+++ b/amtl/am-float.h
@@ -99,7 +99,9 @@ IsInfinite(T value)
     typedef float_bits<T> Properties;
     typedef typename Properties::Bits Bits;
     Bits bits = Properties::to_layout(value).bits;
-    return (bits & Properties::kExponentMask) == Properties::kExponentMask;
+    // All exponent bits and no other bit, apart from the sign.
+    Bits sign = Bits(1) << (sizeof(Bits) * 8 - 1);
+    return (bits & ~sign) == Properties::kExponentMask;
 };
 
 // Performs the operation (x % y) where x and y are floating-point values.
-- 
2.43.0


From 81c0fe7c1d3d8ea7aeef6daba15c6bd165312895 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 24/50] fix: --no- followed by an unknown option dereferenced a
 null pointer

---
 amtl/experimental/am-argparser.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 43a3e32..271cbf8 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -671,7 +671,7 @@ Parser::parse_impl(const std::vector<const char*>& args)
 
             if (!option && strncmp(arg, "--no-", 5) == 0) {
                 option = find_long(&arg[5], len - 5);
-                if (option->canPrefixWithNo())
+                if (option && option->canPrefixWithNo())
                     value_ptr = "false";
                 else
                     option = nullptr;
-- 
2.43.0


From fdf1988b3e5b48ab492b848a26b1236158eb9809 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 25/50] fix: options with an optional value were not set when
 another argument followed

--flag arg left the flag unset, and --flag=garbage was accepted and ignored.
---
 amtl/experimental/am-argparser.h | 7 ++++---
 1 file changed, 4 insertions(+), 3 deletions(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 271cbf8..8688056 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -716,10 +716,11 @@ Parser::parse_impl(const std::vector<const char*>& args)
         }
 
         if (!option->consumeValue(value_ptr)) {
-            if (!option->canOmitValue())
+            if (!option->canOmitValue() || !took_next_arg)
                 return option_invalid_value(option, value_ptr);
-            if (took_next_arg)
-                i--;
+            // The next argument is not a value, so this option has none.
+            i--;
+            option->consumeValue(nullptr);
         }
 
         if (option->haltOnValue()) {
-- 
2.43.0


From 7bb558b08a898b4152ec2657d6cffe650e4fd2cb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 26/50] fix: a second -- was dropped from the passed-through
 arguments

---
 amtl/experimental/am-argparser.h | 8 ++++----
 1 file changed, 4 insertions(+), 4 deletions(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 8688056..ac6f08d 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -628,14 +628,14 @@ Parser::parse_impl(const std::vector<const char*>& args)
         const char* arg = args[i];
         IOption* option = nullptr;
 
-        if (allow_passthrough_args_ && !strcmp(arg, "--")) {
-            has_passthrough_args_ = true;
-            continue;
-        }
         if (has_passthrough_args_) {
             passthrough_args_.emplace_back(arg);
             continue;
         }
+        if (allow_passthrough_args_ && !strcmp(arg, "--")) {
+            has_passthrough_args_ = true;
+            continue;
+        }
 
         const char* value_ptr = nullptr;
         if (arg[0] == '-' || (allow_slashes_ && arg[0] == '/')) {
-- 
2.43.0


From 79d826dc7d10ee3389fa50cfd67a9b389005db8a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 27/50] fix: integer options accepted values outside the range
 of int, truncated

---
 amtl/experimental/am-argparser.h | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index ac6f08d..dda3019 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -30,6 +30,8 @@
 #define _include_amtl_am_argparser_h_
 
 #include <assert.h>
+#include <errno.h>
+#include <limits.h>
 #include <stdio.h>
 
 #include <algorithm>
@@ -538,9 +540,13 @@ template <>
 struct ValuePolicy<int> : public BaseValuePolicy {
     static bool consumeValue(const char* arg, int* out) {
         char* endptr = nullptr;
-        *out = strtol(arg, &endptr, 10);
+        errno = 0;
+        long value = strtol(arg, &endptr, 10);
         if (endptr == arg || *endptr != '\0')
             return false;
+        if (errno == ERANGE || value < INT_MIN || value > INT_MAX)
+            return false;
+        *out = static_cast<int>(value);
         return true;
     }
 };
-- 
2.43.0


From e06a33e4153cc81dc698cda22304096567ccf40e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 22:58:10 +0000
Subject: [PATCH 28/50] fix: -s:N gave a value of :N if N contained an equals
 sign

---
 amtl/experimental/am-argparser.h | 4 +---
 1 file changed, 1 insertion(+), 3 deletions(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index dda3019..7b554ae 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -656,9 +656,7 @@ Parser::parse_impl(const std::vector<const char*>& args)
             //   -keyval
             //   -key:val
             size_t len = strlen(arg);
-            const char* sep = strchr(arg, '=');
-            if (!sep && inline_values_)
-                sep = strchr(arg, ':');
+            const char* sep = strpbrk(arg, inline_values_ ? "=:" : "=");
             if (inline_values_ && sep && strlen(sep + 1) == 0)
                 sep = nullptr;    // Don't allow -key= or -key: with no arg.
             if (sep)
-- 
2.43.0


From 790ddff3d8f2b5baaa37a1f515d79d571bf1aa93 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:17 +0000
Subject: [PATCH 29/50] fix: resetting a parser kept its error, extra and
 passed-through arguments

---
 amtl/experimental/am-argparser.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 7b554ae..36da1d3 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -1044,6 +1044,10 @@ Parser::reset()
         option->reset();
     if (help_option_)
         help_option_->reset();
+    error_.clear();
+    extra_args_.clear();
+    passthrough_args_.clear();
+    has_passthrough_args_ = false;
 }
 
 } // namespace args
-- 
2.43.0


From 82d1edbd761e55e76d57faab7ca8bedb2c86f277 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:02:17 +0000
Subject: [PATCH 30/50] fix: usage of options with only a short form did not
 show that they take a value

---
 amtl/experimental/am-argparser.h | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/amtl/experimental/am-argparser.h b/amtl/experimental/am-argparser.h
index 36da1d3..4691762 100644
--- a/amtl/experimental/am-argparser.h
+++ b/amtl/experimental/am-argparser.h
@@ -924,7 +924,8 @@ Parser::usage(FILE* fp, int argc, char** argv)
 
         // We need to put each form on a separate line.
         if (option->short_form()) {
-            std::string short_form = StringPrintf("%s-%s ", indent.get(), option->short_form());
+            std::string short_form = StringPrintf("%s-%s%s ", indent.get(), option->short_form(),
+                                                  option->long_form() ? "" : value_suffix.c_str());
             entry.opt_lines.emplace_back(std::move(short_form));
         }
         if (option->long_form()) {
-- 
2.43.0


From bd7c4dd93b98a018000ee6faa10b244007e5f2b1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:16:23 +0000
Subject: [PATCH 31/50] fix: VirtualRefcountedThreadsafe never destroyed the
 object

---
 amtl/am-refcounting-threadsafe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-refcounting-threadsafe.h b/amtl/am-refcounting-threadsafe.h
index adb2e5d..7641dbb 100644
--- a/amtl/am-refcounting-threadsafe.h
+++ b/amtl/am-refcounting-threadsafe.h
@@ -95,7 +95,7 @@ class VirtualRefcountedThreadsafe : public IRefcounted
         refcount_ += 1;
     }
     void Release() override {
-        if (refcount_.fetch_sub(1) == 0) {
+        if (refcount_.fetch_sub(1) == 1) {
             assert(refcount_.load() == 0);
 #if !defined(NDEBUG)
             destroying_ = true;
-- 
2.43.0


From 95d523266476c3b7cd3a8c1b54651a15ad1edeeb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:19:02 +0000
Subject: [PATCH 32/50] fix: AtomicRef took its lock without acquire ordering

---
 amtl/am-refcounting-threadsafe.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-refcounting-threadsafe.h b/amtl/am-refcounting-threadsafe.h
index 7641dbb..475c8fb 100644
--- a/amtl/am-refcounting-threadsafe.h
+++ b/amtl/am-refcounting-threadsafe.h
@@ -181,7 +181,7 @@ class AtomicRef
         // indefinitely waiting for it to become unlocked. So we must have a
         // strong guarantee on failure.
         void* oldval = untagged(thing_);
-        while (!thing_.compare_exchange_strong(oldval, tagged(oldval), std::memory_order_release,
+        while (!thing_.compare_exchange_strong(oldval, tagged(oldval), std::memory_order_acquire,
                                                std::memory_order_relaxed))
         {
             std::this_thread::yield();
-- 
2.43.0


From cf2f2550a16e23ad472dbb0614f48d96aba2dc1a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:55 +0000
Subject: [PATCH 33/50] fix: a ThreadLocal counted as allocated after its
 allocation failed

---
 amtl/am-threadlocal.h | 10 ++++++++--
 1 file changed, 8 insertions(+), 2 deletions(-)

diff --git a/amtl/am-threadlocal.h b/amtl/am-threadlocal.h
index 9634d55..f119b16 100644
--- a/amtl/am-threadlocal.h
+++ b/amtl/am-threadlocal.h
@@ -129,7 +129,10 @@ class ThreadLocal
         if (InterlockedCompareExchange((volatile LONG*)&allocated_, 1, 0) == 1)
             return true;
         key_ = TlsAlloc();
-        return key_ != TLS_OUT_OF_INDEXES;
+        if (key_ != TLS_OUT_OF_INDEXES)
+            return true;
+        allocated_ = 0;
+        return false;
     }
 
     DWORD key_;
@@ -144,7 +147,10 @@ class ThreadLocal
     bool allocate() {
         if (!__sync_bool_compare_and_swap(&allocated_, 0, 1))
             return true;
-        return pthread_key_create(&key_, nullptr) == 0;
+        if (pthread_key_create(&key_, nullptr) == 0)
+            return true;
+        allocated_ = 0;
+        return false;
     }
 
   private:
-- 
2.43.0


From f00695e0e5b262816afdd3bc834571040bbba977 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:25:55 +0000
Subject: [PATCH 34/50] fix: threads racing to use a ThreadLocal first could
 use a key not created yet

---
 amtl/am-threadlocal.h | 60 ++++++++++++++++++++++++++-----------------
 1 file changed, 36 insertions(+), 24 deletions(-)

diff --git a/amtl/am-threadlocal.h b/amtl/am-threadlocal.h
index f119b16..1d5db62 100644
--- a/amtl/am-threadlocal.h
+++ b/amtl/am-threadlocal.h
@@ -36,6 +36,9 @@
 #include <stdio.h>
 #include <stdlib.h>
 
+#include <atomic>
+#include <thread>
+
 #ifdef _WIN32
 # include <windows.h>
 #else
@@ -92,29 +95,49 @@ class ThreadLocal
 
 #if !defined(KE_SINGLE_THREADED)
   private:
-    volatile int allocated_;
+    enum : int { kUnallocated, kAllocating, kAllocated };
+
+    std::atomic<int> allocated_;
 
   public:
-    ThreadLocal() {
-        allocated_ = 0;
-    }
+    ThreadLocal()
+     : allocated_(kUnallocated)
+    {}
 
     T get() const {
-        if (!allocated_)
+        if (allocated_.load(std::memory_order_acquire) != kAllocated)
             return T();
         return internalGet();
     }
     void set(const T& t) {
-        if (!allocated_ && !allocate()) {
+        if (!allocate()) {
             fprintf(stderr, "could not allocate thread-local storage\n");
             abort();
         }
         internalSet(t);
     }
 
+    // If another thread is allocating the key, wait until it has finished.
+    bool allocate() {
+        int state = allocated_.load(std::memory_order_acquire);
+        while (state != kAllocated) {
+            if (state == kAllocating) {
+                std::this_thread::yield();
+                state = allocated_.load(std::memory_order_acquire);
+                continue;
+            }
+            if (!allocated_.compare_exchange_strong(state, kAllocating, std::memory_order_acquire))
+                continue;
+            bool ok = internalAllocate();
+            allocated_.store(ok ? kAllocated : kUnallocated, std::memory_order_release);
+            return ok;
+        }
+        return true;
+    }
+
 #    if defined(_MSC_VER)
     ~ThreadLocal() {
-        if (allocated_)
+        if (allocated_.load(std::memory_order_acquire) == kAllocated)
             TlsFree(key_);
     }
 
@@ -125,14 +148,9 @@ class ThreadLocal
     void internalSet(const T& t) {
         TlsSetValue(key_, cast_to_pointer<T>::cast(t));
     }
-    bool allocate() {
-        if (InterlockedCompareExchange((volatile LONG*)&allocated_, 1, 0) == 1)
-            return true;
+    bool internalAllocate() {
         key_ = TlsAlloc();
-        if (key_ != TLS_OUT_OF_INDEXES)
-            return true;
-        allocated_ = 0;
-        return false;
+        return key_ != TLS_OUT_OF_INDEXES;
     }
 
     DWORD key_;
@@ -140,20 +158,14 @@ class ThreadLocal
 #    else
   public:
     ~ThreadLocal() {
-        if (allocated_)
+        if (allocated_.load(std::memory_order_acquire) == kAllocated)
             pthread_key_delete(key_);
     }
 
-    bool allocate() {
-        if (!__sync_bool_compare_and_swap(&allocated_, 0, 1))
-            return true;
-        if (pthread_key_create(&key_, nullptr) == 0)
-            return true;
-        allocated_ = 0;
-        return false;
-    }
-
   private:
+    bool internalAllocate() {
+        return pthread_key_create(&key_, nullptr) == 0;
+    }
     T internalGet() const {
         return (T) reinterpret_cast<uintptr_t>(pthread_getspecific(key_));
     }
-- 
2.43.0


From 3d779e38199382b9d43ceafe9053587eeb84fad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:21 +0000
Subject: [PATCH 35/50] fix: Mutex::try_lock did not record the owner in debug
 builds

---
 amtl/am-mutex.h | 7 +++++++
 1 file changed, 7 insertions(+)

diff --git a/amtl/am-mutex.h b/amtl/am-mutex.h
index 38d5940..066cfe9 100644
--- a/amtl/am-mutex.h
+++ b/amtl/am-mutex.h
@@ -48,6 +48,13 @@ class Mutex : public std::mutex
        owner_ = std::this_thread::get_id();
     };
 
+    bool try_lock() {
+       if (!std::mutex::try_lock())
+           return false;
+       owner_ = std::this_thread::get_id();
+       return true;
+    }
+
     void unlock() {
        owner_ = {};
        std::mutex::unlock();
-- 
2.43.0


From bd4065dc1ac4ef6200cdb0714734f353d29e5848 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 23:47:27 +0000
Subject: [PATCH 36/50] fix: asserting ownership of a Mutex raced with other
 threads locking it

---
 amtl/am-mutex.h | 5 +++--
 1 file changed, 3 insertions(+), 2 deletions(-)

diff --git a/amtl/am-mutex.h b/amtl/am-mutex.h
index 066cfe9..64af01a 100644
--- a/amtl/am-mutex.h
+++ b/amtl/am-mutex.h
@@ -31,6 +31,7 @@
 
 #include <assert.h>
 
+#include <atomic>
 #include <mutex>
 #include <thread>
 
@@ -56,7 +57,7 @@ class Mutex : public std::mutex
     }
 
     void unlock() {
-       owner_ = {};
+       owner_ = std::thread::id();
        std::mutex::unlock();
     }
 
@@ -65,7 +66,7 @@ class Mutex : public std::mutex
     }
 
   private:
-    std::thread::id owner_ = {};
+    std::atomic<std::thread::id> owner_{std::thread::id()};
 #endif
 };
 
-- 
2.43.0


From 3d8a88bcc05e3148091a2116383066e9aaf9f619 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:27 +0000
Subject: [PATCH 37/50] fix: the Windows workarounds of FloatModulo were not
 compiled unless another header came first

---
 amtl/am-float.h | 2 ++
 1 file changed, 2 insertions(+)

diff --git a/amtl/am-float.h b/amtl/am-float.h
index 986ba6c..e56aa13 100644
--- a/amtl/am-float.h
+++ b/amtl/am-float.h
@@ -35,6 +35,8 @@
 #include <cfloat>
 #include <cmath>
 
+#include <amtl/am-platform.h>
+
 namespace ke {
 
 static const uint32_t kFloat32ExponentMask = 0x7F800000;
-- 
2.43.0


From 61bf2b644dc04a24c304f77c0f91d27f56aa678e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:41 +0000
Subject: [PATCH 38/50] fix: on Windows FloatModulo answered 0 for 0 % 0 and 0
 % NaN

---
 amtl/am-float.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-float.h b/amtl/am-float.h
index e56aa13..89bdef2 100644
--- a/amtl/am-float.h
+++ b/amtl/am-float.h
@@ -130,7 +130,7 @@ FloatModulo(T left, T right)
     // Windows fmod() does not follow the contract above, in that:
     //  42 % Infinity => NaN, instead of 42, and
     //  -0 % -N => 0, instead of -0.
-    if ((!IsInfinite(left) && IsInfinite(right)) || (left == 0 && !IsInfinite(right))) {
+    if ((!IsInfinite(left) && IsInfinite(right)) || (left == 0 && right != 0 && !IsNaN(right))) {
         return left;
     }
 #endif
-- 
2.43.0


From 808252d678f77003db456f28eb0a74aefb2e4a1f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:54 +0000
Subject: [PATCH 39/50] fix: with Microsoft's compiler SafeVsprintf reported a
 full buffer when formatting failed

---
 amtl/am-string.h | 10 ++--------
 1 file changed, 2 insertions(+), 8 deletions(-)

diff --git a/amtl/am-string.h b/amtl/am-string.h
index 80cb7b9..2e8084c 100644
--- a/amtl/am-string.h
+++ b/amtl/am-string.h
@@ -63,11 +63,8 @@ namespace ke {
 #    define KE_PRINTF_FUNCTION(string_index, first_to_check)
 #endif
 
-#if defined(_MSC_VER)
-#    define KE_VSNPRINTF _vsnprintf
-#else
-#    define KE_VSNPRINTF vsnprintf
-#endif
+// Unlike _vsnprintf(), vsnprintf() tells truncation and failure apart.
+#define KE_VSNPRINTF vsnprintf
 
 // Forward declare these functions since GCC will complain otherwise.
 static inline std::unique_ptr<char[]> SprintfArgs(const char* fmt, va_list ap) KE_PRINTF_FUNCTION(1, 0);
@@ -157,13 +154,10 @@ SafeVsprintf(char* buffer, size_t maxlength, const char* fmt, va_list ap)
 
     int len = KE_VSNPRINTF(buffer, maxlength, fmt, ap);
 
-#if !defined(_MSC_VER)
-    // On Windows a negative value also means that the output was truncated.
     if (len < 0) {
         buffer[0] = '\0';
         return 0;
     }
-#endif
 
     if (size_t(len) >= maxlength) {
         buffer[maxlength - 1] = '\0';
-- 
2.43.0


From d8c9cd49c72f63c8c52388d22163a683f3db90a9 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:30:54 +0000
Subject: [PATCH 40/50] fix: am-system-errors.h did not compile on Windows
 unless another header came first

---
 amtl/os/am-system-errors.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amtl/os/am-system-errors.h b/amtl/os/am-system-errors.h
index e466e82..10f546f 100644
--- a/amtl/os/am-system-errors.h
+++ b/amtl/os/am-system-errors.h
@@ -29,6 +29,7 @@
 #ifndef _include_amtl_os_system_errors_h_
 #define _include_amtl_os_system_errors_h_
 
+#include <amtl/am-platform.h>
 #if defined(KE_WINDOWS)
 #    define WIN32_LEAN_AND_MEAN
 #    include <Windows.h>
-- 
2.43.0


From 533afe96d7d40e586e7b2731bd84ae3933699c46 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:22 +0000
Subject: [PATCH 41/50] fix: naming a thread left kernel32.dll referenced on
 Windows without SetThreadDescription

---
 amtl/am-thread.h | 4 +++-
 1 file changed, 3 insertions(+), 1 deletion(-)

diff --git a/amtl/am-thread.h b/amtl/am-thread.h
index 7f3f71d..602e015 100644
--- a/amtl/am-thread.h
+++ b/amtl/am-thread.h
@@ -60,8 +60,10 @@ static void SetThreadName(HANDLE thread, const char* name) {
 
     typedef HRESULT (WINAPI * SetThreadDescriptionFn)(HANDLE, PCWSTR);
     auto fn = (SetThreadDescriptionFn)GetProcAddress(module, "SetThreadDescription");
-    if (!fn)
+    if (!fn) {
+        FreeLibrary(module);
         return;
+    }
 
     std::wstring_convert<std::codecvt_utf8_utf16<wchar_t>> converter;
     std::wstring utf16 = converter.from_bytes(name);
-- 
2.43.0


From b3563775ee246edfc15c78c71c379c3c00cbdfed Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 01:33:22 +0000
Subject: [PATCH 42/50] fix: on Windows a thread whose name is not UTF-8 ended
 in an exception

---
 amtl/am-thread.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-thread.h b/amtl/am-thread.h
index 602e015..a1d6cd6 100644
--- a/amtl/am-thread.h
+++ b/amtl/am-thread.h
@@ -65,7 +65,7 @@ static void SetThreadName(HANDLE thread, const char* name) {
         return;
     }
 
-    std::wstring_convert<std::codecvt_utf8_utf16<wchar_t>> converter;
+    std::wstring_convert<std::codecvt_utf8_utf16<wchar_t>> converter("", L"");
     std::wstring utf16 = converter.from_bytes(name);
     fn(thread, utf16.c_str());
 	
-- 
2.43.0


From d4886cfd5ec9c7eb0ee4de3a9de29cc5298b62fc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 05:54:13 +0000
Subject: [PATCH 43/50] fix: let a Function be assigned something that its old
 callable owns

Assigning destroyed the stored callable before it took the new one. If the old callable owned the new
callable or wrapper, for example through a shared_ptr in a chain of callbacks, the assignment read freed
memory. Take the new callable first, as std::function does.
---
 amtl/am-function.h | 24 ++++++++++++------------
 1 file changed, 12 insertions(+), 12 deletions(-)

diff --git a/amtl/am-function.h b/amtl/am-function.h
index 4c57959..0f86add 100644
--- a/amtl/am-function.h
+++ b/amtl/am-function.h
@@ -130,29 +130,23 @@ class Function<ReturnType(ArgTypes...)>
     }
 
     Function& operator =(decltype(nullptr)) {
-        destroy();
-        impl_ = nullptr;
+        replace(Function());
         return *this;
     }
     Function& operator =(const Function& other) {
-        if (this != &other) {
-            destroy();
-            assign(other);
-        }
+        if (this != &other)
+            replace(Function(other));
         return *this;
     }
     Function& operator =(Function&& other) {
-        if (this != &other) {
-            destroy();
-            move(std::move(other));
-        }
+        if (this != &other)
+            replace(std::move(other));
         return *this;
     }
 
     template <typename T, typename = EnableIfCallable<T>>
     Function& operator =(T&& other) {
-        destroy();
-        assign(std::forward<T>(other));
+        replace(Function(std::forward<T>(other)));
         return *this;
     }
 
@@ -184,6 +178,12 @@ class Function<ReturnType(ArgTypes...)>
         impl_ = nullptr;
     }
 
+    // Take the new callable, then destroy the old one, which might own it.
+    void replace(Function&& other) {
+        Function old(std::move(*this));
+        move(std::move(other));
+    }
+
     void* inline_buffer() {
         return &buffer_;
     }
-- 
2.43.0


From ff6b6b88cb50a1bcef7aa325e7fdd1a7b74dfb57 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:41:35 +0000
Subject: [PATCH 44/50] fix: include what am-arithmetic.h, am-maybe.h and
 am-raii.h use, so that each compiles on its own

---
 amtl/am-arithmetic.h | 2 ++
 amtl/am-maybe.h      | 1 +
 amtl/am-raii.h       | 2 ++
 3 files changed, 5 insertions(+)

diff --git a/amtl/am-arithmetic.h b/amtl/am-arithmetic.h
index 289a326..4ba43e2 100644
--- a/amtl/am-arithmetic.h
+++ b/amtl/am-arithmetic.h
@@ -29,6 +29,8 @@
 #ifndef _include_amtl_bits_h_
 #define _include_amtl_bits_h_
 
+#include <stdint.h>
+
 #include <algorithm>
 
 namespace ke {
diff --git a/amtl/am-maybe.h b/amtl/am-maybe.h
index c1a0fb5..c03bff3 100644
--- a/amtl/am-maybe.h
+++ b/amtl/am-maybe.h
@@ -31,6 +31,7 @@
 
 #include <assert.h>
 
+#include <new>
 #include <type_traits>
 #include <utility>
 
diff --git a/amtl/am-raii.h b/amtl/am-raii.h
index 66cfb80..d975b5e 100644
--- a/amtl/am-raii.h
+++ b/amtl/am-raii.h
@@ -30,6 +30,8 @@
 #ifndef _include_amtl_am_raii_h_
 #define _include_amtl_am_raii_h_
 
+#include <assert.h>
+
 #include <utility>
 
 namespace ke {
-- 
2.43.0


From eed6fc6b7eb06d7c5d7063acdcc13ca9c5443aca Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 06:52:12 +0000
Subject: [PATCH 45/50] fix: am-utility.h uses memset, so it includes
 <string.h>

---
 amtl/am-utility.h | 1 +
 1 file changed, 1 insertion(+)

diff --git a/amtl/am-utility.h b/amtl/am-utility.h
index 49463dd..8df3745 100644
--- a/amtl/am-utility.h
+++ b/amtl/am-utility.h
@@ -35,6 +35,7 @@
 #include <stddef.h>
 #include <stdint.h>
 #include <stdlib.h>
+#include <string.h>
 
 #include <amtl/am-cxx.h>
 
-- 
2.43.0


From a812d6b36e72236ba7ac44ef4f622181261af13f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:23:08 +0000
Subject: [PATCH 46/50] fix: translate Apple's clang versions: a misspelt macro
 disabled the table

---
 amtl/am-cxx.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-cxx.h b/amtl/am-cxx.h
index 3240610..54bedb1 100644
--- a/amtl/am-cxx.h
+++ b/amtl/am-cxx.h
@@ -34,7 +34,7 @@
 #        define KE_CLANG_MAJOR 1
 #        define KE_CLANG_MINOR __GNUC_MINOR__
 #    else
-#        if defined(__apple_build_version__) && clang_major__ > 3
+#        if defined(__apple_build_version__) && __clang_major__ > 3
 // 4.0 => 3.1, 4.1 => 3.2
 #            if __clang_major__ == 4
 #                define KE_CLANG_MAJOR 3
-- 
2.43.0


From 88afdfacb770c7da8dfe8be3e397cb95621f1271 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 07:59:42 +0000
Subject: [PATCH 47/50] fix: am-enum.h: KE_ALLOW_STD_CXX names a dependent type

The documented option did not compile with g++ before C++20: the name
of std::underlying_type<T>'s member needs typename.
---
 amtl/am-enum.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-enum.h b/amtl/am-enum.h
index 8c8aa3b..cb17ba0 100644
--- a/amtl/am-enum.h
+++ b/amtl/am-enum.h
@@ -37,7 +37,7 @@ namespace ke {
 template <typename T>
 struct enum_integral_type {
 #ifdef KE_ALLOW_STD_CXX
-    using type = std::underlying_type<T>::type;
+    using type = typename std::underlying_type<T>::type;
 #else
     using type = __underlying_type(T);
 #endif
-- 
2.43.0


From 7242bef817b6fd6c18e7e1e96b07a8aaa792a6e7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:29 +0000
Subject: [PATCH 48/50] fix: KE_CLANG_AT_LEAST compares the translated Apple
 clang version

---
 amtl/am-cxx.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/amtl/am-cxx.h b/amtl/am-cxx.h
index 54bedb1..8052905 100644
--- a/amtl/am-cxx.h
+++ b/amtl/am-cxx.h
@@ -66,7 +66,7 @@
 
 // Done with horrible clang version detection.
 #    define KE_CLANG_AT_LEAST(x, y) \
-        ((__clang_major__ > (x)) || (__clang_major__ == x && __clang_minor__ >= y))
+        ((KE_CLANG_MAJOR > (x)) || (KE_CLANG_MAJOR == x && KE_CLANG_MINOR >= y))
 
 #    if !KE_CLANG_AT_LEAST(3, 4)
 #        error "AMTL requires clang 3.4 or higher"
-- 
2.43.0


From d3e08e7264fadbfe8752b941f1ef5755e5b851b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:26:31 +0000
Subject: [PATCH 49/50] fix: 64-bit bit scans no longer count the bits of a
 32-bit long

---
 amtl/am-bits.h | 14 +++-----------
 1 file changed, 3 insertions(+), 11 deletions(-)

diff --git a/amtl/am-bits.h b/amtl/am-bits.h
index 40bda7d..552566c 100644
--- a/amtl/am-bits.h
+++ b/amtl/am-bits.h
@@ -97,11 +97,7 @@ Log2(size_t number)
     assert(number != 0);
 
 #    ifdef __GNUC__
-#        ifdef __LP64__
-    return 63 - __builtin_clzl(number);
-#        else
-    return 31 - __builtin_clz(number);
-#        endif
+    return 63 - __builtin_clzll(number);
 #    else
     size_t bit;
     asm("bsr %1, %0\n" : "=r"(bit) : "rm"(number));
@@ -141,7 +137,7 @@ FindLeftmostBit64(uint64_t number)
     return rval;
 # endif // _M_arch
 #elif __GNUC__
-    return 63 - __builtin_clzl(number);
+    return 63 - __builtin_clzll(number);
 # endif
 }
 
@@ -159,11 +155,7 @@ FindRightmostBit(size_t number)
 # endif
     return rval;
 #elif __GNUC__
-# ifdef __LP64__
-    return __builtin_ctzl(number);
-# else
-    return __builtin_ctz(number);
-# endif
+    return __builtin_ctzll(number);
 #endif
 }
 
-- 
2.43.0


From 3df0a9f0be6ef96cea1b0a76cb504ac57c1ad450 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Fri, 20 Nov 2026 08:54:17 +0000
Subject: [PATCH 50/50] fix: texts of INT_MAX characters: the size with the
 terminator overflowed an int

---
 amtl/am-string.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/amtl/am-string.h b/amtl/am-string.h
index 2e8084c..a31a039 100644
--- a/amtl/am-string.h
+++ b/amtl/am-string.h
@@ -110,13 +110,13 @@ SprintfArgsImpl(size_t* out_len, const char* fmt, va_list ap)
         return buffer;
     }
 
-    auto buffer = std::make_unique<char[]>(len + 1);
+    auto buffer = std::make_unique<char[]>(size_t(len) + 1);
     if (!buffer) {
         va_end(argv);
         return buffer;
     }
 
-    int new_len = KE_VSNPRINTF(buffer.get(), len + 1, fmt, argv);
+    int new_len = KE_VSNPRINTF(buffer.get(), size_t(len) + 1, fmt, argv);
     if (new_len < 0)
         return std::unique_ptr<char[]>();
     assert(len == new_len);
-- 
2.43.0

