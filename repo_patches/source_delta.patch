From bedee873256dfe4bf3712d9f4029db8b06df3675 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:10 +0000
Subject: [PATCH 01/34] fix: vector must not record a new capacity when
 reallocation fails

---
 src/Vector.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index f92c9de..08d47ea 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -111,9 +111,9 @@ static ZyanStatus ZyanVectorReallocate(ZyanVector* vector, ZyanUSize capacity)
         }
     }
 
-    vector->capacity = capacity;
     ZYAN_CHECK(vector->allocator->reallocate(vector->allocator, &vector->data,
-        vector->element_size, vector->capacity));
+        vector->element_size, capacity));
+    vector->capacity = capacity;
 
     return ZYAN_STATUS_SUCCESS;
 }
-- 
2.43.0


From 2fbc147590cb3c792796946abae15996242b06ad Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:11 +0000
Subject: [PATCH 02/34] fix: vector emplace must restore the elements if the
 constructor fails

---
 src/Vector.c | 9 ++++++++-
 1 file changed, 8 insertions(+), 1 deletion(-)

diff --git a/src/Vector.c b/src/Vector.c
index 08d47ea..5b2e077 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -520,7 +520,14 @@ ZyanStatus ZyanVectorEmplaceEx(ZyanVector* vector, ZyanUSize index, void** eleme
     *element = ZYCORE_VECTOR_OFFSET(vector, index);
     if (constructor)
     {
-        ZYAN_CHECK(constructor(*element));
+        const ZyanStatus status = constructor(*element);
+        if (!ZYAN_SUCCESS(status))
+        {
+            // Close the gap again
+            ZYAN_MEMMOVE(*element, ZYCORE_VECTOR_OFFSET(vector, index + 1),
+                (vector->size - index) * vector->element_size);
+            return status;
+        }
     }
 
     ++vector->size;
-- 
2.43.0


From 0e3de627e21c45cc643bb728aea1d7f01379c344 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:12 +0000
Subject: [PATCH 03/34] fix: searching an empty vector must report 'not found'

---
 src/Vector.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/Vector.c b/src/Vector.c
index 5b2e077..5a51d81 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -664,7 +664,7 @@ ZyanStatus ZyanVectorFindEx(const ZyanVector* vector, const void* element, ZyanI
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if ((index + count > vector->size) || (index == vector->size))
+    if (((index >= vector->size) && (count > 0)) || (index + count > vector->size))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
-- 
2.43.0


From 6b4d50c61d747a9e4f03343516dae118634a1da0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:12 +0000
Subject: [PATCH 04/34] fix: vector range checks and growth must not wrap
 around

---
 src/Vector.c | 25 +++++++++++++++++++------
 1 file changed, 19 insertions(+), 6 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index 5a51d81..a7d968d 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -54,6 +54,18 @@
 #define ZYCORE_VECTOR_SHOULD_SHRINK(size, capacity, threshold) \
     (((threshold) != 0) && ((size) * (threshold) < (capacity)))
 
+/**
+ * Computes the capacity of a vector that has to grow. Does not overallocate, if the result would
+ * exceed the range of `ZyanUSize`.
+ *
+ * @param   size            The desired size of the vector.
+ * @param   growth_factor   The growth factor.
+ *
+ * @return  The new capacity.
+ */
+#define ZYCORE_VECTOR_GROW(size, growth_factor) \
+    (((size) > (ZyanUSize)-1 / (growth_factor)) ? (size) : ((size) * (growth_factor)))
+
 /**
  * Returns the offset of the element at the given `index`.
  *
@@ -455,7 +467,7 @@ ZyanStatus ZyanVectorInsertRange(ZyanVector* vector, ZyanUSize index, const void
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if (index > vector->size)
+    if ((index > vector->size) || (count > (ZyanUSize)-1 - vector->size))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -466,7 +478,7 @@ ZyanStatus ZyanVectorInsertRange(ZyanVector* vector, ZyanUSize index, const void
     if (ZYCORE_VECTOR_SHOULD_GROW(vector->size + count, vector->capacity))
     {
         ZYAN_CHECK(ZyanVectorReallocate(vector,
-            ZYAN_MAX(1, (ZyanUSize)((vector->size + count) * vector->growth_factor))));
+            ZYCORE_VECTOR_GROW(vector->size + count, vector->growth_factor)));
     }
 
     if (index < vector->size)
@@ -583,7 +595,7 @@ ZyanStatus ZyanVectorDeleteRange(ZyanVector* vector, ZyanUSize index, ZyanUSize
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if (index + count > vector->size)
+    if ((index > vector->size) || (count > vector->size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -664,7 +676,7 @@ ZyanStatus ZyanVectorFindEx(const ZyanVector* vector, const void* element, ZyanI
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if (((index >= vector->size) && (count > 0)) || (index + count > vector->size))
+    if ((index > vector->size) || (count > vector->size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -709,7 +721,7 @@ ZyanStatus ZyanVectorBinarySearchEx(const ZyanVector* vector, const void* elemen
     {
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
-    if (((index >= vector->size) && (count > 0)) || (index + count > vector->size))
+    if ((index > vector->size) || (count > vector->size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -779,7 +791,8 @@ ZyanStatus ZyanVectorResizeEx(ZyanVector* vector, ZyanUSize size, const void* in
         ZYCORE_VECTOR_SHOULD_SHRINK(size, vector->capacity, vector->shrink_threshold))
     {
         ZYAN_ASSERT(vector->growth_factor >= 1);
-        ZYAN_CHECK(ZyanVectorReallocate(vector, (ZyanUSize)(size * vector->growth_factor)));
+        ZYAN_CHECK(ZyanVectorReallocate(vector,
+            ZYCORE_VECTOR_GROW(size, vector->growth_factor)));
     }
 
     if (initializer && (size > vector->size))
-- 
2.43.0


From 938f952df1d83c3d1bcdfe17eafca18d540f9ceb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:51 +0000
Subject: [PATCH 05/34] fix: removing vector elements must not fail half-way if
 shrinking fails

---
 src/Vector.c | 21 ++++++++++++++-------
 1 file changed, 14 insertions(+), 7 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index a7d968d..9b90c8d 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -616,8 +616,9 @@ ZyanStatus ZyanVectorDeleteRange(ZyanVector* vector, ZyanUSize index, ZyanUSize
     vector->size -= count;
     if (ZYCORE_VECTOR_SHOULD_SHRINK(vector->size, vector->capacity, vector->shrink_threshold))
     {
-        return ZyanVectorReallocate(vector,
-            ZYAN_MAX(1, (ZyanUSize)(vector->size * vector->growth_factor)));
+        // The old (bigger) buffer stays valid, if shrinking fails
+        ZYAN_UNUSED(ZyanVectorReallocate(vector,
+            ZYAN_MAX(1, (ZyanUSize)(vector->size * vector->growth_factor))));
     }
 
     return ZYAN_STATUS_SUCCESS;
@@ -642,8 +643,9 @@ ZyanStatus ZyanVectorPopBack(ZyanVector* vector)
     --vector->size;
     if (ZYCORE_VECTOR_SHOULD_SHRINK(vector->size, vector->capacity, vector->shrink_threshold))
     {
-        return ZyanVectorReallocate(vector,
-            ZYAN_MAX(1, (ZyanUSize)(vector->size * vector->growth_factor)));
+        // The old (bigger) buffer stays valid, if shrinking fails
+        ZYAN_UNUSED(ZyanVectorReallocate(vector,
+            ZYAN_MAX(1, (ZyanUSize)(vector->size * vector->growth_factor))));
     }
 
     return ZYAN_STATUS_SUCCESS;
@@ -787,12 +789,17 @@ ZyanStatus ZyanVectorResizeEx(ZyanVector* vector, ZyanUSize size, const void* in
         }
     }
 
-    if (ZYCORE_VECTOR_SHOULD_GROW(size, vector->capacity) ||
-        ZYCORE_VECTOR_SHOULD_SHRINK(size, vector->capacity, vector->shrink_threshold))
+    ZYAN_ASSERT(vector->growth_factor >= 1);
+    if (ZYCORE_VECTOR_SHOULD_GROW(size, vector->capacity))
     {
-        ZYAN_ASSERT(vector->growth_factor >= 1);
         ZYAN_CHECK(ZyanVectorReallocate(vector,
             ZYCORE_VECTOR_GROW(size, vector->growth_factor)));
+    } else
+    if (ZYCORE_VECTOR_SHOULD_SHRINK(size, vector->capacity, vector->shrink_threshold))
+    {
+        // The old (bigger) buffer stays valid, if shrinking fails
+        ZYAN_UNUSED(ZyanVectorReallocate(vector,
+            ZYCORE_VECTOR_GROW(size, vector->growth_factor)));
     }
 
     if (initializer && (size > vector->size))
-- 
2.43.0


From e5d6dd87bc357129e4a6a5caf4982366ace92eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:14:52 +0000
Subject: [PATCH 06/34] fix: default allocator must reject sizes that wrap
 around

---
 src/Allocator.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Allocator.c b/src/Allocator.c
index 5fadf64..45ac93e 100644
--- a/src/Allocator.c
+++ b/src/Allocator.c
@@ -47,6 +47,11 @@ static ZyanStatus ZyanAllocatorDefaultAllocate(ZyanAllocator* allocator, void**
 
     ZYAN_UNUSED(allocator);
 
+    if (n > (ZyanUSize)-1 / element_size)
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     *p = ZYAN_MALLOC(element_size * n);
     if (!*p)
     {
@@ -66,6 +71,11 @@ static ZyanStatus ZyanAllocatorDefaultReallocate(ZyanAllocator* allocator, void*
 
     ZYAN_UNUSED(allocator);
 
+    if (n > (ZyanUSize)-1 / element_size)
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     void* const x = ZYAN_REALLOC(*p, element_size * n);
     if (!x)
     {
-- 
2.43.0


From a9e70694e67b6118589624b3985ad05337f66190 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:19 +0000
Subject: [PATCH 07/34] fix: a view inside a view must cover all requested
 characters

---
 src/String.c | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/src/String.c b/src/String.c
index 9dce43f..24500e3 100644
--- a/src/String.c
+++ b/src/String.c
@@ -273,7 +273,7 @@ ZyanStatus ZyanStringViewInsideViewEx(ZyanStringView* view, const ZyanStringView
     }
 
     view->string.vector.data = (void*)((char*)source->string.vector.data + index);
-    view->string.vector.size = count;
+    view->string.vector.size = count + 1;
 
     return ZYAN_STATUS_SUCCESS;
 }
-- 
2.43.0


From d5d1c22749c0c7a932b857a75be7d8fdb7c24c49 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:15:20 +0000
Subject: [PATCH 08/34] fix: string views must initialize the element size used
 for character access

---
 src/String.c | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/src/String.c b/src/String.c
index 24500e3..49087f6 100644
--- a/src/String.c
+++ b/src/String.c
@@ -255,6 +255,7 @@ ZyanStatus ZyanStringViewInsideView(ZyanStringView* view, const ZyanStringView*
 
     view->string.vector.data = source->string.vector.data;
     view->string.vector.size = source->string.vector.size;
+    view->string.vector.element_size = sizeof(char);
 
     return ZYAN_STATUS_SUCCESS;
 }
@@ -274,6 +275,7 @@ ZyanStatus ZyanStringViewInsideViewEx(ZyanStringView* view, const ZyanStringView
 
     view->string.vector.data = (void*)((char*)source->string.vector.data + index);
     view->string.vector.size = count + 1;
+    view->string.vector.element_size = sizeof(char);
 
     return ZYAN_STATUS_SUCCESS;
 }
@@ -287,6 +289,7 @@ ZyanStatus ZyanStringViewInsideBuffer(ZyanStringView* view, const char* string)
 
     view->string.vector.data = (void*)string;
     view->string.vector.size = ZYAN_STRLEN(string) + 1;
+    view->string.vector.element_size = sizeof(char);
 
     return ZYAN_STATUS_SUCCESS;
 }
@@ -300,6 +303,7 @@ ZyanStatus ZyanStringViewInsideBufferEx(ZyanStringView* view, const char* buffer
 
     view->string.vector.data = (void*)buffer;
     view->string.vector.size = length + 1;
+    view->string.vector.element_size = sizeof(char);
 
     return ZYAN_STATUS_SUCCESS;
 }
-- 
2.43.0


From 0b42f07f2b14b447c1cd691214549271317bd174 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:19:06 +0000
Subject: [PATCH 09/34] fix: string range checks must not wrap around

---
 src/String.c | 24 +++++++++++++-----------
 1 file changed, 13 insertions(+), 11 deletions(-)

diff --git a/src/String.c b/src/String.c
index 49087f6..8471140 100644
--- a/src/String.c
+++ b/src/String.c
@@ -268,7 +268,7 @@ ZyanStatus ZyanStringViewInsideViewEx(ZyanStringView* view, const ZyanStringView
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if (index + count >= source->string.vector.size)
+    if ((index >= source->string.vector.size) || (count >= source->string.vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -345,7 +345,7 @@ ZyanStatus ZyanStringGetChar(const ZyanStringView* string, ZyanUSize index, char
     }
 
     // Don't allow direct access to the terminating '\0' character
-    if (index + 1 >= string->string.vector.size)
+    if ((index >= string->string.vector.size) || (index + 1 >= string->string.vector.size))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -365,7 +365,7 @@ ZyanStatus ZyanStringGetCharMutable(ZyanString* string, ZyanUSize index, char**
     }
 
     // Don't allow direct access to the terminating '\0' character
-    if (index + 1 >= string->vector.size)
+    if ((index >= string->vector.size) || (index + 1 >= string->vector.size))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -381,7 +381,7 @@ ZyanStatus ZyanStringSetChar(ZyanString* string, ZyanUSize index, char value)
     }
 
     // Don't allow direct access to the terminating '\0' character
-    if (index + 1 >= string->vector.size)
+    if ((index >= string->vector.size) || (index + 1 >= string->vector.size))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -438,7 +438,8 @@ ZyanStatus ZyanStringInsertEx(ZyanString* destination, ZyanUSize destination_ind
     }
 
     // Don't allow access to the terminating '\0' character
-    if (source_index + count >= source->string.vector.size)
+    if ((source_index >= source->string.vector.size) ||
+        (count >= source->string.vector.size - source_index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -479,7 +480,8 @@ ZyanStatus ZyanStringAppendEx(ZyanString* destination, const ZyanStringView* sou
     }
 
     // Don't allow access to the terminating '\0' character
-    if (source_index + count >= source->string.vector.size)
+    if ((source_index >= source->string.vector.size) ||
+        (count >= source->string.vector.size - source_index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -505,7 +507,7 @@ ZyanStatus ZyanStringDelete(ZyanString* string, ZyanUSize index, ZyanUSize count
     }
 
     // Don't allow removal of the terminating '\0' character
-    if (index + count >= string->vector.size)
+    if ((index >= string->vector.size) || (count >= string->vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -576,7 +578,7 @@ ZyanStatus ZyanStringLPosEx(const ZyanStringView* haystack, const ZyanStringView
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= haystack->string.vector.size)
+    if ((index >= haystack->string.vector.size) || (count >= haystack->string.vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -645,7 +647,7 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= haystack->string.vector.size)
+    if ((index >= haystack->string.vector.size) || (count >= haystack->string.vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -958,7 +960,7 @@ ZyanStatus ZyanStringToLowerCaseEx(ZyanString* string, ZyanUSize index, ZyanUSiz
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= string->vector.size)
+    if ((index >= string->vector.size) || (count >= string->vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
@@ -999,7 +1001,7 @@ ZyanStatus ZyanStringToUpperCaseEx(ZyanString* string, ZyanUSize index, ZyanUSiz
     }
 
     // Don't allow access to the terminating '\0' character
-    if (index + count >= string->vector.size)
+    if ((index >= string->vector.size) || (count >= string->vector.size - index))
     {
         return ZYAN_STATUS_OUT_OF_RANGE;
     }
-- 
2.43.0


From 90474a74d1e85ea49cc818e9703d7530ced40eb4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 10/34] fix: reserving string capacity must account for the
 terminating zero

---
 src/String.c | 8 +++++++-
 1 file changed, 7 insertions(+), 1 deletion(-)

diff --git a/src/String.c b/src/String.c
index 8471140..f84e664 100644
--- a/src/String.c
+++ b/src/String.c
@@ -1044,7 +1044,13 @@ ZyanStatus ZyanStringReserve(ZyanString* string, ZyanUSize capacity)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    return ZyanVectorReserve(&string->vector, capacity);
+    // Reserve space for the terminating '\0' character
+    if (capacity == (ZyanUSize)-1)
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
+    return ZyanVectorReserve(&string->vector, capacity + 1);
 }
 
 ZyanStatus ZyanStringShrinkToFit(ZyanString* string)
-- 
2.43.0


From f770f70cbd01042b2df455aa584babfa6e73ae45 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:01 +0000
Subject: [PATCH 11/34] fix: string sizes must not wrap around when adding the
 terminating zero

---
 src/String.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/String.c b/src/String.c
index f84e664..330b27e 100644
--- a/src/String.c
+++ b/src/String.c
@@ -69,6 +69,11 @@ ZyanStatus ZyanStringInitEx(ZyanString* string, ZyanUSize capacity, ZyanAllocato
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    if (capacity == (ZyanUSize)-1)
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     string->flags = 0;
     capacity = ZYAN_MAX(ZYAN_STRING_MIN_CAPACITY, capacity) + 1;
     ZYAN_CHECK(ZyanVectorInitEx(&string->vector, sizeof(char), capacity, ZYAN_NULL, allocator,
@@ -1031,6 +1036,11 @@ ZyanStatus ZyanStringResize(ZyanString* string, ZyanUSize size)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    if (size == (ZyanUSize)-1)
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     ZYAN_CHECK(ZyanVectorResize(&string->vector, size + 1));
     ZYCORE_STRING_NULLTERMINATE(string);
 
-- 
2.43.0


From 84ba6053be891907cc073b57a31dc24ded11fd6c Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 12/34] fix: string insertion behind the terminating zero must
 be rejected

---
 src/String.c | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/src/String.c b/src/String.c
index 330b27e..d7099cd 100644
--- a/src/String.c
+++ b/src/String.c
@@ -405,7 +405,7 @@ ZyanStatus ZyanStringInsert(ZyanString* destination, ZyanUSize index, const Zyan
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if (index == destination->vector.size)
+    if (index + 1 == destination->vector.size)
     {
         return ZyanStringAppend(destination, source);
     }
@@ -431,7 +431,7 @@ ZyanStatus ZyanStringInsertEx(ZyanString* destination, ZyanUSize destination_ind
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if (destination_index == destination->vector.size)
+    if (destination_index + 1 == destination->vector.size)
     {
         return ZyanStringAppendEx(destination, source, source_index, count);
     }
-- 
2.43.0


From 054065331c6c76c6f2efb87eed13462ade56aec7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:02 +0000
Subject: [PATCH 13/34] fix: string search must not rely on null-terminated
 views

---
 src/String.c | 28 ++++++++++++++++------------
 1 file changed, 16 insertions(+), 12 deletions(-)

diff --git a/src/String.c b/src/String.c
index d7099cd..72c1f65 100644
--- a/src/String.c
+++ b/src/String.c
@@ -597,6 +597,8 @@ ZyanStatus ZyanStringLPosEx(const ZyanStringView* haystack, const ZyanStringView
 
     const char* s = (const char*)haystack->string.vector.data + index;
     const char* b = (const char*)needle->string.vector.data;
+    // Views are not guaranteed to be null-terminated
+    const char* const needle_end = b + needle->string.vector.size - 1;
     for (; s + 1 < (const char*)haystack->string.vector.data + haystack->string.vector.size; ++s)
     {
         if (*s != *b)
@@ -606,16 +608,16 @@ ZyanStatus ZyanStringLPosEx(const ZyanStringView* haystack, const ZyanStringView
         const char* a = s;
         for (;;)
         {
-            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) > index + count)
-            {
-                *found_index = -1;
-                return ZYAN_STATUS_FALSE;
-            }
-            if (*b == 0)
+            if (b == needle_end)
             {
                 *found_index = (ZyanISize)(s - (const char*)haystack->string.vector.data);
                 return ZYAN_STATUS_TRUE;
             }
+            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) >= index + count)
+            {
+                *found_index = -1;
+                return ZYAN_STATUS_FALSE;
+            }
             if (*a++ != *b++)
             {
                 break;
@@ -666,6 +668,8 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
 
     const char* s = (const char*)haystack->string.vector.data + index;
     const char* b = (const char*)needle->string.vector.data;
+    // Views are not guaranteed to be null-terminated
+    const char* const needle_end = b + needle->string.vector.size - 1;
     for (; s + 1 < (const char*)haystack->string.vector.data + haystack->string.vector.size; ++s)
     {
         if ((*s != *b) && ((*s ^ 32) != *b))
@@ -675,16 +679,16 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
         const char* a = s;
         for (;;)
         {
-            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) > index + count)
-            {
-                *found_index = -1;
-                return ZYAN_STATUS_FALSE;
-            }
-            if (*b == 0)
+            if (b == needle_end)
             {
                 *found_index = (ZyanISize)(s - (const char*)haystack->string.vector.data);
                 return ZYAN_STATUS_TRUE;
             }
+            if ((ZyanUSize)(a - (const char*)haystack->string.vector.data) >= index + count)
+            {
+                *found_index = -1;
+                return ZYAN_STATUS_FALSE;
+            }
             const char c1 = *a++;
             const char c2 = *b++;
             if ((c1 != c2) && ((c1 ^ 32) != c2))
-- 
2.43.0


From c2b1265461d80d544559b230a884621de7115623 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:03 +0000
Subject: [PATCH 14/34] fix: string comparison must order by the first
 character that does not match

---
 src/String.c | 52 ++++++++++++++++------------------------------------
 1 file changed, 16 insertions(+), 36 deletions(-)

diff --git a/src/String.c b/src/String.c
index 72c1f65..fc0487e 100644
--- a/src/String.c
+++ b/src/String.c
@@ -854,17 +854,6 @@ ZyanStatus ZyanStringCompare(const ZyanStringView* s1, const ZyanStringView* s2,
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if (s1->string.vector.size < s2->string.vector.size)
-    {
-        *result = -1;
-        return ZYAN_STATUS_FALSE;
-    }
-    if (s1->string.vector.size > s2->string.vector.size)
-    {
-        *result =  1;
-        return ZYAN_STATUS_FALSE;
-    }
-
     const char* const a = (char*)s1->string.vector.data;
     const char* const b = (char*)s2->string.vector.data;
     ZyanUSize i;
@@ -877,19 +866,20 @@ ZyanStatus ZyanStringCompare(const ZyanStringView* s1, const ZyanStringView* s2,
         break;
     }
 
-    if (a[i] == b[i])
+    if ((i + 1 < s1->string.vector.size) && (i + 1 < s2->string.vector.size))
     {
-        *result = 0;
-        return ZYAN_STATUS_TRUE;
+        *result = ((ZyanU8)a[i] < (ZyanU8)b[i]) ? -1 : 1;
+        return ZYAN_STATUS_FALSE;
     }
 
-    if ((a[i] | 32) < (b[i] | 32))
+    // One of the strings is a prefix of the other one
+    if (s1->string.vector.size == s2->string.vector.size)
     {
-        *result = -1;
-        return ZYAN_STATUS_FALSE;
+        *result = 0;
+        return ZYAN_STATUS_TRUE;
     }
 
-    *result = 1;
+    *result = (s1->string.vector.size < s2->string.vector.size) ? -1 : 1;
     return ZYAN_STATUS_FALSE;
 }
 
@@ -904,17 +894,6 @@ ZyanStatus ZyanStringCompareI(const ZyanStringView* s1, const ZyanStringView* s2
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if (s1->string.vector.size < s2->string.vector.size)
-    {
-        *result = -1;
-        return ZYAN_STATUS_FALSE;
-    }
-    if (s1->string.vector.size > s2->string.vector.size)
-    {
-        *result =  1;
-        return ZYAN_STATUS_FALSE;
-    }
-
     const char* const a = (char*)s1->string.vector.data;
     const char* const b = (char*)s2->string.vector.data;
     ZyanUSize i;
@@ -927,19 +906,20 @@ ZyanStatus ZyanStringCompareI(const ZyanStringView* s1, const ZyanStringView* s2
         break;
     }
 
-    if (a[i] == b[i])
+    if ((i + 1 < s1->string.vector.size) && (i + 1 < s2->string.vector.size))
     {
-        *result = 0;
-        return ZYAN_STATUS_TRUE;
+        *result = (((ZyanU8)a[i] | 32) < ((ZyanU8)b[i] | 32)) ? -1 : 1;
+        return ZYAN_STATUS_FALSE;
     }
 
-    if ((a[i] | 32) < (b[i] | 32))
+    // One of the strings is a prefix of the other one
+    if (s1->string.vector.size == s2->string.vector.size)
     {
-        *result = -1;
-        return ZYAN_STATUS_FALSE;
+        *result = 0;
+        return ZYAN_STATUS_TRUE;
     }
 
-    *result = 1;
+    *result = (s1->string.vector.size < s2->string.vector.size) ? -1 : 1;
     return ZYAN_STATUS_FALSE;
 }
 
-- 
2.43.0


From d7ec7f829aee3ed93b542b5ed094de62a7fd5a0e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:20:30 +0000
Subject: [PATCH 15/34] fix: case-insensitive string operations must only fold
 letters

---
 src/String.c | 19 +++++++++++++------
 1 file changed, 13 insertions(+), 6 deletions(-)

diff --git a/src/String.c b/src/String.c
index fc0487e..2896458 100644
--- a/src/String.c
+++ b/src/String.c
@@ -43,6 +43,12 @@
 #define ZYCORE_STRING_ASSERT_NULLTERMINATION(string) \
       ZYAN_ASSERT(*(char*)((ZyanU8*)(string)->vector.data + (string)->vector.size - 1) == '\0');
 
+/**
+ * Converts the given ASCII character to lowercase.
+ */
+#define ZYCORE_STRING_TO_LOWER(c) \
+      ((((c) >= 'A') && ((c) <= 'Z')) ? ((c) | 32) : (c))
+
 /* ============================================================================================== */
 /* Exported functions                                                                             */
 /* ============================================================================================== */
@@ -672,7 +678,7 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
     const char* const needle_end = b + needle->string.vector.size - 1;
     for (; s + 1 < (const char*)haystack->string.vector.data + haystack->string.vector.size; ++s)
     {
-        if ((*s != *b) && ((*s ^ 32) != *b))
+        if (ZYCORE_STRING_TO_LOWER(*s) != ZYCORE_STRING_TO_LOWER(*b))
         {
             continue;
         }
@@ -691,7 +697,7 @@ ZyanStatus ZyanStringLPosIEx(const ZyanStringView* haystack, const ZyanStringVie
             }
             const char c1 = *a++;
             const char c2 = *b++;
-            if ((c1 != c2) && ((c1 ^ 32) != c2))
+            if (ZYCORE_STRING_TO_LOWER(c1) != ZYCORE_STRING_TO_LOWER(c2))
             {
                 break;
             }
@@ -812,7 +818,7 @@ ZyanStatus ZyanStringRPosIEx(const ZyanStringView* haystack, const ZyanStringVie
     const char* b = (const char*)needle->string.vector.data + needle->string.vector.size - 2;
     for (; s >= (const char*)haystack->string.vector.data; --s)
     {
-        if ((*s != *b) && ((*s ^ 32) != *b))
+        if (ZYCORE_STRING_TO_LOWER(*s) != ZYCORE_STRING_TO_LOWER(*b))
         {
             continue;
         }
@@ -831,7 +837,7 @@ ZyanStatus ZyanStringRPosIEx(const ZyanStringView* haystack, const ZyanStringVie
             }
             const char c1 = *a--;
             const char c2 = *b--;
-            if ((c1 != c2) && ((c1 ^ 32) != c2))
+            if (ZYCORE_STRING_TO_LOWER(c1) != ZYCORE_STRING_TO_LOWER(c2))
             {
                 break;
             }
@@ -899,7 +905,7 @@ ZyanStatus ZyanStringCompareI(const ZyanStringView* s1, const ZyanStringView* s2
     ZyanUSize i;
     for (i = 0; (i + 1 < s1->string.vector.size) && (i + 1 < s2->string.vector.size); ++i)
     {
-        if ((a[i] == b[i]) || ((a[i] ^ 32) == b[i]))
+        if (ZYCORE_STRING_TO_LOWER(a[i]) == ZYCORE_STRING_TO_LOWER(b[i]))
         {
             continue;
         }
@@ -908,7 +914,8 @@ ZyanStatus ZyanStringCompareI(const ZyanStringView* s1, const ZyanStringView* s2
 
     if ((i + 1 < s1->string.vector.size) && (i + 1 < s2->string.vector.size))
     {
-        *result = (((ZyanU8)a[i] | 32) < ((ZyanU8)b[i] | 32)) ? -1 : 1;
+        *result = ((ZyanU8)ZYCORE_STRING_TO_LOWER(a[i]) < (ZyanU8)ZYCORE_STRING_TO_LOWER(b[i]))
+            ? -1 : 1;
         return ZYAN_STATUS_FALSE;
     }
 
-- 
2.43.0


From e3bf4acf84a988260686aacbfd7590f142398bae Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:38 +0000
Subject: [PATCH 16/34] fix: formatted append must restart the argument list
 and keep the string intact on failure

---
 src/Format.c | 21 +++++++++++----------
 1 file changed, 11 insertions(+), 10 deletions(-)

diff --git a/src/Format.c b/src/Format.c
index 46d87e1..7079b8c 100644
--- a/src/Format.c
+++ b/src/Format.c
@@ -383,37 +383,38 @@ ZyanStatus ZyanStringAppendFormat(ZyanString* string, const char* format, ...)
 
     ZyanI32 w = ZYAN_VSNPRINTF((char*)string->vector.data + len - 1,
         string->vector.capacity - len + 1, format, arglist);
+    ZYAN_VA_END(arglist);
     if (w < 0)
     {
-        ZYAN_VA_END(arglist);
+        ZYCORE_STRING_NULLTERMINATE(string);
         return ZYAN_STATUS_FAILED;
     }
-    if (w <= (ZyanI32)(string->vector.capacity - len))
+    if ((ZyanUSize)w <= string->vector.capacity - len)
     {
         string->vector.size = len + w;
-
-        ZYAN_VA_END(arglist);
         return ZYAN_STATUS_SUCCESS;
     }
 
     // The remaining capacity was not sufficent to fit the formatted string. Trying to resize ..
-    const ZyanStatus status = ZyanStringResize(string, string->vector.size + w - 1);
+    const ZyanStatus status = ZyanStringResize(string, len + w - 1);
     if (!ZYAN_SUCCESS(status))
     {
-        ZYAN_VA_END(arglist);
+        ZYCORE_STRING_NULLTERMINATE(string);
         return status;
     }
 
+    ZYAN_VA_START(arglist, format);
     w = ZYAN_VSNPRINTF((char*)string->vector.data + len - 1,
-        string->vector.capacity - string->vector.size + 1, format, arglist);
+        string->vector.capacity - len + 1, format, arglist);
+    ZYAN_VA_END(arglist);
     if (w < 0)
     {
-        ZYAN_VA_END(arglist);
+        string->vector.size = len;
+        ZYCORE_STRING_NULLTERMINATE(string);
         return ZYAN_STATUS_FAILED;
     }
-    ZYAN_ASSERT(w <= (ZyanI32)(string->vector.capacity - string->vector.size));
+    ZYAN_ASSERT(string->vector.size == len + w);
 
-    ZYAN_VA_END(arglist);
     return ZYAN_STATUS_SUCCESS;
 }
 
-- 
2.43.0


From 7535816b93ced6d2e37b4f573a6e7aa8f83479e6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:21:39 +0000
Subject: [PATCH 17/34] fix: appending a number must not leave a partial result
 behind on failure

---
 src/Format.c | 74 ++++++++++++++++++++++++++++++++++------------------
 1 file changed, 48 insertions(+), 26 deletions(-)

diff --git a/src/Format.c b/src/Format.c
index 7079b8c..ca585f5 100644
--- a/src/Format.c
+++ b/src/Format.c
@@ -194,6 +194,7 @@ ZyanStatus ZyanStringAppendHexU32(ZyanString* string, ZyanU32 value, ZyanU8 padd
     if (remaining < (ZyanUSize)padding_length)
     {
         ZYAN_CHECK(ZyanStringResize(string, len + padding_length - 1));
+        string->vector.size = len;
         remaining = padding_length;
     }
 
@@ -265,6 +266,7 @@ ZyanStatus ZyanStringAppendHexU64(ZyanString* string, ZyanU64 value, ZyanU8 padd
     if (remaining < (ZyanUSize)padding_length)
     {
         ZYAN_CHECK(ZyanStringResize(string, len + padding_length - 1));
+        string->vector.size = len;
         remaining = padding_length;
     }
 
@@ -439,27 +441,37 @@ ZyanStatus ZyanStringAppendDecU(ZyanString* string, ZyanU64 value, ZyanU8 paddin
 ZyanStatus ZyanStringAppendDecS(ZyanString* string, ZyanI64 value, ZyanU8 padding_length,
     ZyanBool force_sign, const ZyanStringView* prefix)
 {
-    if (value < 0)
+    if (!string)
     {
-        ZYAN_CHECK(ZyanStringAppend(string, &STR_SUB));
-        if (prefix)
-        {
-            ZYAN_CHECK(ZyanStringAppend(string, prefix));
-        }
-        return ZyanStringAppendDecU(string, ZyanAbsI64(value), padding_length);
+        return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    const ZyanUSize len = string->vector.size;
+    ZyanStatus status = ZYAN_STATUS_SUCCESS;
+    if (value < 0)
+    {
+        status = ZyanStringAppend(string, &STR_SUB);
+    } else
     if (force_sign)
     {
-        ZYAN_ASSERT(value >= 0);
-        ZYAN_CHECK(ZyanStringAppend(string, &STR_ADD));
+        status = ZyanStringAppend(string, &STR_ADD);
     }
-
-    if (prefix)
+    if (ZYAN_SUCCESS(status) && prefix)
     {
-        ZYAN_CHECK(ZyanStringAppend(string, prefix));
+        status = ZyanStringAppend(string, prefix);
+    }
+    if (ZYAN_SUCCESS(status))
+    {
+        status = ZyanStringAppendDecU(string, ZyanAbsI64(value), padding_length);
+    }
+    if (!ZYAN_SUCCESS(status))
+    {
+        // Remove the sign and the prefix
+        string->vector.size = len;
+        ZYCORE_STRING_NULLTERMINATE(string);
     }
-    return ZyanStringAppendDecU(string, value, padding_length);
+
+    return status;
 }
 
 ZyanStatus ZyanStringAppendHexU(ZyanString* string, ZyanU64 value, ZyanU8 padding_length,
@@ -480,27 +492,37 @@ ZyanStatus ZyanStringAppendHexU(ZyanString* string, ZyanU64 value, ZyanU8 paddin
 ZyanStatus ZyanStringAppendHexS(ZyanString* string, ZyanI64 value, ZyanU8 padding_length,
     ZyanBool uppercase, ZyanBool force_sign, const ZyanStringView* prefix)
 {
-    if (value < 0)
+    if (!string)
     {
-        ZYAN_CHECK(ZyanStringAppend(string, &STR_SUB));
-        if (prefix)
-        {
-            ZYAN_CHECK(ZyanStringAppend(string, prefix));
-        }
-        return ZyanStringAppendHexU(string, ZyanAbsI64(value), padding_length, uppercase);
+        return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    const ZyanUSize len = string->vector.size;
+    ZyanStatus status = ZYAN_STATUS_SUCCESS;
+    if (value < 0)
+    {
+        status = ZyanStringAppend(string, &STR_SUB);
+    } else
     if (force_sign)
     {
-        ZYAN_ASSERT(value >= 0);
-        ZYAN_CHECK(ZyanStringAppend(string, &STR_ADD));
+        status = ZyanStringAppend(string, &STR_ADD);
     }
-
-    if (prefix)
+    if (ZYAN_SUCCESS(status) && prefix)
+    {
+        status = ZyanStringAppend(string, prefix);
+    }
+    if (ZYAN_SUCCESS(status))
     {
-        ZYAN_CHECK(ZyanStringAppend(string, prefix));
+        status = ZyanStringAppendHexU(string, ZyanAbsI64(value), padding_length, uppercase);
     }
-    return ZyanStringAppendHexU(string, value, padding_length, uppercase);
+    if (!ZYAN_SUCCESS(status))
+    {
+        // Remove the sign and the prefix
+        string->vector.size = len;
+        ZYCORE_STRING_NULLTERMINATE(string);
+    }
+
+    return status;
 }
 
 /* ---------------------------------------------------------------------------------------------- */
-- 
2.43.0


From a66284207d96cec38e9e0e7c41851bb48353f0ce Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:23 +0000
Subject: [PATCH 18/34] fix: list nodes must actually be removed from the list

---
 src/List.c | 55 ++++++++++++++++++++++++++++++++++++++++++++++++------
 1 file changed, 49 insertions(+), 6 deletions(-)

diff --git a/src/List.c b/src/List.c
index e233da8..a44cd32 100644
--- a/src/List.c
+++ b/src/List.c
@@ -525,16 +525,59 @@ ZyanStatus ZyanListPopFront(ZyanList* list)
 
 ZyanStatus ZyanListRemove(ZyanList* list, const ZyanListNode* node)
 {
-    ZYAN_UNUSED(list);
-    ZYAN_UNUSED(node);
-    return ZYAN_STATUS_SUCCESS;
+    return ZyanListRemoveRange(list, node, node);
 }
 
 ZyanStatus ZyanListRemoveRange(ZyanList* list, const ZyanListNode* first, const ZyanListNode* last)
 {
-    ZYAN_UNUSED(list);
-    ZYAN_UNUSED(first);
-    ZYAN_UNUSED(last);
+    if (!list || !first || !last)
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
+
+    // Make sure that `last` is reachable from `first` before changing anything
+    const ZyanListNode* current = first;
+    while (current != last)
+    {
+        current = current->next;
+        if (!current)
+        {
+            return ZYAN_STATUS_INVALID_ARGUMENT;
+        }
+    }
+
+    ZyanListNode* const prev = first->prev;
+    ZyanListNode* const end = last->next;
+    ZyanListNode* node = prev ? prev->next : list->head;
+    if (prev)
+    {
+        prev->next = end;
+    } else
+    {
+        list->head = end;
+    }
+    if (end)
+    {
+        end->prev = prev;
+    } else
+    {
+        list->tail = prev;
+    }
+
+    while (node != end)
+    {
+        ZyanListNode* const next = node->next;
+
+        if (list->destructor)
+        {
+            list->destructor(ZYCORE_LIST_GET_NODE_DATA(node));
+        }
+        --list->size;
+
+        ZYAN_CHECK(ZyanListDeallocateNode(list, node));
+        node = next;
+    }
+
     return ZYAN_STATUS_SUCCESS;
 }
 
-- 
2.43.0


From 9fb50651fdd28bbca8ae5579d0cbdd5e1c411eab Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 19/34] fix: list emplace must not insert an element whose
 constructor failed

---
 src/List.c | 14 ++++++++++++--
 1 file changed, 12 insertions(+), 2 deletions(-)

diff --git a/src/List.c b/src/List.c
index a44cd32..c066a14 100644
--- a/src/List.c
+++ b/src/List.c
@@ -406,7 +406,12 @@ ZyanStatus ZyanListEmplaceBack(ZyanList* list, void** item, ZyanMemberFunction c
     *item = ZYCORE_LIST_GET_NODE_DATA(node);
     if (constructor)
     {
-        constructor(*item);
+        const ZyanStatus status = constructor(*item);
+        if (!ZYAN_SUCCESS(status))
+        {
+            ZYAN_CHECK(ZyanListDeallocateNode(list, node));
+            return status;
+        }
     }
 
     if (!list->head)
@@ -438,7 +443,12 @@ ZyanStatus ZyanListEmplaceFront(ZyanList* list, void** item, ZyanMemberFunction
     *item = ZYCORE_LIST_GET_NODE_DATA(node);
     if (constructor)
     {
-        constructor(*item);
+        const ZyanStatus status = constructor(*item);
+        if (!ZYAN_SUCCESS(status))
+        {
+            ZYAN_CHECK(ZyanListDeallocateNode(list, node));
+            return status;
+        }
     }
 
     if (!list->head)
-- 
2.43.0


From 2b76b1fd58d75c874ca45ef8201538041d6239fd Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:26:24 +0000
Subject: [PATCH 20/34] fix: growing a list must not leave a partial result
 behind on failure

---
 src/List.c | 22 +++++++++++++++++++++-
 1 file changed, 21 insertions(+), 1 deletion(-)

diff --git a/src/List.c b/src/List.c
index c066a14..5957708 100644
--- a/src/List.c
+++ b/src/List.c
@@ -655,9 +655,29 @@ ZyanStatus ZyanListResizeEx(ZyanList* list, ZyanUSize size, const void* initiali
     if (size > list->size)
     {
         ZyanListNode* node;
+        const ZyanUSize old_size = list->size;
         for (ZyanUSize i = list->size; i < size; ++i)
         {
-            ZYAN_CHECK(ZyanListAllocateNode(list, &node));
+            const ZyanStatus status = ZyanListAllocateNode(list, &node);
+            if (!ZYAN_SUCCESS(status))
+            {
+                // Release the nodes that have already been appended
+                while (list->size > old_size)
+                {
+                    node = list->tail;
+                    list->tail = node->prev;
+                    if (list->tail)
+                    {
+                        list->tail->next = ZYAN_NULL;
+                    } else
+                    {
+                        list->head = ZYAN_NULL;
+                    }
+                    --list->size;
+                    ZYAN_CHECK(ZyanListDeallocateNode(list, node));
+                }
+                return status;
+            }
             node->prev = list->tail;
             node->next = ZYAN_NULL;
 
-- 
2.43.0


From 4d51bb49737baf7eb392488864011f994a3377b8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 21/34] fix: bitset must provide storage for all of its bits

---
 src/Bitset.c | 16 +++-------------
 1 file changed, 3 insertions(+), 13 deletions(-)

diff --git a/src/Bitset.c b/src/Bitset.c
index b1c733d..683ac36 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -38,16 +38,6 @@
 /* Internal macros                                                                                */
 /* ============================================================================================== */
 
-/**
- * Computes the smallest integer value not less than `x`.
- *
- * @param   x   The value.
- *
- * @return  The smallest integer value not less than `x`.
- */
-#define ZYAN_BITSET_CEIL(x) \
-    (((x) == ((ZyanU32)(x))) ? (ZyanU32)(x) : ((ZyanU32)(x)) + 1)
-
 /**
  * Converts bits to bytes.
  *
@@ -56,7 +46,7 @@
  * @return  The amount of bytes needed to fit `x` bits.
  */
 #define ZYAN_BITSET_BITS_TO_BYTES(x) \
-    ZYAN_BITSET_CEIL((x) / 8)
+    (((x) / 8) + (((x) % 8) ? 1 : 0))
 
 /**
  * Returns the offset of the given bit.
@@ -147,7 +137,7 @@ ZyanStatus ZyanBitsetInitEx(ZyanBitset* bitset, ZyanUSize count, ZyanAllocator*
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    const ZyanU32 bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
+    const ZyanUSize bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
 
     bitset->size = count;
     ZYAN_CHECK(ZyanVectorInitEx(&bitset->bits, sizeof(ZyanU8), bytes, ZYAN_NULL, allocator,
@@ -165,7 +155,7 @@ ZyanStatus ZyanBitsetInitBuffer(ZyanBitset* bitset, ZyanUSize count, void* buffe
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    const ZyanU32 bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
+    const ZyanUSize bytes = ZYAN_BITSET_BITS_TO_BYTES(count);
     if (capacity < bytes)
     {
         return ZYAN_STATUS_INSUFFICIENT_BUFFER_SIZE;
-- 
2.43.0


From 3561af66acc51af526eca79cd6f2d2b18a15a6e0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:02 +0000
Subject: [PATCH 22/34] fix: bitset must not change its size if pushing a bit
 fails

---
 src/Bitset.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Bitset.c b/src/Bitset.c
index 683ac36..7bcc730 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -401,11 +401,12 @@ ZyanStatus ZyanBitsetPush(ZyanBitset* bitset, ZyanBool value)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
-    if ((bitset->size++ % 8) == 0)
+    if ((bitset->size % 8) == 0)
     {
         static const ZyanU8 zero = 0;
         ZYAN_CHECK(ZyanVectorPushBack(&bitset->bits, &zero));
     }
+    ++bitset->size;
 
     return ZyanBitsetAssign(bitset, bitset->size - 1, value);
 }
-- 
2.43.0


From 37c847b6bbf414a6858f217b6882133e834ddc88 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 23/34] fix: popping a bit from an empty bitset must be
 rejected

---
 src/Bitset.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/Bitset.c b/src/Bitset.c
index 7bcc730..60c62bc 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -418,6 +418,11 @@ ZyanStatus ZyanBitsetPop(ZyanBitset* bitset)
         return ZYAN_STATUS_INVALID_ARGUMENT;
     }
 
+    if (bitset->size == 0)
+    {
+        return ZYAN_STATUS_OUT_OF_RANGE;
+    }
+
     if ((--bitset->size % 8) == 0)
     {
         return ZyanVectorPopBack(&bitset->bits);
-- 
2.43.0


From 4a3b4af8f30dc1f95144f886f5712bfb8859058e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:03 +0000
Subject: [PATCH 24/34] fix: bitset queries must consider exactly the bits of
 the bitset

---
 src/Bitset.c | 22 +++++++++++++++++-----
 1 file changed, 17 insertions(+), 5 deletions(-)

diff --git a/src/Bitset.c b/src/Bitset.c
index 60c62bc..7410795 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -58,6 +58,16 @@
 #define ZYAN_BITSET_BIT_OFFSET(index) \
     (7 - ((index) % 8))
 
+/**
+ * Returns a mask that selects all bits of the last byte which are part of the bitset.
+ *
+ * @param   size    The size of the bitset in bits.
+ *
+ * @return  The mask for the last byte of the bitset.
+ */
+#define ZYAN_BITSET_LAST_BYTE_MASK(size) \
+    (((size) % 8) ? (ZyanU8)(0xFF << (8 - ((size) % 8))) : (ZyanU8)0xFF)
+
 /* ============================================================================================== */
 /* Internal functions                                                                             */
 /* ============================================================================================== */
@@ -519,6 +529,10 @@ ZyanStatus ZyanBitsetCount(const ZyanBitset* bitset, ZyanUSize* count)
         ZYAN_CHECK(ZyanVectorGetPointer(&bitset->bits, i, (const void**)&value));
 
         ZyanU8 popcnt = *value;
+        if (i == (size - 1))
+        {
+            popcnt &= ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
+        }
         popcnt = (popcnt & 0x55) + ((popcnt >> 1) & 0x55);
         popcnt = (popcnt & 0x33) + ((popcnt >> 2) & 0x33);
         popcnt = (popcnt & 0x0F) + ((popcnt >> 4) & 0x0F);
@@ -526,8 +540,6 @@ ZyanStatus ZyanBitsetCount(const ZyanBitset* bitset, ZyanUSize* count)
         *count += popcnt;
     }
 
-    *count = ZYAN_MIN(*count, bitset->size);
-
     return ZYAN_STATUS_SUCCESS;
 }
 
@@ -552,7 +564,7 @@ ZyanStatus ZyanBitsetAll(const ZyanBitset* bitset)
             }
         } else
         {
-            const ZyanU8 mask = ~(8 - (bitset->size % 8));
+            const ZyanU8 mask = ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
             if ((*value & mask) != mask)
             {
                 return ZYAN_STATUS_FALSE;
@@ -584,7 +596,7 @@ ZyanStatus ZyanBitsetAny(const ZyanBitset* bitset)
             }
         } else
         {
-            const ZyanU8 mask = ~(8 - (bitset->size % 8));
+            const ZyanU8 mask = ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
             if ((*value & mask) != 0x00)
             {
                 return ZYAN_STATUS_TRUE;
@@ -616,7 +628,7 @@ ZyanStatus ZyanBitsetNone(const ZyanBitset* bitset)
             }
         } else
         {
-            const ZyanU8 mask = ~(8 - (bitset->size % 8));
+            const ZyanU8 mask = ZYAN_BITSET_LAST_BYTE_MASK(bitset->size);
             if ((*value & mask) != 0x00)
             {
                 return ZYAN_STATUS_FALSE;
-- 
2.43.0


From 89e4ab53fe05105fcfeabaca98458357b82f0481 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:04 +0000
Subject: [PATCH 25/34] fix: bitset memory functions must reject a missing
 bitset

---
 src/Bitset.c | 10 ++++++++++
 1 file changed, 10 insertions(+)

diff --git a/src/Bitset.c b/src/Bitset.c
index 7410795..202a549 100644
--- a/src/Bitset.c
+++ b/src/Bitset.c
@@ -458,11 +458,21 @@ ZyanStatus ZyanBitsetClear(ZyanBitset* bitset)
 
 ZyanStatus ZyanBitsetReserve(ZyanBitset* bitset, ZyanUSize count)
 {
+    if (!bitset)
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
+
     return ZyanVectorReserve(&bitset->bits, ZYAN_BITSET_BITS_TO_BYTES(count));
 }
 
 ZyanStatus ZyanBitsetShrinkToFit(ZyanBitset* bitset)
 {
+    if (!bitset)
+    {
+        return ZYAN_STATUS_INVALID_ARGUMENT;
+    }
+
     return ZyanVectorShrinkToFit(&bitset->bits);
 }
 
-- 
2.43.0


From 0a335741398a22dbadf6c00c96e83b06f372e286 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:38 +0000
Subject: [PATCH 26/34] fix: boolean single-dash arguments must not be counted
 as unnamed arguments

---
 src/ArgParse.c | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/src/ArgParse.c b/src/ArgParse.c
index 109cfc8..7d3ae2a 100644
--- a/src/ArgParse.c
+++ b/src/ArgParse.c
@@ -205,6 +205,9 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
                     goto continue_main_loop;
                 }
             }
+
+            // All chars consumed, continue parsing at next token.
+            continue;
         }
 
         // Still here? We're looking at an unnamed argument.
-- 
2.43.0


From 665d7b7abfc33b43ad197cf8235676aa13047ed4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:39 +0000
Subject: [PATCH 27/34] fix: argument parsing must release the output vector if
 allocation fails

---
 src/ArgParse.c | 18 +++++++++++++++---
 1 file changed, 15 insertions(+), 3 deletions(-)

diff --git a/src/ArgParse.c b/src/ArgParse.c
index 7d3ae2a..9c1f819 100644
--- a/src/ArgParse.c
+++ b/src/ArgParse.c
@@ -105,7 +105,11 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
             {
                 // Allocate parsed argument struct.
                 ZyanArgParseArg* parsed_arg;
-                ZYAN_CHECK(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
+                err = ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL);
+                if (!ZYAN_SUCCESS(err))
+                {
+                    goto failure;
+                }
                 ZYAN_MEMSET(parsed_arg, 0, sizeof(*parsed_arg));
 
                 // Find corresponding argument definition.
@@ -155,7 +159,11 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
             {
                 // Allocate parsed argument struct.
                 ZyanArgParseArg* parsed_arg;
-                ZYAN_CHECK(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
+                err = ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL);
+                if (!ZYAN_SUCCESS(err))
+                {
+                    goto failure;
+                }
                 ZYAN_MEMSET(parsed_arg, 0, sizeof(*parsed_arg));
 
                 // Find corresponding argument definition.
@@ -221,7 +229,11 @@ ZyanStatus ZyanArgParseEx(const ZyanArgParseConfig *cfg, ZyanVector* parsed,
 
         // Allocate parsed argument struct.
         ZyanArgParseArg* parsed_arg;
-        ZYAN_CHECK(ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL));
+        err = ZyanVectorEmplace(parsed, (void**)&parsed_arg, ZYAN_NULL);
+        if (!ZYAN_SUCCESS(err))
+        {
+            goto failure;
+        }
         ZYAN_MEMSET(parsed_arg, 0, sizeof(*parsed_arg));
         parsed_arg->has_value = ZYAN_TRUE;
         ZYAN_CHECK(ZyanStringViewInsideBuffer(&parsed_arg->value, cur_arg));
-- 
2.43.0


From 3af14a03e61441fcf8d93480ad3ebbcb9e97b38f Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:42 +0000
Subject: [PATCH 28/34] fix: strncmp fallback must stop at the terminating zero

---
 include/Zycore/LibC.h | 9 +++++++--
 1 file changed, 7 insertions(+), 2 deletions(-)

diff --git a/include/Zycore/LibC.h b/include/Zycore/LibC.h
index 59cebee..2132e27 100644
--- a/include/Zycore/LibC.h
+++ b/include/Zycore/LibC.h
@@ -397,10 +397,15 @@ ZYAN_INLINE int ZYAN_STRNCMP(const char* s1, const char* s2, ZyanUSize n)
 {
     while (n--)
     {
-        if (*s1++ != *s2++)
+        if (*s1 != *s2)
         {
-            return *(unsigned char*)(s1 - 1) - *(unsigned char*)(s2 - 1);
+            return *(const ZyanU8*)s1 - *(const ZyanU8*)s2;
         }
+        if (!*s1)
+        {
+            break;
+        }
+        s1++, s2++;
     }
     return 0;
 }
-- 
2.43.0


From 8c1ee52d561aea76d4c9d49750d1c04633372cb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:45 +0000
Subject: [PATCH 29/34] fix: strstr fallback must find the empty string

---
 include/Zycore/LibC.h | 4 ++++
 1 file changed, 4 insertions(+)

diff --git a/include/Zycore/LibC.h b/include/Zycore/LibC.h
index 2132e27..f35ac3a 100644
--- a/include/Zycore/LibC.h
+++ b/include/Zycore/LibC.h
@@ -465,6 +465,10 @@ ZYAN_INLINE ZyanUSize ZYAN_STRSPN(const char* s1, const char* s2)
 ZYAN_INLINE char* ZYAN_STRSTR(const char* s1, const char* s2)
 {
     const ZyanUSize n = ZYAN_STRLEN(s2);
+    if (!n)
+    {
+        return (char*)s1;
+    }
     while (*s1)
     {
         if (!ZYAN_MEMCMP(s1++, s2, n))
-- 
2.43.0


From 77a18fea3ff3027807c47d704ddf1369d465bc79 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:48 +0000
Subject: [PATCH 30/34] fix: strcoll fallback must compare the strings

---
 include/Zycore/LibC.h | 8 ++------
 1 file changed, 2 insertions(+), 6 deletions(-)

diff --git a/include/Zycore/LibC.h b/include/Zycore/LibC.h
index f35ac3a..f497185 100644
--- a/include/Zycore/LibC.h
+++ b/include/Zycore/LibC.h
@@ -336,12 +336,8 @@ ZYAN_INLINE int ZYAN_STRCMP(const char* s1, const char* s2)
 
 ZYAN_INLINE int ZYAN_STRCOLL(const char *s1, const char *s2)
 {
-    // TODO: Implement
-
-    ZYAN_UNUSED(s1);
-    ZYAN_UNUSED(s2);
-
-    return 0;
+    // There are no locales without a libc
+    return ZYAN_STRCMP(s1, s2);
 }
 
 ZYAN_INLINE char* ZYAN_STRCPY(char* dest, const char* src)
-- 
2.43.0


From 34e29b6738d9a179fc2f868fd35626c35f003b1b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:27:52 +0000
Subject: [PATCH 31/34] fix: aligning down must not change values that are
 aligned already

---
 include/Zycore/Defines.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/include/Zycore/Defines.h b/include/Zycore/Defines.h
index 226d808..e1bb7f8 100644
--- a/include/Zycore/Defines.h
+++ b/include/Zycore/Defines.h
@@ -480,7 +480,7 @@
  *
  * Note that this macro only works for powers of 2.
  */
-#define ZYAN_ALIGN_DOWN(x, align) (((x) - 1) & ~((align) - 1))
+#define ZYAN_ALIGN_DOWN(x, align) ((x) & ~((align) - 1))
 
 /**
  * Divide the 64bit integer value by the given divisor.
-- 
2.43.0


From 8f613072e387d35fc863756ab3c683ec6b5e008d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:46:16 +0000
Subject: [PATCH 32/34] fix: swapping vector elements must not assume their
 alignment

---
 src/Vector.c | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/src/Vector.c b/src/Vector.c
index 9b90c8d..0c72e76 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -570,9 +570,9 @@ ZyanStatus ZyanVectorSwapElements(ZyanVector* vector, ZyanUSize index_first, Zya
     ZYAN_ASSERT(vector->element_size);
     ZYAN_ASSERT(vector->data);
 
-    ZyanU64* const t = ZYCORE_VECTOR_OFFSET(vector, vector->size);
-    ZyanU64* const a = ZYCORE_VECTOR_OFFSET(vector, index_first);
-    ZyanU64* const b = ZYCORE_VECTOR_OFFSET(vector, index_second);
+    void* const t = ZYCORE_VECTOR_OFFSET(vector, vector->size);
+    void* const a = ZYCORE_VECTOR_OFFSET(vector, index_first);
+    void* const b = ZYCORE_VECTOR_OFFSET(vector, index_second);
     ZYAN_MEMCPY(t, a, vector->element_size);
     ZYAN_MEMCPY(a, b, vector->element_size);
     ZYAN_MEMCPY(b, t, vector->element_size);
-- 
2.43.0


From 596e9d69ea384d275c5350cf94cab6e18cdf6810 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 19:47:32 +0000
Subject: [PATCH 33/34] fix: growing a vector or string must not give up
 reserved capacity

---
 src/Vector.c | 3 ++-
 1 file changed, 2 insertions(+), 1 deletion(-)

diff --git a/src/Vector.c b/src/Vector.c
index 0c72e76..82c0df2 100644
--- a/src/Vector.c
+++ b/src/Vector.c
@@ -795,7 +795,8 @@ ZyanStatus ZyanVectorResizeEx(ZyanVector* vector, ZyanUSize size, const void* in
         ZYAN_CHECK(ZyanVectorReallocate(vector,
             ZYCORE_VECTOR_GROW(size, vector->growth_factor)));
     } else
-    if (ZYCORE_VECTOR_SHOULD_SHRINK(size, vector->capacity, vector->shrink_threshold))
+    if ((size < vector->size) &&
+        ZYCORE_VECTOR_SHOULD_SHRINK(size, vector->capacity, vector->shrink_threshold))
     {
         // The old (bigger) buffer stays valid, if shrinking fails
         ZYAN_UNUSED(ZyanVectorReallocate(vector,
-- 
2.43.0


From ba09fa8b25d9d34e63d006d386ff947eadee9b42 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Thu, 19 Nov 2026 20:26:28 +0000
Subject: [PATCH 34/34] fix: list node sizes must not wrap around

---
 src/List.c | 5 +++++
 1 file changed, 5 insertions(+)

diff --git a/src/List.c b/src/List.c
index 5957708..4a920ad 100644
--- a/src/List.c
+++ b/src/List.c
@@ -62,6 +62,11 @@ static ZyanStatus ZyanListAllocateNode(ZyanList* list, ZyanListNode** node)
     ZYAN_ASSERT(list);
     ZYAN_ASSERT(node);
 
+    if (list->element_size > (ZyanUSize)-1 - sizeof(ZyanListNode))
+    {
+        return ZYAN_STATUS_NOT_ENOUGH_MEMORY;
+    }
+
     const ZyanBool is_dynamic = (list->allocator != ZYAN_NULL);
     if (is_dynamic)
     {
-- 
2.43.0

