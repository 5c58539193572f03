From 7ca9edabde7dbeca5d008ed67775106a6f4de570 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:00 +0000
Subject: [PATCH 01/19] fix: number getters convert exactly the number's own
 text

GetLong, GetLongLong and GetDouble converted the caller's unterminated text
and read past it; all four overran a 128 byte stack buffer for long numbers.
---
 zzzjson.h | 45 +++++++++++++++++++++++++++++++++------------
 1 file changed, 33 insertions(+), 12 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 5134b61..0800e4f 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -369,25 +369,46 @@ static inline zj_Size zj_strLen(const char *str) {
   return (zj_Size)strlen(str);
 }
 
+// 把长度为len的文本拷贝成以0结束的字符串，buff放不下时使用堆内存
+static inline char *zj_tmpStr(const char *str, zj_Size len, char *buff,
+                              zj_Size buff_size) {
+  char *s = len < buff_size ? buff : (char *)zj_new(len + 1);
+  zj_memCopy(str, len, s);
+  s[len] = 0;
+  return s;
+}
+static inline void zj_tmpStrFree(char *s, char *buff) {
+  if (s != buff)
+    zj_free(s);
+}
+
 static inline int zj_strToInt(const char *str, zj_Size len) {
-  char s[128] = {0};
-  memcpy(s, str, len);
-  return atoi(s);
+  char buff[128];
+  char *s = zj_tmpStr(str, len, buff, sizeof(buff));
+  int ret = atoi(s);
+  zj_tmpStrFree(s, buff);
+  return ret;
 }
 static inline long zj_strToLong(const char *str, zj_Size len) {
-  char s[128] = {0};
-  memcpy(s, str, len);
-  return atol(str);
+  char buff[128];
+  char *s = zj_tmpStr(str, len, buff, sizeof(buff));
+  long ret = atol(s);
+  zj_tmpStrFree(s, buff);
+  return ret;
 }
 static inline long long zj_strToLongLong(const char *str, zj_Size len) {
-  char s[128] = {0};
-  memcpy(s, str, len);
-  return atoll(str);
+  char buff[128];
+  char *s = zj_tmpStr(str, len, buff, sizeof(buff));
+  long long ret = atoll(s);
+  zj_tmpStrFree(s, buff);
+  return ret;
 }
 static inline double zj_strToDouble(const char *str, zj_Size len) {
-  char s[128] = {0};
-  memcpy(s, str, len);
-  return atof(str);
+  char buff[128];
+  char *s = zj_tmpStr(str, len, buff, sizeof(buff));
+  double ret = atof(s);
+  zj_tmpStrFree(s, buff);
+  return ret;
 }
 
 static inline zj_Size zj_intToStr(int n, char *buff) {
-- 
2.43.0


From f63a6c18fbf347d735210664999aad2491b47198 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:00 +0000
Subject: [PATCH 02/19] fix: length-checked setters no longer share a static
 scratch string

The scratch string lived in the allocator of its first user: it dangled after
that allocator was released, and every thread wrote to it.
---
 zzzjson.h | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 0800e4f..3d54f5b 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -576,8 +576,6 @@ struct zj_string {
   zj_Allocator *A;
 };
 
-static struct zj_string *zj_stringCache = 0;
-
 // 新建一个字符串
 static inline struct zj_string *zj_newString(zj_Allocator *alloc,
                                              zj_Size init_size) {
@@ -1292,15 +1290,13 @@ static inline bool zj_checkStr(const char *s, zj_Size *len) {
 // 较为省事的一种实现方法，后面会实现更高效的算法
 static inline bool zj_checkStrLen(zj_Allocator *alloc, const char *s,
                                   zj_Size len) {
-  if (zj_UNLIKELY(zj_stringCache == 0)) {
-    zj_stringCache = zj_newString(alloc, zj_StringCacheInitMemSize);
-  } else {
-    zj_reset(zj_stringCache);
-  }
-  zj_appendStr(zj_stringCache, s, len);
-  zj_appendEnd(zj_stringCache);
+  (void)alloc;
+  char buff[128];
+  char *str = zj_tmpStr(s, len, buff, sizeof(buff));
   zj_Size avail_len;
-  if (zj_UNLIKELY(zj_checkStr(zj_str(zj_stringCache), &avail_len) == false)) {
+  bool ok = zj_checkStr(str, &avail_len);
+  zj_tmpStrFree(str, buff);
+  if (zj_UNLIKELY(ok == false)) {
     return false;
   }
   if (zj_UNLIKELY(avail_len != len))
@@ -1409,15 +1405,13 @@ static inline bool zj_checkNum(const char *s, zj_Size *len) {
 }
 static inline bool zj_checkNumLen(zj_Allocator *alloc, const char *s,
                                   zj_Size len) {
-  if (zj_UNLIKELY(zj_stringCache == 0)) {
-    zj_stringCache = zj_newString(alloc, zj_StringCacheInitMemSize);
-  } else {
-    zj_reset(zj_stringCache);
-  }
-  zj_appendStr(zj_stringCache, s, len);
-  zj_appendEnd(zj_stringCache);
+  (void)alloc;
+  char buff[128];
+  char *str = zj_tmpStr(s, len, buff, sizeof(buff));
   zj_Size avail_len;
-  if (zj_UNLIKELY(zj_checkNum(zj_str(zj_stringCache), &avail_len) == false)) {
+  bool ok = zj_checkNum(str, &avail_len);
+  zj_tmpStrFree(str, buff);
+  if (zj_UNLIKELY(ok == false)) {
     return false;
   }
   if (zj_UNLIKELY(avail_len != len))
-- 
2.43.0


From 74f5a0118e91a8913d6e36545be6601111310355 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:00 +0000
Subject: [PATCH 03/19] fix: SetStr and SetKey accept \uE000..\uFFFF escapes

---
 zzzjson.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zzzjson.h b/zzzjson.h
index 3d54f5b..3a38793 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -1256,7 +1256,7 @@ static inline bool zj_checkStr(const char *s, zj_Size *len) {
         if (zj_LIKELY(zj_consumeHex(s, &index, &cp))) {
           // 这里是UTF16标准，可以参考网上相关资料
           // 搜索关键字 UNICODE
-          if (zj_UNLIKELY(cp >= 0xDC00 && cp <= 0xDFFFF))
+          if (zj_UNLIKELY(cp >= 0xDC00 && cp <= 0xDFFF))
             return false;
           if (zj_UNLIKELY(cp >= 0xD800 && cp <= 0xDBFF)) {
             if (zj_LIKELY(zj_likelyConsume('\\', s, &index) &&
-- 
2.43.0


From edb8df9dc37cea185e1c9823645a23555153ceb7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:00 +0000
Subject: [PATCH 04/19] fix: literals are compared without reading past the end
 of the text

---
 zzzjson.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 3a38793..1759e47 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -851,7 +851,8 @@ static inline bool zj_unLikelyPeekAndConsume(const char c, const char *s,
 
 // 消费False
 static inline bool zj_consumeFalse(const char *s, zj_Size *index) {
-  if (zj_LIKELY(*((uint32_t *)("alse")) == *((uint32_t *)(s + *index)))) {
+  const char *p = s + *index;
+  if (zj_LIKELY(p[0] == 'a' && p[1] == 'l' && p[2] == 's' && p[3] == 'e')) {
     *index += 4;
     return true;
   }
@@ -860,7 +861,8 @@ static inline bool zj_consumeFalse(const char *s, zj_Size *index) {
 
 // 消费True
 static inline bool zj_consumeTrue(const char *s, zj_Size *index) {
-  if (zj_LIKELY(*((uint32_t *)zj_strTrue) == *((uint32_t *)(s + *index - 1)))) {
+  const char *p = s + *index;
+  if (zj_LIKELY(p[0] == 'r' && p[1] == 'u' && p[2] == 'e')) {
     *index += 3;
     return true;
   }
@@ -869,7 +871,8 @@ static inline bool zj_consumeTrue(const char *s, zj_Size *index) {
 
 // 消费Null
 static inline bool zj_consumeNull(const char *s, zj_Size *index) {
-  if (zj_LIKELY(*((uint32_t *)zj_strNull) == *((uint32_t *)(s + *index - 1)))) {
+  const char *p = s + *index;
+  if (zj_LIKELY(p[0] == 'u' && p[1] == 'l' && p[2] == 'l')) {
     *index += 3;
     return true;
   }
-- 
2.43.0


From c756242583b8ce3afec28f226de8bce8eedb0bfb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:00 +0000
Subject: [PATCH 05/19] fix: Move keeps the sibling list and the End pointer
 intact

It cleared Prev before relinking through it, so later additions crashed and
later deletions lost elements.
---
 zzzjson.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 1759e47..df661a1 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2194,14 +2194,14 @@ static inline bool zj_Move(zj_Value *v) {
       v->N->Father->Value.Node = v->N->Next;
     } else {
       v->N->Prev->Next = v->N->Next;
-      v->N->Prev = 0;
     }
     if (v->N->Next == 0) {
       v->N->Father->End = v->N->Prev;
     } else {
       v->N->Next->Prev = v->N->Prev;
-      v->N->Next = 0;
     }
+    v->N->Prev = 0;
+    v->N->Next = 0;
     --(v->N->Father->Len);
     v->N->Father = 0;
   }
-- 
2.43.0


From f3052ed94311608d4f26916b88c7c811645fc821 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:00 +0000
Subject: [PATCH 06/19] fix: Set links the end of the copy, not of the source
 container

---
 zzzjson.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zzzjson.h b/zzzjson.h
index df661a1..c3f0edc 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2646,7 +2646,7 @@ static inline bool zj_Set(zj_Value *v, const zj_Value *vv) {
   v->N->Value = cp->N->Value;
   v->N->Len = cp->N->Len;
   if (v->N->Type == zj_JSONTypeArray || v->N->Type == zj_JSONTypeObject) {
-    v->N->End = vv->N->End;
+    v->N->End = cp->N->End;
     struct zj_node *next = v->N->Value.Node;
     while (zj_LIKELY(next != 0)) {
       next->Father = v->N;
-- 
2.43.0


From f50ba7d7813b2f091ff9be3ff1a37963b2ec11f8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:00 +0000
Subject: [PATCH 07/19] fix: Set, ObjAdd and ArrayAdd copy into the target's
 allocator

The copy was made in the source's allocator and dangled once that was released.
---
 zzzjson.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index c3f0edc..f08b24a 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2635,8 +2635,8 @@ static inline bool zj_SetFast(zj_Value *v, zj_Value *vv) {
 
 // 函数说明详见《API》
 static inline bool zj_Set(zj_Value *v, const zj_Value *vv) {
-  zj_Value *cp = zj_Copy(vv);
-  if (zj_UNLIKELY(cp == 0))
+  zj_Value *cp = zj_NewValue(v->A);
+  if (zj_UNLIKELY(zj_ValueCopyFrom(cp, vv) == false))
     return false;
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = cp->N;
@@ -2693,8 +2693,8 @@ static inline bool zj_ObjAdd(zj_Value *v, const zj_Value *vv) {
     return false;
   if (zj_UNLIKELY(vv->N->Key == 0))
     return false;
-  zj_Value *cp = zj_Copy(vv);
-  if (zj_UNLIKELY(cp == 0))
+  zj_Value *cp = zj_NewValue(v->A);
+  if (zj_UNLIKELY(zj_ValueCopyFrom(cp, vv) == false))
     return false;
   cp->N->Father = v->N;
   if (zj_UNLIKELY(v->N->Value.Node == 0)) {
@@ -2740,8 +2740,8 @@ static inline bool zj_ArrayAdd(zj_Value *v, const zj_Value *vv) {
     return false;
   if (zj_UNLIKELY(v->N->Type != zj_JSONTypeArray))
     return false;
-  zj_Value *cp = zj_Copy(vv);
-  if (zj_UNLIKELY(cp == 0))
+  zj_Value *cp = zj_NewValue(v->A);
+  if (zj_UNLIKELY(zj_ValueCopyFrom(cp, vv) == false))
     return false;
   cp->N->Key = 0;
   cp->N->Father = v->N;
-- 
2.43.0


From 3787037a410ef4f17b661d182ee8b7c4034953b6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:32:00 +0000
Subject: [PATCH 08/19] fix: SetDouble and SetNum refuse infinities and NaN,
 which JSON cannot express

---
 zzzjson.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zzzjson.h b/zzzjson.h
index f08b24a..ffae06e 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2322,6 +2322,9 @@ static inline bool zj_SetNum(zj_Value *v, const double d) {
 }
 
 static inline bool zj_SetDouble(zj_Value *v, const double d) {
+  // JSON 不支持 inf 和 nan
+  if (zj_UNLIKELY(!(d - d == 0)))
+    return false;
   char *num = zj_allocatorAlloc(v->A, 32);
   zj_Size len = zj_doubleToStr(d, num);
   if (zj_UNLIKELY(v->N == 0)) {
-- 
2.43.0


From 0ead0527c39daeaa10c39597d111acd1f5441967 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 13:09:56 +0000
Subject: [PATCH 09/19] fix: the C++ wrapper's SetNumStrLenFast calls the Fast
 setter, not the copying one

---
 zzzjson.hpp | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zzzjson.hpp b/zzzjson.hpp
index 147eda8..103b96d 100644
--- a/zzzjson.hpp
+++ b/zzzjson.hpp
@@ -91,7 +91,7 @@ public:
   }
   bool SetNumStrFast(const char *num) { return zj::SetNumStrFast(val, num); }
   bool SetNumStrLenFast(const char *num, SIZE len) {
-    return zj::SetNumStrLen(val, num, len);
+    return zj::SetNumStrLenFast(val, num, len);
   }
   bool SetNum(const double d) { return zj::SetNum(val, d); }
   bool SetDouble(const double d) { return zj::SetDouble(val, d); }
-- 
2.43.0


From 8f3dd89e51d7c9a0b971d7b510e497625319adb6 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 17:22:22 +0000
Subject: [PATCH 10/19] fix: allocations beyond the range of zj_Size no longer
 hang or overlap

Growing a block multiplied its size by zj_Delta until it was large enough, which wraps to zero for requests of 2 GiB and more and once an allocator holds a 2 GiB block, so the loop never ended; and the test for free space wrapped for sizes close to 4 GiB, handing out memory outside the block.
---
 zzzjson.h | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index ffae06e..6d4d5ef 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -77,7 +77,7 @@ static const zj_Size zj_StringCacheInitMemSize = zj_STRING_CACHE_INIT_MEMSIZE;
 
 #if zj_MEMORY_MODE == 1
 
-static inline void *zj_new(zj_Size size) { return malloc(size); }
+static inline void *zj_new(size_t size) { return malloc(size); }
 static inline void zj_free(void *pointer) { free(pointer); }
 
 #elif zj_MEMORY_MODE == 2
@@ -85,7 +85,7 @@ static inline void zj_free(void *pointer) { free(pointer); }
 // 通过观察，可以得出较好zj_DELTA和zj_ALLOCATORINITMEMSIZE。
 
 static zj_Size AllocMemorySize = 0, AllocMemoryCount = 0, FreeMemoryCount = 0;
-static inline void *zj_new(zj_Size size) {
+static inline void *zj_new(size_t size) {
   return AllocMemorySize += size, AllocMemoryCount += 1, malloc(size);
 }
 static inline void zj_free(void *ptr) { FreeMemoryCount += 1, free(ptr); }
@@ -372,7 +372,7 @@ static inline zj_Size zj_strLen(const char *str) {
 // 把长度为len的文本拷贝成以0结束的字符串，buff放不下时使用堆内存
 static inline char *zj_tmpStr(const char *str, zj_Size len, char *buff,
                               zj_Size buff_size) {
-  char *s = len < buff_size ? buff : (char *)zj_new(len + 1);
+  char *s = len < buff_size ? buff : (char *)zj_new((size_t)len + 1);
   zj_memCopy(str, len, s);
   s[len] = 0;
   return s;
@@ -544,16 +544,22 @@ static inline void zj_allocatorAppendChild(zj_Allocator *alloc,
   return;
 }
 
+// 计算新内存的大小：按zj_Delta倍增长直到放得下size，超出zj_Size的范围则不再增长
+static inline zj_Size zj_growSize(zj_Size s, zj_Size size) {
+  do {
+    if (zj_UNLIKELY(s > (zj_Size)-1 / zj_Delta))
+      return s > size ? s : size;
+    s *= zj_Delta;
+  } while (zj_UNLIKELY(size > s));
+  return s;
+}
+
 // 分配大小为size的内存
 static inline char *zj_allocatorAlloc(zj_Allocator *alloc, zj_Size size) {
   struct zj_aNode *cur_node = alloc->End;
   zj_Size s = cur_node->SizeOf;
-  if (zj_UNLIKELY(cur_node->Pos + size > s)) {
-    s *= zj_Delta;
-    // 通过循环计算最终需要的空间大小
-    // 这里应该有更好的方法，就是直接通过计算所得
-    while (zj_UNLIKELY(size > s))
-      s *= zj_Delta; // 每次分配内存的大小是上次的zj_Delta倍
+  if (zj_UNLIKELY(size > s - cur_node->Pos)) {
+    s = zj_growSize(s, size); // 每次分配内存的大小是上次的zj_Delta倍
     zj_allocatorAppendChild(alloc, s);
     cur_node = alloc->End;
   }
@@ -595,10 +601,8 @@ static inline void zj_reset(struct zj_string *str) { str->Pos = 0; }
 static inline void zj_appendStr(struct zj_string *str, const char *s,
                                 zj_Size size) {
   zj_Size src_s = str->SizeOf;
-  if (zj_UNLIKELY(str->Pos + size > src_s)) {
-    src_s *= zj_Delta;
-    while (zj_UNLIKELY(str->Pos + size > src_s))
-      src_s *= zj_Delta;
+  if (zj_UNLIKELY(size > src_s - str->Pos)) {
+    src_s = zj_growSize(src_s, str->Pos + size);
     const char *src_d = str->Data;
     str->Data = (char *)zj_allocatorAlloc(str->A, src_s);
     str->SizeOf = src_s;
@@ -612,7 +616,7 @@ static inline void zj_appendStr(struct zj_string *str, const char *s,
 static inline void zj_appendChar(struct zj_string *str, const char c) {
   zj_Size src_s = str->SizeOf;
   if (zj_UNLIKELY(str->Pos + 1 > src_s)) {
-    src_s *= zj_Delta;
+    src_s = zj_growSize(src_s, str->Pos + 1);
     const char *src_d = str->Data;
     str->Data = (char *)zj_allocatorAlloc(str->A, src_s);
     str->SizeOf = src_s;
-- 
2.43.0


From 47277e73677d447bb814fe3844e2999656112197 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:54 +0000
Subject: [PATCH 11/19] fix: beta: literals are compared without reading past
 the end of the text

---
 beta/zzzjson_beta.h | 9 ++++++---
 1 file changed, 6 insertions(+), 3 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index af7ede7..8eedc7c 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -687,7 +687,8 @@ static inline z_BOOL z_UnLikelyPeekAndConsume(const char c, const char *s,
 
 // 消费False
 static inline z_BOOL z_ConsumeFalse(const char *s, z_SIZE *index) {
-  if (z_LIKELY(*((z_SIZE *)("alse")) == *((z_SIZE *)(s + *index)))) {
+  const char *p = s + *index;
+  if (z_LIKELY(p[0] == 'a' && p[1] == 'l' && p[2] == 's' && p[3] == 'e')) {
     *index += 4;
     return z_True;
   }
@@ -696,7 +697,8 @@ static inline z_BOOL z_ConsumeFalse(const char *s, z_SIZE *index) {
 
 // 消费True
 static inline z_BOOL z_ConsumeTrue(const char *s, z_SIZE *index) {
-  if (z_LIKELY(*((z_SIZE *)z_StrTrue) == *((z_SIZE *)(s + *index - 1)))) {
+  const char *p = s + *index;
+  if (z_LIKELY(p[0] == 'r' && p[1] == 'u' && p[2] == 'e')) {
     *index += 3;
     return z_True;
   }
@@ -705,7 +707,8 @@ static inline z_BOOL z_ConsumeTrue(const char *s, z_SIZE *index) {
 
 // 消费Null
 static inline z_BOOL z_ConsumeNull(const char *s, z_SIZE *index) {
-  if (z_LIKELY(*((z_SIZE *)z_StrNull) == *((z_SIZE *)(s + *index - 1)))) {
+  const char *p = s + *index;
+  if (z_LIKELY(p[0] == 'u' && p[1] == 'l' && p[2] == 'l')) {
     *index += 3;
     return z_True;
   }
-- 
2.43.0


From 351d84cf1d9a1a7a65d7e994904a8b96dc9cf91e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:54 +0000
Subject: [PATCH 12/19] fix: beta: GetNum converts exactly the number's own
 text

---
 beta/zzzjson_beta.h | 23 +++++++++++++++++++++--
 1 file changed, 21 insertions(+), 2 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 8eedc7c..628d023 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -353,7 +353,26 @@ static inline void z_Copy(const char *src, z_SIZE len, char *des) {
 // 字符串长度计算函数
 static inline z_SIZE z_StrLen(const char *str) { return (z_SIZE)strlen(str); }
 
-static inline double z_StrToDouble(const char *str) { return atof(str); }
+// 把长度为len的文本拷贝成以0结束的字符串，buff放不下时使用堆内存
+static inline char *z_TmpStr(const char *str, z_SIZE len, char *buff,
+                             z_SIZE buff_size) {
+  char *s = len < buff_size ? buff : (char *)z_New(len + 1);
+  z_Copy(str, len, s);
+  s[len] = 0;
+  return s;
+}
+static inline void z_TmpStrFree(char *s, char *buff) {
+  if (s != buff)
+    z_Free(s);
+}
+
+static inline double z_StrToDouble(const char *str, z_SIZE len) {
+  char buff[128];
+  char *s = z_TmpStr(str, len, buff, sizeof(buff));
+  double ret = atof(s);
+  z_TmpStrFree(s, buff);
+  return ret;
+}
 
 static inline void z_DoubleToStr(double d, char *buff) {
   sprintf(buff, "%.17g", d);
@@ -1625,7 +1644,7 @@ static inline const double *z_ValueGetNum(struct z_Value *v) {
   if (z_UNLIKELY(v->Cache.Num != 0))
     return v->Cache.Num;
   double *d = (double *)z_AllocatorAlloc(v->A, sizeof(d) / sizeof(char));
-  *d = z_StrToDouble(v->N->Value.Str);
+  *d = z_StrToDouble(v->N->Value.Str, v->N->Len);
   v->Cache.Num = d;
   return d;
 }
-- 
2.43.0


From 9a054db35c5ceae4fe537eb071d7988c6f290a6e Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:54 +0000
Subject: [PATCH 13/19] fix: beta: length-checked setters no longer share a
 static scratch string

---
 beta/zzzjson_beta.h | 32 ++++++++++++--------------------
 1 file changed, 12 insertions(+), 20 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 628d023..a61e3c4 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -505,8 +505,6 @@ struct z_String {
   struct z_Allocator *A;
 };
 
-static z_String *z_StringCache = 0;
-
 // 新建一个字符串
 static inline struct z_String *z_StringNew(struct z_Allocator *alloc,
                                            z_SIZE init_size) {
@@ -1020,16 +1018,13 @@ static inline z_BOOL z_CheckStr(const char *s, z_SIZE *len) {
 }
 static inline z_BOOL z_CheckStrLen(struct z_Allocator *alloc, const char *s,
                                    z_SIZE len) {
-  if (z_UNLIKELY(z_StringCache == 0)) {
-    z_StringCache = z_StringNew(alloc, z_StringCacheInitMemSize);
-  } else {
-    z_StringReset(z_StringCache);
-  }
-  z_StringAppendStr(z_StringCache, s, len);
-  z_StringAppendEnd(z_StringCache);
+  (void)alloc;
+  char buff[128];
+  char *str = z_TmpStr(s, len, buff, sizeof(buff));
   z_SIZE avail_len;
-  if (z_UNLIKELY(z_CheckStr(z_StringStr(z_StringCache), &avail_len) ==
-                 z_False)) {
+  z_BOOL ok = z_CheckStr(str, &avail_len);
+  z_TmpStrFree(str, buff);
+  if (z_UNLIKELY(ok == z_False)) {
     return z_False;
   }
   if (z_UNLIKELY(avail_len != len))
@@ -1137,16 +1132,13 @@ static inline z_BOOL z_CheckNum(const char *s, z_SIZE *len) {
 }
 static inline z_BOOL z_CheckNumLen(struct z_Allocator *alloc, const char *s,
                                    z_SIZE len) {
-  if (z_UNLIKELY(z_StringCache == 0)) {
-    z_StringCache = z_StringNew(alloc, z_StringCacheInitMemSize);
-  } else {
-    z_StringReset(z_StringCache);
-  }
-  z_StringAppendStr(z_StringCache, s, len);
-  z_StringAppendEnd(z_StringCache);
+  (void)alloc;
+  char buff[128];
+  char *str = z_TmpStr(s, len, buff, sizeof(buff));
   z_SIZE avail_len;
-  if (z_UNLIKELY(z_CheckNum(z_StringStr(z_StringCache), &avail_len) ==
-                 z_False)) {
+  z_BOOL ok = z_CheckNum(str, &avail_len);
+  z_TmpStrFree(str, buff);
+  if (z_UNLIKELY(ok == z_False)) {
     return z_False;
   }
   if (z_UNLIKELY(avail_len != len))
-- 
2.43.0


From 4ef6e855a5e5b5ca29bf5b3d1235839d6cb68fe8 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:54 +0000
Subject: [PATCH 14/19] fix: beta: SetStr and SetKey accept \uE000..\uFFFF
 escapes

---
 beta/zzzjson_beta.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index a61e3c4..051c19c 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -985,7 +985,7 @@ static inline z_BOOL z_CheckStr(const char *s, z_SIZE *len) {
         if (z_LIKELY(z_ConsumeHex(s, &index, &cp))) {
           // 这里是UTF16标准，可以参考网上相关资料
           // 搜索关键字 UNICODE
-          if (z_UNLIKELY(cp >= 0xDC00 && cp <= 0xDFFFF))
+          if (z_UNLIKELY(cp >= 0xDC00 && cp <= 0xDFFF))
             return z_False;
           if (z_UNLIKELY(cp >= 0xD800 && cp <= 0xDBFF)) {
             if (z_LIKELY(z_LikelyConsume('\\', s, &index) &&
-- 
2.43.0


From 149c7697c13628d61de7cd283452315cbf5c73ef Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:54 +0000
Subject: [PATCH 15/19] fix: beta: Move keeps the sibling list and the End
 pointer intact

---
 beta/zzzjson_beta.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 051c19c..3a5116c 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -1900,14 +1900,14 @@ static inline z_BOOL z_ValueMove(struct z_Value *v) {
       v->N->Father->Value.Node = v->N->Next;
     } else {
       v->N->Prev->Next = v->N->Next;
-      v->N->Prev = 0;
     }
     if (v->N->Next == 0) {
       v->N->Father->End = v->N->Prev;
     } else {
       v->N->Next->Prev = v->N->Prev;
-      v->N->Next = 0;
     }
+    v->N->Prev = 0;
+    v->N->Next = 0;
     --(v->N->Father->Len);
     v->N->Father = 0;
   }
-- 
2.43.0


From bc4cd80e52d80a629816d1e6ed32f314cbb1ce2b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:54 +0000
Subject: [PATCH 16/19] fix: beta: Set links the end of the copy, not of the
 source container

---
 beta/zzzjson_beta.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 3a5116c..e0fa373 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -2299,7 +2299,7 @@ static inline z_BOOL z_ValueSet(struct z_Value *v, const struct z_Value *vv) {
   v->N->Value = cp->N->Value;
   v->N->Len = cp->N->Len;
   if (v->N->Type == z_JSONTYPEARRAY || v->N->Type == z_JSONTYPEOBJ) {
-    v->N->End = vv->N->End;
+    v->N->End = cp->N->End;
     struct z_Node *next = v->N->Value.Node;
     while (z_LIKELY(next != 0)) {
       next->Father = v->N;
-- 
2.43.0


From fa3d197e82d83a9d60c05c76999cb12b883b62e4 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:39:54 +0000
Subject: [PATCH 17/19] fix: beta: Set, ObjAdd and ArrayAdd copy into the
 target's allocator

---
 beta/zzzjson_beta.h | 17 +++++++++++------
 1 file changed, 11 insertions(+), 6 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index e0fa373..bc4efee 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -1815,11 +1815,11 @@ static inline struct z_Value *z_ValueNext(const struct z_Value *v) {
 }
 
 // 函数说明详见《API》
-static inline struct z_Value *z_ValueCopy(const struct z_Value *v) {
+static inline struct z_Value *z_ValueCopyTo(struct z_Allocator *const A,
+                                            const struct z_Value *v) {
   if (z_UNLIKELY(v->N == 0))
     return 0;
-  struct z_Value *const ret_val = z_ValueNew(v->A);
-  struct z_Allocator *const A = v->A;
+  struct z_Value *const ret_val = z_ValueNew(A);
   ret_val->N = (struct z_Node *)z_AllocatorAlloc(A, sizeof(struct z_Node));
   ret_val->N->Prev = 0;
   ret_val->N->Next = 0;
@@ -1891,6 +1891,11 @@ static inline struct z_Value *z_ValueCopy(const struct z_Value *v) {
   return ret_val;
 }
 
+// 函数说明详见《API》
+static inline struct z_Value *z_ValueCopy(const struct z_Value *v) {
+  return z_ValueCopyTo(v->A, v);
+}
+
 // 函数说明详见《API》
 static inline z_BOOL z_ValueMove(struct z_Value *v) {
   if (z_UNLIKELY(v->N == 0))
@@ -2283,7 +2288,7 @@ static inline z_BOOL z_ValueSetFast(struct z_Value *v, struct z_Value *vv) {
 
 // 函数说明详见《API》
 static inline z_BOOL z_ValueSet(struct z_Value *v, const struct z_Value *vv) {
-  struct z_Value *cp = z_ValueCopy(vv);
+  struct z_Value *cp = z_ValueCopyTo(v->A, vv);
   if (z_UNLIKELY(cp == 0))
     return z_False;
   z_ValueInitCache(v);
@@ -2348,7 +2353,7 @@ static inline z_BOOL z_ValueObjAdd(struct z_Value *v,
     return z_False;
   if (z_UNLIKELY(vv->N->Key == 0))
     return z_False;
-  struct z_Value *cp = z_ValueCopy(vv);
+  struct z_Value *cp = z_ValueCopyTo(v->A, vv);
   if (z_UNLIKELY(cp == 0))
     return z_False;
   cp->N->Father = v->N;
@@ -2398,7 +2403,7 @@ static inline z_BOOL z_ValueArrayAdd(struct z_Value *v,
     return z_False;
   if (z_UNLIKELY(v->N->Type != z_JSONTYPEARRAY))
     return z_False;
-  struct z_Value *cp = z_ValueCopy(vv);
+  struct z_Value *cp = z_ValueCopyTo(v->A, vv);
   if (z_UNLIKELY(cp == 0))
     return z_False;
   cp->N->Key = 0;
-- 
2.43.0


From ea931e2b3608bbae88329b3b5b4ce8654ff234d2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 18:41:46 +0000
Subject: [PATCH 18/19] fix: beta: Parse and ParseLen parse the copy of the
 text they make, not the caller's buffer

---
 beta/zzzjson_beta.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index bc4efee..de49c1d 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -1464,7 +1464,7 @@ static inline z_BOOL z_ValueParseLen(struct z_Value *v, const char *s,
   char *str = z_AllocatorAlloc(v->A, len + 1);
   z_Copy(s, len, str);
   str[len] = 0;
-  return z_ValueParseFast(v, s);
+  return z_ValueParseFast(v, str);
 }
 
 // 函数说明详见《API》
-- 
2.43.0


From d9b4dc46b5626d46a21079648ab20820533ed1c1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 20:19:38 +0000
Subject: [PATCH 19/19] fix: beta: allocations beyond the range of z_SIZE no
 longer hang or overlap

Growing a block multiplied its size by z_Delta until it was large enough, which wraps to zero for requests of 2 GiB and more, so the loop never ended; and the test for free space wrapped for sizes close to 4 GiB, handing out memory outside the block.
---
 beta/zzzjson_beta.h | 32 ++++++++++++++++++--------------
 1 file changed, 18 insertions(+), 14 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index de49c1d..4699105 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -61,7 +61,7 @@ static const z_SIZE z_StringCacheInitMemSize = z_STRINGCACHEINITMEMSIZE;
 
 #if z_MEMORY_MODE == 1
 
-static inline void *z_New(z_SIZE size) { return malloc(size); }
+static inline void *z_New(size_t size) { return malloc(size); }
 static inline void z_Free(void *pointer) { free(pointer); }
 
 #elif z_MEMORY_MODE == 2
@@ -69,7 +69,7 @@ static inline void z_Free(void *pointer) { free(pointer); }
 // 通过观察，可以得出较好z_DELTA和z_ALLOCATORINITMEMSIZE。
 
 static z_SIZE AllocMemorySize = 0, AllocMemoryCount = 0, FreeMemoryCount = 0;
-static inline void *z_New(z_SIZE size) {
+static inline void *z_New(size_t size) {
   return AllocMemorySize += size, AllocMemoryCount += 1, malloc(size);
 }
 static inline void z_Free(void *ptr) { FreeMemoryCount += 1, free(ptr); }
@@ -356,7 +356,7 @@ static inline z_SIZE z_StrLen(const char *str) { return (z_SIZE)strlen(str); }
 // 把长度为len的文本拷贝成以0结束的字符串，buff放不下时使用堆内存
 static inline char *z_TmpStr(const char *str, z_SIZE len, char *buff,
                              z_SIZE buff_size) {
-  char *s = len < buff_size ? buff : (char *)z_New(len + 1);
+  char *s = len < buff_size ? buff : (char *)z_New((size_t)len + 1);
   z_Copy(str, len, s);
   s[len] = 0;
   return s;
@@ -473,16 +473,22 @@ static inline void z_AllocatorAppendChild(z_SIZE init_size,
   return;
 }
 
+// 计算新内存的大小：按z_Delta倍增长直到放得下size，超出z_SIZE的范围则不再增长
+static inline z_SIZE z_GrowSize(z_SIZE s, z_SIZE size) {
+  do {
+    if (z_UNLIKELY(s > (z_SIZE)-1 / z_Delta))
+      return s > size ? s : size;
+    s *= z_Delta;
+  } while (z_UNLIKELY(size > s));
+  return s;
+}
+
 // 函数说明详见《API》
 static inline char *z_AllocatorAlloc(struct z_Allocator *alloc, z_SIZE size) {
   struct z_ANode *cur_node = alloc->End;
   z_SIZE s = cur_node->Size;
-  if (z_UNLIKELY(cur_node->Pos + size > s)) {
-    s *= z_Delta;
-    // 通过循环计算最终需要的空间大小
-    // 这里应该有更好的方法，就是直接通过计算所得
-    while (z_UNLIKELY(size > s))
-      s *= z_Delta;
+  if (z_UNLIKELY(size > s - cur_node->Pos)) {
+    s = z_GrowSize(s, size);
     z_AllocatorAppendChild(s, alloc);
     cur_node = alloc->End;
   }
@@ -524,10 +530,8 @@ static inline void z_StringReset(struct z_String *str) { str->Pos = 0; }
 static inline void z_StringAppendStr(struct z_String *str, const char *s,
                                      z_SIZE size) {
   z_SIZE src_s = str->Size;
-  if (z_UNLIKELY(str->Pos + size > src_s)) {
-    src_s *= z_Delta;
-    while (z_UNLIKELY(str->Pos + size > src_s))
-      src_s *= z_Delta;
+  if (z_UNLIKELY(size > src_s - str->Pos)) {
+    src_s = z_GrowSize(src_s, str->Pos + size);
     const char *src_d = str->Data;
     str->Data = (char *)z_AllocatorAlloc(str->A, src_s);
     str->Size = src_s;
@@ -541,7 +545,7 @@ static inline void z_StringAppendStr(struct z_String *str, const char *s,
 static inline void z_StringAppendChar(struct z_String *str, const char c) {
   z_SIZE src_s = str->Size;
   if (z_UNLIKELY(str->Pos + 1 > src_s)) {
-    src_s *= z_Delta;
+    src_s = z_GrowSize(src_s, str->Pos + 1);
     const char *src_d = str->Data;
     str->Data = (char *)z_AllocatorAlloc(str->A, src_s);
     str->Size = src_s;
-- 
2.43.0

