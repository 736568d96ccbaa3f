From 64e8fdd13e1f187973cbf6c963a7a2dc6bd76745 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:54 +0000
Subject: [PATCH 01/18] fix: number getters convert exactly the number's own
 text

The text was copied into a 128 byte buffer without a bound, and the long,
long long and double conversions read the unterminated original instead of
the copy, so long numbers overran the stack and adjacent digits in memory
became part of the value.
---
 zzzjson.h | 47 +++++++++++++++++++++++++++++++++++------------
 1 file changed, 35 insertions(+), 12 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 5134b61..037a636 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -369,25 +369,48 @@ static inline zj_Size zj_strLen(const char *str) {
   return (zj_Size)strlen(str);
 }
 
+// 把长度为len的文本转成以0结束的字符串，len小于size时使用buff，否则申请内存
+static inline char *zj_tmpStr(const char *str, zj_Size len, char *buff,
+                              zj_Size size) {
+  char *s = len < size ? buff : (char *)zj_new(len + 1);
+  zj_memCopy(str, len, s);
+  s[len] = 0;
+  return s;
+}
+
+// 释放zj_tmpStr申请的内存
+static inline void zj_tmpFree(char *s, char *buff) {
+  if (s != buff)
+    zj_free((void *)s);
+}
+
 static inline int zj_strToInt(const char *str, zj_Size len) {
-  char s[128] = {0};
-  memcpy(s, str, len);
-  return atoi(s);
+  char buff[128];
+  char *s = zj_tmpStr(str, len, buff, sizeof(buff));
+  int ret = atoi(s);
+  zj_tmpFree(s, buff);
+  return ret;
 }
 static inline long zj_strToLong(const char *str, zj_Size len) {
-  char s[128] = {0};
-  memcpy(s, str, len);
-  return atol(str);
+  char buff[128];
+  char *s = zj_tmpStr(str, len, buff, sizeof(buff));
+  long ret = atol(s);
+  zj_tmpFree(s, buff);
+  return ret;
 }
 static inline long long zj_strToLongLong(const char *str, zj_Size len) {
-  char s[128] = {0};
-  memcpy(s, str, len);
-  return atoll(str);
+  char buff[128];
+  char *s = zj_tmpStr(str, len, buff, sizeof(buff));
+  long long ret = atoll(s);
+  zj_tmpFree(s, buff);
+  return ret;
 }
 static inline double zj_strToDouble(const char *str, zj_Size len) {
-  char s[128] = {0};
-  memcpy(s, str, len);
-  return atof(str);
+  char buff[128];
+  char *s = zj_tmpStr(str, len, buff, sizeof(buff));
+  double ret = atof(s);
+  zj_tmpFree(s, buff);
+  return ret;
 }
 
 static inline zj_Size zj_intToStr(int n, char *buff) {
-- 
2.43.0


From 30898944e0a6cb6d0bccd98fba92bc77a9584c5b Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:54 +0000
Subject: [PATCH 02/18] fix: Move keeps the neighbours' back links when
 unlinking

Prev was cleared before it was used, so removing the last of several
children lost the tail pointer and removing a middle child cut the back
link of its successor.
---
 zzzjson.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 037a636..bb7795b 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2199,14 +2199,14 @@ static inline bool zj_Move(zj_Value *v) {
       v->N->Father->Value.Node = v->N->Next;
     } else {
       v->N->Prev->Next = v->N->Next;
-      v->N->Prev = 0;
     }
     if (v->N->Next == 0) {
       v->N->Father->End = v->N->Prev;
     } else {
       v->N->Next->Prev = v->N->Prev;
-      v->N->Next = 0;
     }
+    v->N->Prev = 0;
+    v->N->Next = 0;
     --(v->N->Father->Len);
     v->N->Father = 0;
   }
-- 
2.43.0


From 18e66b4660c886bb222d61cdda24565cbaea44a1 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:54 +0000
Subject: [PATCH 03/18] fix: Set takes the tail pointer of the copy, not of the
 source

A later add to the destination was linked into the source document.
---
 zzzjson.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zzzjson.h b/zzzjson.h
index bb7795b..7e088f5 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2651,7 +2651,7 @@ static inline bool zj_Set(zj_Value *v, const zj_Value *vv) {
   v->N->Value = cp->N->Value;
   v->N->Len = cp->N->Len;
   if (v->N->Type == zj_JSONTypeArray || v->N->Type == zj_JSONTypeObject) {
-    v->N->End = vv->N->End;
+    v->N->End = cp->N->End;
     struct zj_node *next = v->N->Value.Node;
     while (zj_LIKELY(next != 0)) {
       next->Father = v->N;
-- 
2.43.0


From 03acdccf2cd96a245edb46bf981cddf12d4a48fb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:54 +0000
Subject: [PATCH 04/18] fix: string setters accept \uE000 to \uFFFF

The upper bound of the low surrogate range was mistyped as 0xDFFFF.
---
 zzzjson.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/zzzjson.h b/zzzjson.h
index 7e088f5..8004eb0 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -1260,7 +1260,7 @@ static inline bool zj_checkStr(const char *s, zj_Size *len) {
         if (zj_LIKELY(zj_consumeHex(s, &index, &cp))) {
           // 这里是UTF16标准，可以参考网上相关资料
           // 搜索关键字 UNICODE
-          if (zj_UNLIKELY(cp >= 0xDC00 && cp <= 0xDFFFF))
+          if (zj_UNLIKELY(cp >= 0xDC00 && cp <= 0xDFFF))
             return false;
           if (zj_UNLIKELY(cp >= 0xD800 && cp <= 0xDBFF)) {
             if (zj_LIKELY(zj_likelyConsume('\\', s, &index) &&
-- 
2.43.0


From d0f8bc49d47cb749c8e884a893bf5550b890c396 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:54 +0000
Subject: [PATCH 05/18] fix: length-taking setters validate in local memory

They used one file-scope cache string living in the first allocator that
needed it: dangling once that allocator was released, and shared between
allocators and threads.
---
 zzzjson.h | 30 ++++++++++++------------------
 1 file changed, 12 insertions(+), 18 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 8004eb0..1f46f90 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -578,8 +578,6 @@ struct zj_string {
   zj_Allocator *A;
 };
 
-static struct zj_string *zj_stringCache = 0;
-
 // 新建一个字符串
 static inline struct zj_string *zj_newString(zj_Allocator *alloc,
                                              zj_Size init_size) {
@@ -1294,15 +1292,13 @@ static inline bool zj_checkStr(const char *s, zj_Size *len) {
 // 较为省事的一种实现方法，后面会实现更高效的算法
 static inline bool zj_checkStrLen(zj_Allocator *alloc, const char *s,
                                   zj_Size len) {
-  if (zj_UNLIKELY(zj_stringCache == 0)) {
-    zj_stringCache = zj_newString(alloc, zj_StringCacheInitMemSize);
-  } else {
-    zj_reset(zj_stringCache);
-  }
-  zj_appendStr(zj_stringCache, s, len);
-  zj_appendEnd(zj_stringCache);
+  (void)alloc;
+  char buff[zj_STRING_CACHE_INIT_MEMSIZE];
+  char *str = zj_tmpStr(s, len, buff, sizeof(buff));
   zj_Size avail_len;
-  if (zj_UNLIKELY(zj_checkStr(zj_str(zj_stringCache), &avail_len) == false)) {
+  bool ret = zj_checkStr(str, &avail_len);
+  zj_tmpFree(str, buff);
+  if (zj_UNLIKELY(ret == false)) {
     return false;
   }
   if (zj_UNLIKELY(avail_len != len))
@@ -1411,15 +1407,13 @@ static inline bool zj_checkNum(const char *s, zj_Size *len) {
 }
 static inline bool zj_checkNumLen(zj_Allocator *alloc, const char *s,
                                   zj_Size len) {
-  if (zj_UNLIKELY(zj_stringCache == 0)) {
-    zj_stringCache = zj_newString(alloc, zj_StringCacheInitMemSize);
-  } else {
-    zj_reset(zj_stringCache);
-  }
-  zj_appendStr(zj_stringCache, s, len);
-  zj_appendEnd(zj_stringCache);
+  (void)alloc;
+  char buff[zj_STRING_CACHE_INIT_MEMSIZE];
+  char *str = zj_tmpStr(s, len, buff, sizeof(buff));
   zj_Size avail_len;
-  if (zj_UNLIKELY(zj_checkNum(zj_str(zj_stringCache), &avail_len) == false)) {
+  bool ret = zj_checkNum(str, &avail_len);
+  zj_tmpFree(str, buff);
+  if (zj_UNLIKELY(ret == false)) {
     return false;
   }
   if (zj_UNLIKELY(avail_len != len))
-- 
2.43.0


From 5693af27f51a299db2402fbe9b2149da6a05f52a Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:54 +0000
Subject: [PATCH 06/18] fix: literal matching does not read past the end of the
 text

true, false and null were compared with four byte loads that could reach up
to three bytes beyond the terminating NUL.
---
 zzzjson.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index 1f46f90..bb5e287 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -853,7 +853,7 @@ static inline bool zj_unLikelyPeekAndConsume(const char c, const char *s,
 
 // 消费False
 static inline bool zj_consumeFalse(const char *s, zj_Size *index) {
-  if (zj_LIKELY(*((uint32_t *)("alse")) == *((uint32_t *)(s + *index)))) {
+  if (zj_LIKELY(strncmp("alse", s + *index, 4) == 0)) {
     *index += 4;
     return true;
   }
@@ -862,7 +862,7 @@ static inline bool zj_consumeFalse(const char *s, zj_Size *index) {
 
 // 消费True
 static inline bool zj_consumeTrue(const char *s, zj_Size *index) {
-  if (zj_LIKELY(*((uint32_t *)zj_strTrue) == *((uint32_t *)(s + *index - 1)))) {
+  if (zj_LIKELY(strncmp("rue", s + *index, 3) == 0)) {
     *index += 3;
     return true;
   }
@@ -871,7 +871,7 @@ static inline bool zj_consumeTrue(const char *s, zj_Size *index) {
 
 // 消费Null
 static inline bool zj_consumeNull(const char *s, zj_Size *index) {
-  if (zj_LIKELY(*((uint32_t *)zj_strNull) == *((uint32_t *)(s + *index - 1)))) {
+  if (zj_LIKELY(strncmp("ull", s + *index, 3) == 0)) {
     *index += 3;
     return true;
   }
-- 
2.43.0


From 0603112a59ff6f2b4deb1be87a2080cd23624abb Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:54 +0000
Subject: [PATCH 07/18] fix: SetDouble and SetNum refuse NaN and infinities

They were stored as nan and inf, which is not JSON.
---
 zzzjson.h | 3 +++
 1 file changed, 3 insertions(+)

diff --git a/zzzjson.h b/zzzjson.h
index bb5e287..d61bec5 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2321,6 +2321,9 @@ static inline bool zj_SetNum(zj_Value *v, const double d) {
 }
 
 static inline bool zj_SetDouble(zj_Value *v, const double d) {
+  // JSON不支持NaN和无穷大，此时d - d的结果是NaN，不等于0
+  if (zj_UNLIKELY(!(d - d == 0)))
+    return false;
   char *num = zj_allocatorAlloc(v->A, 32);
   zj_Size len = zj_doubleToStr(d, num);
   if (zj_UNLIKELY(v->N == 0)) {
-- 
2.43.0


From 6dfc795606f2ea551a3177710290b25391d25d20 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:12:54 +0000
Subject: [PATCH 08/18] fix: Set, ObjAdd and ArrayAdd copy into the receiver's
 allocator

The copy was made in the source's allocator, so releasing the source left
the destination with dangling nodes.
---
 zzzjson.h | 12 ++++++------
 1 file changed, 6 insertions(+), 6 deletions(-)

diff --git a/zzzjson.h b/zzzjson.h
index d61bec5..91a9dec 100644
--- a/zzzjson.h
+++ b/zzzjson.h
@@ -2637,8 +2637,8 @@ static inline bool zj_SetFast(zj_Value *v, zj_Value *vv) {
 
 // 函数说明详见《API》
 static inline bool zj_Set(zj_Value *v, const zj_Value *vv) {
-  zj_Value *cp = zj_Copy(vv);
-  if (zj_UNLIKELY(cp == 0))
+  zj_Value *cp = zj_NewValue(v->A);
+  if (zj_UNLIKELY(zj_ValueCopyFrom(cp, vv) == false))
     return false;
   if (zj_UNLIKELY(v->N == 0)) {
     v->N = cp->N;
@@ -2695,8 +2695,8 @@ static inline bool zj_ObjAdd(zj_Value *v, const zj_Value *vv) {
     return false;
   if (zj_UNLIKELY(vv->N->Key == 0))
     return false;
-  zj_Value *cp = zj_Copy(vv);
-  if (zj_UNLIKELY(cp == 0))
+  zj_Value *cp = zj_NewValue(v->A);
+  if (zj_UNLIKELY(zj_ValueCopyFrom(cp, vv) == false))
     return false;
   cp->N->Father = v->N;
   if (zj_UNLIKELY(v->N->Value.Node == 0)) {
@@ -2742,8 +2742,8 @@ static inline bool zj_ArrayAdd(zj_Value *v, const zj_Value *vv) {
     return false;
   if (zj_UNLIKELY(v->N->Type != zj_JSONTypeArray))
     return false;
-  zj_Value *cp = zj_Copy(vv);
-  if (zj_UNLIKELY(cp == 0))
+  zj_Value *cp = zj_NewValue(v->A);
+  if (zj_UNLIKELY(zj_ValueCopyFrom(cp, vv) == false))
     return false;
   cp->N->Key = 0;
   cp->N->Father = v->N;
-- 
2.43.0


From 5ad6b4ae99268acb6dc2e1b53294bb74e7e61acc Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:14:14 +0000
Subject: [PATCH 09/18] fix: Go binding refers to the C functions and types by
 their names

zj_AllocatorRelease and zj_SIZE do not exist, so the package did not compile.
---
 zzzjson.go | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/zzzjson.go b/zzzjson.go
index e551554..dad9627 100644
--- a/zzzjson.go
+++ b/zzzjson.go
@@ -54,7 +54,7 @@ func NewAllocator() *Allocator {
 ReleaseAllocator free an allocator
 */
 func (allocator *Allocator) ReleaseAllocator() {
-	C.zj_AllocatorRelease(allocator.A)
+	C.zj_ReleaseAllocator(allocator.A)
 }
 
 /*
@@ -440,7 +440,7 @@ func (v *Value) ObjDel(key string) bool {
 ArrayDel delete an value of array where index == index
 */
 func (v *Value) ArrayDel(index JSONSize) bool {
-	ret := C.zj_ArrayDel(v.V, C.zj_SIZE(index))
+	ret := C.zj_ArrayDel(v.V, C.zj_Size(index))
 	if ret == true {
 		return true
 	}
-- 
2.43.0


From 8a7f181eb12824a4873e94781ea9d164555935ea Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:17 +0000
Subject: [PATCH 10/18] fix: beta ParseLen parses its copy

It parsed the caller's text, ignoring the length and keeping pointers into it.
---
 beta/zzzjson_beta.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index af7ede7..2c5c65e 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -1450,7 +1450,7 @@ static inline z_BOOL z_ValueParseLen(struct z_Value *v, const char *s,
   char *str = z_AllocatorAlloc(v->A, len + 1);
   z_Copy(s, len, str);
   str[len] = 0;
-  return z_ValueParseFast(v, s);
+  return z_ValueParseFast(v, str);
 }
 
 // 函数说明详见《API》
-- 
2.43.0


From 41f883317cf6254cd1fef25f8fe59f88a3afbff5 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:17 +0000
Subject: [PATCH 11/18] fix: beta Move keeps the neighbours' back links when
 unlinking

---
 beta/zzzjson_beta.h | 4 ++--
 1 file changed, 2 insertions(+), 2 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 2c5c65e..cc141ee 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -1886,14 +1886,14 @@ static inline z_BOOL z_ValueMove(struct z_Value *v) {
       v->N->Father->Value.Node = v->N->Next;
     } else {
       v->N->Prev->Next = v->N->Next;
-      v->N->Prev = 0;
     }
     if (v->N->Next == 0) {
       v->N->Father->End = v->N->Prev;
     } else {
       v->N->Next->Prev = v->N->Prev;
-      v->N->Next = 0;
     }
+    v->N->Prev = 0;
+    v->N->Next = 0;
     --(v->N->Father->Len);
     v->N->Father = 0;
   }
-- 
2.43.0


From eb3cd08b21ddf78460de409dbfbdc924a479dc98 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:17 +0000
Subject: [PATCH 12/18] fix: beta Set takes the tail pointer of the copy, not
 of the source

---
 beta/zzzjson_beta.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index cc141ee..3a31fcd 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -2285,7 +2285,7 @@ static inline z_BOOL z_ValueSet(struct z_Value *v, const struct z_Value *vv) {
   v->N->Value = cp->N->Value;
   v->N->Len = cp->N->Len;
   if (v->N->Type == z_JSONTYPEARRAY || v->N->Type == z_JSONTYPEOBJ) {
-    v->N->End = vv->N->End;
+    v->N->End = cp->N->End;
     struct z_Node *next = v->N->Value.Node;
     while (z_LIKELY(next != 0)) {
       next->Father = v->N;
-- 
2.43.0


From e9cd1f085b4bbcf5c2e465b37e9afe383cfdaaa2 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:17 +0000
Subject: [PATCH 13/18] fix: beta string setters accept \uE000 to \uFFFF

---
 beta/zzzjson_beta.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 3a31fcd..f07a5e8 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -965,7 +965,7 @@ static inline z_BOOL z_CheckStr(const char *s, z_SIZE *len) {
         if (z_LIKELY(z_ConsumeHex(s, &index, &cp))) {
           // 这里是UTF16标准，可以参考网上相关资料
           // 搜索关键字 UNICODE
-          if (z_UNLIKELY(cp >= 0xDC00 && cp <= 0xDFFFF))
+          if (z_UNLIKELY(cp >= 0xDC00 && cp <= 0xDFFF))
             return z_False;
           if (z_UNLIKELY(cp >= 0xD800 && cp <= 0xDBFF)) {
             if (z_LIKELY(z_LikelyConsume('\\', s, &index) &&
-- 
2.43.0


From 529013c1a41d9cba63bda4973b6e7070f205cf8d Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:17 +0000
Subject: [PATCH 14/18] fix: beta length-taking setters validate in temporary
 memory

The file-scope cache string dangled once its allocator was released.
---
 beta/zzzjson_beta.h | 34 ++++++++++++++--------------------
 1 file changed, 14 insertions(+), 20 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index f07a5e8..6d2a550 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -486,8 +486,6 @@ struct z_String {
   struct z_Allocator *A;
 };
 
-static z_String *z_StringCache = 0;
-
 // 新建一个字符串
 static inline struct z_String *z_StringNew(struct z_Allocator *alloc,
                                            z_SIZE init_size) {
@@ -998,16 +996,14 @@ static inline z_BOOL z_CheckStr(const char *s, z_SIZE *len) {
 }
 static inline z_BOOL z_CheckStrLen(struct z_Allocator *alloc, const char *s,
                                    z_SIZE len) {
-  if (z_UNLIKELY(z_StringCache == 0)) {
-    z_StringCache = z_StringNew(alloc, z_StringCacheInitMemSize);
-  } else {
-    z_StringReset(z_StringCache);
-  }
-  z_StringAppendStr(z_StringCache, s, len);
-  z_StringAppendEnd(z_StringCache);
+  (void)alloc;
+  char *str = (char *)z_New(len + 1);
+  z_Copy(s, len, str);
+  str[len] = 0;
   z_SIZE avail_len;
-  if (z_UNLIKELY(z_CheckStr(z_StringStr(z_StringCache), &avail_len) ==
-                 z_False)) {
+  z_BOOL ret = z_CheckStr(str, &avail_len);
+  z_Free((void *)str);
+  if (z_UNLIKELY(ret == z_False)) {
     return z_False;
   }
   if (z_UNLIKELY(avail_len != len))
@@ -1115,16 +1111,14 @@ static inline z_BOOL z_CheckNum(const char *s, z_SIZE *len) {
 }
 static inline z_BOOL z_CheckNumLen(struct z_Allocator *alloc, const char *s,
                                    z_SIZE len) {
-  if (z_UNLIKELY(z_StringCache == 0)) {
-    z_StringCache = z_StringNew(alloc, z_StringCacheInitMemSize);
-  } else {
-    z_StringReset(z_StringCache);
-  }
-  z_StringAppendStr(z_StringCache, s, len);
-  z_StringAppendEnd(z_StringCache);
+  (void)alloc;
+  char *str = (char *)z_New(len + 1);
+  z_Copy(s, len, str);
+  str[len] = 0;
   z_SIZE avail_len;
-  if (z_UNLIKELY(z_CheckNum(z_StringStr(z_StringCache), &avail_len) ==
-                 z_False)) {
+  z_BOOL ret = z_CheckNum(str, &avail_len);
+  z_Free((void *)str);
+  if (z_UNLIKELY(ret == z_False)) {
     return z_False;
   }
   if (z_UNLIKELY(avail_len != len))
-- 
2.43.0


From 5f3f55bfa8ede9f822ec809e1f066b80e0b98d68 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:17 +0000
Subject: [PATCH 15/18] fix: beta literal matching does not read past the end
 of the text

---
 beta/zzzjson_beta.h | 6 +++---
 1 file changed, 3 insertions(+), 3 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 6d2a550..5502249 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -685,7 +685,7 @@ static inline z_BOOL z_UnLikelyPeekAndConsume(const char c, const char *s,
 
 // 消费False
 static inline z_BOOL z_ConsumeFalse(const char *s, z_SIZE *index) {
-  if (z_LIKELY(*((z_SIZE *)("alse")) == *((z_SIZE *)(s + *index)))) {
+  if (z_LIKELY(strncmp("alse", s + *index, 4) == 0)) {
     *index += 4;
     return z_True;
   }
@@ -694,7 +694,7 @@ static inline z_BOOL z_ConsumeFalse(const char *s, z_SIZE *index) {
 
 // 消费True
 static inline z_BOOL z_ConsumeTrue(const char *s, z_SIZE *index) {
-  if (z_LIKELY(*((z_SIZE *)z_StrTrue) == *((z_SIZE *)(s + *index - 1)))) {
+  if (z_LIKELY(strncmp("rue", s + *index, 3) == 0)) {
     *index += 3;
     return z_True;
   }
@@ -703,7 +703,7 @@ static inline z_BOOL z_ConsumeTrue(const char *s, z_SIZE *index) {
 
 // 消费Null
 static inline z_BOOL z_ConsumeNull(const char *s, z_SIZE *index) {
-  if (z_LIKELY(*((z_SIZE *)z_StrNull) == *((z_SIZE *)(s + *index - 1)))) {
+  if (z_LIKELY(strncmp("ull", s + *index, 3) == 0)) {
     *index += 3;
     return z_True;
   }
-- 
2.43.0


From a42404f02b7b00e574bcae4abed96c7274318a71 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:17 +0000
Subject: [PATCH 16/18] fix: beta GetNum converts exactly the number's own text

---
 beta/zzzjson_beta.h | 2 +-
 1 file changed, 1 insertion(+), 1 deletion(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 5502249..2a08f4e 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -1616,7 +1616,7 @@ static inline const double *z_ValueGetNum(struct z_Value *v) {
   if (z_UNLIKELY(v->Cache.Num != 0))
     return v->Cache.Num;
   double *d = (double *)z_AllocatorAlloc(v->A, sizeof(d) / sizeof(char));
-  *d = z_StrToDouble(v->N->Value.Str);
+  *d = z_StrToDouble(z_ValueGetNumStr(v));
   v->Cache.Num = d;
   return d;
 }
-- 
2.43.0


From 7ddc142ee54aed1c15e4a363ad0f8ab8f01e38f7 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:17 +0000
Subject: [PATCH 17/18] fix: beta getters do not return stale cached text

The caches live in the handle and were not invalidated by a parse or by an
edit through another handle.
---
 beta/zzzjson_beta.h | 15 ---------------
 1 file changed, 15 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 2a08f4e..5e60564 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -1556,8 +1556,6 @@ static inline const char *z_ValueGetString(struct z_Value *v) {
     return 0;
   if (z_UNLIKELY(v->N->Type != z_JSONTYPESTRING))
     return 0;
-  if (z_UNLIKELY(v->CacheStr != 0))
-    return v->CacheStr;
   char *str = z_AllocatorAlloc(v->A, v->N->Len + 1);
   z_Copy(v->N->Value.Str, v->N->Len, str);
   str[v->N->Len] = 0;
@@ -1571,8 +1569,6 @@ static inline const char *z_ValueGetUnEscapeString(struct z_Value *v) {
     return 0;
   if (z_UNLIKELY(v->N->Type != z_JSONTYPESTRING))
     return 0;
-  if (z_UNLIKELY(v->Cache.UnEscapeStr != 0))
-    return v->Cache.UnEscapeStr;
   // 因为值里面的字符串一定是合法的字符串，因此，可以简化
   // 因为解码后的字符串一定比解码前短，所以申请原字符串+1的长度即可
   char *ret_str = z_AllocatorAlloc(v->A, v->N->Len + 1);
@@ -1598,8 +1594,6 @@ static inline const char *z_ValueGetNumStr(struct z_Value *v) {
     return 0;
   if (z_UNLIKELY(v->N->Type != z_JSONTYPENUM))
     return 0;
-  if (z_UNLIKELY(v->CacheStr != 0))
-    return v->CacheStr;
   char *str = z_AllocatorAlloc(v->A, v->N->Len + 1);
   z_Copy(v->N->Value.Str, v->N->Len, str);
   str[v->N->Len] = 0;
@@ -1613,8 +1607,6 @@ static inline const double *z_ValueGetNum(struct z_Value *v) {
     return 0;
   if (z_UNLIKELY(v->N->Type != z_JSONTYPENUM))
     return 0;
-  if (z_UNLIKELY(v->Cache.Num != 0))
-    return v->Cache.Num;
   double *d = (double *)z_AllocatorAlloc(v->A, sizeof(d) / sizeof(char));
   *d = z_StrToDouble(z_ValueGetNumStr(v));
   v->Cache.Num = d;
@@ -1647,10 +1639,6 @@ static inline const char *z_ValueGetKey(struct z_Value *v) {
     return 0;
   if (z_UNLIKELY(v->N->Key == 0))
     return 0;
-
-  if (z_UNLIKELY(v->CacheKey != 0))
-    return v->CacheKey;
-
   char *str = z_AllocatorAlloc(v->A, v->N->KeyLen + 1);
   z_Copy(v->N->Key, v->N->KeyLen, str);
   str[v->N->KeyLen] = 0;
@@ -1663,9 +1651,6 @@ static inline const char *z_ValueGetUnEscapeKey(struct z_Value *v) {
     return 0;
   if (z_UNLIKELY(v->N->Key == 0))
     return 0;
-
-  if (z_UNLIKELY(v->CacheUnEscapeKey != 0))
-    return v->CacheUnEscapeKey;
   char *str = z_AllocatorAlloc(v->A, v->N->KeyLen + 1);
   z_UnEscapeString(v->N->Key, v->N->KeyLen, str);
   v->CacheUnEscapeKey = str;
-- 
2.43.0


From eadb3d08393db094220158e2038d687de6e08ad0 Mon Sep 17 00:00:00 2001
From: verif <verif@anthropic.com>
Date: Wed, 18 Nov 2026 12:15:17 +0000
Subject: [PATCH 18/18] fix: beta Set, ObjAdd and ArrayAdd copy into the
 receiver's allocator

---
 beta/zzzjson_beta.h | 19 ++++++++++++-------
 1 file changed, 12 insertions(+), 7 deletions(-)

diff --git a/beta/zzzjson_beta.h b/beta/zzzjson_beta.h
index 5e60564..262c813 100644
--- a/beta/zzzjson_beta.h
+++ b/beta/zzzjson_beta.h
@@ -1779,12 +1779,12 @@ static inline struct z_Value *z_ValueNext(const struct z_Value *v) {
   return 0;
 }
 
-// 函数说明详见《API》
-static inline struct z_Value *z_ValueCopy(const struct z_Value *v) {
+// 把v拷贝到分配器A，非对外API
+static inline struct z_Value *z_ValueCopyTo(struct z_Allocator *const A,
+                                            const struct z_Value *v) {
   if (z_UNLIKELY(v->N == 0))
     return 0;
-  struct z_Value *const ret_val = z_ValueNew(v->A);
-  struct z_Allocator *const A = v->A;
+  struct z_Value *const ret_val = z_ValueNew(A);
   ret_val->N = (struct z_Node *)z_AllocatorAlloc(A, sizeof(struct z_Node));
   ret_val->N->Prev = 0;
   ret_val->N->Next = 0;
@@ -1856,6 +1856,11 @@ static inline struct z_Value *z_ValueCopy(const struct z_Value *v) {
   return ret_val;
 }
 
+// 函数说明详见《API》
+static inline struct z_Value *z_ValueCopy(const struct z_Value *v) {
+  return z_ValueCopyTo(v->A, v);
+}
+
 // 函数说明详见《API》
 static inline z_BOOL z_ValueMove(struct z_Value *v) {
   if (z_UNLIKELY(v->N == 0))
@@ -2248,7 +2253,7 @@ static inline z_BOOL z_ValueSetFast(struct z_Value *v, struct z_Value *vv) {
 
 // 函数说明详见《API》
 static inline z_BOOL z_ValueSet(struct z_Value *v, const struct z_Value *vv) {
-  struct z_Value *cp = z_ValueCopy(vv);
+  struct z_Value *cp = z_ValueCopyTo(v->A, vv);
   if (z_UNLIKELY(cp == 0))
     return z_False;
   z_ValueInitCache(v);
@@ -2313,7 +2318,7 @@ static inline z_BOOL z_ValueObjAdd(struct z_Value *v,
     return z_False;
   if (z_UNLIKELY(vv->N->Key == 0))
     return z_False;
-  struct z_Value *cp = z_ValueCopy(vv);
+  struct z_Value *cp = z_ValueCopyTo(v->A, vv);
   if (z_UNLIKELY(cp == 0))
     return z_False;
   cp->N->Father = v->N;
@@ -2363,7 +2368,7 @@ static inline z_BOOL z_ValueArrayAdd(struct z_Value *v,
     return z_False;
   if (z_UNLIKELY(v->N->Type != z_JSONTYPEARRAY))
     return z_False;
-  struct z_Value *cp = z_ValueCopy(vv);
+  struct z_Value *cp = z_ValueCopyTo(v->A, vv);
   if (z_UNLIKELY(cp == 0))
     return z_False;
   cp->N->Key = 0;
-- 
2.43.0

