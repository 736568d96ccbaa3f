/* One API surface of zzzjson.h / zzzjson.hpp as an Api table.
   SURF: 0 C long names, 1 C short names, 2 C++ long functions, 3 C++ short functions,
         4 C++ member functions, 5 zzzjson.hpp wrapper classes. */
#include <stdbool.h>
#include <stdint.h>
#include <inttypes.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include <math.h>
#include <limits.h>
#include <float.h>
#include <errno.h>
#include <ctype.h>
#include <assert.h>
#include <stdarg.h>
#include <wchar.h>
#include <locale.h>
#ifdef __cplusplus
#include <new>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <utility>
#include <algorithm>
#include <limits>
#include <atomic>
#include <mutex>
#include <cstring>
#include <cstdlib>
#include <iostream>
#include <sstream>
#endif
#include "api.h"
#ifdef CFG_MODE3
static inline void *zj_new(CFG_MODE3 size) { return hk_malloc(size); }
static inline void zj_free(void *p) { hk_free(p); }
static inline void zj_memCopyUser(const char *src, CFG_MODE3 len, char *des) { memcpy(des, src, len); }
#endif
#ifdef CFG_EXPECT3
#define zj_LIKELY(x) (!!(x))
#define zj_UNLIKELY(x) (!!(x))
#endif
#if SURF == 5
#include "zzzjson.hpp"
#else
#include "zzzjson.h"
#endif
#if SURF == 0 || SURF == 1
typedef zj_Value Val;
typedef zj_Size Sz;
#elif SURF == 5
typedef zzzjson::Value Val;
typedef zj::zj_Size Sz;
#else
typedef zj::zj_Value Val;
typedef zj::zj_Size Sz;
#endif
#define V(v) ((Val *)(v))
#if SURF == 0
#define C0(N, v) zj_##N(V(v))
#define C1(N, v, a) zj_##N(V(v), a)
#define C2(N, v, a, b) zj_##N(V(v), a, b)
#define SIZEOF(v) zj_SizeOf(V(v))
#define TN(x) zj_##x
#define NM "c-long"
#elif SURF == 1
#define C0(N, v) N(V(v))
#define C1(N, v, a) N(V(v), a)
#define C2(N, v, a, b) N(V(v), a, b)
#define SIZEOF(v) SizeOf(V(v))
#define TN(x) x
#define NM "c-short"
#elif SURF == 2
#define C0(N, v) zj::zj_##N(V(v))
#define C1(N, v, a) zj::zj_##N(V(v), a)
#define C2(N, v, a, b) zj::zj_##N(V(v), a, b)
#define SIZEOF(v) zj::zj_SizeOf(V(v))
#define TN(x) zj::zj_##x
#define NM "cpp-long"
#elif SURF == 3
#define C0(N, v) zj::N(V(v))
#define C1(N, v, a) zj::N(V(v), a)
#define C2(N, v, a, b) zj::N(V(v), a, b)
#define SIZEOF(v) zj::SizeOf(V(v))
#define TN(x) zj::x
#define NM "cpp-short"
#else
#define C0(N, v) V(v)->N()
#define C1(N, v, a) V(v)->N(a)
#define C2(N, v, a, b) V(v)->N(a, b)
#if SURF == 4
#define SIZEOF(v) V(v)->SizeOf()
#define TN(x) zj::x
#define NM "cpp-method"
#else
#define SIZEOF(v) V(v)->Size()
#define TN(x) zzzjson::x
#define NM "hpp"
#endif
#endif

#if SURF < 2
static VA a_NewAllocator(int k) { (void)k; return (VA)
#if SURF == 0
  zj_NewAllocator();
#else
  NewAllocator();
#endif
}
static void a_ReleaseAllocator(VA a, int k) { (void)k;
#if SURF == 0
  zj_ReleaseAllocator((zj_Allocator *)a);
#else
  ReleaseAllocator((Allocator *)a);
#endif
}
static VV a_NewValue(VA a, int k) { (void)k;
#if SURF == 0
  return zj_NewValue((zj_Allocator *)a);
#else
  return NewValue((Allocator *)a);
#endif
}
#define NKINDS 1
#else
/* kinds: 0 function (or heap object for the wrapper), 1 heap object, 2 object in caller storage */
#if SURF == 5
typedef zzzjson::Allocator AllocT;
#else
typedef zj::zj_Allocator AllocT;
#endif
static VA a_NewAllocator(int k) {
#if SURF == 2
  if (k == 0) return zj::zj_NewAllocator();
#elif SURF == 3 || SURF == 4
  if (k == 0) return zj::NewAllocator();
#endif
  if (k == 2) { char *p = new char[sizeof(AllocT)]; return new (p) AllocT(); }
  return new AllocT();
}
static void a_ReleaseAllocator(VA a, int k) {
#if SURF == 2
  if (k == 0) { zj::zj_ReleaseAllocator((AllocT *)a); return; }
#elif SURF == 3 || SURF == 4
  if (k == 0) { zj::ReleaseAllocator((AllocT *)a); return; }
#endif
  if (k == 2) { ((AllocT *)a)->~AllocT(); delete[] (char *)a; return; }
  delete (AllocT *)a;
}
static VV a_NewValue(VA a, int k) { (void)k;
#if SURF == 2
  return zj::zj_NewValue((AllocT *)a);
#elif SURF == 3
  return zj::NewValue((AllocT *)a);
#else
  return Val::NewValue((AllocT *)a);
#endif
}
#define NKINDS 3
#endif
static VV a_NewValueFrom(VV v) {
#if SURF == 5
  return V(v)->NewValue();
#elif SURF == 4
  return Val::NewValue(V(v)->Allocator());
#else
  (void)v; return 0;
#endif
}
static int a_ParseFast(VV v, const char *s) { return C1(ParseFast, v, s); }
static int a_ParseLen(VV v, const char *s, vsz n) { return C2(ParseLen, v, s, (Sz)n); }
static int a_Parse(VV v, const char *s) { return C1(Parse, v, s); }
static const char *a_Stringify(VV v) { return C0(Stringify, v); }
static const char *a_GetStrFast(VV v, vsz *n) { Sz l = 0; const char *r = C1(GetStrFast, v, &l); *n = l; return r; }
static const char *a_GetUnEscapeStr(VV v) { return C0(GetUnEscapeStr, v); }
static const char *a_GetStr(VV v) { return C0(GetStr, v); }
static const char *a_GetNumFast(VV v, vsz *n) { Sz l = 0; const char *r = C1(GetNumFast, v, &l); *n = l; return r; }
static const char *a_GetNumStr(VV v) { return C0(GetNumStr, v); }
static const double *a_GetNum(VV v) { return C0(GetNum, v); }
static const double *a_GetDouble(VV v) { return C0(GetDouble, v); }
static const int *a_GetInt(VV v) { return C0(GetInt, v); }
static const long *a_GetLong(VV v) { return C0(GetLong, v); }
static const long long *a_GetLongLong(VV v) { return C0(GetLongLong, v); }
static int a_GetBool(VV v) { const bool *b = C0(GetBool, v); return b == 0 ? -1 : *b ? 1 : 0; }
static int a_IsNull(VV v) { return C0(IsNull, v); }
static const char *a_GetKey(VV v) { return C0(GetKey, v); }
static const char *a_GetUnEscapeKey(VV v) { return C0(GetUnEscapeKey, v); }
static const char *a_GetKeyFast(VV v, vsz *n) { Sz l = 0; const char *r = C1(GetKeyFast, v, &l); *n = l; return r; }
static VV a_ObjGet(VV v, const char *k) { return (VV)C1(ObjGet, v, k); }
static VV a_ObjGetLen(VV v, const char *k, vsz n) { return (VV)C2(ObjGetLen, v, k, (Sz)n); }
static int a_Type(VV v) { const int *t = (const int *)C0(Type, v); return t == 0 ? 0 : *t; }
static vsz a_SizeOf(VV v) { return SIZEOF(v); }
static VV a_ArrayGet(VV v, vsz i) { return C1(ArrayGet, v, (Sz)i); }
static VV a_Begin(VV v) { return C0(Begin, v); }
static VV a_Next(VV v) { return C0(Next, v); }
static VV a_Copy(VV v) { return C0(Copy, v); }
static int a_Move(VV v) { return C0(Move, v); }
static void a_SetNull(VV v) { C0(SetNull, v); }
static void a_SetBool(VV v, int b) { C1(SetBool, v, b != 0); }
static int a_SetNum(VV v, double d) { return C1(SetNum, v, d); }
static int a_SetDouble(VV v, double d) { return C1(SetDouble, v, d); }
static int a_SetInt(VV v, int d) { return C1(SetInt, v, d); }
static int a_SetLong(VV v, long d) { return C1(SetLong, v, d); }
static int a_SetLongLong(VV v, long long d) { return C1(SetLongLong, v, d); }
#define S1(N) static int a_##N(VV v, const char *s) { return C1(N, v, s); }
#define S2(N) static int a_##N(VV v, const char *s, vsz n) { return C2(N, v, s, (Sz)n); }
S1(SetNumStrFast) S2(SetNumStrLenFast) S1(SetNumStr) S2(SetNumStrLen)
S1(SetStrFast) S2(SetStrLenFast) S1(SetStr) S2(SetStrLen) S1(SetStrEscape) S2(SetStrLenEscape)
S1(SetKeyFast) S2(SetKeyLenFast) S1(SetKey) S2(SetKeyLen) S1(SetKeyEscape) S2(SetKeyLenEscape)
static void a_SetArray(VV v) { C0(SetArray, v); }
static void a_SetObj(VV v) { C0(SetObj, v); }
#define P1(N) static int a_##N(VV v, VV f) { return C1(N, v, V(f)); }
P1(SetFast) P1(Set) P1(ObjAddFast) P1(ObjAdd) P1(ArrayAddFast) P1(ArrayAdd)
static int a_ArrayDel(VV v, vsz i) { return C1(ArrayDel, v, (Sz)i); }
static int a_ObjDel(VV v, const char *k) { return C1(ObjDel, v, k); }
static Api the_api;
#if SURF >= 2
extern "C"
#endif
const Api *get_api(void) {
  Api *p = &the_api;
  p->name = NM;
  p->caps = CAP_ESC | CAP_INT | CAP_KEEP | (SURF >= 4 ? CAP_NEWFROM : 0);
  p->nkinds = NKINDS;
  p->tbool = TN(JSONTypeBool); p->tarr = TN(JSONTypeArray); p->tobj = TN(JSONTypeObject);
  p->tstr = TN(JSONTypeString); p->tnull = TN(JSONTypeNull); p->tnum = TN(JSONTypeNumber);
#define A(N) p->N = a_##N;
  A(NewAllocator) A(ReleaseAllocator) A(NewValue) A(NewValueFrom) A(ParseFast) A(ParseLen) A(Parse) A(Stringify)
  A(GetStrFast) A(GetUnEscapeStr) A(GetStr) A(GetNumFast) A(GetNumStr) A(GetNum) A(GetDouble) A(GetInt) A(GetLong)
  A(GetLongLong) A(GetBool) A(IsNull) A(GetKey) A(GetUnEscapeKey) A(GetKeyFast) A(ObjGet) A(ObjGetLen) A(Type) A(SizeOf)
  A(ArrayGet) A(Begin) A(Next) A(Copy) A(Move) A(SetNull) A(SetBool) A(SetNumStrFast) A(SetNumStrLenFast) A(SetNumStr)
  A(SetNumStrLen) A(SetNum) A(SetDouble) A(SetInt) A(SetLong) A(SetLongLong) A(SetStrFast) A(SetStrLenFast) A(SetStr)
  A(SetStrLen) A(SetStrEscape) A(SetStrLenEscape) A(SetKeyFast) A(SetKeyLenFast) A(SetKey) A(SetKeyLen) A(SetKeyEscape)
  A(SetKeyLenEscape) A(SetArray) A(SetObj) A(SetFast) A(Set) A(ObjAddFast) A(ObjAdd) A(ArrayAddFast) A(ArrayAdd)
  A(ArrayDel) A(ObjDel)
  return p;
}
