/* beta/zzzjson_beta.h as an Api table. */
#include <stdbool.h>
#include <stdint.h>
#include <inttypes.h>
#include <stddef.h>
#include <stdio.h>
#include <stdlib.h>
#include <string.h>
#include <malloc.h>
#include <math.h>
#include <limits.h>
#include <float.h>
#include <errno.h>
#include <ctype.h>
#include <assert.h>
#include <stdarg.h>
#include <wchar.h>
#include <locale.h>
#ifdef __cplusplus
#include <new>
#include <string>
#include <vector>
#include <map>
#include <memory>
#include <utility>
#include <algorithm>
#include <limits>
#include <atomic>
#include <mutex>
#include <cstring>
#include <cstdlib>
#include <iostream>
#include <sstream>
#endif
#include "api.h"
#define z_SHORT_API 0
#include "beta/zzzjson_beta.h"
typedef struct z_Value Val;
typedef z_SIZE Sz;
#define V(v) ((Val *)(v))
#define C0(N, v) z_Value##N(V(v))
#define C1(N, v, a) z_Value##N(V(v), a)
#define C2(N, v, a, b) z_Value##N(V(v), a, b)
static VA a_NewAllocator(int k) { (void)k; return z_AllocatorNew(); }
static void a_ReleaseAllocator(VA a, int k) { (void)k; z_AllocatorRelease((struct z_Allocator *)a); }
static VV a_NewValue(VA a, int k) { (void)k; return z_ValueNew((struct z_Allocator *)a); }
static int a_Type(VV v) { const z_JSONType *t = C0(Type, v); return t == 0 ? 0 : *t; }
static vsz a_SizeOf(VV v) { return C0(Size, v); }
static const char *a_GetStrFast(VV v, vsz *n) { Sz l = 0; const char *r = C1(GetStringFast, v, &l); *n = l; return r; }
static const char *a_GetUnEscapeStr(VV v) { return C0(GetUnEscapeString, v); }
static const char *a_GetStr(VV v) { return C0(GetString, v); }
static int a_GetBool(VV v) { const z_BOOL *b = C0(GetBool, v); return b == 0 ? -1 : *b ? 1 : 0; }
static int a_ParseFast(VV v, const char *s) { return C1(ParseFast, v, s); }
static int a_ParseLen(VV v, const char *s, vsz n) { return C2(ParseLen, v, s, (Sz)n); }
static int a_Parse(VV v, const char *s) { return C1(Parse, v, s); }
static const char *a_Stringify(VV v) { return C0(Stringify, v); }
static const char *a_GetNumFast(VV v, vsz *n) { Sz l = 0; const char *r = C1(GetNumFast, v, &l); *n = l; return r; }
static const char *a_GetNumStr(VV v) { return C0(GetNumStr, v); }
static const double *a_GetNum(VV v) { return C0(GetNum, v); }
static int a_IsNull(VV v) { return C0(IsNull, v); }
static const char *a_GetKey(VV v) { return C0(GetKey, v); }
static const char *a_GetUnEscapeKey(VV v) { return C0(GetUnEscapeKey, v); }
static const char *a_GetKeyFast(VV v, vsz *n) { Sz l = 0; const char *r = C1(GetKeyFast, v, &l); *n = l; return r; }
static VV a_ObjGet(VV v, const char *k) { return (VV)C1(ObjGet, v, k); }
static VV a_ObjGetLen(VV v, const char *k, vsz n) { return (VV)C2(ObjGetLen, v, k, (Sz)n); }
static VV a_ArrayGet(VV v, vsz i) { return C1(ArrayGet, v, (Sz)i); }
static VV a_Begin(VV v) { return C0(Begin, v); }
static VV a_Next(VV v) { return C0(Next, v); }
static VV a_Copy(VV v) { return C0(Copy, v); }
static int a_Move(VV v) { return C0(Move, v); }
static void a_SetNull(VV v) { C0(SetNull, v); }
static void a_SetBool(VV v, int b) { C1(SetBool, v, b != 0); }
static int a_SetNum(VV v, double d) { return C1(SetNum, v, d); }
#define S1(N) static int a_##N(VV v, const char *s) { return C1(N, v, s); }
#define S2(N) static int a_##N(VV v, const char *s, vsz n) { return C2(N, v, s, (Sz)n); }
S1(SetNumStrFast) S2(SetNumStrLenFast) S1(SetNumStr) S2(SetNumStrLen)
S1(SetStrFast) S2(SetStrLenFast) S1(SetStr) S2(SetStrLen) 
S1(SetKeyFast) S2(SetKeyLenFast) S1(SetKey) S2(SetKeyLen) 
static void a_SetArray(VV v) { C0(SetArray, v); }
static void a_SetObj(VV v) { C0(SetObj, v); }
#define P1(N) static int a_##N(VV v, VV f) { return C1(N, v, V(f)); }
P1(SetFast) P1(Set) P1(ObjAddFast) P1(ObjAdd) P1(ArrayAddFast) P1(ArrayAdd)
static int a_ArrayDel(VV v, vsz i) { return C1(ArrayDel, v, (Sz)i); }
static int a_ObjDel(VV v, const char *k) { return C1(ObjDel, v, k); }
static Api the_api;
const Api *get_api(void) {
  Api *p = &the_api;
  p->name = "beta"; p->caps = CAP_TAKESKEY; p->nkinds = 1;
  p->tbool = z_JSONTypeBool; p->tarr = z_JSONTypeArray; p->tobj = z_JSONTypeObj;
  p->tstr = z_JSONTypeString; p->tnull = z_JSONTypeNull; p->tnum = z_JSONTypeNum;
#define A(N) p->N = a_##N;
  A(NewAllocator) A(ReleaseAllocator) A(NewValue) A(ParseFast) A(ParseLen) A(Parse) A(Stringify)
  A(GetStrFast) A(GetUnEscapeStr) A(GetStr) A(GetNumFast) A(GetNumStr) A(GetNum)   A(GetBool) A(IsNull) A(GetKey) A(GetUnEscapeKey) A(GetKeyFast) A(ObjGet) A(ObjGetLen) A(Type) A(SizeOf)
  A(ArrayGet) A(Begin) A(Next) A(Copy) A(Move) A(SetNull) A(SetBool) A(SetNumStrFast) A(SetNumStrLenFast) A(SetNumStr)
  A(SetNumStrLen) A(SetNum) A(SetStrFast) A(SetStrLenFast) A(SetStr)
  A(SetStrLen) A(SetKeyFast) A(SetKeyLenFast) A(SetKey) A(SetKeyLen)   A(SetArray) A(SetObj) A(SetFast) A(Set) A(ObjAddFast) A(ObjAdd) A(ArrayAddFast) A(ArrayAdd)
  A(ArrayDel) A(ObjDel)
  return p;
}
