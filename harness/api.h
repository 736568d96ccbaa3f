/* The public operations of one API surface as a function table. */
#ifndef VAPI_H
#define VAPI_H
#include <stddef.h>
#ifdef __cplusplus
extern "C" {
#endif
typedef unsigned long long vsz;
typedef void *VA; /* allocator */
typedef void *VV; /* value handle */

enum {
  CAP_ESC = 1,      /* escaping setters */
  CAP_INT = 2,      /* int/long/long long getters and setters, GetDouble/SetDouble */
  CAP_KEEP = 4,     /* strings handed out stay valid until the allocator is released */
  CAP_TAKESKEY = 8, /* Set between keyed values takes the source's key (beta) */
  CAP_NEWFROM = 16  /* new value in the allocator of an existing value */
};

typedef struct Api {
  const char *name;
  int caps;
  int nkinds;                 /* ways of constructing an allocator */
  int tbool, tarr, tobj, tstr, tnull, tnum;
  VA (*NewAllocator)(int kind);
  void (*ReleaseAllocator)(VA a, int kind);
  VV (*NewValue)(VA a, int kind);
  VV (*NewValueFrom)(VV v);
  int (*ParseFast)(VV v, const char *s);
  int (*ParseLen)(VV v, const char *s, vsz len);
  int (*Parse)(VV v, const char *s);
  const char *(*Stringify)(VV v);
  const char *(*GetStrFast)(VV v, vsz *len);
  const char *(*GetUnEscapeStr)(VV v);
  const char *(*GetStr)(VV v);
  const char *(*GetNumFast)(VV v, vsz *len);
  const char *(*GetNumStr)(VV v);
  const double *(*GetNum)(VV v);
  const double *(*GetDouble)(VV v);
  const int *(*GetInt)(VV v);
  const long *(*GetLong)(VV v);
  const long long *(*GetLongLong)(VV v);
  int (*GetBool)(VV v); /* -1 absent, 0, 1 */
  int (*IsNull)(VV v);
  const char *(*GetKey)(VV v);
  const char *(*GetUnEscapeKey)(VV v);
  const char *(*GetKeyFast)(VV v, vsz *len);
  VV (*ObjGet)(VV v, const char *key);
  VV (*ObjGetLen)(VV v, const char *key, vsz len);
  int (*Type)(VV v); /* 0 absent */
  vsz (*SizeOf)(VV v);
  VV (*ArrayGet)(VV v, vsz i);
  VV (*Begin)(VV v);
  VV (*Next)(VV v);
  VV (*Copy)(VV v);
  int (*Move)(VV v);
  void (*SetNull)(VV v);
  void (*SetBool)(VV v, int b);
  int (*SetNumStrFast)(VV v, const char *s);
  int (*SetNumStrLenFast)(VV v, const char *s, vsz len);
  int (*SetNumStr)(VV v, const char *s);
  int (*SetNumStrLen)(VV v, const char *s, vsz len);
  int (*SetNum)(VV v, double d);
  int (*SetDouble)(VV v, double d);
  int (*SetInt)(VV v, int n);
  int (*SetLong)(VV v, long n);
  int (*SetLongLong)(VV v, long long n);
  int (*SetStrFast)(VV v, const char *s);
  int (*SetStrLenFast)(VV v, const char *s, vsz len);
  int (*SetStr)(VV v, const char *s);
  int (*SetStrLen)(VV v, const char *s, vsz len);
  int (*SetStrEscape)(VV v, const char *s);
  int (*SetStrLenEscape)(VV v, const char *s, vsz len);
  int (*SetKeyFast)(VV v, const char *s);
  int (*SetKeyLenFast)(VV v, const char *s, vsz len);
  int (*SetKey)(VV v, const char *s);
  int (*SetKeyLen)(VV v, const char *s, vsz len);
  int (*SetKeyEscape)(VV v, const char *s);
  int (*SetKeyLenEscape)(VV v, const char *s, vsz len);
  void (*SetArray)(VV v);
  void (*SetObj)(VV v);
  int (*SetFast)(VV v, VV f);
  int (*Set)(VV v, VV f);
  int (*ObjAddFast)(VV v, VV f);
  int (*ObjAdd)(VV v, VV f);
  int (*ArrayAddFast)(VV v, VV f);
  int (*ArrayAdd)(VV v, VV f);
  int (*ArrayDel)(VV v, vsz i);
  int (*ObjDel)(VV v, const char *key);
} Api;

const Api *get_api(void);

/* memory interposer, implemented by the engine */
void *hk_malloc(size_t n);
void *hk_calloc(size_t n, size_t m);
void *hk_realloc(void *p, size_t n);
void hk_free(void *p);
#ifdef __cplusplus
}
#endif
#endif
