// Interpreter of call histories: every call runs on the implementation and on the specification's
// state (the compiled form of spec/ZDoc.tla over concrete texts), and the outcomes are compared.
#pragma once
#include "api.h"
#include "spec.hpp"
#include <sys/mman.h>
#include <unistd.h>

enum OpCode : uint8_t {
  NEWALLOC, RELEASE, NEWVALUE, NEWFROM, PARSE, SETNULL, SETBOOL, SETNUMT, SETSTR, SETSTRESC, SETKEY, SETKEYESC,
  SETDBL, SETINT, SETARRAY, SETOBJ, COPY, MOVE, SET, SETFAST, ARRADD, ARRADDFAST, OBJADD, OBJADDFAST,
  ARRDEL, OBJDEL, ARRGET, OBJGET, BEGIN, NEXT, DROP, OBSERVE, NOPS
};
static const char *opNames[] = {
  "NewAllocator", "ReleaseAllocator", "NewValue", "NewValueFrom", "Parse", "SetNull", "SetBool", "SetNumText", "SetStr",
  "SetStrEscape", "SetKey", "SetKeyEscape", "SetDouble", "SetInt", "SetArray", "SetObj", "Copy", "Move", "Set", "SetFast",
  "ArrayAdd", "ArrayAddFast", "ObjAdd", "ObjAddFast", "ArrayDel", "ObjDel", "ArrayGet", "ObjGet", "Begin", "Next", "Drop",
  "Observe"};

struct Op {
  uint8_t code = 0, var = 0;
  int16_t a = 0, b = 0;
  int64_t n = 0;
  string s;
  string xt; // abstract token, when the history comes from the abstract model
};
struct Program {
  vector<Op> ops;
  uint8_t obs = 1;  // 0: observe at the end, 1: serialise every handle after each call, 2: full observation after each call
  uint8_t fill = 0xA5;
  uint8_t ro = 0;   // caller buffers in read-only pages ending at an inaccessible page
  uint8_t endobs = 1;
  Op &add(OpCode c, int a = 0, int b = 0, int var = 0, int64_t n = 0, string s = "") {
    Op o;
    o.code = c; o.a = a; o.b = b; o.var = var; o.n = n; o.s = std::move(s);
    ops.push_back(std::move(o));
    return ops.back();
  }
};

static string hexs(const string &s) {
  static const char *d = "0123456789abcdef";
  string o;
  for (unsigned char c : s) { o += d[c >> 4]; o += d[c & 15]; }
  return o.empty() ? "-" : o;
}
static string unhex(const string &h) {
  string o;
  if (h == "-") return o;
  for (size_t i = 0; i + 1 < h.size(); i += 2) o += (char)(hexv(h[i]) << 4 | hexv(h[i + 1]));
  return o;
}
static string progText(const Program &p) {
  string o = "obs " + std::to_string(p.obs) + " fill " + std::to_string(p.fill) + " ro " + std::to_string(p.ro) + " endobs " +
             std::to_string(p.endobs) + "\n";
  for (auto &x : p.ops)
    o += string(opNames[x.code]) + " " + std::to_string(x.var) + " " + std::to_string(x.a) + " " + std::to_string(x.b) + " " +
         std::to_string(x.n) + " " + hexs(x.s) + " " + (x.xt.empty() ? "-" : x.xt) + "\n";
  return o;
}
static bool progParse(const string &t, Program &p) {
  std::istringstream is(t);
  string w, line;
  int v;
  if (!(is >> w >> v)) return false;
  p.obs = v; is >> w >> v; p.fill = v; is >> w >> v; p.ro = v; is >> w >> v; p.endobs = v;
  string nm, hx, xt;
  int var, a, b;
  long long n;
  while (is >> nm >> var >> a >> b >> n >> hx >> xt) {
    Op o;
    int c = -1;
    for (int i = 0; i < NOPS; i++) if (nm == opNames[i]) c = i;
    if (c < 0) return false;
    o.code = c; o.var = var; o.a = a; o.b = b; o.n = n; o.s = unhex(hx); o.xt = xt == "-" ? "" : xt;
    p.ops.push_back(o);
  }
  return true;
}
static string vis(const string &s, size_t cap = 160) { // printable
  string o;
  char b[8];
  for (size_t i = 0; i < s.size() && i < cap; i++) {
    unsigned char c = s[i];
    if (c >= 32 && c < 127) o += c;
    else { snprintf(b, sizeof b, "<%02x>", c); o += b; }
  }
  if (s.size() > cap) o += "...(" + std::to_string(s.size()) + " bytes)";
  return o;
}

struct Diverge {
  string aspect, msg;
  int op;
};

// ------------------------------------------------------------- memory interposer
extern thread_local long hk_live;
extern thread_local int hk_fill;
extern thread_local unsigned long long hk_calls;

static const int MAXSLOT = 12, MAXALLOC = 6;
enum HState : uint8_t { H_NIL, H_EMPTY, H_NODE, H_STALE };
struct Slot { HState st = H_NIL; int a = -1; MNode *n = nullptr; VV v = nullptr; };
struct AllocM { bool live = false; VA a = nullptr; int kind = 0; };
struct CBuf { char *p = nullptr; size_t n = 0; char *map = nullptr; size_t maplen = 0; string orig; };

struct Stats { unsigned long long progs = 0, calls = 0, obs = 0, getters = 0; };
static thread_local Stats stats;

static const char *tails[] = {"]", "}", "\"", "0", "7", "e5", "x", ",1", " ", "\\", ".5", "1]", "ull", "\"}", "\n"};
static const int NTAILS = sizeof tails / sizeof *tails;

struct World {
  const Api *api;
  Pool pool;
  Slot sl[MAXSLOT];
  AllocM al[MAXALLOC];
  vector<CBuf> kept;
  struct Rec { const char *p; string bytes; int a; int op; const char *what; };
  vector<Rec> recs;
  size_t recBytes = 0;
  int cur = -1;
  bool ro = false;
  bool keepAll = false; // caller buffers stay alive and unchanged
  bool quiet = false; // do not record returned strings
  int lastGot = -1;   // what the implementation returned
  long live0;
  World(const Api *a) : api(a) { live0 = hk_live; }

  [[noreturn]] void fail(const char *aspect, const string &msg) { throw Diverge{aspect, msg, cur}; }

  // ---------------------------------------------------------------- caller buffers
  CBuf mk(const string &bytes, bool nul, const string &tail = "") {
    CBuf b;
    string full = bytes + tail;
    if (nul) full.push_back(0);
    b.n = full.size();
    b.orig = full;
    if (ro) {
      size_t pg = 4096, len = (full.size() + pg - 1) / pg * pg;
      if (!len) len = pg;
      b.map = (char *)mmap(nullptr, len + pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
      if (b.map == MAP_FAILED) { fprintf(stderr, "mmap failed\n"); _exit(99); }
      b.maplen = len + pg;
      b.p = b.map + len - full.size();
      memcpy(b.p, full.data(), full.size());
      mprotect(b.map, len, PROT_READ);
      mprotect(b.map + len, pg, PROT_NONE);
    } else {
      b.p = (char *)malloc(full.size());
      memcpy(b.p, full.data(), full.size());
    }
    return b;
  }
  void check(const CBuf &b) {
    if (memcmp(b.p, b.orig.data(), b.n)) fail("buf", "caller buffer was modified: was <" + vis(b.orig) + "> now <" + vis(string(b.p, b.n)) + ">");
  }
  void drop(CBuf &b) {
    check(b);
    if (b.map) munmap(b.map, b.maplen);
    else { memset(b.p, 0xDD, b.n); free(b.p); }
    b.p = nullptr;
  }
  void done(CBuf &b, bool keep) {
    check(b);
    if (keep || keepAll) kept.push_back(b);
    else drop(b);
  }

  // ---------------------------------------------------------------- specification state
  bool isNode(int h) { return sl[h].st == H_NODE; }
  bool usable(int h) { return h >= 0 && h < MAXSLOT && (sl[h].st == H_EMPTY || sl[h].st == H_NODE); }
  static bool within(MNode *x, MNode *root) { for (; x; x = x->par) if (x == root) return true; return false; }
  static MNode *rootOf(MNode *x) { while (x->par) x = x->par; return x; }
  bool inside(int h, int g) { return isNode(h) && isNode(g) && within(sl[h].n, sl[g].n); }
  static uint32_t treeDeps(MNode *n) {
    uint32_t d = 0;
    vector<MNode *> st{n};
    while (!st.empty()) { MNode *x = st.back(); st.pop_back(); d |= x->deps; for (auto c : x->c) st.push_back(c); }
    return d;
  }
  void stale(MNode *root, bool incl) {
    for (auto &s : sl)
      if (s.st == H_NODE && within(s.n, root) && (incl || s.n != root)) { s.st = H_STALE; s.n = nullptr; }
  }
  void detach(MNode *n) {
    if (!n->par) return;
    auto &c = n->par->c;
    for (size_t i = 0; i < c.size(); i++) if (c[i] == n) { c.erase(c.begin() + i); break; }
    n->par = nullptr;
  }
  MNode *copyTree(const MNode *n, int a) {
    // iterative, so that depth is not limited
    MNode *r = pool.mk();
    vector<std::pair<const MNode *, MNode *>> st{{n, r}};
    while (!st.empty()) {
      auto [s, d] = st.back();
      st.pop_back();
      d->t = s->t; d->raw = s->raw; d->hasKey = s->hasKey; d->key = s->key; d->xt = s->xt; d->kt = s->kt;
      d->deps = 1u << a;
      for (auto c : s->c) { MNode *k = pool.mk(); k->par = d; d->c.push_back(k); st.push_back({c, k}); }
    }
    return r;
  }
  void setDeps(MNode *n, int a) {
    vector<MNode *> st{n};
    while (!st.empty()) { MNode *x = st.back(); st.pop_back(); x->deps = 1u << a; for (auto c : x->c) st.push_back(c); }
  }
  // content of n replaces that of the node of h (key, place and handles of h stay)
  void overwrite(int h, MNode *n) {
    MNode *N = sl[h].n;
    stale(N, false);
    vector<MNode *> kids = n->c;
    N->t = n->t; N->raw = n->raw; N->xt = n->xt;
    N->deps |= n->deps | 1u << sl[h].a;
    for (auto k : N->c) k->par = nullptr;
    N->c = kids;
    for (auto k : kids) k->par = N;
    n->c.clear();
    if ((api->caps & CAP_TAKESKEY) && N->hasKey && n->hasKey) { N->key = n->key; N->kt = n->kt; }
  }
  void install(int h, MNode *n) { // fresh content
    if (isNode(h)) { n->hasKey = false; overwrite(h, n); }
    else newRoot(h, n);
  }
  void newRoot(int h, MNode *n) { sl[h].st = H_NODE; sl[h].n = n; }
  MNode *scalar(char t, const string &raw, int a, const string &xt) {
    MNode *n = pool.mk();
    n->t = t; n->raw = raw; n->deps = 1u << a; n->xt = xt;
    return n;
  }
  static int firstWithKey(const MNode *n, const string &k) {
    for (size_t i = 0; i < n->c.size(); i++) if (n->c[i]->key == k) return (int)i;
    return -1;
  }
  void forget(int g) { sl[g].st = H_NIL; sl[g].n = nullptr; sl[g].a = -1; sl[g].v = nullptr; }

  // state of the abstract model, in the notation of spec/ZDocExport.tla
  void nodeCode(MNode *n, string &o, int nh) {
    o += (n->t == 'a' || n->t == 'o') ? n->t : 's';
    o += n->xt + "." + n->kt + ".";
    for (int i = 0; i < nh; i++) if (sl[i].st == H_NODE && sl[i].n == n) o += std::to_string(i + 1);
    o += ".";
    for (int a = 0; a < MAXALLOC; a++) if (n->deps >> a & 1) o += std::to_string(a + 1);
    o += "(";
    for (auto c : n->c) nodeCode(c, o, nh);
    o += ")";
  }
  string code(int nh, int na) {
    string o;
    for (int i = 0; i < nh; i++) {
      o += sl[i].st == H_NIL ? 'n' : sl[i].st == H_EMPTY ? 'e' : sl[i].st == H_NODE ? 'h' : 's';
      o += std::to_string(sl[i].a + 1);
    }
    for (int a = 0; a < na; a++) o += al[a].live ? '+' : '-';
    o += '|';
    std::set<MNode *> done;
    for (int i = 0; i < nh; i++)
      if (sl[i].st == H_NODE) { MNode *r = rootOf(sl[i].n); if (done.insert(r).second) nodeCode(r, o, nh); }
    return o;
  }

  // ---------------------------------------------------------------- contract
  bool allowed(const Op &o) {
    auto slot = [&](int x) { return x >= 0 && x < MAXSLOT; };
    switch (o.code) {
    case NEWALLOC: return o.a >= 0 && o.a < MAXALLOC && !al[o.a].live;
    case RELEASE: return o.a >= 0 && o.a < MAXALLOC && al[o.a].live;
    case NEWVALUE: return slot(o.a) && o.b >= 0 && o.b < MAXALLOC && al[o.b].live;
    case NEWFROM: return slot(o.a) && usable(o.b) && (api->caps & CAP_NEWFROM);
    case COPY: case ARRGET: case OBJGET: case BEGIN: case NEXT: return slot(o.a) && usable(o.b);
    case SET: case ARRADD: case OBJADD: return usable(o.a) && usable(o.b);
    case SETFAST: return usable(o.a) && usable(o.b) && !inside(o.a, o.b);
    case ARRADDFAST:
      return usable(o.a) && usable(o.b) && (!inside(o.a, o.b) || sl[o.a].n->t != 'a');
    case OBJADDFAST:
      return usable(o.a) && usable(o.b) && (!inside(o.a, o.b) || sl[o.a].n->t != 'o' || !sl[o.b].n->hasKey);
    case SETSTRESC: case SETKEYESC: return usable(o.a) && (api->caps & CAP_ESC);
    case SETINT: return usable(o.a) && (api->caps & CAP_INT);
    case DROP: return slot(o.a) && sl[o.a].st != H_NIL;
    default: return usable(o.a);
    }
  }

  // ---------------------------------------------------------------- reads
  void rec(const char *p, size_t n, int a, const char *what) {
    if (quiet || !(api->caps & CAP_KEEP) || recs.size() > 3000 || recBytes + n > (4u << 20)) return;
    recs.push_back({p, string(p, n), a, cur, what});
    recBytes += n;
  }
  void verifyRecs(int a) { // a < 0: all
    for (auto &r : recs)
      if (a < 0 || r.a == a)
        if (memcmp(r.p, r.bytes.data(), r.bytes.size()))
          fail("retained", string("result of ") + r.what + " obtained at call " + std::to_string(r.op) + " changed: was <" +
                               vis(r.bytes) + "> now <" + vis(string(r.p, r.bytes.size())) + ">");
    if (a >= 0) {
      vector<Rec> k;
      for (auto &r : recs) if (r.a != a) k.push_back(std::move(r));
      recs.swap(k);
    }
  }
  void expectC(const char *what, const char *got, bool want, const string &exp, int a, const char *asp) {
    stats.getters++;
    if (!want) { if (got) fail(asp, string(what) + " returned data where there is none"); return; }
    if (!got) fail(asp, string(what) + " returned nothing, expected <" + vis(exp) + ">");
    // compare the bytes and the terminating NUL, stopping at the first difference
    size_t i = 0;
    for (; i < exp.size(); i++) if (got[i] != exp[i]) break;
    if (i < exp.size() || got[exp.size()] != 0)
      fail(asp, string(what) + " returned a different text, expected <" + vis(exp) + "> got <" + vis(string(got, strnlen(got, i + 40))) + ">");
    rec(got, exp.size() + 1, a, what);
  }
  void expectF(const char *what, const char *got, vsz len, bool want, const string &exp, const char *asp) {
    stats.getters++;
    if (!want) { if (got) fail(asp, string(what) + " returned data where there is none"); return; }
    if (!got) fail(asp, string(what) + " returned nothing, expected <" + vis(exp) + ">");
    if (len != exp.size() || memcmp(got, exp.data(), len))
      fail(asp, string(what) + " differs, expected <" + vis(exp) + "> got length " + std::to_string(len) + " <" +
                    vis(string(got, len < exp.size() ? len : exp.size())) + ">");
  }
  void expectD(const char *what, const double *got, bool want, const string &raw, int a) {
    stats.getters++;
    if (!want) { if (got) fail("getter", string(what) + " returned data where there is none"); return; }
    if (!got) fail("number", string(what) + " returned nothing for <" + vis(raw) + ">");
    double g, e = strtod(raw.c_str(), nullptr);
    memcpy(&g, got, sizeof g);
    if (memcmp(&g, &e, sizeof g)) { char b[120]; snprintf(b, sizeof b, " returned %.17g, the nearest double is %.17g", g, e); fail("number", string(what) + b + " for <" + vis(raw) + ">"); }
    rec((const char *)got, sizeof g, a, what);
  }
  template <class I> void expectI(const char *what, const I *got, bool want, const string &raw, int a) {
    stats.getters++;
    if (!want) { if (got) fail("getter", string(what) + " returned data where there is none"); return; }
    if (!got) fail("number", string(what) + " returned nothing for <" + vis(raw) + ">");
    if (!intSpelling(raw) || raw.size() > 400) return;
    errno = 0;
    long long e = strtoll(raw.c_str(), nullptr, 10);
    if (errno || e != (long long)(I)e) return; // out of the type's range
    I g;
    memcpy(&g, got, sizeof g);
    if (g != (I)e) fail("number", string(what) + " returned " + std::to_string((long long)g) + " for <" + vis(raw) + ">");
    rec((const char *)got, sizeof g, a, what);
  }
  int typeCode(char t) {
    switch (t) { case 's': return api->tstr; case 'n': return api->tnum; case 'b': return api->tbool; case 'z': return api->tnull;
                 case 'a': return api->tarr; default: return api->tobj; }
  }
  // every accessor of a single value; key of a value as expected
  void scalarReads(VV v, const MNode *n, int a) {
    vsz len;
    bool S = n && n->t == 's', N = n && n->t == 'n', B = n && n->t == 'b', Z = n && n->t == 'z';
    int ty = api->Type(v);
    if (ty != (n ? typeCode(n->t) : 0)) fail("type", "Type is " + std::to_string(ty) + ", expected " + std::to_string(n ? typeCode(n->t) : 0));
    len = 0;
    const char *r = api->GetStrFast(v, &len);
    expectF("GetStrFast", r, len, S, S ? n->raw : "", S ? "text" : "getter");
    expectC("GetStr", api->GetStr(v), S, S ? n->raw : "", a, S ? "text" : "getter");
    expectC("GetUnEscapeStr", api->GetUnEscapeStr(v), S, S ? decode(n->raw) : "", a, S ? "unescape" : "getter");
    len = 0;
    r = api->GetNumFast(v, &len);
    expectF("GetNumFast", r, len, N, N ? n->raw : "", N ? "text" : "getter");
    expectC("GetNumStr", api->GetNumStr(v), N, N ? n->raw : "", a, N ? "text" : "getter");
    expectD("GetNum", api->GetNum(v), N, N ? n->raw : "", a);
    if (api->caps & CAP_INT) {
      expectD("GetDouble", api->GetDouble(v), N, N ? n->raw : "", a);
      expectI("GetInt", api->GetInt(v), N, N ? n->raw : "", a);
      expectI("GetLong", api->GetLong(v), N, N ? n->raw : "", a);
      expectI("GetLongLong", api->GetLongLong(v), N, N ? n->raw : "", a);
    }
    int b = api->GetBool(v), eb = B ? n->raw == "true" : -1;
    if (b != eb) fail("getter", "GetBool is " + std::to_string(b) + ", expected " + std::to_string(eb));
    if ((api->IsNull(v) != 0) != Z) fail("getter", "IsNull is wrong");
    bool K = n && n->hasKey;
    len = 0;
    r = api->GetKeyFast(v, &len);
    expectF("GetKeyFast", r, len, K, K ? n->key : "", "key");
    expectC("GetKey", api->GetKey(v), K, K ? n->key : "", a, "key");
    expectC("GetUnEscapeKey", api->GetUnEscapeKey(v), K, K ? decode(n->key) : "", a, "unescape");
    stats.getters += 4;
  }
  string stringify(VV v, int a) {
    const char *s = api->Stringify(v);
    if (!s) fail("text", "Stringify returned nothing");
    string r(s);
    rec(s, r.size() + 1, a, "Stringify");
    return r;
  }
  void textIs(VV v, const MNode *n, int a) {
    string got = stringify(v, a), want = n ? ser(n) : "";
    if (got == want) return;
    string why;
    if (!got.empty() && !isJson(got)) why = " (not even JSON)";
    fail(why.empty() ? "tree" : "invalid", "serialisation differs" + why + ": expected <" + vis(want) + "> got <" + vis(got) + ">");
  }
  VV lookup(VV v, const string &k, int how) {
    VV r;
    if (how == 0) { CBuf b = mk(k, true); r = api->ObjGet(v, b.p); drop(b); }
    else { CBuf b = mk(k, false, how == 2 ? "x" : ""); r = api->ObjGetLen(v, b.p, k.size()); drop(b); }
    return r;
  }
  void lookupIs(VV v, const MNode *n, const string &k, int how, int a) {
    VV r = lookup(v, k, how);
    int i = n && n->t == 'o' ? firstWithKey(n, k) : -1;
    if ((r != nullptr) != (i >= 0))
      fail("lookup", string(how ? "ObjGetLen" : "ObjGet") + "(<" + vis(k) + ">) " + (r ? "found a member, expected none" : "found nothing, expected a member"));
    if (r) {
      string got = stringify(r, a), want = ser(n->c[i]);
      if (got != want) fail("lookup", string(how ? "ObjGetLen" : "ObjGet") + "(<" + vis(k) + ">) designates <" + vis(got) + ">, expected <" + vis(want) + ">");
      vsz l = 0;
      const char *kk = api->GetKeyFast(r, &l);
      expectF("GetKeyFast", kk, l, true, n->c[i]->key, "lookup");
    }
  }
  void observe(VV v, const MNode *n, int a, int depth, long &budget) {
    if (--budget < 0 || depth > 150) return;
    stats.obs++;
    scalarReads(v, n, a);
    textIs(v, n, a);
    bool A = n && n->t == 'a', O = n && n->t == 'o';
    size_t cnt = A || O ? n->c.size() : 0;
    vsz sz = api->SizeOf(v);
    if (sz != cnt) fail("size", "size is " + std::to_string(sz) + ", expected " + std::to_string(cnt));
    // iteration
    VV it = api->Begin(v);
    for (size_t i = 0; i < cnt; i++) {
      if (!it) fail("iter", "iteration ended after " + std::to_string(i) + " of " + std::to_string(cnt));
      if (cnt <= 64 || i < 8 || i + 8 >= cnt || i % 61 == 0) observe(it, n->c[i], a, depth + 1, budget);
      it = api->Next(it);
    }
    if (it) fail("iter", "iteration continues past the last of " + std::to_string(cnt));
    // index
    auto at = [&](vsz i) {
      VV x = api->ArrayGet(v, i);
      if ((x != nullptr) != (A && i < cnt)) fail("index", "ArrayGet(" + std::to_string(i) + ") " + (x ? "found an element, expected none" : "found nothing"));
      if (x) { string got = stringify(x, a), want = ser(n->c[i]); if (got != want) fail("index", "ArrayGet(" + std::to_string(i) + ") is <" + vis(got) + ">, expected <" + vis(want) + ">"); }
    };
    for (size_t i = 0; i < cnt && i < (cnt <= 24 ? cnt : 6); i++) at(i);
    if (cnt > 24) { at(cnt / 2); at(cnt - 1); at(cnt - 2); }
    at(cnt); at(cnt + 1); at(0xFFFFFFFFull);
    // keys
    if (O) {
      for (size_t i = 0; i < cnt && i < 12; i++) {
        size_t j = cnt <= 12 ? i : i < 6 ? i : cnt - 12 + i;
        const string &k = n->c[j]->key;
        lookupIs(v, n, k, 0, a);
        lookupIs(v, n, k, 1 + (int)(j & 1), a);
        if (i < 3) {
          lookupIs(v, n, k + "x", 0, a);
          lookupIs(v, n, k + "x", 1, a);
          if (!k.empty()) {
            lookupIs(v, n, k.substr(0, k.size() - 1), 0, a);
            lookupIs(v, n, k.substr(0, k.size() - 1), 2, a);
            string f = k;
            f[0] ^= 0x20;
            if (f[0]) { lookupIs(v, n, f, 0, a); lookupIs(v, n, f, 1, a); }
            f = k;
            f.back() ^= 1;
            if (f.back()) { lookupIs(v, n, f, 0, a); lookupIs(v, n, f, 1, a); }
          }
        }
      }
      lookupIs(v, n, "", 0, a);
      lookupIs(v, n, "", 1, a);
    } else {
      if (lookup(v, "k", 0) || lookup(v, "", 0) || lookup(v, "k", 1)) fail("lookup", "ObjGet found a member in a value that is not an object");
    }
  }
  void observeSlot(int h, long budget = 4000) {
    if (!usable(h)) return;
    observe(sl[h].v, sl[h].n, sl[h].a, 0, budget);
    // a root has no successor
    if (!(sl[h].n && sl[h].n->par) && api->Next(sl[h].v)) fail("iter", "Next of a standalone value found something");
  }
  void lightSlot(int h) {
    if (!usable(h)) return;
    textIs(sl[h].v, sl[h].n, sl[h].a);
    MNode *n = sl[h].n;
    vsz sz = api->SizeOf(sl[h].v), e = n && (n->t == 'a' || n->t == 'o') ? n->c.size() : 0;
    if (sz != e) fail("size", "size is " + std::to_string(sz) + ", expected " + std::to_string(e));
    vsz len = 0;
    const char *k = api->GetKeyFast(sl[h].v, &len);
    expectF("GetKeyFast", k, len, n && n->hasKey, n ? n->key : "", "key");
  }

  // ---------------------------------------------------------------- calls
  void verdict(const Op &o, int got, bool want) {
    lastGot = got != 0;
    if ((got != 0) != want)
      fail("verdict", string(opNames[o.code]) + "/" + std::to_string(o.var) + "(<" + vis(o.s) + ">) returned " + (got ? "true" : "false") + ", expected " + (want ? "true" : "false"));
  }
  void handleResult(const Op &o, VV r, bool want) {
    lastGot = r != nullptr;
    if ((r != nullptr) != want)
      fail(o.code == OBJGET ? "lookup" : o.code == COPY ? "verdict" : o.code == ARRGET ? "index" : "iter",
           string(opNames[o.code]) + " returned " + (r ? "a value" : "nothing") + ", expected " + (want ? "a value" : "nothing"));
  }
  template <class F0, class F1> int textCall(int var, const string &s, F0 plain, F1 len) {
    // var: 0 copy, 1 copy with length, 2 Fast, 3 Fast with length, 4 and 5: as 1 and 3 with bytes after the length
    bool isLen = var == 1 || var >= 3, fast = var == 2 || var == 3 || var == 5;
    CBuf b = mk(s, !isLen, var >= 4 ? tails[s.size() % NTAILS] : "");
    int r = isLen ? len(fast, b.p, (vsz)s.size()) : plain(fast, b.p);
    done(b, fast);
    return r;
  }
  bool exec(const Op &o) { // returns the specified result
    const Api &A = *api;
    stats.calls++;
    lastGot = -1;
    switch (o.code) {
    case NEWALLOC: {
      int k = o.var % A.nkinds;
      al[o.a].a = A.NewAllocator(k);
      al[o.a].kind = k;
      al[o.a].live = true;
      if (!al[o.a].a) fail("verdict", "NewAllocator returned nothing");
      return true;
    }
    case RELEASE: {
      verifyRecs(o.a);
      A.ReleaseAllocator(al[o.a].a, al[o.a].kind);
      al[o.a].live = false;
      std::set<MNode *> dead;
      for (auto &s : sl) if (s.st == H_NODE) { MNode *r = rootOf(s.n); if (treeDeps(r) >> o.a & 1) dead.insert(r); }
      for (int i = 0; i < MAXSLOT; i++) {
        if (sl[i].a == o.a) forget(i);
        else if (sl[i].st == H_NODE && dead.count(rootOf(sl[i].n))) { sl[i].st = H_STALE; sl[i].n = nullptr; }
      }
      return true;
    }
    case NEWVALUE: {
      VV v = A.NewValue(al[o.b].a, al[o.b].kind);
      if (!v) fail("verdict", "NewValue returned nothing");
      forget(o.a);
      sl[o.a].st = H_EMPTY; sl[o.a].a = o.b; sl[o.a].v = v;
      return true;
    }
    case NEWFROM: {
      VV v = A.NewValueFrom(sl[o.b].v);
      if (!v) fail("verdict", "NewValue returned nothing");
      int a = sl[o.b].a;
      forget(o.a);
      sl[o.a].st = H_EMPTY; sl[o.a].a = a; sl[o.a].v = v;
      return true;
    }
    case PARSE: {
      TextResult tr;
      string s = o.s;
      if (size_t z = s.find('\0'); z != string::npos) s.resize(z);
      bool want = runText(s.data(), s.size(), &pool, &tr);
      Slot &S = sl[o.a];
      int got;
      if (o.var == 0) { CBuf b = mk(s, true); got = A.Parse(S.v, b.p); done(b, false); }
      else if (o.var == 1) { CBuf b = mk(s, true); got = A.ParseFast(S.v, b.p); done(b, true); }
      else { CBuf b = mk(s, false, o.var == 3 ? tails[(uint64_t)o.n % NTAILS] : ""); got = A.ParseLen(S.v, b.p, s.size()); done(b, false); }
      verdict(o, got, want);
      if (want) {
        setDeps(tr.root, S.a);
        if (!o.xt.empty()) tagText(tr.root, o.xt);
        install(o.a, tr.root);
      }
      return want;
    }
    case SETNULL: A.SetNull(sl[o.a].v); install(o.a, scalar('z', "null", sl[o.a].a, o.xt)); return true;
    case SETBOOL: A.SetBool(sl[o.a].v, o.n != 0); install(o.a, scalar('b', o.n ? "true" : "false", sl[o.a].a, o.xt)); return true;
    case SETNUMT: case SETSTR: {
      VV v = sl[o.a].v;
      string s = o.s;
      bool nulform = o.var == 0 || o.var == 2;
      if (size_t z = s.find('\0'); nulform && z != string::npos) s.resize(z);
      bool want = o.code == SETSTR ? strBody(s) : numText(s);
      int got = o.code == SETSTR
        ? textCall(o.var, s, [&](bool f, const char *p) { return f ? A.SetStrFast(v, p) : A.SetStr(v, p); },
                   [&](bool f, const char *p, vsz n) { return f ? A.SetStrLenFast(v, p, n) : A.SetStrLen(v, p, n); })
        : textCall(o.var, s, [&](bool f, const char *p) { return f ? A.SetNumStrFast(v, p) : A.SetNumStr(v, p); },
                   [&](bool f, const char *p, vsz n) { return f ? A.SetNumStrLenFast(v, p, n) : A.SetNumStrLen(v, p, n); });
      verdict(o, got, want);
      if (want) install(o.a, scalar(o.code == SETSTR ? 's' : 'n', s, sl[o.a].a, o.xt));
      return want;
    }
    case SETSTRESC: {
      VV v = sl[o.a].v;
      string s = o.s;
      if (size_t z = s.find('\0'); o.var == 0 && z != string::npos) s.resize(z);
      int got = textCall(o.var == 0 ? 0 : o.var == 4 ? 4 : 1, s, [&](bool, const char *p) { return A.SetStrEscape(v, p); },
                         [&](bool, const char *p, vsz n) { return A.SetStrLenEscape(v, p, n); });
      verdict(o, got, true);
      vsz len = 0;
      const char *r = A.GetStrFast(v, &len);
      if (!r) fail("escape", "no string after SetStrEscape");
      string body(r, len);
      if (!escapedForm(body, s)) fail("escape", "SetStrEscape stored <" + vis(body) + "> for <" + vis(s) + ">");
      install(o.a, scalar('s', body, sl[o.a].a, o.xt));
      return true;
    }
    case SETKEY: case SETKEYESC: {
      Slot &S = sl[o.a];
      VV v = S.v;
      string s = o.s, body;
      bool esc = o.code == SETKEYESC;
      bool nulform = esc ? o.var == 0 : o.var == 0 || o.var == 2;
      if (size_t z = s.find('\0'); nulform && z != string::npos) s.resize(z);
      bool elem = S.st == H_NODE && S.n->par && S.n->par->t == 'a';
      bool want = (esc || strBody(s)) && !elem;
      int got;
      if (esc)
        got = textCall(o.var == 0 ? 0 : o.var == 4 ? 4 : 1, s, [&](bool, const char *p) { return A.SetKeyEscape(v, p); },
                       [&](bool, const char *p, vsz n) { return A.SetKeyLenEscape(v, p, n); });
      else
        got = textCall(o.var, s, [&](bool f, const char *p) { return f ? A.SetKeyFast(v, p) : A.SetKey(v, p); },
                       [&](bool f, const char *p, vsz n) { return f ? A.SetKeyLenFast(v, p, n) : A.SetKeyLen(v, p, n); });
      verdict(o, got, want);
      if (!want) return false;
      body = s;
      if (esc) {
        vsz len = 0;
        const char *r = A.GetKeyFast(v, &len);
        if (!r) fail("escape", "no key after SetKeyEscape");
        body.assign(r, len);
        if (!escapedForm(body, s)) fail("escape", "SetKeyEscape stored <" + vis(body) + "> for <" + vis(s) + ">");
      }
      if (S.st == H_EMPTY) newRoot(o.a, scalar('z', "null", S.a, "N"));
      S.n->hasKey = true; S.n->key = body; S.n->kt = o.xt; S.n->deps |= 1u << S.a;
      return true;
    }
    case SETDBL: {
      double d;
      memcpy(&d, &o.n, sizeof d);
      VV v = sl[o.a].v;
      bool want = std::isfinite(d);
      int got = (o.var && (A.caps & CAP_INT)) ? A.SetDouble(v, d) : A.SetNum(v, d);
      lastGot = got != 0;
      if ((got != 0) != want) { char b[64]; snprintf(b, sizeof b, "SetDouble(%.17g) returned %s", d, got ? "true" : "false"); fail("verdict", b); }
      if (!want) return false;
      vsz len = 0;
      const char *r = A.GetNumFast(v, &len);
      if (!r) fail("number", "no number after SetDouble");
      string raw(r, len);
      double g = strtod(raw.c_str(), nullptr);
      if (!numText(raw) || memcmp(&g, &d, sizeof d)) { char b[64]; snprintf(b, sizeof b, "SetDouble(%.17g)", d); fail("number", string(b) + " stored <" + vis(raw) + ">"); }
      install(o.a, scalar('n', raw, sl[o.a].a, o.xt));
      return true;
    }
    case SETINT: {
      VV v = sl[o.a].v;
      long long want = o.var == 0 ? (long long)(int)o.n : (long long)o.n;
      int got = o.var == 0 ? A.SetInt(v, (int)o.n) : o.var == 1 ? A.SetLong(v, (long)o.n) : A.SetLongLong(v, o.n);
      if (!got) fail("verdict", "SetInt(" + std::to_string(want) + ") returned false");
      vsz len = 0;
      const char *r = A.GetNumFast(v, &len);
      if (!r) fail("number", "no number after SetInt");
      string raw(r, len);
      if (!numText(raw) || denotes(raw) != denotes(std::to_string(want))) fail("number", "SetInt(" + std::to_string(want) + ") stored <" + vis(raw) + ">");
      bool same = true;
      if (o.var == 0) { auto p = A.GetInt(v); int g; same = p && (memcpy(&g, p, sizeof g), g == (int)o.n); }
      if (o.var == 1) { auto p = A.GetLong(v); long g; same = p && (memcpy(&g, p, sizeof g), g == (long)o.n); }
      if (o.var == 2) { auto p = A.GetLongLong(v); long long g; same = p && (memcpy(&g, p, sizeof g), g == (long long)o.n); }
      if (!same) fail("number", "integer " + std::to_string(want) + " does not read back");
      install(o.a, scalar('n', raw, sl[o.a].a, o.xt));
      return true;
    }
    case SETARRAY: case SETOBJ: {
      if (o.code == SETARRAY) A.SetArray(sl[o.a].v); else A.SetObj(sl[o.a].v);
      install(o.a, scalar(o.code == SETARRAY ? 'a' : 'o', "", sl[o.a].a, ""));
      return true;
    }
    case COPY: {
      bool want = isNode(o.b);
      VV r = A.Copy(sl[o.b].v);
      handleResult(o, r, want);
      MNode *m = want ? copyTree(sl[o.b].n, sl[o.b].a) : nullptr;
      int a = sl[o.b].a;
      forget(o.a);
      if (want) { sl[o.a].st = H_NODE; sl[o.a].n = m; sl[o.a].a = a; sl[o.a].v = r; }
      return want;
    }
    case MOVE: {
      bool want = isNode(o.a);
      verdict(o, A.Move(sl[o.a].v), want);
      if (want) detach(sl[o.a].n);
      return want;
    }
    case SET: {
      bool want = isNode(o.b);
      MNode *m = want ? copyTree(sl[o.b].n, sl[o.a].a) : nullptr;
      verdict(o, A.Set(sl[o.a].v, sl[o.b].v), want);
      if (want) { if (isNode(o.a)) overwrite(o.a, m); else newRoot(o.a, m); }
      return want;
    }
    case SETFAST: {
      bool want = isNode(o.b);
      verdict(o, A.SetFast(sl[o.a].v, sl[o.b].v), want);
      if (!want) return false;
      MNode *n = sl[o.b].n;
      detach(n);
      sl[o.b].st = H_EMPTY; sl[o.b].n = nullptr;
      if (isNode(o.a)) {
        for (auto &s : sl) if (s.st == H_NODE && s.n == n) { s.st = H_STALE; s.n = nullptr; } // other handles on the source node
        overwrite(o.a, n);
      } else newRoot(o.a, n);
      return true;
    }
    case ARRADD: case OBJADD: {
      char t = o.code == ARRADD ? 'a' : 'o';
      bool want = isNode(o.a) && sl[o.a].n->t == t && isNode(o.b) && (t == 'a' || sl[o.b].n->hasKey);
      MNode *m = want ? copyTree(sl[o.b].n, sl[o.a].a) : nullptr;
      verdict(o, t == 'a' ? A.ArrayAdd(sl[o.a].v, sl[o.b].v) : A.ObjAdd(sl[o.a].v, sl[o.b].v), want);
      if (!want) return false;
      if (t == 'a') { m->hasKey = false; m->key.clear(); m->kt.clear(); }
      m->par = sl[o.a].n;
      sl[o.a].n->c.push_back(m);
      sl[o.a].n->deps |= 1u << sl[o.a].a;
      return true;
    }
    case ARRADDFAST: case OBJADDFAST: {
      char t = o.code == ARRADDFAST ? 'a' : 'o';
      bool want = isNode(o.a) && sl[o.a].n->t == t && isNode(o.b) && (t == 'a' || sl[o.b].n->hasKey);
      verdict(o, t == 'a' ? A.ArrayAddFast(sl[o.a].v, sl[o.b].v) : A.ObjAddFast(sl[o.a].v, sl[o.b].v), want);
      if (!want) return false;
      MNode *n = sl[o.b].n;
      detach(n);
      sl[o.b].st = H_EMPTY; sl[o.b].n = nullptr;
      if (t == 'a') { n->hasKey = false; n->key.clear(); n->kt.clear(); }
      n->par = sl[o.a].n;
      sl[o.a].n->c.push_back(n);
      sl[o.a].n->deps |= 1u << sl[o.a].a;
      return true;
    }
    case ARRDEL: {
      MNode *n = sl[o.a].n;
      bool want = isNode(o.a) && n->t == 'a' && (uint64_t)o.n < n->c.size();
      verdict(o, A.ArrayDel(sl[o.a].v, (vsz)o.n), want);
      if (want) { MNode *x = n->c[o.n]; stale(x, true); detach(x); }
      return want;
    }
    case OBJDEL: {
      MNode *n = sl[o.a].n;
      string k = o.s.substr(0, o.s.find('\0'));
      int i = isNode(o.a) && n->t == 'o' ? firstWithKey(n, k) : -1;
      CBuf b = mk(k, true);
      int got = A.ObjDel(sl[o.a].v, b.p);
      done(b, false);
      verdict(o, got, i >= 0);
      if (i >= 0) { MNode *x = n->c[i]; stale(x, true); detach(x); }
      return i >= 0;
    }
    case ARRGET: case OBJGET: case BEGIN: case NEXT: {
      Slot S = sl[o.b];
      MNode *n = S.n, *r = nullptr;
      VV got = nullptr;
      if (o.code == ARRGET) {
        if (n && n->t == 'a' && (uint64_t)o.n < n->c.size()) r = n->c[o.n];
        got = A.ArrayGet(S.v, (vsz)o.n);
      } else if (o.code == OBJGET) {
        string k = o.var ? o.s : o.s.substr(0, o.s.find('\0'));
        int i = n && n->t == 'o' ? firstWithKey(n, k) : -1;
        if (i >= 0) r = n->c[i];
        got = lookup(S.v, k, o.var % 3);
      } else if (o.code == BEGIN) {
        if (n && !n->c.empty()) r = n->c[0];
        got = A.Begin(S.v);
      } else {
        if (n && n->par) {
          auto &c = n->par->c;
          for (size_t i = 0; i < c.size(); i++) if (c[i] == n && i + 1 < c.size()) r = c[i + 1];
        }
        got = A.Next(S.v);
      }
      handleResult(o, got, r != nullptr);
      forget(o.a);
      if (r) { sl[o.a].st = H_NODE; sl[o.a].n = r; sl[o.a].a = S.a; sl[o.a].v = got; }
      return r != nullptr;
    }
    case DROP: forget(o.a); return true;
    case OBSERVE: observeSlot(o.a); return true;
    }
    return false;
  }
  void tagText(MNode *root, const string &spec) { // preorder tokens "x.k x.k ..."
    std::istringstream is(spec);
    string e;
    vector<string> toks;
    while (std::getline(is, e, ',')) toks.push_back(e);
    size_t i = 0;
    std::vector<MNode *> st{root};
    while (!st.empty()) {
      MNode *n = st.back();
      st.pop_back();
      if (i < toks.size()) {
        size_t d = toks[i].find('.');
        n->xt = toks[i].substr(0, d);
        n->kt = toks[i].substr(d + 1);
        i++;
      }
      for (size_t j = n->c.size(); j-- > 0;) st.push_back(n->c[j]);
    }
  }

  void afterCall(int obs) {
    if (obs == 1) for (int i = 0; i < MAXSLOT; i++) lightSlot(i);
    if (obs >= 2) for (int i = 0; i < MAXSLOT; i++) observeSlot(i, 600);
  }
  void reparse(int h) {
    MNode *n = sl[h].n;
    string text = stringify(sl[h].v, sl[h].a);
    VA a = api->NewAllocator(0);
    VV v = api->NewValue(a, 0);
    CBuf b = mk(text, true);
    int ok = api->Parse(v, b.p);
    done(b, false);
    if (!ok) fail("reparse", "the serialised text <" + vis(text) + "> does not parse");
    bool hk = n->hasKey;
    n->hasKey = false;
    bool q = quiet;
    quiet = true;
    long budget = 300;
    try { observe(v, n, 0, 0, budget); }
    catch (Diverge &d) { n->hasKey = hk; throw Diverge{"reparse", "after re-parsing: " + d.msg, d.op}; }
    quiet = q;
    n->hasKey = hk;
    api->ReleaseAllocator(a, 0);
  }
  void finish(const Program &p) {
    cur = (int)p.ops.size();
    if (p.endobs) {
      for (int i = 0; i < MAXSLOT; i++) observeSlot(i);
      int k = 0;
      for (int i = 0; i < MAXSLOT && k < 2; i++) if (isNode(i)) { reparse(i); k++; }
      for (int i = 0; i < MAXSLOT; i++) if (usable(i)) { lightSlot(i); scalarReads(sl[i].v, sl[i].n, sl[i].a); }
    }
    verifyRecs(-1);
    for (int a = 0; a < MAXALLOC; a++)
      if (al[a].live) { verifyRecs(a); api->ReleaseAllocator(al[a].a, al[a].kind); al[a].live = false; }
    for (auto &b : kept) drop(b);
    kept.clear();
    if (hk_live != live0) fail("leak", std::to_string(hk_live - live0) + " block(s) obtained for the allocators were not returned");
  }
};

static void runProgram(const Api *api, const Program &p) { // throws Diverge
  hk_fill = p.fill;
  World w(api);
  w.ro = p.ro;
  stats.progs++;
  for (size_t i = 0; i < p.ops.size(); i++) {
    w.cur = (int)i;
    if (!w.allowed(p.ops[i])) continue;
    w.exec(p.ops[i]);
    w.afterCall(p.obs);
  }
  w.finish(p);
}
