// Inputs: texts, strings, numbers and call histories.
#pragma once
#include "world.hpp"
#include <algorithm>
#include <functional>

struct Rng {
  uint64_t s;
  explicit Rng(uint64_t seed) : s(seed * 0x9E3779B97F4A7C15ull + 0x1234567) { next(); next(); }
  uint64_t next() {
    uint64_t z = (s += 0x9E3779B97F4A7C15ull);
    z = (z ^ (z >> 30)) * 0xBF58476D1CE4E5B9ull;
    z = (z ^ (z >> 27)) * 0x94D049BB133111EBull;
    return z ^ (z >> 31);
  }
  int below(int n) { return n <= 0 ? 0 : (int)(next() % (uint64_t)n); }
  int range(int a, int b) { return a + below(b - a + 1); }
  bool chance(int pct) { return below(100) < pct; }
  template <class V> auto &pick(V &v) { return v[below((int)v.size())]; }
};

static string hex4(int u, Rng *r) {
  static const char *lo = "0123456789abcdef", *up = "0123456789ABCDEF";
  string o;
  for (int sh = 12; sh >= 0; sh -= 4) { int d = u >> sh & 15; o += (r && r->chance(50)) ? up[d] : lo[d]; }
  return o;
}
static int sizeOfInterest(Rng &r, int max) {
  static const int edge[] = {0, 1, 2, 3, 4, 7, 8, 9, 12, 15, 16, 17, 23, 24, 31, 32, 33, 47, 63, 64, 65, 95, 127, 128, 129, 130, 191, 255, 256, 257, 383, 511, 512, 513, 1000, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 32767, 32768, 65535, 65536, 65537, 131072};
  for (;;) {
    int n = r.chance(70) ? edge[r.below(sizeof edge / sizeof *edge)] : r.below(300);
    if (n <= max) return n;
  }
}
// a valid JSON string body
static string genBody(Rng &r, int maxlen = 24) {
  string o;
  int n = r.below(maxlen + 1);
  while ((int)o.size() < n) {
    switch (r.below(12)) {
    case 0: { static const char *e[] = {"\\\"", "\\\\", "\\/", "\\b", "\\f", "\\n", "\\r", "\\t"}; o += e[r.below(8)]; break; }
    case 1: { int u = r.chance(40) ? r.below(256) : r.below(65536); if (u >= 0xD800 && u < 0xE000) u = 0xE000 + (u & 0xFFF); o += "\\u" + hex4(u, &r); break; }
    case 2: o += "\\u" + hex4(0xD800 + r.below(1024), &r) + "\\u" + hex4(0xDC00 + r.below(1024), &r); break;
    case 3: { int c = 128 + r.below(128); o += (char)c; break; }
    case 4: o += T.u8[0x4E00 + r.below(0x5000)]; break;
    case 5: { static const char *e[] = {" ", "[", "]", "{", "}", ",", ":", "'", "/", "\x7f", "true", "1.5"}; o += e[r.below(12)]; break; }
    default: o += (char)('a' + r.below(26));
    }
  }
  return o;
}
static string genNum(Rng &r, int maxd = 12) {
  string o;
  if (r.chance(30)) o += '-';
  auto digits = [&](int k) { for (int i = 0; i < k; i++) o += (char)('0' + r.below(10)); };
  if (r.chance(20)) o += '0';
  else { o += (char)('1' + r.below(9)); digits(r.below(maxd)); }
  if (r.chance(35)) { o += '.'; digits(1 + r.below(maxd)); }
  if (r.chance(30)) { o += r.chance(50) ? 'e' : 'E'; if (r.chance(60)) o += r.chance(50) ? '-' : '+'; digits(1 + r.below(3)); }
  return o;
}
struct TextOpt { int ws = 15; int depth = 4; int fan = 5; int strlen = 16; vector<string> *keys = nullptr; };
static void wsp(Rng &r, const TextOpt &t, string &o) {
  static const char w[] = " \t\n\r";
  while (r.chance(t.ws)) o += w[r.below(4)];
}
static void genVal(Rng &r, const TextOpt &t, int d, string &o) {
  wsp(r, t, o);
  int k = r.below(d > 0 ? 9 : 5);
  switch (k) {
  case 0: o += "null"; break;
  case 1: o += r.chance(50) ? "true" : "false"; break;
  case 2: o += genNum(r); break;
  case 3: case 4: o += '"'; o += genBody(r, t.strlen); o += '"'; break;
  default: {
    bool arr = k < 7;
    o += arr ? '[' : '{';
    int n = r.below(t.fan + 1);
    for (int i = 0; i < n; i++) {
      if (i) o += ',';
      if (!arr) {
        wsp(r, t, o);
        o += '"';
        o += t.keys && r.chance(70) ? r.pick(*t.keys) : genBody(r, 8);
        o += '"';
        wsp(r, t, o);
        o += ':';
      }
      genVal(r, t, d - 1, o);
    }
    wsp(r, t, o);
    o += arr ? ']' : '}';
  }
  }
  wsp(r, t, o);
}
static string genJson(Rng &r, const TextOpt &t = TextOpt()) { string o; genVal(r, t, r.below(t.depth + 1), o); return o; }
static string mutateText(Rng &r, string s) {
  static const char al[] = "[]{},:\"\\/ \t\n\r0123456789-+.eEtrufalsn\x01\x1f\x7f\x80\xff'xud";
  int k = 1 + r.below(2);
  while (k--) {
    int p = r.below((int)s.size() + 1);
    char c = al[r.below(sizeof al - 1)];
    switch (r.below(6)) {
    case 0: s.insert(s.begin() + p, c); break;
    case 1: if (p < (int)s.size()) s.erase(p, 1); break;
    case 2: if (p < (int)s.size()) s[p] = c; break;
    case 3: s.resize(p); break;
    case 4: if (p + 1 < (int)s.size()) std::swap(s[p], s[p + 1]); break;
    case 5: { int q = r.below((int)s.size() + 1), l = r.below(6); s.insert(p, s.substr(std::min(q, (int)s.size()), l)); break; }
    }
  }
  for (auto &c : s) if (!c) c = ' ';
  return s;
}
static string badText(Rng &r) {
  static const char *bad[] = {"", " ", "[", "]", "{", "}", "[1", "[1,", "[1,]", "[,1]", "{\"a\":1", "{\"a\":1,}", "{\"a\"}", "{\"a\":}", "{a:1}", "\"abc", "\"\\x\"", "\"\\u12\"", "\"\\uD800\"", "\"\t\"", "01", "-", "1.", "1e", "+1", ".5", "tru", "nul", "falsee", "1 2", "[1]x", "[[1,2],3", "{\"a\":[1,{\"b\":2},}", "[1,{\"k\":[true,false}]", "\"a\":1", "[\"a\",\"b\\\"]", "nan", "\xef\xbb\xbf[]", "[1]]", "{\"k\":{\"k\":{\"k\":0x1}}}"};
  if (r.chance(60)) return bad[r.below(sizeof bad / sizeof *bad)];
  for (;;) { string s = mutateText(r, genJson(r)); if (!isJson(s)) return s; }
}
static string badBody(Rng &r) {
  static const char *bad[] = {"\"", "a\"", "\\", "a\\", "\\x", "\\u", "\\u1", "\\u12", "\\u123", "\\u123g", "\\uD800", "\\uDC00", "\\uD800\\n", "\\uD800\\u0041", "\\uD800\\uD800", "\\ud83d", "\n", "\x01", "a\tb", "\x1f", "\\U0041", "\\a", "ok\\\"\"", "\\uDFFF\\uD800", "\\v", "\\0"};
  if (r.chance(60)) return bad[r.below(sizeof bad / sizeof *bad)];
  for (int i = 0; i < 200; i++) { string s = mutateText(r, genBody(r)); if (!strBody(s)) return s; }
  return "\"";
}
static string badNum(Rng &r) {
  static const char *bad[] = {"", " ", "-", "+1", "01", "-01", "1.", ".1", "1e", "1e+", "1.e5", "0x10", "1 ", " 1", "1a", "1,", "nan", "Infinity", "--1", "1.2.3", "1e5.5", "1E", "00", "-a", "1]", "1e1e1", "12-", "\t1"};
  if (r.chance(60)) return bad[r.below(sizeof bad / sizeof *bad)];
  for (int i = 0; i < 200; i++) { string s = mutateText(r, genNum(r)); if (!numText(s)) return s; }
  return "-";
}

// ------------------------------------------------------------------ call histories
struct Profile {
  const char *name;
  int w[NOPS] = {0};
  int nslots = 5, nalloc = 1, len = 30, obs = 1, failPct = 12, wide = 60, big = 0;
  Profile &set(std::initializer_list<std::pair<int, int>> l) { for (auto &x : l) w[x.first] = x.second; return *this; }
};
static vector<string> keyPool(Rng &r) {
  static const char *base[] = {"", "a", "ab", "abc", "b", "A", "k", "K", "key", "key1", "\\u0061", "\\n", "\\\"", "\\\\", "a/b", "a\\/b", "\xe9\x95\xbf", " ", "0", "null", "Ab", "aB", "\x7f", "\xff"};
  vector<string> v;
  int n = 2 + r.below(5);
  for (int i = 0; i < n; i++) {
    if (r.chance(80)) v.push_back(base[r.below(sizeof base / sizeof *base)]);
    else { string k(sizeOfInterest(r, 600), 'k'); if (!k.empty() && r.chance(50)) k.back() = (char)('a' + r.below(20)); v.push_back(k); }
  }
  return v;
}
struct Chooser {
  Rng &r;
  const Profile &p;
  vector<string> keys;
  vector<int> cum;
  Chooser(Rng &rr, const Profile &pp) : r(rr), p(pp), keys(keyPool(rr)) {
    int t = 0;
    for (int i = 0; i < NOPS; i++) { t += p.w[i]; cum.push_back(t); }
  }
  int slotWhere(World &w, std::function<bool(int)> f) {
    int c[MAXSLOT], n = 0;
    for (int i = 0; i < p.nslots; i++) if (f(i)) c[n++] = i;
    return n ? c[r.below(n)] : -1;
  }
  int any(World &w) { return slotWhere(w, [&](int i) { return w.usable(i); }); }
  int freeSlot(World &w) {
    int s = slotWhere(w, [&](int i) { return w.sl[i].st == H_NIL || w.sl[i].st == H_STALE; });
    return s >= 0 && r.chance(85) ? s : r.below(p.nslots);
  }
  static size_t count(MNode *n) {
    size_t k = 0;
    vector<MNode *> st{n};
    while (!st.empty()) { MNode *x = st.back(); st.pop_back(); k++; for (auto c : x->c) st.push_back(c); }
    return k;
  }
  size_t total(World &w) {
    size_t t = 0;
    std::set<MNode *> seen;
    for (auto &s : w.sl) if (s.st == H_NODE) { MNode *x = World::rootOf(s.n); if (seen.insert(x).second) t += count(x); }
    return t;
  }
  int container(World &w, char t) { return slotWhere(w, [&](int i) { return w.isNode(i) && w.sl[i].n->t == t; }); }
  Op scalarOp(int h) {
    Op o;
    o.a = h;
    int bad = r.chance(p.failPct);
    switch (r.below(8)) {
    case 0: o.code = SETNULL; break;
    case 1: o.code = SETBOOL; o.n = r.below(2); break;
    case 2: case 3: o.code = SETNUMT; o.var = r.below(6); o.s = bad ? badNum(r) : genNum(r); break;
    case 4: o.code = SETINT; o.var = r.below(3); o.n = (int64_t)(r.next() >> r.below(64)) * (r.chance(50) ? -1 : 1); break;
    case 5: { o.code = SETDBL; o.var = r.below(2); double d = (double)(int64_t)r.next() / (1 + r.below(1000000)); memcpy(&o.n, &d, 8); break; }
    default: o.code = SETSTR; o.var = r.below(6); o.s = bad ? badBody(r) : genBody(r); break;
    }
    return o;
  }
  bool pick(World &w, Op &o) {
    o = Op();
    int live = 0;
    for (int a = 0; a < p.nalloc; a++) live += w.al[a].live;
    if (!live) { o.code = NEWALLOC; o.a = r.below(p.nalloc); o.var = r.below(3); return true; }
    int h = any(w);
    if (h < 0) {
      o.code = NEWVALUE;
      o.a = r.below(p.nslots);
      do o.b = r.below(p.nalloc); while (!w.al[o.b].live);
      return true;
    }
    size_t tot = total(w);
    int x = r.below(cum.back());
    int c = 0;
    while (cum[c] <= x) c++;
    if (tot > (size_t)p.wide && (c == COPY || c == SET || c == ARRADD || c == OBJADD || c == PARSE)) {
      int q = r.below(3);
      c = q == 0 ? ARRDEL : q == 1 ? OBJDEL : SETNULL;
    }
    o.code = c;
    bool wild = r.chance(p.failPct);
    auto cont = [&](char t) { int s = wild ? any(w) : container(w, t); return s < 0 ? any(w) : s; };
    TextOpt to;
    to.keys = &keys;
    to.fan = 4; to.depth = 3; to.strlen = 10; to.ws = 8;
    switch (c) {
    case NEWALLOC: o.a = r.below(p.nalloc); o.var = r.below(3); return true;
    case RELEASE: if (live < 2 && !r.chance(20)) return false; o.a = r.below(p.nalloc); return true;
    case NEWVALUE: o.a = freeSlot(w); o.b = r.below(p.nalloc); return true;
    case NEWFROM: o.a = freeSlot(w); o.b = h; return true;
    case PARSE: o.a = h; o.var = r.below(4); o.n = r.below(100); to.strlen = r.chance(p.big) ? 60 : 10; o.s = r.chance(p.failPct) ? badText(r) : r.chance(p.big) ? "[\"" + string(sizeOfInterest(r, 9000), 'b') + "\"," + genJson(r, to) + "]" : genJson(r, to); return true;
    case SETNULL: o = scalarOp(h); return true;
    case SETSTR: o.a = h; o.var = r.below(6); o.s = r.chance(p.failPct) ? badBody(r) : r.chance(8 + p.big) ? string(sizeOfInterest(r, 5000), 's') : genBody(r); return true;
    case SETNUMT: o.a = h; o.var = r.below(6); o.s = r.chance(p.failPct) ? badNum(r) : genNum(r); return true;
    case SETSTRESC: case SETKEYESC: { o.a = h; o.var = r.below(3); int n = r.below(20); for (int i = 0; i < n; i++) o.s += (char)(r.chance(50) ? r.below(128) : r.below(256)); return true; }
    case SETKEY: o.a = h; o.var = r.below(6); o.s = r.chance(p.failPct) ? badBody(r) : r.chance(p.big) ? string(sizeOfInterest(r, 3000), 'k') : r.chance(85) ? r.pick(keys) : genBody(r, 10); return true;
    case SETBOOL: o.a = h; o.n = r.below(2); return true;
    case COPY: o.a = freeSlot(w); o.b = h; return true;
    case MOVE: {
      int s = slotWhere(w, [&](int i) { return w.isNode(i) && w.sl[i].n->par; });
      o.a = s >= 0 && !wild ? s : h;
      return true;
    }
    case SET: case SETFAST: o.a = h; o.b = any(w); return true;
    case ARRADD: case ARRADDFAST: o.a = cont('a'); o.b = any(w); return true;
    case OBJADD: case OBJADDFAST: {
      o.a = cont('o');
      int s = slotWhere(w, [&](int i) { return w.isNode(i) && w.sl[i].n->hasKey && i != o.a; });
      o.b = s >= 0 && !wild ? s : any(w);
      return true;
    }
    case ARRDEL: { o.a = cont('a'); MNode *n = w.sl[o.a].n; int sz = n ? (int)n->c.size() : 0; o.n = r.chance(85) && sz ? (r.chance(30) ? sz - 1 : r.below(sz)) : r.below(sz + 3); return true; }
    case OBJDEL: case OBJGET: {
      int s = cont('o');
      MNode *n = w.sl[s].n;
      if (n && n->t == 'o' && !n->c.empty() && r.chance(70)) o.s = n->c[r.below((int)n->c.size())]->key;
      else o.s = r.pick(keys);
      if (r.chance(10)) { if (r.chance(50)) o.s += "x"; else if (!o.s.empty()) o.s.pop_back(); }
      if (c == OBJDEL) o.a = s; else { o.a = freeSlot(w); o.b = s; o.var = r.below(3); }
      return true;
    }
    case ARRGET: { int s = cont('a'); MNode *n = w.sl[s].n; int sz = n ? (int)n->c.size() : 0; o.a = freeSlot(w); o.b = s; o.n = r.chance(85) && sz ? r.below(sz) : r.below(sz + 3); return true; }
    case BEGIN: { int s = slotWhere(w, [&](int i) { return w.isNode(i) && !w.sl[i].n->c.empty(); }); o.a = freeSlot(w); o.b = s >= 0 && !wild ? s : h; return true; }
    case NEXT: { int s = slotWhere(w, [&](int i) { return w.isNode(i) && w.sl[i].n->par; }); o.b = s >= 0 && !wild ? s : h; o.a = r.chance(60) ? o.b : freeSlot(w); return true; }
    case DROP: case OBSERVE: o.a = h; return true;
    default: o.a = h; return true;
    }
  }
};
static Profile mkProfile(const string &n) {
  Profile p;
  p.name = "doc";
  p.set({{NEWVALUE, 6}, {NEWFROM, 1}, {PARSE, 10}, {SETNULL, 8}, {SETSTR, 3}, {SETSTRESC, 2}, {SETKEY, 8}, {SETKEYESC, 2}, {SETARRAY, 4}, {SETOBJ, 4},
         {COPY, 4}, {MOVE, 5}, {SET, 5}, {SETFAST, 5}, {ARRADD, 8}, {ARRADDFAST, 8}, {OBJADD, 8}, {OBJADDFAST, 8}, {ARRDEL, 6}, {OBJDEL, 6},
         {ARRGET, 8}, {OBJGET, 8}, {BEGIN, 6}, {NEXT, 6}, {DROP, 1}, {OBSERVE, 1}});
  if (n == "copy") p.set({{COPY, 15}, {SET, 15}, {ARRADD, 15}, {OBJADD, 15}, {MOVE, 3}, {SETFAST, 2}, {ARRADDFAST, 2}, {OBJADDFAST, 2}});
  if (n == "copy2") { p.set({{COPY, 12}, {SET, 15}, {ARRADD, 15}, {OBJADD, 15}, {RELEASE, 4}, {NEWALLOC, 5}}); p.nalloc = 3; }
  if (n == "move") p.set({{MOVE, 18}, {SETFAST, 15}, {ARRADDFAST, 15}, {OBJADDFAST, 15}, {COPY, 2}, {SET, 2}, {ARRADD, 3}, {OBJADD, 3}, {BEGIN, 10}, {NEXT, 10}});
  if (n == "fail") { p.failPct = 45; }
  if (n == "read") { p.obs = 2; p.len = 14; p.wide = 30; }
  if (n == "seq") { p.set({{ARRADD, 20}, {ARRADDFAST, 20}, {ARRDEL, 25}, {MOVE, 12}, {ARRGET, 14}, {SETOBJ, 1}, {OBJADD, 2}, {OBJADDFAST, 2}, {OBJDEL, 2}, {SETARRAY, 3}, {NEXT, 12}, {PARSE, 4}}); p.len = 60; }
  if (n == "obj") { p.set({{OBJADD, 20}, {OBJADDFAST, 20}, {OBJDEL, 25}, {OBJGET, 25}, {SETKEY, 20}, {ARRADD, 2}, {ARRADDFAST, 2}, {ARRDEL, 2}, {PARSE, 8}}); p.len = 50; }
  if (n == "long") { p.len = 250; p.wide = 150; p.obs = 0; p.nslots = 8; }
  if (n == "iso") { p.nalloc = 4; p.nslots = 8; p.len = 50; p.set({{NEWALLOC, 6}, {RELEASE, 6}, {NEWVALUE, 14}, {SETSTRESC, 5}, {SETSTR, 8}}); }
  if (n == "build") { p.set({{SETSTRESC, 8}, {SETKEYESC, 8}, {SETNULL, 16}, {SETSTR, 8}, {SETKEY, 10}, {PARSE, 6}}); p.obs = 0; p.len = 40; }
  return p;
}
