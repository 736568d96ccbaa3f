// Replays behaviours of the specification into the implementation and compares (see DESIGN.md).
#include "gen.hpp"
#include <atomic>
#include <fcntl.h>
#include <malloc.h>
#include <signal.h>
#include <sys/resource.h>
#include <sys/time.h>
#include <sys/wait.h>
#include <time.h>
#if defined(__has_include)
#if __has_include(<sanitizer/asan_interface.h>)
#include <sanitizer/asan_interface.h>
#endif
#endif

// ------------------------------------------------------------- memory interposer
thread_local long hk_live = 0;
thread_local int hk_fill = 0xA5;
thread_local unsigned long long hk_calls = 0;
static size_t hk_cap = (size_t)6 << 30;
static std::atomic<size_t> hk_bytes{0};
static void *hk_got(void *p, size_t n) {
  if (!p) { fprintf(stderr, "HARNESS: out of memory\n"); abort(); }
  hk_bytes += malloc_usable_size(p);
  memset(p, hk_fill, n);
  hk_live++;
  hk_calls++;
  return p;
}
static void hk_ask(size_t n) {
  if (hk_bytes + n > hk_cap) { fprintf(stderr, "HARNESS: memory request of %zu bytes exceeds the cap\n", n); abort(); }
}
static bool hk_gone(void *p) {
  if (!p) return false;
  hk_bytes -= malloc_usable_size(p);
  hk_live--;
  return true;
}
extern "C" void *hk_malloc(size_t n) { hk_ask(n); return hk_got(malloc(n), n); }
extern "C" void hk_free(void *p) { if (hk_gone(p)) free(p); }
extern "C" void *hk_new(size_t n) { hk_ask(n); return hk_got(::operator new(n), n); }
extern "C" void *hk_newarr(size_t n) { hk_ask(n); return hk_got(::operator new[](n), n); }
extern "C" void hk_del(void *p) { if (hk_gone(p)) ::operator delete(p); }
extern "C" void hk_delarr(void *p) { if (hk_gone(p)) ::operator delete[](p); }
extern "C" void hk_delsz(void *p, size_t) { if (hk_gone(p)) ::operator delete(p); }
extern "C" void hk_delarrsz(void *p, size_t) { if (hk_gone(p)) ::operator delete[](p); }
extern "C" void *hk_calloc(size_t n, size_t m) { void *p = hk_malloc(n * m); memset(p, 0, n * m); return p; }
extern "C" void *hk_realloc(void *p, size_t n) {
  void *q = hk_malloc(n);
  if (p) { size_t o = malloc_usable_size(p); memcpy(q, p, o < n ? o : n); hk_free(p); }
  return q;
}

// ------------------------------------------------------------- options and shared state
static const Api *API;
static string optSuite, optOut = "/tmp/engine", optLts;
static uint64_t optSeed = 1;
static int optScale = 1, optWorkers = 1, optRo = 0, optThin = 1;
static double optDeadline = 600;
static double now() { timespec t; clock_gettime(CLOCK_MONOTONIC, &t); return t.tv_sec + t.tv_nsec * 1e-9; }
static double t0;

static const size_t SHMDATA = 48u << 20;
struct Shm {
  std::atomic<uint64_t> idx, beat;
  std::atomic<uint64_t> len;
  Stats st;
  uint64_t edges, states;
  int truncated;
  uint32_t hn, hat; // previous programs of this worker
  struct { uint32_t off, len; } hist[12];
  char data[SHMDATA];
  char hbuf[4 << 20];
};
static Shm *shm; // of this worker

static void putOp(string &o, const Op &x) {
  struct { uint8_t code, var; int16_t a, b; int64_t n; uint32_t sl, xl; } h;
  memset(&h, 0, sizeof h);
  h.code = x.code; h.var = x.var; h.a = x.a; h.b = x.b; h.n = x.n; h.sl = (uint32_t)x.s.size(); h.xl = (uint32_t)x.xt.size();
  o.append((char *)&h, sizeof h);
  o += x.s;
  o += x.xt;
}
static bool getProg(const char *d, size_t len, Program &p) {
  if (len < 4) return false;
  p.obs = d[0]; p.fill = d[1]; p.ro = d[2]; p.endobs = d[3];
  size_t i = 4;
  struct { uint8_t code, var; int16_t a, b; int64_t n; uint32_t sl, xl; } h;
  while (i + sizeof h <= len) {
    memcpy(&h, d + i, sizeof h);
    i += sizeof h;
    if (i + h.sl + h.xl > len) break;
    Op o;
    o.code = h.code; o.var = h.var; o.a = h.a; o.b = h.b; o.n = h.n;
    o.s.assign(d + i, h.sl); i += h.sl;
    o.xt.assign(d + i, h.xl); i += h.xl;
    p.ops.push_back(o);
  }
  return true;
}
static void recStart(const Program &p) {
  if (!shm) return;
  size_t l = shm->len;
  if (l > 4 && l < (256 << 10)) {
    if (shm->hat + l > sizeof shm->hbuf) { shm->hat = 0; shm->hn = 0; }
    memcpy(shm->hbuf + shm->hat, shm->data, l);
    if (shm->hn == 12) { memmove(&shm->hist[0], &shm->hist[1], 11 * sizeof shm->hist[0]); shm->hn = 11; }
    shm->hist[shm->hn++] = {shm->hat, (uint32_t)l};
    shm->hat += l;
  }
  char h[4] = {(char)p.obs, (char)p.fill, (char)p.ro, (char)p.endobs};
  memcpy(shm->data, h, 4);
  shm->len = 4;
  shm->beat++;
}
static void recOp(const Op &x) {
  if (!shm) return;
  static thread_local string b;
  b.clear();
  putOp(b, x);
  size_t l = shm->len;
  if (l + b.size() > SHMDATA) return;
  memcpy(shm->data + l, b.data(), b.size());
  shm->len = l + b.size();
}

// the programs that ran before in the same process, followed by p: for effects that outlive an allocator
static Program withHistory(Shm *s, const Program &p) {
  Program m = p;
  m.ops.clear();
  for (uint32_t i = 0; i < s->hn; i++) {
    Program q;
    if (!getProg(s->hbuf + s->hist[i].off, s->hist[i].len, q)) continue;
    for (auto &o : q.ops) m.ops.push_back(o);
    for (int a = 0; a < MAXALLOC; a++) m.add(RELEASE, a);
    for (int a = 0; a < MAXSLOT; a++) m.add(DROP, a);
  }
  m.ops.insert(m.ops.end(), p.ops.begin(), p.ops.end());
  return m;
}
// ------------------------------------------------------------- recordings for the specification (spec/ZTrace.tla)
static const int TNH = 8, TNA = 4;
struct Recorder {
  FILE *f = nullptr;
  long left = 0;
  uint64_t stride = 1, tick = 0;
  bool on = false;
  string line;
  size_t steps = 0, bytes = 0;
  static string arr(const string &s) { string o = "["; for (size_t i = 0; i < s.size(); i++) o += (i ? "," : "") + std::to_string((unsigned char)s[i]); return o + "]"; }
  void begin() {
    on = f && left > 0 && tick++ % stride == 0;
    line.clear();
    steps = bytes = 0;
  }
  // what a handle shows, through the reading calls only
  bool tree(VV v, string &o, int depth, int &budget) {
    const Api &A = *API;
    if (--budget < 0 || depth > 12) return false;
    int t = A.Type(v);
    vsz l = 0;
    const char *k = A.GetKeyFast(v, &l);
    string key = k ? "k:" + (l ? hexs(string(k, l)) : "") : "";
    if (t == 0) { o += "{\"t\":\"e\"}"; return true; }
    string x;
    char c = 's';
    l = 0;
    if (t == A.tstr) { const char *s = A.GetStrFast(v, &l); if (!s) return false; x = "s:" + (l ? hexs(string(s, l)) : ""); bytes += l; }
    else if (t == A.tnum) { const char *s = A.GetNumFast(v, &l); if (!s) return false; x = "n:" + hexs(string(s, l)); bytes += l; }
    else if (t == A.tnull) x = A.IsNull(v) ? "z:null" : "?";
    else if (t == A.tbool) { int b = A.GetBool(v); x = b < 0 ? "?" : b ? "b:true" : "b:false"; }
    else c = t == A.tarr ? 'a' : t == A.tobj ? 'o' : '?';
    o += string("{\"t\":\"") + c + "\",\"x\":\"" + x + "\",\"k\":\"" + key + "\",\"c\":[";
    if (c == 'a' || c == 'o') {
      bool first = true;
      for (VV it = A.Begin(v); it; it = A.Next(it)) { if (!first) o += ","; first = false; if (!tree(it, o, depth + 1, budget)) return false; }
    }
    o += "]}";
    return bytes < 6000;
  }
  void step(World &w, const Op &o, bool spec) {
    if (!on) return;
    auto n = [](int x) { return std::to_string(x + 1); };
    const Api &A = *API;
    string c;
    vsz l = 0;
    if (o.s.size() > 300 || o.a >= TNH || o.b >= TNH || ++steps > 40) { on = false; return; }
    auto stored = [&](const char *p) { return p ? arr(string(p, l)) : string("[]"); };
    VV v = o.code == NEWALLOC || o.code == RELEASE ? nullptr : w.sl[o.a].v;
    string z = o.s.substr(0, o.s.find('\0'));
    bool nulform = o.code == SETSTRESC || o.code == SETKEYESC ? o.var == 0 : o.code == PARSE || o.code == OBJDEL || (o.code == OBJGET ? !o.var : o.var == 0 || o.var == 2);
    const string &s = nulform ? z : o.s;
    bool ok = w.lastGot < 0 ? spec : w.lastGot != 0;
    switch (o.code) {
    case NEWALLOC: if (o.a >= TNA) { on = false; return; } c = "\"NewAllocator\"," + n(o.a); break;
    case RELEASE: if (o.a >= TNA) { on = false; return; } c = "\"Release\"," + n(o.a); break;
    case NEWVALUE: c = "\"NewValue\"," + n(o.a) + "," + n(o.b); break;
    case NEWFROM: c = "\"NewFrom\"," + n(o.a) + "," + n(o.b); break;
    case PARSE: c = "\"Text\"," + n(o.a) + "," + arr(s); break;
    case SETNULL: c = "\"SetNull\"," + n(o.a); break;
    case SETBOOL: c = "\"SetBool\"," + n(o.a) + "," + (o.n ? "true" : "false"); break;
    case SETNUMT: c = "\"SetNum\"," + n(o.a) + "," + arr(s); break;
    case SETSTR: c = "\"SetStr\"," + n(o.a) + "," + arr(s); break;
    case SETSTRESC: { const char *p = A.GetStrFast(v, &l); c = "\"SetStrEscape\"," + n(o.a) + "," + arr(s) + "," + stored(p); break; }
    case SETKEY: c = "\"SetKey\"," + n(o.a) + "," + arr(s); break;
    case SETKEYESC: { const char *p = ok ? A.GetKeyFast(v, &l) : nullptr; c = "\"SetKeyEscape\"," + n(o.a) + "," + arr(s) + "," + stored(p); break; }
    case SETDBL: { double d; memcpy(&d, &o.n, 8); const char *p = ok ? A.GetNumFast(v, &l) : nullptr; c = "\"SetDouble\"," + n(o.a) + "," + (std::isfinite(d) ? "true," : "false,") + stored(p); break; }
    case SETINT: { const char *p = A.GetNumFast(v, &l); c = "\"SetInt\"," + n(o.a) + "," + arr(std::to_string(o.var == 0 ? (long long)(int)o.n : (long long)o.n)) + "," + stored(p); break; }
    case SETARRAY: c = "\"SetArray\"," + n(o.a); break;
    case SETOBJ: c = "\"SetObj\"," + n(o.a); break;
    case COPY: c = "\"Copy\"," + n(o.a) + "," + n(o.b); break;
    case MOVE: c = "\"Move\"," + n(o.a); break;
    case SET: c = "\"Set\"," + n(o.a) + "," + n(o.b); break;
    case SETFAST: c = "\"SetFast\"," + n(o.a) + "," + n(o.b); break;
    case ARRADD: c = "\"ArrayAdd\"," + n(o.a) + "," + n(o.b); break;
    case ARRADDFAST: c = "\"ArrayAddFast\"," + n(o.a) + "," + n(o.b); break;
    case OBJADD: c = "\"ObjAdd\"," + n(o.a) + "," + n(o.b); break;
    case OBJADDFAST: c = "\"ObjAddFast\"," + n(o.a) + "," + n(o.b); break;
    case ARRDEL: c = "\"ArrayDel\"," + n(o.a) + "," + std::to_string(o.n > 1000000 || o.n < 0 ? 1000000 : o.n); break;
    case OBJDEL: c = "\"ObjDel\"," + n(o.a) + "," + arr(s); break;
    case ARRGET: c = "\"ArrayGet\"," + n(o.a) + "," + n(o.b) + "," + std::to_string(o.n > 1000000 || o.n < 0 ? 1000000 : o.n); break;
    case OBJGET: c = "\"ObjGet\"," + n(o.a) + "," + n(o.b) + "," + arr(s); break;
    case BEGIN: c = "\"Begin\"," + n(o.a) + "," + n(o.b); break;
    case NEXT: c = "\"Next\"," + n(o.a) + "," + n(o.b); break;
    case DROP: c = "\"Drop\"," + n(o.a); break;
    default: return; // Observe
    }
    string ob, ws;
    int budget = 160;
    for (int i = 0; i < TNH; i++) {
      if (i) { ob += ","; ws += ","; }
      if (!w.usable(i)) { ob += "{\"t\":\"x\"}"; ws += "\"\""; continue; }
      if (!tree(w.sl[i].v, ob, 0, budget)) { on = false; return; }
      const char *t = A.Stringify(w.sl[i].v);
      string text = t ? t : "?";
      ws += "\"" + (text.empty() ? "" : hexs(text)) + "\"";
    }
    line += string(line.empty() ? "" : ",") + "{\"c\":[" + c + "],\"r\":" + (ok ? "true" : "false") + ",\"o\":[" + ob + "],\"w\":[" + ws + "]}";
    if (line.size() > 200000) on = false;
  }
  void end() {
    if (!on || line.empty()) return;
    fprintf(f, "{\"want\":true,\"steps\":[%s]}\n", line.c_str());
    fflush(f);
    left--;
    on = false;
  }
};
static thread_local Recorder recorder;
static string optRecord;
static long optRecN = 0;
static uint64_t optRecStride = 1;
// ------------------------------------------------------------- what the C API did, for the Go binding
static string optDump;
static long optDumpN = 0;
static uint64_t optDumpStride = 1;
struct GoRec {
  FILE *f = nullptr, *e = nullptr; // commands for the driver, what the C API answered
  long left = 0;
  uint64_t stride = 1, tick = 0;
  bool on = false;
  string cmd, exp;
  int steps = 0;
  void begin() {
    on = f && left > 0 && tick++ % stride == 0;
    if (!on) return;
    cmd = "P\n"; exp = "P\n"; steps = 0;
  }
  static string h(const char *p) { return p ? *p ? hexs(p) : string("e") : string("-"); }
  // the same as dump() in harness/go/main.go
  void dump(VV v, string &o, int &budget, int depth) {
    const Api &A = *API;
    if (--budget < 0 || depth > 8) { o += "..."; return; }
    o += "t" + std::to_string(A.Type(v)) + ";n" + std::to_string(A.SizeOf(v)) + ";k" + h(A.GetKey(v)) + ";u" + h(A.GetUnEscapeKey(v)) + ";S" + h(A.GetStr(v)) + ";U" +
         h(A.GetUnEscapeStr(v)) + ";N" + h(A.GetNumStr(v)) + ";b" + std::to_string(A.GetBool(v)) + ";z" + (A.IsNull(v) ? "1" : "0") + ";w" + h(A.Stringify(v)) + "(";
    vsz i = 0;
    for (VV it = A.Begin(v); it && i < 20; it = A.Next(it), i++) dump(it, o, budget, depth + 1);
    o += ")[";
    for (vsz j = 0; j <= i && j < 4; j++) { VV x = A.ArrayGet(v, j); o += (x ? h(A.Stringify(x)) : string("-")) + ","; }
    o += "]{";
    i = 0;
    for (VV it = A.Begin(v); it && i < 4; it = A.Next(it), i++) {
      const char *k = A.GetKey(it);
      if (k) { VV x = A.ObjGet(v, k); o += (x ? h(A.Stringify(x)) : string("-")) + ","; }
    }
    VV x = A.ObjGet(v, "zz");
    o += (x ? h(A.Stringify(x)) : string("-")) + "}";
  }
  void step(World &w, const Op &o, bool spec) {
    if (!on) return;
    if (o.s.size() > 3000 || ++steps > 120) { on = false; return; }
    const Api &A = *API;
    string name = opNames[o.code], s = o.s;
    string z = o.s.substr(0, o.s.find('\0'));
    bool hasNul = z.size() != o.s.size();
    bool nulform = o.code == SETSTRESC || o.code == SETKEYESC ? o.var == 0 : o.code == PARSE || o.code == OBJDEL || (o.code == OBJGET ? !o.var : o.var == 0 || o.var == 2);
    if (nulform) { s = z; hasNul = false; }
    bool ok = w.lastGot < 0 ? spec : w.lastGot != 0;
    vsz l = 0;
    switch (o.code) {
    case OBSERVE: case DROP: return;
    case NEWFROM: on = false; return;
    case SETINT: case SETDBL: { if (!ok) return; const char *p = A.GetNumFast(w.sl[o.a].v, &l); if (!p) { on = false; return; } name = "SetNumText"; s.assign(p, l); break; }
    case SETSTRESC: if (hasNul) { const char *p = A.GetStrFast(w.sl[o.a].v, &l); if (!p) { on = false; return; } name = "SetStr"; s.assign(p, l); } break;
    default: if (hasNul) { on = false; return; }
    }
    cmd += name + " " + std::to_string(o.a) + " " + std::to_string(o.b) + " " + std::to_string((uint32_t)o.n) + " " + hexs(s) + "\n";
    exp += ok ? "1\n" : "0\n";
    int t = o.code == RELEASE || o.code == NEWALLOC ? -1 : o.a;
    if (t >= 0 && w.usable(t)) { cmd += "L " + std::to_string(t) + "\n"; exp += h(A.Stringify(w.sl[t].v)) + "\n"; }
  }
  void end(World *w) {
    if (!on) return;
    if (w)
      for (int i = 0; i < MAXSLOT; i++)
        if (w->usable(i)) {
          int budget = 30;
          string o;
          dump(w->sl[i].v, o, budget, 0);
          cmd += "F " + std::to_string(i) + "\n";
          exp += o + "\n";
        }
    fwrite(cmd.data(), 1, cmd.size(), f);
    fwrite(exp.data(), 1, exp.size(), e);
    fflush(f);
    fflush(e);
    left--;
    on = false;
  }
};
static thread_local GoRec gorec;
// ------------------------------------------------------------- running
struct Found { Program p; string aspect, msg; int op; };
struct Runner {
  int shard, n;
  uint64_t idx = 0, start = 0;
  string file;
  int found = 0;
  std::map<string, int> sigs;
  bool stop = false;
  bool want() {
    uint64_t i = idx++;
    if (stop) return false;
    if ((int)(i % n) != shard || i < start) return false;
    if (optThin > 1 && ((i / n + optSeed) * 0x9E3779B97F4A7C15ull >> 40) % optThin) return false;
    if (shm) shm->idx = i;
    if ((i & 63) == 0 && now() - t0 > optDeadline) { stop = true; if (shm) shm->truncated = 1; return false; }
    return true;
  }
  void report(const Program &p, const Diverge &d) {
    string sig = d.aspect + ":" + (d.op >= 0 && d.op < (int)p.ops.size() ? opNames[p.ops[d.op].code] : "end");
    if (sigs[sig]++ < 2) {
      FILE *f = fopen(file.c_str(), "ab");
      string t = progText(p);
      fprintf(f, "DIV %s %s %d %zu\n", d.aspect.c_str(), hexs(d.msg).c_str(), d.op, t.size());
      fwrite(t.data(), 1, t.size(), f);
      t = shm ? progText(withHistory(shm, p)) : "";
      fprintf(f, "HIST - - 0 %zu\n", t.size());
      fwrite(t.data(), 1, t.size(), f);
      fclose(f);
    }
    if (++found >= 12 || sigs.size() >= 5) stop = true;
  }
  void run(Program &p) {
    hk_live = 0;
    if (optRo) p.ro = 1;
    try {
      hk_fill = p.fill;
      recStart(p);
      recorder.begin();
      gorec.begin();
      World w(API);
      w.ro = p.ro;
      stats.progs++;
      for (size_t i = 0; i < p.ops.size(); i++) {
        recOp(p.ops[i]);
        w.cur = (int)i;
        if (!w.allowed(p.ops[i])) continue;
        bool r = w.exec(p.ops[i]);
        recorder.step(w, p.ops[i], r);
        gorec.step(w, p.ops[i], r);
        w.afterCall(p.obs);
      }
      recorder.end();
      gorec.end(&w);
      w.finish(p);
    } catch (Diverge &d) { gorec.end(nullptr); report(p, d); }
    if (shm) shm->st = stats;
  }
  void gen(const Profile &pr, uint64_t seed) {
    Rng r(seed);
    Program p;
    static const uint8_t fills[] = {0xA5, 0x00, 0xFF, 0x5A, 0x22, 0x7B};
    p.fill = fills[r.below(6)];
    p.obs = pr.obs;
    if (pr.obs == 1 && r.chance(40)) p.obs = 0;
    if (pr.obs == 1 && r.chance(8)) p.obs = 2;
    p.ro = optRo;
    hk_live = 0;
    try {
      hk_fill = p.fill;
      recStart(p);
      recorder.begin();
      gorec.begin();
      World w(API);
      w.ro = p.ro;
      stats.progs++;
      Chooser ch(r, pr);
      int len = 3 + r.below(pr.len);
      for (int i = 0; i < len; i++) {
        Op o;
        if (!ch.pick(w, o)) continue;
        if (!w.allowed(o)) continue;
        p.ops.push_back(o);
        recOp(o);
        w.cur = (int)p.ops.size() - 1;
        bool res = w.exec(o);
        recorder.step(w, o, res);
        gorec.step(w, o, res);
        w.afterCall(p.obs);
      }
      recorder.end();
      gorec.end(&w);
      w.finish(p);
    } catch (Diverge &d) { gorec.end(nullptr); report(p, d); }
    if (shm) shm->st = stats;
  }
};

// ------------------------------------------------------------- suites
static Program base(int obs = 0) {
  Program p;
  p.obs = obs;
  p.add(NEWALLOC, 0);
  p.add(NEWVALUE, 0, 0);
  return p;
}
static const char *preps[] = {"", "[1,\"x\",{\"k\":null}]", "E", "M", "\"old\""};
// a parse of the text into targets of different kinds
static void parseCase(Runner &R, const string &s, uint64_t k, int obs = 0) {
  Program p = base(obs);
  static const uint8_t fills[] = {0xA5, 0x00, 0xFF, 0x22, 0x5D, 0x31};
  p.fill = fills[(k / 7) % 6];
  int var = k % 4, target = (int)(k / 4 % 5), h = 0;
  if (target == 2) { p.add(PARSE, 0, 0, 0, 0, "[1,[2],3]"); p.add(ARRGET, 1, 0, 0, 1); h = 1; }
  else if (target == 3) { p.add(PARSE, 0, 0, 0, 0, "{\"a\":1,\"b\":{\"c\":[]},\"d\":2}"); p.add(OBJGET, 1, 0, 0, 0, "b"); h = 1; }
  else if (target) p.add(PARSE, 0, 0, 0, 0, preps[target]);
  p.add(PARSE, h, 0, var, (int64_t)(k / 20), s);
  R.run(p);
}

// ---- W-method style cover of the pushdown transducer
struct Conf {
  int m, q;
  string st;
  bool operator<(const Conf &o) const { return std::tie(m, q, st) < std::tie(o.m, o.q, o.st); }
};
static bool stepConf(const Conf &c, int b, Conf &o) {
  const Cell &x = cell(c.m, c.q, topIx(c.st.empty() ? '-' : c.st.back()), b);
  if (x.m < 0) return false;
  o.m = x.m; o.q = x.q; o.st = c.st;
  if (x.op == 'A') o.st += 'a';
  if (x.op == 'O') o.st += 'o';
  if (x.op == '-') o.st.pop_back();
  return true;
}
static vector<int> classReps() {
  std::map<string, int> seen;
  vector<int> reps;
  for (int b = 1; b < 256; b++) {
    string sig;
    for (size_t m = 0; m < T.modes.size(); m++)
      for (int q = 0; q < 2; q++)
        for (int t = 0; t < 3; t++) {
          const Cell &c = cell((int)m, q, t, b);
          sig += (char)c.m; sig += (char)c.q; sig += c.op; sig += (char)c.emit;
        }
    if (seen.emplace(sig, b).second) reps.push_back(b);
  }
  return reps;
}
struct Cover {
  vector<int> reps;
  std::map<Conf, string> access, compl_;
  vector<Conf> order;
  void build(size_t depth) {
    reps = classReps();
    // prefer readable representatives
    Conf c0{modeId("v"), 0, ""};
    access[c0] = "";
    order.push_back(c0);
    for (size_t i = 0; i < order.size(); i++) {
      Conf c = order[i], n;
      for (int b : reps)
        if (stepConf(c, b, n) && n.st.size() <= depth && !access.count(n)) { access[n] = access[c] + (char)b; order.push_back(n); }
    }
    // completions: backward closure by iteration (graph is small)
    bool ch = true;
    for (auto &c : order) if (c.st.empty() && T.acc[c.m]) compl_[c] = "";
    while (ch) {
      ch = false;
      for (auto &c : order)
        for (int b : reps) {
          Conf n;
          if (!stepConf(c, b, n)) continue;
          auto it = compl_.find(n);
          if (it == compl_.end()) continue;
          string s = string(1, (char)b) + it->second;
          auto mine = compl_.find(c);
          if (mine == compl_.end() || mine->second.size() > s.size()) { compl_[c] = s; ch = true; }
        }
    }
  }
};
static void suiteTextW(Runner &R) {
  Cover C;
  C.build(optScale >= 4 ? 3 : 2);
  uint64_t k = optSeed;
  std::set<string> seen;
  auto emit = [&](const string &s) {
    if (s.size() < 40 && !seen.insert(s).second) return;
    k++;
    if (R.want()) parseCase(R, s, k * 2654435761u >> 7);
  };
  for (auto &c : C.order) {
    const string &acc = C.access[c];
    std::set<string> sufs;
    if (C.compl_.count(c)) sufs.insert(C.compl_[c]);
    for (int b : C.reps) { Conf n; if (stepConf(c, b, n) && C.compl_.count(n)) sufs.insert(C.compl_[n]); }
    if (shm) shm->states++;
    bool all = c.st.size() <= 1 || optScale >= 4;
    vector<int> bytes;
    if (all) for (int b = 1; b < 256; b++) bytes.push_back(b); else bytes = C.reps;
    emit(acc);
    for (int b : bytes) {
      if (shm) shm->edges++;
      Conf n;
      string p = acc + (char)b;
      emit(p);
      if (stepConf(c, b, n)) {
        auto it = C.compl_.find(n);
        if (it == C.compl_.end()) continue;
        emit(p + it->second);
        emit(p + it->second + " ");
        emit(p + it->second + "x");
        for (int b2 : C.reps) {
          Conf n2;
          if (stepConf(n, b2, n2)) { auto j = C.compl_.find(n2); if (j != C.compl_.end()) emit(p + (char)b2 + j->second); }
          else emit(p + (char)b2 + it->second);
        }
      } else for (auto &s : sufs) emit(p + s);
    }
  }
}
static void exhaustive(const string &al, int n, std::function<void(const string &)> f) {
  for (int len = 0; len <= n; len++) {
    vector<int> ix(len, 0);
    for (;;) {
      string s;
      for (int i : ix) s += al[i];
      f(s);
      int p = len - 1;
      while (p >= 0 && ++ix[p] == (int)al.size()) ix[p--] = 0;
      if (p < 0) break;
    }
  }
}
static void suiteTextX(Runner &R) {
  uint64_t k = optSeed;
  int d = optScale >= 4 ? 1 : 0;
  auto f = [&](const string &s) { k++; if (R.want()) parseCase(R, s, k * 2654435761u >> 5); };
  exhaustive("[]{},:\"1 ", 5 + d, f);
  exhaustive("-+.0123eE"[0] ? string("-+.05eE ") : "", 5 + d, f);
  exhaustive(string("[1,]\"a\n"), 5 + d, f);
  exhaustive("{}\"k:,1", 6 + d, f);
  exhaustive("\\\"u0dD8cC", 4 + d, [&](const string &s) { f("\"" + s + "\""); });
  for (const char *lit : {"true", "false", "null"}) {
    string L = lit;
    f(L);
    for (size_t i = 0; i <= L.size(); i++) {
      f(L.substr(0, i)); f(L.substr(i));
      for (int b = 1; b < 256; b++) {
        string ins = L; ins.insert(i, 1, (char)b); f(ins); f("[" + ins + "]"); f("{\"a\":" + ins + "}");
        if (i < L.size()) { string rep = L; rep[i] = (char)b; f(rep); f("[" + rep + ",1]"); f("{\"a\":" + rep + ",\"b\":1}"); }
      }
    }
  }
}
static void suiteTextR(Runner &R) {
  int n = 25000 * optScale;
  for (int i = 0; i < n; i++) {
    if (!R.want()) continue;
    Rng r(optSeed * 1000003 + i);
    TextOpt t;
    t.ws = r.chance(50) ? 0 : r.below(50);
    t.depth = r.below(7);
    t.fan = 1 + r.below(7);
    t.strlen = r.chance(90) ? 20 : 300;
    string s = genJson(r, t);
    if (r.chance(45)) s = mutateText(r, s);
    parseCase(R, s, r.next() >> 8, r.chance(5) ? 2 : 0);
  }
}
static string rep(const string &s, size_t n) { string o; while (n--) o += s; return o; }
static void suiteTextP(Runner &R) {
  vector<int> L;
  for (int i = 0; i <= 300; i++) L.push_back(i);
  for (int b : {384, 512, 640, 768, 1000, 1024, 1500, 2048, 3000, 4096, 6000, 8192, 10000, 16384, 32768, 65536, 131072})
    for (int d = -2; d <= 2; d++) L.push_back(b + d);
  uint64_t k = optSeed;
  auto f = [&](std::function<string()> g) { k++; if (R.want()) parseCase(R, g(), k * 2654435761u >> 5); };
  for (int l : L) {
    f([&] { return "\"" + string(l, 'a') + "\""; });
    f([&] { return "[\"" + string(l, 'a') + "\",\"" + string(l, 'b') + "\"]"; });
    f([&] { return "{\"" + string(l, 'k') + "\":1,\"z\":\"" + string(l, 'v') + "\"}"; });
    f([&] { return "{\"" + string(l, 'k') + "\":1,\"" + string(l, 'k') + "\":2}"; });
    f([&] { return "\"" + string(l, 'a') + "\\n\""; });
    f([&] { return "\"" + rep("\\u00e9", l / 6) + string(l % 6, 'x') + "\""; });
    f([&] { return "\"" + string(l, 'a'); });
    f([&] { return "\"" + string(l, 'a') + "\x01\""; });
    f([&] { return "\"" + string(l, 'a') + "\\"; });
    f([&] { return string(l, ' ') + "[" + string(l, '\n') + "1" + string(l, '\t') + "," + string(l, '\r') + "2" + string(l, ' ') + "]" + string(l, ' '); });
    f([&] { return "1" + string(l, '0'); });
    f([&] { return "[1." + string(l + 1, '3') + "]"; });
    f([&] { return "{\"a\":1e" + string(l, '0') + "1}"; });
    f([&] { return "[1" + string(l, '0') + "x]"; });
    f([&] { return "0." + string(l, '0'); });
    if (l <= 5000) {
      f([&] { return "[" + rep("1,", l) + "1]"; });
      f([&] { return "[" + rep("1,", l) + "]"; });
      f([&] { return "{" + rep("\"a\":1,", l) + "\"b\":2}"; });
      f([&] { return "[" + rep("[],{},", l) + "\"\"]"; });
    }
    if (l <= 140 || l == 1024) {
      f([&] { return rep("[", l) + "1" + rep("]", l); });
      f([&] { return rep("{\"a\":", l) + "1" + rep("}", l); });
      f([&] { return rep("[{\"k\":", l) + "null" + rep("}]", l); });
      f([&] { return rep("[", l) + rep("]", l); });
      f([&] { return rep("[", l + 1) + rep("]", l); });
      f([&] { return rep("[", l) + rep("]", l + 1); });
      f([&] { return rep("[", l) + "{" + rep("]", l); });
      f([&] { return rep("[1,{\"a\":2,\"b\":", l) + "3" + rep("}]", l); });
      f([&] { return rep("[[1],", l) + "[2]" + rep(",[3]]", l); });
      f([&] { return rep("{\"x\":[1],\"y\":", l) + "{}" + rep(",\"z\":[]}", l); });
    }
  }
}

// ---- strings
static void strCase(Runner &R, const string &body, uint64_t k, bool rich = false) {
  Program p = base(0);
  static const uint8_t fills[] = {0xA5, 0x00, 0xFF, 0x22, 0x5C};
  p.fill = fills[k % 5];
  int v = (int)(k % 6);
  if (k / 6 % 3 == 1) p.add(PARSE, 0, 0, 0, 0, "[\"old\",1]");
  if (k / 6 % 3 == 2) { p.add(PARSE, 0, 0, 0, 0, "{\"kk\":\"old\",\"z\":1}"); p.add(OBJGET, 1, 0, 0, 0, "kk"); }
  int h = k / 6 % 3 == 2 ? 1 : 0;
  p.add(SETSTR, h, 0, v, 0, body);
  p.add(SETKEY, h, 0, (v + 1) % 6, 0, body);
  if (rich) {
    for (int i = 0; i < 6; i++) p.add(SETSTR, h, 0, i, 0, body);
    for (int i = 0; i < 6; i++) p.add(SETKEY, h, 0, i, 0, body);
  }
  if (body.find('\0') == string::npos) {
    p.add(NEWVALUE, 2, 0);
    p.add(PARSE, 2, 0, k / 18 % 4, 0, "\"" + body + "\"");
    if (rich) { p.add(NEWVALUE, 3, 0); p.add(PARSE, 3, 0, 0, 0, "{\"" + body + "\":\"" + body + "\"}"); }
  }
  R.run(p);
}
static void suiteStrW(Runner &R) { // cover of the string modes through the setters and the parser
  uint64_t k = optSeed;
  auto f = [&](const string &s) { k++; if (R.want()) strCase(R, s, k * 2654435761u >> 6); };
  auto fr = [&](const string &s) { k++; if (R.want()) strCase(R, s, k * 2654435761u >> 6, true); };
  // access sequences of the string modes, then every byte, then continuations
  vector<string> acc = {"", "a", "\\", "\\u", "\\u0", "\\ud", "\\uD", "\\u00", "\\ud7", "\\ud8", "\\uDB", "\\u00a", "\\ud8a", "\\u00aF", "\\uD83D", "\\uD83D\\", "\\uD83D\\u", "\\uD83D\\ud", "\\uD83D\\uD", "\\uD83D\\uDc", "\\uD83D\\uDE", "\\uD83D\\uDE0", "\\uD83D\\uDE00", "\\n", "ab\\\\"};
  vector<string> suf = {"", "x", "0", "00", "000", "0000", "u0041", "n", "\\uDC00", "\\u0041", "uDC00", "DC00", "C00"};
  for (auto &a : acc)
    for (int b = 0; b < 256; b++)
      for (auto &s : suf) f(a + string(1, (char)b) + s);
  exhaustive("\\\"uU0dD8cCaF/", optScale >= 4 ? 5 : 4, f);
  // every unit, alone and in company
  for (int u = 0; u < 65536; u++) { Rng r(u + optSeed); f("\\u" + hex4(u, &r)); if (u % 7 == 0) fr("x\\u" + hex4(u, &r) + "y"); }
  // hex case patterns of units with letters
  for (int u : {0xABCD, 0xFFFF, 0xE000, 0xDFFF, 0xD7FF, 0xD800, 0xFEFF, 0x0AFA})
    for (int m = 0; m < 16; m++) { string s = "\\u" + hex4(u, nullptr); for (int i = 0; i < 4; i++) if (m >> i & 1) s[2 + i] = (char)toupper(s[2 + i]); fr(s); fr("\\uD83D" + s); fr(s + "\\uDC00"); }
  // surrogates: every high and every low, boundaries against all
  for (int h = 0xD7F0; h <= 0xE010; h++) for (int l : {0xDBFF, 0xDC00, 0xDC01, 0xDFFF, 0xE000, 0x0041}) f("\\u" + hex4(h, nullptr) + "\\u" + hex4(l, nullptr));
  for (int l = 0xDBF0; l <= 0xE010; l++) for (int h : {0xD7FF, 0xD800, 0xDBFF, 0xDC00}) f("\\u" + hex4(h, nullptr) + "\\u" + hex4(l, nullptr));
  // random bodies and mutations
  for (int i = 0; i < 6000 * optScale; i++) {
    if (!R.want()) continue;
    Rng r(optSeed * 77 + i);
    string b = genBody(r, 30);
    if (r.chance(50)) b = mutateText(r, b);
    strCase(R, b, r.next() >> 9, r.chance(10));
  }
  // lengths
  for (int n = 0; n <= 700; n++) { f(string(n, 'q')); f(string(n, 'q') + "\\u00e9"); f(string(n, 'q') + "\x1f"); f(string(n, 'q') + "\""); f(string(n, 'q') + "\\"); }
  for (int n : {1023, 1024, 1025, 4095, 4096, 4097, 8192, 16384, 40000, 65535, 65536, 65537, 100000}) { fr(string(n, 'q')); fr(string(n, 'q') + "\\n"); f(string(n, 'q') + "\n"); fr(rep("\\ud83d\\ude00", n / 12)); }
}
static void suiteUnesc(Runner &R) { // decoding
  uint64_t k = optSeed;
  auto run = [&](const string &s) {
    k++;
    if (!R.want()) return;
    Program p = base(0);
    p.fill = (k & 1) ? 0xFF : 0x00;
    if (k & 2) p.add(PARSE, 0, 0, (k >> 2) & 3, 0, "{\"" + s + "\":\"" + s + "\"}");
    else { p.add(SETSTR, 0, 0, (k >> 2) % 6, 0, s); p.add(SETKEY, 0, 0, (k >> 3) % 6, 0, s); }
    R.run(p);
  };
  for (int b = 1; b < 256; b++) { run(string(1, (char)b)); run("a" + string(1, (char)b) + "b"); run("\\" + string(1, (char)b)); run("x\\" + string(1, (char)b) + "y"); }
  for (int u = 0; u < 65536; u++) { Rng r(u * 3 + optSeed); if (u >= 0xD800 && u < 0xE000) continue; run("\\u" + hex4(u, &r)); }
  // several in one string
  for (int u = 0; u < 65536; u += 16) { if (u >= 0xD800 && u < 0xE000) continue; string s; for (int i = 0; i < 16; i++) s += "\\u" + hex4(u + i, nullptr) + (i % 3 ? "" : "-"); run(s); }
  // all surrogate pairs: 64 per string (every pair in the deep tier, a lattice otherwise)
  int step = optScale >= 4 ? 1 : 5;
  for (int h = 0; h < 1024; h += 1)
    for (int l0 = (h * 64) % (64 * step); l0 < 1024; l0 += 64 * step) {
      string s;
      Rng r(h * 16 + l0);
      for (int i = 0; i < 64; i++) s += "\\u" + hex4(0xD800 + h, &r) + "\\u" + hex4(0xDC00 + l0 + i, &r);
      run(s);
    }
  for (int h = 0; h < 1024; h++) { Rng r(h); run("\\u" + hex4(0xD800 + h, &r) + "\\u" + hex4(0xDC00 + r.below(1024), &r)); }
  for (int i = 0; i < 8000 * optScale; i++) { Rng r(optSeed * 91 + i); run(genBody(r, r.chance(90) ? 40 : 600)); }
  for (int n = 0; n <= 400; n++) { run(rep("\\u20ac", n)); run(rep("\\n", n)); run(string(n, 'a') + "\\u00e9" + string(n, 'b')); run(rep("\\uD834\\uDD1E", n)); run(string(n, '\\') + string(n, '\\')); run(rep("\\u0000", n)); }
}
static void suiteEsc(Runner &R) {
  uint64_t k = optSeed;
  auto run = [&](const string &s) {
    k++;
    if (!R.want()) return;
    Program p = base(k % 3 == 0);
    uint64_t z = k * 2654435761u >> 5;
    p.fill = (z & 1) ? 0xA5 : 0x00;
    int v = s.find('\0') != string::npos ? 1 : z % 3 == 0 ? 0 : z % 3 == 1 ? 1 : 4;
    if (z % 5 == 0) p.add(PARSE, 0, 0, 0, 0, "{\"o\":[1]}");
    p.add(SETSTRESC, 0, 0, v, 0, s);
    p.add(SETKEYESC, 0, 0, v == 0 ? 1 : s.find('\0') != string::npos ? 1 : 0, 0, s);
    p.add(NEWVALUE, 1, 0);
    p.add(SETKEYESC, 1, 0, v, 0, s);
    p.add(NEWVALUE, 2, 0);
    p.add(SETOBJ, 2);
    p.add(OBJADD, 2, 0);
    p.add(OBJADDFAST, 2, 1);
    if (z % 7 == 0) { p.add(PARSE, 3, 2); p.add(BEGIN, 3, 2); p.add(SETKEYESC, 3, 0, v, 0, s + "z"); }
    R.run(p);
  };
  for (int a = 0; a < 256; a++) run(string(1, (char)a));
  for (int a = 0; a < 256; a++) for (int b = 0; b < 256; b++) { string s; s += (char)a; s += (char)b; run(s); }
  for (int a = 0; a < 256; a++) { run("abc" + string(1, (char)a) + "def"); run(string(5, (char)a)); run(string(1, (char)a) + string("\0z", 2)); }
  for (int i = 0; i < 12000 * optScale; i++) {
    Rng r(optSeed * 31 + i);
    int n = r.below(40);
    string s;
    for (int j = 0; j < n; j++) s += (char)(r.chance(40) ? r.below(40) : r.chance(50) ? 32 + r.below(96) : r.below(256));
    run(s);
  }
  for (int n = 0; n <= 600; n++) { run(string(n, 'p')); run(string(n, '"')); run(string(n, '\x01')); run(string(n, 'p') + "\""); run(string(n, 'p') + "\x1f" + string(n, 'q')); run(string(n, '\0')); }
  for (int n : {1023, 1024, 1025, 2048, 4095, 4096, 4097, 8191, 8192, 16384, 65536, 100000}) { run(string(n, 'p')); run(string(n, '\\')); run(string(n, '\x02')); run(string(n, '\xe9')); run(rep("a\n", n / 2)); }
}
// ---- numbers
static void numCase(Runner &R, const string &s, uint64_t k) {
  Program p = base(0);
  static const uint8_t fills[] = {0xA5, 0x00, 0x39, 0x30, 0x2E, 0x65}; // garbage that looks like digits
  p.fill = fills[k % 6];
  int v = (int)(k / 6 % 6);
  if (k % 4 == 1) p.add(PARSE, 0, 0, 0, 0, "[7,{\"a\":8}]");
  int h = 0;
  if (k % 4 == 2) { p.add(PARSE, 0, 0, 0, 0, "{\"a\":8,\"b\":9}"); p.add(OBJGET, 1, 0, 0, 0, "a"); h = 1; }
  p.add(SETNUMT, h, 0, v, 0, s);
  p.add(SETNUMT, h, 0, (v + 1 + k % 5) % 6, 0, s);
  if (s.find('\0') == string::npos) { p.add(NEWVALUE, 2, 0); p.add(PARSE, 2, 0, k / 36 % 4, (int64_t)(k % 97), s); }
  R.run(p);
}
static void suiteNumW(Runner &R) {
  uint64_t k = optSeed;
  auto f = [&](const string &s) { k++; if (R.want()) numCase(R, s, k * 2654435761u >> 6); };
  exhaustive("-+.0 19eE", optScale >= 4 ? 6 : 5, f);
  vector<string> acc = {"", "-", "0", "-0", "1", "12", "-9", "0.", "1.", "0.0", "1.5", "1e", "1E", "1e+", "1E-", "1e1", "1e+12", "-0.0e-0", "10", "1.0e10"};
  vector<string> suf = {"", "0", "1", ".5", "e1", "0e", " ", "e+2"};
  for (auto &a : acc) for (int b = 0; b < 256; b++) for (auto &s : suf) f(a + string(1, (char)b) + s);
  for (int i = 0; i < 12000 * optScale; i++) { if (!R.want()) continue; Rng r(optSeed * 17 + i); string s = genNum(r, 1 + r.below(30)); if (r.chance(40)) s = mutateText(r, s); numCase(R, s, r.next() >> 9); }
  for (int n = 0; n <= 400; n++) { f("1" + string(n, '0')); f("0." + string(n, '0') + "1"); f("1e" + string(n, '0') + "1"); f("-" + string(n + 1, '9')); f("1" + string(n, '0') + "x"); f("1" + string(n, '0') + "."); f("1." + string(n, '0') + "e"); f("1." + string(n, '0') + "-"); }
  for (int n : {1023, 1024, 4096, 8192, 65536}) { f("1" + string(n, '0')); f("1." + string(n, '5') + "e-10"); f("1" + string(n, '0') + "e"); }
}
static void suiteNumV(Runner &R) {
  uint64_t k = optSeed;
  auto geti = [&](int var, int64_t v) {
    k++;
    if (!R.want()) return;
    Program p = base(0);
    p.fill = (k & 1) ? 0x37 : 0xA5;
    if (k % 3 == 0) p.add(PARSE, 0, 0, 0, 0, "\"before\"");
    p.add(SETINT, 0, 0, var, v);
    if (k % 5 == 0) { p.add(NEWVALUE, 1, 0); p.add(SETARRAY, 1); p.add(ARRADD, 1, 0); p.add(SETINT, 0, 0, (var + 1) % 3, v ^ 1); p.add(ARRADDFAST, 1, 0); }
    R.run(p);
  };
  for (auto &s : T.i32) { geti(0, atoll(s.c_str())); geti(1, atoll(s.c_str())); }
  for (auto &s : T.i64) { geti(1, strtoll(s.c_str(), nullptr, 10)); geti(2, strtoll(s.c_str(), nullptr, 10)); }
  for (int i = -1200; i <= 1200; i++) { geti(0, i); geti(1, i); geti(2, i); }
  for (int i = 0; i < 6000 * optScale; i++) { Rng r(optSeed * 53 + i); int64_t v = (int64_t)(r.next() >> r.below(64)); if (r.chance(50)) v = -v; geti(i % 3, i % 3 ? v : (int)v); }
  auto dbl = [&](double d) {
    k++;
    if (!R.want()) return;
    Program p = base(0);
    p.fill = (k & 1) ? 0x35 : 0x00;
    int64_t n;
    memcpy(&n, &d, 8);
    if (k % 3 == 0) p.add(PARSE, 0, 0, 0, 0, "{\"k\":[1,2]}");
    p.add(SETDBL, 0, 0, k % 2, n);
    if (k % 4 == 0) { p.add(NEWVALUE, 1, 0); p.add(SETARRAY, 1); p.add(ARRADD, 1, 0); p.add(ARRADD, 1, 0); }
    R.run(p);
  };
  for (double d : {0.0, -0.0, 1.0, -1.0, 0.1, 0.2, 0.3, 1.5, 1e15, 1e16, 1e17, 123456789012345678.0, 1e21, 1e22, 1e23, 1e-5, 1e-4, 123456.789, 1e300, -1e300, 1e308, 1.7976931348623157e308, -1.7976931348623157e308, 2.2250738585072014e-308, 2.2250738585072009e-308, 4.9406564584124654e-324, -4.9406564584124654e-324, 9007199254740991.0, 9007199254740992.0, 9007199254740993.0, 3.141592653589793, 2.718281828459045, 0.30000000000000004, 5e-324, 1.0 / 3, 2.0 / 3, 100.0, 1e100, (double)INFINITY, -(double)INFINITY, (double)NAN}) { dbl(d); dbl(d); dbl(d); }
  for (int e = -330; e <= 308; e++) { double d = strtod(("1e" + std::to_string(e)).c_str(), nullptr); dbl(d); dbl(-d); dbl(std::nextafter(d, 0)); dbl(std::nextafter(d, HUGE_VAL)); }
  for (int e = -1074; e <= 1023; e++) { double d = std::ldexp(1.0, e); dbl(d); dbl(std::nextafter(d, 0)); }
  for (int i = 0; i < 15000 * optScale; i++) { Rng r(optSeed * 59 + i); uint64_t b = r.next(); double d; memcpy(&d, &b, 8); dbl(d); dbl((double)(int64_t)(r.next() >> r.below(64)) / std::pow(10, r.below(12))); dbl((double)(float)d); }
  // spellings: value must be that of the own spelling, in any surroundings
  auto txt = [&](const string &s) {
    k++;
    if (!R.want()) return;
    Program p = base(0);
    static const uint8_t fills[] = {0x30, 0x39, 0x2E, 0x65, 0xA5, 0x00};
    p.fill = fills[k % 6];
    switch (k % 7) {
    case 0: p.add(PARSE, 0, 0, k / 7 % 4, 4, s); break;
    case 1: p.add(PARSE, 0, 0, k / 7 % 4, 4, "[" + s + "]"); break;
    case 2: p.add(PARSE, 0, 0, k / 7 % 4, 4, "[" + s + "," + s + "]"); break;
    case 3: p.add(PARSE, 0, 0, k / 7 % 4, 4, "{\"a\":" + s + ",\"b\":0}"); break;
    case 4: p.add(SETNUMT, 0, 0, k / 7 % 6, 0, s); break;
    case 5: p.add(PARSE, 0, 0, k / 7 % 4, 3, "[1,{\"z\":" + s + "} ]"); break;
    case 6: p.add(SETNUMT, 0, 0, k / 7 % 6, 0, s); p.add(COPY, 1, 0); p.add(NEWVALUE, 2, 0); p.add(SETARRAY, 2); p.add(ARRADD, 2, 0); p.add(ARRADDFAST, 2, 1); break;
    }
    R.run(p);
  };
  for (auto &s : T.i64) for (int j = 0; j < 7; j++) txt(s);
  for (int n = 1; n <= 320; n++) {
    txt("1" + string(n, '0')); txt("0." + string(n, '0') + "1"); txt(string(n, '9')); txt("0." + string(n, '9')); txt("-" + string(n, '7') + "." + string(n, '7'));
    txt("1" + string(n, '0') + "e-" + std::to_string(n)); txt("0." + string(n, '0') + "123e" + std::to_string(n)); txt("2147483647"); txt("-9223372036854775808");
    txt(string("0.") + string(n, '0')); txt("1e-" + std::to_string(n)); txt("12345678901234567890123456789012345678901234567890e-" + std::to_string(n));
    txt("1." + string(n, '0') + "1"); txt("5e" + std::to_string(n > 308 ? 308 : n)); txt("9007199254740993" + string(n, '0') + "1e-" + std::to_string(n + 1));
    txt("0." + string(n, '3') + "E+" + std::to_string(n % 40));
  }
  for (int i = 0; i < 15000 * optScale; i++) { Rng r(optSeed * 61 + i); txt(genNum(r, 1 + r.below(r.chance(90) ? 20 : 200))); }
}
// ---- documents
static void suiteDoc(Runner &R, const string &prof, int n) {
  Profile p = mkProfile(prof);
  for (int i = 0; i < n * optScale; i++) if (R.want()) R.gen(p, optSeed * 1000000007ull + i * 2654435761ull + prof.size() * 977 + prof[0]);
}
// containers with many elements: structured histories around both ends and the middle
static void suiteWide(Runner &R) {
  uint64_t k = optSeed;
  vector<int> sizes = {0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 300};
  if (optScale >= 2) for (int s : {511, 512, 513, 1000, 1023, 1024, 1025, 2000}) sizes.push_back(s);
  for (int n : sizes)
    for (int obj = 0; obj < 2; obj++)
      for (int how = 0; how < 4; how++) // parse, add copies, add fast, mixed
        for (int act = 0; act < 12; act++) {
          k++;
          if (!R.want()) continue;
          Rng r(k * 7919 + optSeed);
          Program p = base(0);
          if (how == 0) {
            string s = obj ? "{" : "[";
            for (int i = 0; i < n; i++) { if (i) s += ','; if (obj) s += "\"k" + std::to_string(i) + "\":"; s += std::to_string(i); }
            s += obj ? "}" : "]";
            p.add(PARSE, 0, 0, r.below(4), 0, s);
          } else {
            p.add(obj ? SETOBJ : SETARRAY, 0);
            for (int i = 0; i < n; i++) {
              p.add(NEWVALUE, 1, 0);
              p.add(SETINT, 1, 0, 0, i);
              if (obj) p.add(SETKEY, 1, 0, r.below(6), 0, "k" + std::to_string(i));
              bool fast = how == 2 || (how == 3 && r.chance(50));
              p.add(obj ? (fast ? OBJADDFAST : OBJADD) : (fast ? ARRADDFAST : ARRADD), 0, 1);
            }
          }
          auto del = [&](int i) { if (obj) p.add(OBJDEL, 0, 0, 0, 0, "k" + std::to_string(i)); else p.add(ARRDEL, 0, 0, 0, i); };
          auto addOne = [&] { p.add(NEWVALUE, 2, 0); p.add(SETSTR, 2, 0, 0, 0, "new"); p.add(SETKEY, 2, 0, 0, 0, "new" + std::to_string(r.below(3))); p.add(obj ? (r.chance(50) ? OBJADD : OBJADDFAST) : (r.chance(50) ? ARRADD : ARRADDFAST), 0, 2); };
          auto get = [&](int g, int i) { if (obj) p.add(OBJGET, g, 0, r.below(3), 0, "k" + std::to_string(i)); else p.add(ARRGET, g, 0, 0, i); };
          switch (act) {
          case 0: break;
          case 1: del(0); addOne(); break;
          case 2: del(n - 1); addOne(); addOne(); break;
          case 3: del(n / 2); addOne(); break;
          case 4: for (int i = 0; i < n && i < 40; i++) del(obj ? i : 0); addOne(); break;
          case 5: for (int i = n - 1; i >= 0 && i > n - 40; i--) del(i); addOne(); addOne(); break;
          case 6: get(3, n - 1); p.add(MOVE, 3); addOne(); p.add(obj ? OBJADDFAST : ARRADDFAST, 0, 3); addOne(); break;
          case 7: p.add(COPY, 3, 0); del(0); addOne(); p.add(obj ? SETOBJ : SETARRAY, 4); p.add(NEWVALUE, 4, 0); p.add(SET, 4, 3); p.add(NEWVALUE, 2, 0); p.add(SETBOOL, 2, 0, 0, 1); p.add(SETKEY, 2, 0, 0, 0, "b"); p.add(obj ? OBJADD : ARRADD, 3, 2); p.add(obj ? OBJADD : ARRADD, 4, 2); break;
          case 8: get(3, n / 2); p.add(PARSE, 3, 0, 0, 0, "[1,[2]]"); get(4, n - 1); p.add(SETFAST, 3, 4); addOne(); break;
          case 9: p.add(NEWVALUE, 3, 0); p.add(PARSE, 3, 0, 0, 0, "[0]"); p.add(SET, 3, 0); p.add(NEWVALUE, 2, 0); p.add(SETNULL, 2); p.add(SETKEY, 2, 0, 0, 0, "b"); p.add(obj ? OBJADD : ARRADD, 3, 2); del(0); break;
          case 10: p.add(NEWVALUE, 3, 0); p.add(PARSE, 3, 0, 0, 0, "{\"q\":0}"); p.add(OBJGET, 4, 3, 0, 0, "q"); p.add(SETFAST, 4, 0); p.add(NEWVALUE, 2, 0); p.add(SETNULL, 2); p.add(SETKEY, 2, 0, 0, 0, "b"); p.add(obj ? OBJADDFAST : ARRADDFAST, 4, 2); break;
          case 11: for (int i = 0; i < 8; i++) { int x = r.below(n + 1); get(3, x); p.add(MOVE, 3); del(r.below(n + 1)); addOne(); } break;
          }
          R.run(p);
        }
}
// lookups
static void suiteKey(Runner &R) {
  uint64_t k = optSeed;
  vector<string> ks = {"", "a", "b", "A", "aa", "ab", "ba", "abc", "a\\u0062", "\\u0061", "\\n", "\\\\", "\\\"", "\\/", "/", "k\xc3\xa9", "\\u00e9", "\\u00E9", " ", "a ", " a"};
  // pairs and triples of keys, all lookups are compared with the specification
  auto doc = [&](const vector<string> &v, int how) {
    k++;
    if (!R.want()) return;
    Rng r(k + optSeed);
    Program p = base(how == 3 ? 2 : 0);
    if (how == 0 || how == 3) {
      string s = "{";
      for (size_t i = 0; i < v.size(); i++) s += (i ? ",\"" : "\"") + v[i] + "\":" + std::to_string(i);
      p.add(PARSE, 0, 0, r.below(4), 0, s + "}");
    } else {
      p.add(SETOBJ, 0);
      for (size_t i = 0; i < v.size(); i++) { p.add(NEWVALUE, 1, 0); p.add(SETKEY, 1, 0, r.below(6), 0, v[i]); p.add(SETINT, 1, 0, 0, (int64_t)i); if (how == 2) p.add(SETKEY, 1, 0, r.below(6), 0, v[i]); p.add(how == 1 ? OBJADD : OBJADDFAST, 0, 1); }
    }
    for (auto &x : ks) if (r.chance(40)) p.add(OBJGET, 2, 0, r.below(3), 0, x);
    for (auto &x : v) { p.add(OBJGET, 3, 0, r.below(3), 0, x); if (r.chance(40)) p.add(OBJDEL, 0, 0, 0, 0, x); if (r.chance(20)) p.add(OBJDEL, 0, 0, 0, 0, x + "x"); }
    if (r.chance(50)) { p.add(OBJDEL, 0, 0, 0, 0, v[0]); p.add(OBJGET, 3, 0, r.below(3), 0, v[0]); p.add(OBJDEL, 0, 0, 0, 0, v[0]); p.add(OBJDEL, 0, 0, 0, 0, v[0]); }
    if (r.chance(30)) { p.add(OBJGET, 3, 0, 0, 0, v.back()); p.add(SETKEY, 3, 0, r.below(6), 0, r.pick(ks)); }
    R.run(p);
  };
  for (auto &a : ks) for (auto &b : ks) for (int how = 0; how < 4; how++) { doc({a, b}, how); doc({a, b, a}, how); }
  for (int i = 0; i < 6000 * optScale; i++) {
    Rng r(optSeed * 41 + i);
    vector<string> v;
    int n = 1 + r.below(8);
    for (int j = 0; j < n; j++) v.push_back(r.chance(60) ? r.pick(ks) : r.chance(50) && !v.empty() ? r.pick(v) : genBody(r, 12));
    doc(v, r.below(3));
  }
  // long keys that differ in one place, prefixes, extensions
  for (int n = 0; n <= 300; n++) { string a(n, 'k'); doc({a + "x", a, a + "y", a + "xx"}, n % 3); string c = a; if (n) c[(n * 7) % n] = 'j'; doc({c, a, a}, n % 3); }
  for (int n : {511, 512, 513, 1023, 1024, 1025, 4096, 65535, 65536, 70000}) { string a(n, 'k'), c = a; c[n / 2] = 'j'; doc({c, a + "x", a.substr(1), a}, 0); doc({a, c, a}, 1); }
  for (int b = 1; b < 256; b++) { if (b < 32 || b == '"' || b == '\\') continue; string x(1, (char)b); doc({x + "a", x, "a" + x}, b % 3); }
}
// request sizes around every block boundary: what was handed out before must survive
static void suiteMem(Runner &R) {
  uint64_t k = optSeed;
  static const uint8_t fills[] = {0xA5, 0x00, 0xFF, 0x22, 0x7D, 0x30};
  auto body = [&](int n, char c) { return string(n, c); };
  // one big request after j small ones, then small ones again
  vector<int> L;
  for (int i = 0; i <= 140; i++) L.push_back(i);
  for (int b : {160, 192, 200, 240, 250, 255, 256, 257, 300, 384, 500, 511, 512, 513, 700, 1000, 1023, 1024, 1025, 1300, 1500, 1800, 2000, 2040, 2047, 2048, 2049, 2100, 3000, 3500, 4000, 4080, 4095, 4096, 4097, 5000, 6000, 8000, 8191, 8192, 8193, 10000, 12000, 16000, 16384, 20000, 32768, 40000, 65536, 100000}) L.push_back(b);
  for (size_t li = 0; li < L.size(); li++)
    for (int how = 0; how < 10; how++) {
      k++;
      if (!R.want()) continue;
      int l = L[li];
      Rng r(k * 31 + optSeed);
      Program p = base(how % 3 == 0 && l < 3000);
      p.fill = fills[k % 6];
      int pre = r.below(12);
      p.add(SETARRAY, 0);
      for (int i = 0; i < pre; i++) { p.add(NEWVALUE, 1, 0); p.add(SETSTR, 1, 0, r.below(6), 0, body(r.below(20), 'p')); p.add(ARRADDFAST, 0, 1); }
      p.add(NEWVALUE, 2, 0);
      switch (how) {
      case 0: p.add(SETSTR, 2, 0, 0, 0, body(l, 'x')); break;
      case 1: p.add(SETSTR, 2, 0, 1, 0, body(l, 'x')); p.add(SETKEY, 2, 0, 1, 0, body(l, 'k')); break;
      case 2: p.add(PARSE, 2, 0, 0, 0, "[\"" + body(l, 'x') + "\",{\"" + body(l / 2, 'k') + "\":\"" + body(l, 'y') + "\"}]"); break;
      case 3: p.add(PARSE, 2, 0, 2, 0, "{\"a\":\"" + body(l, 'x') + "\"}"); break;
      case 4: p.add(SETSTRESC, 2, 0, 1, 0, body(l / 2, '\n') + body(l - l / 2, 'x')); break;
      case 5: p.add(SETSTR, 2, 0, 2, 0, rep("\\u00e9", l / 6) + body(l % 6, 'z')); p.add(SETKEY, 2, 0, 3, 0, rep("\\n", l / 2)); break;
      case 6: p.add(SETNUMT, 2, 0, r.below(2), 0, "1" + body(l, '0')); break;
      case 7: p.add(PARSE, 2, 0, 1, 0, "[1" + body(l, '0') + ",\"" + body(l, 'f') + "\"]"); p.add(COPY, 3, 2); p.add(ARRADD, 0, 2); break;
      case 8: { p.add(SETARRAY, 2); int m = l > 400 ? 400 : l; for (int i = 0; i < m; i++) { p.add(NEWVALUE, 3, 0); p.add(SETINT, 3, 0, 0, i); p.add(i % 2 ? ARRADDFAST : ARRADD, 2, 3); } break; }
      case 9: p.add(PARSE, 2, 0, r.below(4), 0, "{\"k\":[" + rep("{\"a\":[]},", l > 3000 ? 3000 : l) + "0]}"); p.add(NEWVALUE, 3, 0); p.add(SET, 3, 2); break;
      }
      p.add(OBSERVE, 2);
      for (int i = 0; i < 5; i++) { p.add(NEWVALUE, 4, 0); p.add(SETSTR, 4, 0, r.below(6), 0, body(r.below(40), 'q')); p.add(SETKEY, 4, 0, r.below(6), 0, body(r.below(9), 'w')); if (i == 2) p.add(OBSERVE, 4); p.add(ARRADD, 0, 4); }
      if (how != 8 && r.chance(50)) { p.add(SETSTR, 2, 0, r.below(6), 0, body(l + r.below(3), 'u')); p.add(OBSERVE, 2); }
      R.run(p);
    }
  Profile pr = mkProfile("doc");
  pr.big = 35;
  pr.len = 40;
  for (int i = 0; i < 3000 * optScale; i++) if (R.want()) R.gen(pr, optSeed * 77777 + i);
  Profile pi = mkProfile("iso");
  pi.big = 25;
  for (int i = 0; i < 1000 * optScale; i++) if (R.want()) R.gen(pi, optSeed * 99991 + i);
}
// two or more allocators: the same setter on A, then on B, then released, in all orders
static void suiteIso(Runner &R) {
  uint64_t k = optSeed;
  struct S { OpCode c; int var; const char *s; int64_t n; };
  vector<S> sets;
  for (int v = 0; v < 6; v++) { sets.push_back({SETSTR, v, "sss", 0}); sets.push_back({SETKEY, v, "kkk", 0}); sets.push_back({SETNUMT, v, "123", 0}); }
  for (int v : {0, 1, 4}) { sets.push_back({SETSTRESC, v, "e\ne", 0}); sets.push_back({SETKEYESC, v, "k\tk", 0}); }
  for (int v = 0; v < 4; v++) { sets.push_back({PARSE, v, "{\"a\":[1,\"b\\u00e9\"],\"c\":null}", 0}); sets.push_back({PARSE, v, "[1,", 0}); }
  sets.push_back({SETINT, 2, "", 77});
  sets.push_back({SETDBL, 0, "", 0});
  sets.push_back({SETBOOL, 0, "", 1});
  sets.push_back({SETNULL, 0, "", 0});
  // order: sequence over {new A, set A, observe A, new B, set B, observe B, release B, set A again}
  for (auto &x : sets)
    for (auto &y : sets)
      for (int order = 0; order < 6; order++) {
        k++;
        if (!R.want()) continue;
        Program p;
        p.obs = order % 3;
        p.fill = (uint8_t)(k % 2 ? 0xA5 : 0x00);
        auto nw = [&](int a) { p.add(NEWALLOC, a, 0, (int)(k % 3)); p.add(NEWVALUE, a, a); };
        auto st = [&](int a, const S &s) { p.add(s.c, a, 0, s.var, s.n, s.s); };
        switch (order) {
        case 0: nw(0); nw(1); st(0, x); st(1, y); p.add(OBSERVE, 0); p.add(OBSERVE, 1); p.add(RELEASE, 1); st(0, x); p.add(OBSERVE, 0); break;
        case 1: nw(0); st(0, x); p.add(OBSERVE, 0); p.add(RELEASE, 0); nw(1); st(1, y); p.add(OBSERVE, 1); st(1, x); break;
        case 2: nw(0); nw(1); st(1, y); p.add(OBSERVE, 1); p.add(RELEASE, 1); st(0, x); p.add(OBSERVE, 0); nw(2); st(2, y); p.add(RELEASE, 0); st(2, x); break;
        case 3: nw(0); nw(1); nw(2); st(0, x); st(1, y); st(2, x); p.add(RELEASE, 0); st(1, x); st(2, y); p.add(RELEASE, 2); st(1, y); break;
        case 4: nw(0); nw(1); st(0, x); st(1, y); p.add(SET, 1, 0); p.add(NEWVALUE, 4, 1); p.add(SETARRAY, 4); p.add(ARRADD, 4, 0); p.add(RELEASE, 0); p.add(ARRADD, 4, 1); st(1, y); break;
        case 5: nw(0); nw(1); p.add(SETOBJ, 1); st(0, x); p.add(SETKEY, 0, 0, (int)(k % 6), 0, "kk"); p.add(OBJADD, 1, 0); st(0, y); p.add(RELEASE, 0); p.add(NEWVALUE, 5, 1); p.add(SETKEY, 5, 0, (int)(k % 6), 0, "kk"); p.add(OBJADDFAST, 1, 5); break;
        }
        R.run(p);
      }
  suiteDoc(R, "iso", 4000);
  suiteDoc(R, "copy2", 2000);
}
// caller buffers in read-only pages that end at an inaccessible page, every buffer-taking call
static void suiteBuf(Runner &R) {
  optRo = 1;
  uint64_t k = optSeed;
  vector<string> bodies = {"", "a", "abc", "\\n", "\\u00e9", "\\uD83D\\uDE00", "x\\", "\"", "\x01", "\xc3\xa9", string(100, 'b'), string(5000, 'c'), "\\u12", "a\\\"b"};
  vector<string> nums = {"0", "-1", "12", "1.5", "1e5", "-0.25E-10", "01", "1.", "-", "", "1x", string(60, '7'), string(3000, '1')};
  vector<string> texts = {"1", "12", "[]", "{}", "null", "true", "false", "\"s\"", "[1,2]", "{\"a\":1}", " [ 1 , \"x\\u00e9\" ] ", "[1", "{\"a\"", "nul", "tru", "t", "\"x", "-", "", " ", "[1,{\"k\":[\"v\",-1.5e3,false]}]", "\"" + string(5000, 'z') + "\"", string(4100, ' ') + "1"};
  for (int v = 0; v < 6; v++)
    for (auto &b : bodies) {
      k++;
      if (!R.want()) continue;
      Program p = base(1);
      p.add(SETSTR, 0, 0, v, 0, b); p.add(SETKEY, 0, 0, v, 0, b); p.add(OBSERVE, 0); p.add(SETSTR, 0, 0, (v + 1) % 6, 0, b);
      p.add(NEWVALUE, 1, 0); p.add(SETOBJ, 1); p.add(OBJADD, 1, 0); p.add(OBJGET, 2, 1, v % 3, 0, b); p.add(OBJDEL, 1, 0, 0, 0, b);
      p.add(SETSTRESC, 0, 0, v < 3 ? 0 : v == 3 ? 1 : 4, 0, b); p.add(SETKEYESC, 0, 0, v < 3 ? 0 : v == 3 ? 1 : 4, 0, b);
      R.run(p);
    }
  for (int v = 0; v < 6; v++) for (auto &b : nums) { k++; if (!R.want()) continue; Program p = base(2); p.add(SETNUMT, 0, 0, v, 0, b); p.add(SETBOOL, 0); p.add(SETNUMT, 0, 0, (v + 1) % 6, 0, b); R.run(p); }
  for (int v = 0; v < 4; v++) for (auto &t : texts) for (int g = 0; g < 3; g++) { k++; if (!R.want()) continue; Program p = base(2); p.add(PARSE, 0, 0, v, g, t); p.add(PARSE, 0, 0, (v + 1) % 4, g + 1, t); R.run(p); }
  // the parser with every suffix cut off: the length-delimited form must not look past its end
  Rng r0(optSeed);
  for (int i = 0; i < 60 * optScale; i++) {
    Rng r(optSeed * 5 + i);
    string s = genJson(r);
    for (size_t c = 0; c <= s.size() && c < 120; c++) { k++; if (!R.want()) continue; Program p = base(0); p.add(PARSE, 0, 0, 2 + (int)(k & 1), (int64_t)k, s.substr(0, c)); p.add(PARSE, 0, 0, (int)(k >> 1 & 1), 0, s.substr(0, c)); R.run(p); }
  }
  for (int round = 0; round < 2; round++) {
    optRo = round == 0;
    Profile pr = mkProfile("doc");
    pr.obs = 2; pr.len = 20; pr.big = 4;
    for (int i = 0; i < 1500 * optScale; i++) if (R.want()) R.gen(pr, optSeed * 4242 + i + round * 1000000);
  }
  optRo = 0;
}

// ------------------------------------------------------------- the abstract model's transition system
struct Lts {
  int nh = 0, na = 0;
  vector<string> codes;
  struct E { uint32_t to; uint32_t call; bool r; };
  vector<vector<E>> out;
  vector<string> calls;
  vector<string> texts;
  size_t edges = 0;
  vector<vector<std::pair<uint32_t, uint32_t>>> walks; // (state, edge index)
};
static Lts L;
static bool loadLts(const string &path) { // lines: P nh na | T code | C callid text | S id code | E from call r to
  std::ifstream f(path);
  string line;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    char k;
    is >> k;
    if (k == 'P') is >> L.nh >> L.na;
    else if (k == 'T') { string c; is >> c; L.texts.push_back(c); }
    else if (k == 'C') { size_t i; is >> i; string c; std::getline(is, c); L.calls.push_back(c.substr(1)); }
    else if (k == 'S') { size_t i; string c; is >> i >> c; L.codes.push_back(c); L.out.emplace_back(); }
    else if (k == 'E') { uint32_t a, c, b; int r; is >> a >> c >> r >> b; L.out[a].push_back({b, c, r != 0}); L.edges++; }
  }
  return L.edges > 0;
}
static void ltsWalks(uint64_t seed, size_t maxLen) {
  size_t n = L.codes.size();
  vector<int64_t> parent(n, -1);
  vector<uint32_t> pe(n, 0), order{0};
  parent[0] = 0;
  for (size_t i = 0; i < order.size(); i++)
    for (size_t e = 0; e < L.out[order[i]].size(); e++) { uint32_t t = L.out[order[i]][e].to; if (parent[t] < 0) { parent[t] = order[i]; pe[t] = (uint32_t)e; order.push_back(t); } }
  vector<vector<uint32_t>> left(n);
  Rng r(seed);
  for (size_t i = 0; i < n; i++) {
    left[i].resize(L.out[i].size());
    for (size_t e = 0; e < left[i].size(); e++) left[i][e] = (uint32_t)e;
    for (size_t e = left[i].size(); e > 1; e--) std::swap(left[i][e - 1], left[i][r.below((int)e)]);
  }
  // from the deepest states first, so that access paths cover edges too
  for (size_t oi = order.size(); oi-- > 0;) {
    uint32_t s = order[oi];
    while (!left[s].empty()) {
      vector<std::pair<uint32_t, uint32_t>> w;
      vector<uint32_t> path;
      for (uint32_t x = s; x != 0; x = (uint32_t)parent[x]) path.push_back(x);
      while (!path.empty()) {
        uint32_t x = path.back();
        path.pop_back();
        uint32_t p = (uint32_t)parent[x];
        // cover the failing and the looping calls of the states passed, as far as the length allows
        auto &lf = left[p];
        for (size_t i = lf.size(); i-- > 0 && w.size() < maxLen;) if (L.out[p][lf[i]].to == p) { w.push_back({p, lf[i]}); lf.erase(lf.begin() + i); }
        for (size_t i = 0; i < lf.size(); i++) if (lf[i] == pe[x]) { lf.erase(lf.begin() + i); break; }
        w.push_back({p, pe[x]});
      }
      uint32_t c = s;
      size_t got = 0;
      while (w.size() < maxLen || got == 0) {
        if (!left[c].empty()) { uint32_t e = left[c].back(); left[c].pop_back(); w.push_back({c, e}); c = L.out[c][e].to; got++; }
        else { // one step towards a state with calls left
          int best = -1;
          for (size_t e = 0; e < L.out[c].size(); e++) if (!left[L.out[c][e].to].empty() && (best < 0 || r.chance(30))) best = (int)e;
          if (best < 0) break;
          w.push_back({c, (uint32_t)best});
          c = L.out[c][best].to;
        }
      }
      L.walks.push_back(std::move(w));
    }
  }
}
struct Concrete {
  Rng &r;
  std::map<string, string> key;
  Concrete(Rng &rr) : r(rr) {}
  string keyOf(const string &t) {
    auto it = key.find(t);
    if (it != key.end()) return it->second;
    static const char *ks[] = {"", "a", "k", "key", "ab", "A", "\\u0061", "\\n", "\\\"q", "a/b", "\xe9\x95\xbf", " ", "0"};
    for (;;) {
      string c = r.chance(85) ? ks[r.below(13)] : genBody(r, 40);
      bool used = false;
      for (auto &x : key) used |= x.second == c;
      if (!used) return key[t] = c;
    }
  }
  void scalar(Op &o, const string &x) {
    o.xt = x;
    switch (r.below(9)) {
    case 0: o.code = SETNULL; break;
    case 1: o.code = SETBOOL; o.n = r.below(2); break;
    case 2: case 3: o.code = SETNUMT; o.var = r.below(6); o.s = genNum(r, 6); break;
    case 4: if (API->caps & CAP_INT) { o.code = SETINT; o.var = r.below(3); o.n = r.range(-1000, 1000); break; } // fall through
    case 5: { o.code = SETDBL; o.var = r.below(2); double d = r.range(-100000, 100000) / 64.0; memcpy(&o.n, &d, 8); break; }
    case 6: if (API->caps & CAP_ESC) { o.code = SETSTRESC; o.var = r.below(2); int n = r.below(6); for (int i = 0; i < n; i++) o.s += (char)(1 + r.below(127)); break; } // fall through
    default: o.code = SETSTR; o.var = r.below(6); o.s = genBody(r, 8);
    }
  }
  // text of a node code "<t><x>.<k>.<hs>.<d>(kids)"
  void text(const string &c, size_t &i, string &out, string &toks, bool member) {
    char t = c[i++];
    auto upto = [&](char e) { string s; while (c[i] != e) s += c[i++]; i++; return s; };
    string x = upto('.'), k = upto('.');
    upto('.'); upto('(');
    if (!toks.empty()) toks += ',';
    toks += x + "." + k;
    auto ws = [&] { if (r.chance(15)) out += " \n\t\r"[r.below(4)]; };
    ws();
    if (member) { out += '"' + keyOf(k) + '"'; ws(); out += ':'; ws(); }
    if (t == 's') {
      switch (r.below(5)) {
      case 0: out += "null"; break;
      case 1: out += r.chance(50) ? "true" : "false"; break;
      case 2: out += genNum(r, 5); break;
      default: out += '"' + genBody(r, 6) + '"';
      }
    } else {
      out += t == 'a' ? '[' : '{';
      bool first = true;
      while (c[i] != ')') { if (!first) out += ','; first = false; text(c, i, out, toks, t == 'o'); }
      out += t == 'a' ? ']' : '}';
    }
    i++;
    ws();
  }
};
static bool concretise(const string &call, Concrete &c, Op &o) {
  std::istringstream is(call);
  string n, a1, a2, a3;
  is >> n >> a1 >> a2 >> a3;
  Rng &r = c.r;
  int h = atoi(a1.c_str()) - 1, g = atoi(a2.c_str()) - 1;
  o = Op();
  o.a = h;
  if (n == "NewValue") { o.code = NEWVALUE; o.b = g; }
  else if (n == "Parse") { o.code = PARSE; o.var = r.below(4); o.n = r.below(50); size_t i = 0; c.text(L.texts[g], i, o.s, o.xt, false); }
  else if (n == "ParseBad") { o.code = PARSE; o.var = r.below(4); o.n = r.below(50); o.s = badText(r); }
  else if (n == "SetLex") c.scalar(o, a2);
  else if (n == "SetBad") { if (r.chance(45)) { o.code = SETSTR; o.s = badBody(r); } else if (r.chance(80)) { o.code = SETNUMT; o.s = badNum(r); } else { o.code = SETDBL; double d = r.chance(50) ? NAN : INFINITY; memcpy(&o.n, &d, 8); } o.var = r.below(o.code == SETDBL ? 2 : 6); }
  else if (n == "SetArray") o.code = SETARRAY;
  else if (n == "SetObj") o.code = SETOBJ;
  else if (n == "SetKey") { o.code = SETKEY; o.var = r.below(6); o.s = c.keyOf(a2); o.xt = a2; }
  else if (n == "SetKeyBad") { o.code = SETKEY; o.var = r.below(6); o.s = badBody(r); }
  else if (n == "Copy") { o.code = COPY; o.b = g; }
  else if (n == "Move") o.code = MOVE;
  else if (n == "Set") { o.code = SET; o.b = g; }
  else if (n == "SetFast") { o.code = SETFAST; o.b = g; }
  else if (n == "ArrayAdd") { o.code = ARRADD; o.b = g; }
  else if (n == "ArrayAddFast") { o.code = ARRADDFAST; o.b = g; }
  else if (n == "ObjAdd") { o.code = OBJADD; o.b = g; }
  else if (n == "ObjAddFast") { o.code = OBJADDFAST; o.b = g; }
  else if (n == "ArrayDel") { o.code = ARRDEL; o.n = atoi(a2.c_str()); }
  else if (n == "ObjDel") { o.code = OBJDEL; o.s = c.keyOf(a2); }
  else if (n == "ArrayGet") { o.code = ARRGET; o.b = g; o.n = atoi(a3.c_str()); }
  else if (n == "ObjGet") { o.code = OBJGET; o.b = g; o.s = c.keyOf(a3); o.var = r.below(3); }
  else if (n == "Begin") { o.code = BEGIN; o.b = g; }
  else if (n == "Next") { o.code = NEXT; o.b = g; }
  else if (n == "Drop") o.code = DROP;
  else if (n == "Release") o.code = RELEASE;
  else if (n == "NewAllocator") { o.code = NEWALLOC; o.var = r.below(3); }
  else return false;
  return true;
}
static const int EX_INTERNAL = 98;
static void suiteLts(Runner &R) {
  static const uint8_t fills[] = {0xA5, 0x00, 0xFF, 0x5A};
  for (size_t wi = 0; wi < L.walks.size(); wi++) {
    if (!R.want()) continue;
    Rng r(optSeed * 6364136223846793005ull + wi);
    Concrete c(r);
    Program p;
    p.obs = r.chance(85) ? 1 : 2;
    p.fill = fills[r.below(4)];
    hk_live = 0;
    try {
      hk_fill = p.fill;
      recStart(p);
      World w(API);
      stats.progs++;
      auto doOp = [&](const Op &o) {
        p.ops.push_back(o);
        recOp(o);
        w.cur = (int)p.ops.size() - 1;
        return w.exec(o);
      };
      Op o;
      o.code = NEWALLOC; o.var = r.below(3);
      doOp(o);
      for (auto &st : L.walks[wi]) {
        auto &e = L.out[st.first][st.second];
        if (!concretise(L.calls[e.call], c, o) || !w.allowed(o)) { fprintf(stderr, "INTERNAL: call <%s> not allowed in state %s\n", L.calls[e.call].c_str(), w.code(L.nh, L.na).c_str()); _exit(EX_INTERNAL); }
        // after a deletion by key the handle results follow the same rules; the specified result must agree
        bool spec = doOp(o);
        if (spec != e.r || w.code(L.nh, L.na) != L.codes[e.to]) {
          fprintf(stderr, "INTERNAL: replay model disagrees with TLC: call <%s> from %s gives %d %s, TLC says %d %s\n", L.calls[e.call].c_str(), L.codes[st.first].c_str(), spec, w.code(L.nh, L.na).c_str(), e.r, L.codes[e.to].c_str());
          _exit(EX_INTERNAL);
        }
        w.afterCall(p.obs);
        if (shm) shm->edges++;
      }
      w.finish(p);
    } catch (Diverge &d) { R.report(p, d); }
    if (shm) { shm->st = stats; shm->states = L.codes.size(); }
  }
}

// ------------------------------------------------------------- depth and size (direct calls on a small stack)
static string deepErr;
#define REQ(c, ...) do { if (!(c)) { char _b[300]; snprintf(_b, sizeof _b, __VA_ARGS__); deepErr = _b; return; } } while (0)
static string around(const string &s, size_t i) { size_t a = i < 20 ? 0 : i - 20; return vis(s.substr(a, 60)); }
static bool sameText(const char *what, const char *got, const string &want) {
  if (!got) { deepErr = string(what) + " returned nothing"; return false; }
  size_t n = strlen(got);
  size_t m = std::min(n, want.size()), i = 0;
  while (i < m && got[i] == want[i]) i++;
  if (i == want.size() && n == i) return true;
  deepErr = string(what) + " differs at byte " + std::to_string(i) + " of " + std::to_string(want.size()) + " (length " + std::to_string(n) + "): expected <" + around(want, i) + "> got <" + around(string(got, n), i) + ">";
  return false;
}
static void fillS(string &s, const char *unit, size_t n) { for (size_t i = 0; i < n; i++) s += unit; }
struct DeepCase { string name; std::function<void()> f; };
static void nested(int variant, const string &pre, const string &mid, const string &post, size_t n, int stepsPerLevel) {
  const Api &A = *API;
  VA a = A.NewAllocator(0);
  VV v = A.NewValue(a, 0);
  string t;
  fillS(t, pre.c_str(), n);
  t += mid;
  fillS(t, post.c_str(), n);
  auto parse = [&](VV x, const string &s) { return variant == 0 ? A.Parse(x, s.c_str()) : variant == 1 ? A.ParseFast(x, s.c_str()) : A.ParseLen(x, s.data(), s.size()); };
  REQ(parse(v, t), "parse of %zu levels failed", n);
  if (!sameText("Stringify", A.Stringify(v), t)) return;
  VV w = A.Copy(v);
  REQ(w, "Copy of %zu levels failed", n);
  if (!sameText("Stringify of the copy", A.Stringify(w), t)) return;
  VV u = A.NewValue(a, 0);
  REQ(A.Set(u, v), "Set failed");
  if (!sameText("Stringify after Set", A.Stringify(u), t)) return;
  // walk to the innermost value
  VV x = v;
  for (size_t i = 0; i < n * stepsPerLevel; i++) { // the nested value is always the last child
    VV c = A.Begin(x);
    REQ(c, "Begin found nothing at level %zu", i);
    for (VV d; (d = A.Next(c)); ) c = d;
    x = c;
    if (i % 4096 == 4095) { // handles are arena memory: keep going, only the text is bounded
    }
  }
  if (!sameText("innermost value", A.Stringify(x), mid)) return;
  // edit the innermost value of the original: the copies stay
  A.SetNull(x);
  string t2 = t;
  t2.replace(pre.size() * n, mid.size(), "null");
  if (!sameText("Stringify after the innermost edit", A.Stringify(v), t2)) return;
  if (!sameText("copy after the innermost edit", A.Stringify(w), t)) return;
  VV arr = A.NewValue(a, 0);
  A.SetArray(arr);
  REQ(A.ArrayAdd(arr, w) && A.ArrayAddFast(arr, u), "ArrayAdd failed");
  if (!sameText("array of deep values", A.Stringify(arr), "[" + t + "," + t + "]")) return;
  REQ(A.ArrayDel(arr, 0), "ArrayDel failed");
  REQ(A.SizeOf(arr) == 1, "size after ArrayDel");
  if (!sameText("array after delete", A.Stringify(arr), "[" + t + "]")) return;
  VV m = A.ArrayGet(arr, 0);
  REQ(m && A.Move(m), "Move failed");
  REQ(A.SizeOf(arr) == 0, "size after Move");
  if (!sameText("moved value", A.Stringify(m), t)) return;
  // broken nesting
  VV y = A.NewValue(a, 0);
  A.SetBool(y, 1);
  string bad = t.substr(0, t.size() - 1);
  REQ(!parse(y, bad), "unclosed nesting accepted");
  bad = t + post;
  REQ(!parse(y, bad), "overclosed nesting accepted");
  bad = t;
  bad[t.size() - 1] = bad[t.size() - 1] == ']' ? '}' : ']';
  REQ(!parse(y, bad), "mismatched outermost bracket accepted");
  bad = t;
  bad[pre.size() * n + mid.size()] = 'x';
  REQ(!parse(y, bad), "garbage at the innermost level accepted");
  if (!sameText("target of failed parses", A.Stringify(y), "true")) return;
  A.ReleaseAllocator(a, 0);
}
static void wideCase(bool obj, int how, size_t n) {
  const Api &A = *API;
  VA a = A.NewAllocator(0);
  VV v = A.NewValue(a, 0);
  string t = obj ? "{" : "[";
  for (size_t i = 0; i < n; i++) { if (i) t += ','; if (obj) t += "\"k" + std::to_string(i) + "\":"; t += std::to_string(i); }
  t += obj ? "}" : "]";
  if (how == 0) REQ(A.Parse(v, t.c_str()), "parse of %zu children failed", n);
  else if (how == 1) REQ(A.ParseLen(v, t.data(), t.size()), "parse of %zu children failed", n);
  else {
    if (obj) A.SetObj(v); else A.SetArray(v);
    for (size_t i = 0; i < n; i++) {
      VV e = A.NewValue(a, 0);
      REQ(A.SetNumStr(e, std::to_string(i).c_str()), "SetNumStr");
      if (obj) REQ(A.SetKey(e, ("k" + std::to_string(i)).c_str()), "SetKey");
      REQ(obj ? (i & 1 ? A.ObjAdd(v, e) : A.ObjAddFast(v, e)) : (i & 1 ? A.ArrayAdd(v, e) : A.ArrayAddFast(v, e)), "add %zu failed", i);
    }
  }
  REQ(A.SizeOf(v) == n, "size is %llu, expected %zu", A.SizeOf(v), n);
  if (!sameText("Stringify", A.Stringify(v), t)) return;
  size_t c = 0;
  for (VV it = A.Begin(v); it; it = A.Next(it)) {
    vsz l = 0;
    const char *s = A.GetNumFast(it, &l);
    REQ(s && string(s, l) == std::to_string(c), "child %zu is wrong", c);
    if (obj) { const char *k = A.GetKeyFast(it, &l); REQ(k && string(k, l) == "k" + std::to_string(c), "key %zu is wrong", c); }
    c++;
  }
  REQ(c == n, "iteration found %zu of %zu", c, n);
  VV w = A.Copy(v);
  REQ(w && A.SizeOf(w) == n, "copy has a different size");
  if (!sameText("copy", A.Stringify(w), t)) return;
  vector<size_t> probe = {0, 1, 254, 255, 256, 257, 65534, 65535, 65536, 65537, n / 2, n - 2, n - 1};
  for (size_t i : probe) {
    if (i >= n) continue;
    VV x = obj ? A.ObjGet(v, ("k" + std::to_string(i)).c_str()) : A.ArrayGet(v, i);
    REQ(x, "child %zu not found", i);
    vsz l = 0;
    const char *s = A.GetNumFast(x, &l);
    REQ(s && string(s, l) == std::to_string(i), "child %zu is wrong", i);
  }
  REQ(!A.ArrayGet(v, n) && !A.ArrayGet(v, n + 65536), "element past the end found");
  if (obj) REQ(!A.ObjGet(v, ("k" + std::to_string(n)).c_str()), "absent key found");
  string last = "k" + std::to_string(n - 1), mid = "k" + std::to_string(n / 2);
  REQ(obj ? A.ObjDel(v, last.c_str()) : A.ArrayDel(v, n - 1), "delete of the last failed");
  REQ(obj ? A.ObjDel(v, mid.c_str()) : A.ArrayDel(v, n / 2), "delete of the middle failed");
  REQ(A.SizeOf(v) == n - 2, "size after deletes is %llu", A.SizeOf(v));
  VV e = A.NewValue(a, 0);
  A.SetNull(e);
  A.SetKey(e, "new");
  REQ(obj ? A.ObjAdd(v, e) : A.ArrayAdd(v, e), "add after deletes failed");
  REQ(A.SizeOf(v) == n - 1, "size after add is %llu", A.SizeOf(v));
  size_t p = t.find((obj ? "\"" + mid + "\":" : "") + std::to_string(n / 2) + ",", t.size() > 100 ? t.size() / 2 - t.size() / 4 : 0);
  string t2 = t;
  // rebuild the expectation
  t2 = obj ? "{" : "[";
  for (size_t i = 0; i + 1 < n; i++) { if (i == n / 2) continue; if (obj) t2 += "\"k" + std::to_string(i) + "\":"; t2 += std::to_string(i) + ","; }
  t2 += obj ? "\"new\":null}" : "null]";
  (void)p;
  if (!sameText("Stringify after edits", A.Stringify(v), t2)) return;
  if (!sameText("copy after edits", A.Stringify(w), t)) return;
  A.ReleaseAllocator(a, 0);
}
static void longCase(size_t n) {
  const Api &A = *API;
  VA a = A.NewAllocator(0);
  VV v = A.NewValue(a, 0);
  string b(n, 'a');
  for (size_t i = 0; i < n; i += 997) b[i] = (char)('b' + i % 20);
  string t = "{\"" + b + "\":[\"" + b + "\",\"\\u00e9" + b + "\"]}";
  REQ(A.Parse(v, t.c_str()), "parse failed");
  if (!sameText("Stringify", A.Stringify(v), t)) return;
  VV m = A.ObjGet(v, b.c_str());
  REQ(m, "member with a long key not found");
  REQ(A.ObjGetLen(v, b.data(), n), "member with a long key not found by length");
  string c = b;
  c[n - 1] ^= 1;
  REQ(!A.ObjGet(v, c.c_str()), "a key that differs in its last byte was found");
  REQ(!A.ObjGet(v, b.substr(0, n - 1).c_str()), "a shorter key was found");
  if (n > 65536) REQ(!A.ObjGet(v, b.substr(0, n - 65536).c_str()), "a key shorter by 65536 was found");
  if (!sameText("GetKey", A.GetKey(m), b) || !sameText("GetUnEscapeKey", A.GetUnEscapeKey(m), b)) return;
  VV e = A.ArrayGet(m, 0), f = A.ArrayGet(m, 1);
  REQ(e && f, "elements missing");
  vsz l = 0;
  REQ(A.GetStrFast(e, &l) && l == n, "GetStrFast length is %llu", l);
  if (!sameText("GetStr", A.GetStr(e), b) || !sameText("GetUnEscapeStr", A.GetUnEscapeStr(f), "\xc3\xa9" + b)) return;
  VV w = A.Copy(v);
  if (!sameText("copy", A.Stringify(w), t)) return;
  VV s = A.NewValue(a, 0);
  REQ(A.SetStr(s, b.c_str()), "SetStr failed");
  if (!sameText("GetStr after SetStr", A.GetStr(s), b)) return;
  REQ(A.SetStrLen(s, b.data(), n), "SetStrLen failed");
  if (!sameText("GetStr after SetStrLen", A.GetStr(s), b)) return;
  c = b;
  c[n - 1] = '"';
  REQ(!A.SetStr(s, c.c_str()) && !A.SetKeyLen(s, c.data(), n), "a raw quote at the end of a long string was accepted");
  c[n - 1] = '\\';
  REQ(!A.SetStr(s, c.c_str()) && !A.SetStrLenFast(s, c.data(), n), "an open escape at the end of a long string was accepted");
  if (A.caps & CAP_ESC) {
    string raw = b;
    for (size_t i = 0; i < n; i += 3) raw[i] = (char)(i % 31 + 1);
    REQ(A.SetStrEscape(s, raw.c_str()), "SetStrEscape failed");
    if (!sameText("unescape of escape", A.GetUnEscapeStr(s), raw)) return;
    REQ(A.SetKeyLenEscape(s, raw.data(), raw.size()), "SetKeyLenEscape failed");
    if (!sameText("unescaped key", A.GetUnEscapeKey(s), raw)) return;
    string js = A.Stringify(s);
    REQ(isJson(js), "the escaped string is not JSON");
  }
  string num = "0." + string(n, '0') + "1";
  REQ(A.SetNumStr(s, num.c_str()), "SetNumStr failed");
  if (!sameText("GetNumStr", A.GetNumStr(s), num)) return;
  const double *d = A.GetNum(s);
  double g;
  REQ(d, "GetNum returned nothing");
  memcpy(&g, d, 8);
  REQ(g == strtod(num.c_str(), nullptr), "GetNum of a long number is %g", g);
  num = "1" + string(n, '0') + "e-" + std::to_string(n);
  REQ(A.ParseLen(s, num.data(), num.size()), "parse of a long number failed");
  d = A.GetNum(s);
  REQ(d, "GetNum returned nothing");
  memcpy(&g, d, 8);
  REQ(g == strtod(num.c_str(), nullptr), "GetNum of a long number is %g", g);
  if (!sameText("Stringify number", A.Stringify(s), num)) return;
  num += "e";
  REQ(!A.SetNumStr(s, num.c_str()) && !A.SetNumStrLen(s, num.data(), num.size()), "a broken long number was accepted");
  string wsp(n, ' ');
  string t3 = wsp + "[" + wsp + "1" + wsp + "," + wsp + "{" + wsp + "}" + wsp + "]" + wsp;
  REQ(A.ParseLen(s, t3.data(), t3.size()), "parse of a text with long white space failed");
  if (!sameText("Stringify", A.Stringify(s), "[1,{}]")) return;
  A.ReleaseAllocator(a, 0);
}
static void churn(size_t n) { // many operations on one allocator
  const Api &A = *API;
  VA a = A.NewAllocator(0);
  VV arr = A.NewValue(a, 0);
  A.SetArray(arr);
  string keep = "[";
  const char *first = nullptr;
  for (size_t i = 0; i < n; i++) {
    VV v = A.NewValue(a, 0);
    string s = "{\"id\":" + std::to_string(i) + "}";
    REQ(A.Parse(v, s.c_str()), "parse %zu failed", i);
    const char *r = A.Stringify(v);
    REQ(r && s == r, "Stringify %zu is wrong", i);
    if (!first) first = r;
    REQ(A.ArrayAddFast(arr, v), "add failed");
    if (A.SizeOf(arr) > 50) REQ(A.ArrayDel(arr, 0), "delete failed");
  }
  for (size_t i = n - 50; i < n; i++) keep += (i > n - 50 ? ",{\"id\":" : "{\"id\":") + std::to_string(i) + "}";
  if (!sameText("window", A.Stringify(arr), keep + "]")) return;
  if (A.caps & CAP_KEEP) REQ(string(first) == "{\"id\":0}", "the first result was lost");
  A.ReleaseAllocator(a, 0);
}
static vector<DeepCase> deepCases() {
  vector<DeepCase> v;
  vector<size_t> ds = {255, 256, 257, 1000, 65535, 65536, 65537, 300000};
  if (optScale >= 4) ds.push_back(3000000);
  for (size_t d : ds)
    for (int var = 0; var < 3; var++) {
      if (d > 1000 && d != 300000 && var != (int)(d % 3)) continue;
      string sfx = std::to_string(d) + "/" + std::to_string(var);
      v.push_back({"arrays/" + sfx, [=] { nested(var, "[", "1", "]", d, 1); }});
      v.push_back({"objects/" + sfx, [=] { nested(var, "{\"a\":", "\"s\"", "}", d, 1); }});
      v.push_back({"mixed/" + sfx, [=] { nested(var, "[{\"k\":", "[]", "}]", d, 2); }});
      if (var == 0) v.push_back({"bushy/" + sfx, [=] { nested(var, "[1,[2],{\"a\":", "{}", "}]", d, 2); }});
    }
  vector<size_t> ws = {255, 256, 257, 65535, 65536, 65537, 1000000};
  if (optScale >= 4) { ws.push_back(16777217); }
  for (size_t w : ws)
    for (int how = 0; how < 3; how++)
      for (int obj = 0; obj < 2; obj++) {
        if (w > 1000000 && (how || obj)) continue;
        if (w == 1000000 && how == 1) continue;
        v.push_back({"wide/" + std::to_string(w) + "/" + std::to_string(how) + "/" + std::to_string(obj), [=] { wideCase(obj, how, w); }});
      }
  vector<size_t> ls = {255, 256, 257, 65535, 65536, 65537, 1000000, 16777217};
  if (optScale >= 4) ls.push_back(150000000);
  for (size_t l : ls) v.push_back({"long/" + std::to_string(l), [=] { longCase(l); }});
  v.push_back({"churn/200000", [] { churn(200000); }});
  if (optScale >= 4) v.push_back({"churn/5000000", [] { churn(5000000); }});
  return v;
}
static void *deepThread(void *p) { (*(std::function<void()> *)p)(); return nullptr; }
static string runDeep(const DeepCase &c) { // in this process, on a thread with a small stack
  deepErr.clear();
  pthread_attr_t at;
  pthread_attr_init(&at);
  pthread_attr_setstacksize(&at, 192 * 1024);
  pthread_t th;
  std::function<void()> f = [&] { long l0 = hk_live; c.f(); if (deepErr.empty() && hk_live != l0) deepErr = "blocks were not returned"; };
  if (pthread_create(&th, &at, deepThread, &f)) { fprintf(stderr, "pthread_create failed\n"); _exit(99); }
  pthread_join(th, nullptr);
  return deepErr;
}

// ------------------------------------------------------------- executing one program in a child
struct Outcome { string aspect, msg; int op = -1; }; // aspect empty: conforms
static Shm *trial; // shared memory for trials
static string readFile(const string &p, size_t cap = 1 << 20) {
  string s;
  FILE *f = fopen(p.c_str(), "rb");
  if (!f) return s;
  s.resize(cap);
  s.resize(fread(&s[0], 1, cap, f));
  fclose(f);
  return s;
}
static string crashWhy(int status, const string &errfile) {
  string e = readFile(errfile), why;
  size_t p = e.find("ERROR: AddressSanitizer: ");
  if (p != string::npos) why = "AddressSanitizer: " + e.substr(p + 25, e.find('\n', p) - p - 25);
  else if ((p = e.find("WARNING: ThreadSanitizer: ")) != string::npos) why = "ThreadSanitizer: " + e.substr(p + 26, e.find('\n', p) - p - 26);
  else if ((p = e.find("HARNESS:")) != string::npos) why = e.substr(p, e.find('\n', p) - p);
  else if ((p = e.find("INTERNAL:")) != string::npos) why = e.substr(p, e.find('\n', p) - p);
  if (size_t q = why.find(" on address"); q != string::npos) why.resize(q);
  if (size_t q = why.find(" on unknown address"); q != string::npos) why.resize(q);
  if (WIFSIGNALED(status)) why += " (signal " + std::to_string(WTERMSIG(status)) + ")";
  else if (WIFEXITED(status)) why += " (exit status " + std::to_string(WEXITSTATUS(status)) + ")";
  return why;
}
static bool keepBufs = false;
static Outcome tryProg(const Program &p, double limit = 20) {
  trial->len = 0;
  trial->idx = 0; // 1: finished, 2: diverged
  string err = optOut + ".trial.err";
  fflush(nullptr);
  pid_t pid = fork();
  if (pid == 0) {
    int fd = open(err.c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
    dup2(fd, 2);
    struct rlimit rl = {0, 0};
    setrlimit(RLIMIT_CORE, &rl);
    hk_live = 0;
    trial->beat = (uint64_t)-1;
    try {
      hk_fill = p.fill;
      World w(API);
      w.ro = p.ro;
      w.keepAll = keepBufs;
      for (size_t i = 0; i < p.ops.size(); i++) {
        trial->beat = i;
        w.cur = (int)i;
        if (!w.allowed(p.ops[i])) continue;
        bool ok = w.exec(p.ops[i]);
        trial->data[(1 << 20) + i] = ok ? 1 : 2;
        w.afterCall(p.obs);
      }
      trial->beat = p.ops.size();
      w.finish(p);
      trial->idx = 1;
    } catch (Diverge &d) {
      string s = d.aspect + "\n" + std::to_string(d.op) + "\n" + d.msg;
      if (s.size() > (1u << 20) - 8) s.resize((1u << 20) - 8);
      memcpy(trial->data, s.data(), s.size());
      trial->len = s.size();
      trial->idx = 2;
    }
    _exit(0);
  }
  int status = 0;
  double t = now();
  Outcome o;
  for (;;) {
    pid_t r = waitpid(pid, &status, WNOHANG);
    if (r == pid) break;
    if (now() - t > limit) { kill(pid, SIGKILL); waitpid(pid, &status, 0); o.aspect = "hang"; o.op = (int)trial->beat; o.msg = "the call does not return"; return o; }
    usleep(now() - t < 0.02 ? 200 : 2000);
  }
  if (trial->idx == 1 && WIFEXITED(status) && WEXITSTATUS(status) == 0) return o;
  if (trial->idx == 2) {
    string s(trial->data, trial->len);
    size_t a = s.find('\n'), b = s.find('\n', a + 1);
    o.aspect = s.substr(0, a);
    o.op = atoi(s.substr(a + 1, b - a - 1).c_str());
    o.msg = s.substr(b + 1);
    return o;
  }
  o.aspect = "crash";
  o.op = (int)trial->beat;
  o.msg = crashWhy(status, err);
  return o;
}
static bool sameKind(const Outcome &a, const Outcome &b) {
  auto g = [](const string &s) { return s == "hang" ? string("crash") : s; };
  return !b.aspect.empty() && g(a.aspect) == g(b.aspect);
}
static Program shrink(Program p, Outcome &o, double limit) {
  double end = now() + limit;
  double each = o.aspect == "hang" ? 3 : 10;
  auto bad = [&](const Program &q, Outcome &r) { r = tryProg(q, each); return sameKind(o, r); };
  Outcome r;
  if (o.op >= 0 && o.op + 1 < (int)p.ops.size()) { Program q = p; q.ops.resize(o.op + 1); if (bad(q, r)) { p = q; o = r; } }
  for (int obs : {0, 1}) if (p.obs > obs) { Program q = p; q.obs = obs; if (bad(q, r)) { p = q; o = r; break; } }
  if (p.ro) { Program q = p; q.ro = 0; if (bad(q, r)) { p = q; o = r; } }
  for (size_t chunk = std::max<size_t>(1, p.ops.size() / 2);; chunk = std::max<size_t>(1, chunk / 2)) {
    bool any = false;
    for (size_t i = p.ops.size(); i > 0 && now() < end;) {
      size_t lo = i > chunk ? i - chunk : 0;
      Program q = p;
      q.ops.erase(q.ops.begin() + lo, q.ops.begin() + i);
      if (bad(q, r)) { p = q; o = r; any = true; i = std::min(lo, p.ops.size()); }
      else i = lo;
    }
    if (chunk == 1 && (!any || now() >= end)) break;
    if (now() >= end) break;
  }
  // strings
  for (size_t k = 0; k < p.ops.size() && now() < end; k++)
    for (size_t chunk = (p.ops[k].s.size() + 1) / 2; chunk >= 1 && now() < end; chunk /= 2)
      for (size_t i = 0; i + chunk <= p.ops[k].s.size() && now() < end;) {
        Program q = p;
        q.ops[k].s.erase(i, chunk);
        if (bad(q, r)) { p = q; o = r; } else i += chunk;
      }
  // variants and numbers
  for (size_t k = 0; k < p.ops.size() && now() < end; k++) {
    Program q = p;
    if (p.ops[k].var) { q.ops[k].var = 0; if (bad(q, r)) { p = q; o = r; } }
    q = p;
    if (p.ops[k].n && p.ops[k].code != PARSE) { q.ops[k].n = 0; if (bad(q, r)) { p = q; o = r; } }
  }
  return p;
}

// ------------------------------------------------------------- which properties a divergence violates
static std::set<string> tagsOf(const Program &p, const Outcome &o) {
  std::set<string> t;
  std::set<int> ops;
  int allocs = 0, edits = 0;
  size_t bytes = 0, depth = 0;
  // results the specification gives along the way
  memset(trial->data + (1 << 20), 0, p.ops.size() + 1);
  tryProg(p, o.aspect == "hang" ? 3 : 10);
  bool specFails = false;
  for (size_t i = 0; i < p.ops.size(); i++) {
    auto &x = p.ops[i];
    if (x.code == NEWALLOC) allocs++;
    if (x.code > NEWFROM && x.code != ARRGET && x.code != OBJGET && x.code != BEGIN && x.code != NEXT && x.code != DROP && x.code != OBSERVE && x.code != COPY) edits++;
    ops.insert(x.code);
    bytes += x.s.size();
    if (x.code == PARSE) { size_t d = 0; for (char c : x.s) { if (c == '[' || c == '{') depth = std::max(depth, ++d); else if ((c == ']' || c == '}') && d) d--; } }
    if (trial->data[(1 << 20) + i] == 2) specFails = true;
  }
  int dop = o.op >= 0 && o.op < (int)p.ops.size() ? p.ops[o.op].code : -1;
  auto has = [&](std::initializer_list<int> l) { for (int x : l) if (ops.count(x)) return true; return false; };
  auto opProps = [&](int c, bool all) {
    switch (c) {
    case PARSE: t.insert("C02"); if (all) t.insert("C01"); break;
    case SETSTR: case SETKEY: t.insert("C08"); break;
    case SETSTRESC: case SETKEYESC: t.insert("C09"); break;
    case SETNUMT: t.insert("C11"); break;
    case SETINT: case SETDBL: t.insert("C12"); break;
    case COPY: case SET: case ARRADD: case OBJADD: t.insert("C06"); t.insert("C04"); break;
    case MOVE: case SETFAST: case ARRADDFAST: case OBJADDFAST: t.insert("C07"); t.insert("C04"); break;
    case ARRDEL: t.insert("C04"); break;
    case OBJDEL: t.insert("C04"); t.insert("C05"); break;
    case OBJGET: t.insert("C05"); t.insert("C13"); break;
    case ARRGET: case BEGIN: case NEXT: t.insert("C13"); break;
    case SETARRAY: case SETOBJ: t.insert("C04"); break;
    case RELEASE: case NEWALLOC: t.insert("C15"); break;
    }
  };
  bool crash = o.aspect == "crash" || o.aspect == "hang";
  const string &a = o.aspect;
  if (crash) {
    t.insert("C15");
    for (int c : ops) if (c > NEWFROM) opProps(c, true);
    t.insert("C13");
    t.insert("C14");
    t.insert("C03");
    if (has({PARSE, SETSTR, SETKEY})) t.insert("C10");
    if (has({PARSE, SETNUMT})) t.insert("C12");
    if (has({PARSE, OBJADD, OBJADDFAST})) t.insert("C05");
    if (has({PARSE})) t.insert("C04");
  } else if (a == "leak") t.insert("C15");
  else if (a == "retained") { t.insert("C15"); t.insert("C13"); }
  else if (a == "buf") t.insert("C20");
  else if (a == "verdict") {
    opProps(dop, true);
    if (dop == PARSE) t.erase("C02");
    t.insert("C03");
    bool wrongAccept = o.msg.find("returned true") != string::npos;
    if (wrongAccept && (dop == PARSE || dop == SETSTR || dop == SETKEY || dop == SETNUMT || dop == SETDBL)) t.insert("C14");
    if (dop == SETSTR || dop == SETKEY || dop == SETNUMT || dop == PARSE) { for (int c : ops) if (c == COPY || c == SET || c == MOVE || c == SETFAST) t.insert("C04"); }
    if (edits > 1) t.insert("C04");
  } else {
    if (a == "unescape") { t.insert("C10"); t.insert("C13"); if (has({SETSTRESC, SETKEYESC})) t.insert("C09"); }
    if (a == "number") { t.insert("C12"); t.insert("C13"); }
    if (a == "escape") { t.insert("C09"); t.insert("C14"); }
    if (a == "text") { t.insert("C13"); t.insert("C10"); if (has({SETNUMT, SETINT, SETDBL})) t.insert("C12"); }
    if (a == "type" || a == "getter" || a == "key") t.insert("C13");
    if (a == "size" || a == "iter" || a == "index") { t.insert("C13"); t.insert("C04"); if (has({PARSE})) t.insert("C02"); }
    if (a == "lookup") { t.insert("C05"); t.insert("C13"); }
    if (a == "invalid" || a == "reparse") t.insert("C14");
    if (a == "reparse") { t.insert("C01"); t.insert("C02"); t.insert("C13"); }
    if (a == "tree" || a == "invalid" || a == "key" || a == "size" || a == "iter" || a == "index" || a == "type" || a == "getter" || a == "text" || a == "lookup" || a == "unescape") {
      for (int c : ops) if (c > NEWFROM && c != ARRGET && c != BEGIN && c != NEXT && c != OBJGET && c != PARSE && c != DROP && c != OBSERVE) opProps(c, false);
      if (has({PARSE}) && (edits <= 1 || dop == PARSE)) t.insert("C02");
      if (edits >= 2) t.insert("C04");
      if (has({OBJGET})) t.insert("C05");
    }
    if (a == "tree" && edits >= 1) t.insert("C14");
    if (a == "unescape" && !has({PARSE})) t.insert("C14");
  }
  if (specFails && a != "leak") t.insert("C03");
  if (has({OBSERVE})) t.insert("C13");
  if (allocs >= 2) t.insert("C16");
  if (has({RELEASE}) && has({COPY, SET, ARRADD, OBJADD})) t.insert("C06");
  if (bytes > 900 || p.ops.size() > 60 || depth > 40) t.insert("C22");
  // does it depend on what it must not depend on?
  {
    Program q = p;
    q.fill = p.fill == 0 ? 0xC3 : 0;
    Outcome r = tryProg(q, 5);
    if (r.aspect.empty()) t.insert("C15");
    if (p.obs) { q = p; q.obs = 0; if (tryProg(q, 5).aspect.empty()) t.insert("C13"); }
    for (int pad : {1, 3, 40}) { // another arena layout
      q = p;
      size_t at = 0;
      while (at < q.ops.size() && q.ops[at].code == NEWALLOC) at++;
      vector<Op> ins;
      for (int i = 0; i < pad; i++) { Op x; x.code = NEWVALUE; x.a = MAXSLOT - 1; x.b = p.ops.empty() ? 0 : p.ops[0].a; ins.push_back(x); }
      q.ops.insert(q.ops.begin() + at, ins.begin(), ins.end());
      if (tryProg(q, 5).aspect.empty()) t.insert("C15");
    }
    keepBufs = true;
    if (tryProg(p, 5).aspect.empty()) t.insert("C20");
    keepBufs = false;
    if (p.ro) { q = p; q.ro = 0; if (tryProg(q, 5).aspect.empty()) { t.insert("C20"); t.insert("C15"); } }
    // copying forms against Fast forms
    bool fastUsed = false, copyUsed = false;
    Program f = p, c = p;
    for (size_t i = 0; i < p.ops.size(); i++) {
      auto &x = p.ops[i];
      if (x.code == PARSE) { if (x.var == 1) { fastUsed = true; c.ops[i].var = 0; } else if (x.var == 0) { copyUsed = true; f.ops[i].var = 1; } }
      if (x.code == SETSTR || x.code == SETKEY || x.code == SETNUMT) {
        if (x.var == 2 || x.var == 3 || x.var == 5) { fastUsed = true; c.ops[i].var = x.var == 2 ? 0 : x.var == 3 ? 1 : 4; }
        else { copyUsed = true; f.ops[i].var = x.var == 0 ? 2 : x.var == 1 ? 3 : 5; }
      }
    }
    if (fastUsed && tryProg(c, 5).aspect.empty()) t.insert("C20");
    if (copyUsed && tryProg(f, 5).aspect.empty()) t.insert("C20");
  }
  return t;
}

// ------------------------------------------------------------- supervisor
static string jstr(const string &s) {
  string o = "\"";
  char b[8];
  for (unsigned char c : s) {
    if (c == '"' || c == '\\') { o += '\\'; o += c; }
    else if (c < 32 || c > 126) { snprintf(b, sizeof b, "\\u%04x", c); o += b; }
    else o += c;
  }
  return o + "\"";
}
static void runSuite(const string &s, Runner &R) {
  if (s == "textw") suiteTextW(R);
  else if (s == "textx") suiteTextX(R);
  else if (s == "textr") suiteTextR(R);
  else if (s == "textp") suiteTextP(R);
  else if (s == "strw") suiteStrW(R);
  else if (s == "unesc") suiteUnesc(R);
  else if (s == "esc") suiteEsc(R);
  else if (s == "numw") suiteNumW(R);
  else if (s == "numv") suiteNumV(R);
  else if (s == "wide") suiteWide(R);
  else if (s == "key") suiteKey(R);
  else if (s == "mem") suiteMem(R);
  else if (s == "iso") suiteIso(R);
  else if (s == "buf") suiteBuf(R);
  else if (s == "lts") suiteLts(R);
  else if (s.compare(0, 4, "doc:") == 0) { size_t e = s.find('*'); suiteDoc(R, s.substr(4, e == string::npos ? e : e - 4), e == string::npos ? 3000 : atoi(s.c_str() + e + 1)); }
  else { fprintf(stderr, "unknown suite %s\n", s.c_str()); _exit(97); }
}
static void runSuites(Runner &R) {
  std::istringstream is(optSuite);
  string s;
  while (std::getline(is, s, ',')) runSuite(s, R);
}
static Shm *mkShm() {
  void *p = mmap(nullptr, sizeof(Shm), PROT_READ | PROT_WRITE, MAP_SHARED | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0);
  if (p == MAP_FAILED) { perror("mmap"); exit(97); }
  return (Shm *)p;
}
struct Div { Program p, h; Outcome o; };
static void parseDivs(const string &file, vector<Div> &out) {
  string t = readFile(file, 64u << 20);
  size_t i = 0;
  while (i < t.size()) {
    size_t e = t.find('\n', i);
    if (e == string::npos) break;
    std::istringstream is(t.substr(i, e - i));
    string k, asp, msg;
    int op;
    size_t len;
    is >> k >> asp >> msg >> op >> len;
    Div d;
    if (k == "HIST") { if (!out.empty()) progParse(t.substr(e + 1, len), out.back().h); i = e + 1 + len; continue; }
    d.o.aspect = asp; d.o.msg = unhex(msg); d.o.op = op;
    if (progParse(t.substr(e + 1, len), d.p)) out.push_back(d);
    i = e + 1 + len;
  }
}
int main(int argc, char **argv) {
  t0 = now();
  setvbuf(stdout, nullptr, _IOLBF, 0);
  API = get_api();
  string replay, deep, only, threads;
  bool noTag = false;
  for (int i = 1; i < argc; i++) {
    string a = argv[i];
    auto nx = [&] { if (i + 1 >= argc) { fprintf(stderr, "missing argument\n"); exit(97); } return string(argv[++i]); };
    if (a == "--tables") { if (!loadTables(nx().c_str())) { fprintf(stderr, "cannot load tables\n"); return 97; } }
    else if (a == "--suite") optSuite = nx();
    else if (a == "--seed") optSeed = strtoull(nx().c_str(), nullptr, 10);
    else if (a == "--scale") optScale = atoi(nx().c_str());
    else if (a == "--thin") optThin = atoi(nx().c_str());
    else if (a == "--workers") optWorkers = atoi(nx().c_str());
    else if (a == "--deadline") optDeadline = atof(nx().c_str());
    else if (a == "--out") optOut = nx();
    else if (a == "--lts") optLts = nx();
    else if (a == "--replay") replay = nx();
    else if (a == "--deep") deep = nx();
    else if (a == "--only") only = nx();
    else if (a == "--info") { printf("bool=%d array=%d object=%d string=%d null=%d number=%d\n", API->tbool, API->tarr, API->tobj, API->tstr, API->tnull, API->tnum); return 0; }
    else if (a == "--notag") noTag = true;
    else if (a == "--threads") threads = nx();
    else if (a == "--dump") { optDump = nx(); optDumpN = atol(nx().c_str()); optDumpStride = strtoull(nx().c_str(), nullptr, 10); }
    else if (a == "--record") { optRecord = nx(); optRecN = atol(nx().c_str()); optRecStride = strtoull(nx().c_str(), nullptr, 10); }
    else { fprintf(stderr, "unknown option %s\n", a.c_str()); return 97; }
  }
  struct rlimit rl = {0, 0};
  setrlimit(RLIMIT_CORE, &rl);
  trial = mkShm();
  if (!replay.empty()) {
    Program p;
    if (!progParse(readFile(replay, 64u << 20), p)) { fprintf(stderr, "cannot read %s\n", replay.c_str()); return 97; }
    Outcome o = tryProg(p, 30);
    printf("{\"api\":%s,\"aspect\":%s,\"op\":%d,\"msg\":%s}\n", jstr(API->name).c_str(), jstr(o.aspect).c_str(), o.op, jstr(o.msg).c_str());
    return 0;
  }
  if (!threads.empty()) { // concurrent histories on disjoint allocators
    int n = atoi(threads.c_str());
    vector<pthread_t> th(n);
    vector<Runner> rs(n);
    vector<std::pair<Runner *, int>> arg(n);
    for (int i = 0; i < n; i++) { rs[i].shard = i; rs[i].n = n; rs[i].file = optOut + ".div." + std::to_string(i); arg[i] = {&rs[i], i}; }
    pthread_attr_t at;
    pthread_attr_init(&at);
    pthread_attr_setstacksize(&at, 16 << 20);
    static std::atomic<unsigned long long> progs{0}, calls{0}, getters{0};
    for (int i = 0; i < n; i++)
      pthread_create(&th[i], &at, [](void *p) -> void * {
        auto *a = (std::pair<Runner *, int> *)p;
        runSuites(*a->first);
        progs += stats.progs; calls += stats.calls; getters += stats.getters;
        return nullptr;
      }, &arg[i]);
    for (auto t : th) pthread_join(t, nullptr);
    int found = 0;
    for (auto &r : rs) found += r.found;
    printf("{\"programs\":%llu,\"calls\":%llu,\"reads\":%llu,\"divergences\":%d}\n", progs.load(), calls.load(), getters.load(), found);
    return found ? 3 : 0;
  }
  if (!deep.empty()) { // "list", "all", or a case name
    auto cs = deepCases();
    if (deep == "list") { for (auto &c : cs) puts(c.name.c_str()); return 0; }
    for (auto &c : cs)
      if (c.name == deep) {
        string e = runDeep(c);
        if (e.empty()) { printf("ok\n"); return 0; }
        printf("DIVERGES %s\n", e.c_str());
        return 3;
      }
    fprintf(stderr, "no such case\n");
    return 97;
  }
  if (!optLts.empty()) {
    if (!loadLts(optLts)) { fprintf(stderr, "cannot load the transition system\n"); return 97; }
    ltsWalks(optSeed, 48);
  }
  struct W { pid_t pid = 0; Shm *s = nullptr; double last = 0; uint64_t beat = 0; uint64_t start = 0; bool done = false; int crashes = 0; Stats base; };
  vector<W> ws(optWorkers);
  vector<Div> divs;
  bool internal = false;
  string internalMsg;
  Stats total;
  uint64_t edges = 0, states = 0, crashes = 0;
  bool truncated = false;
  auto spawn = [&](int i) {
    W &w = ws[i];
    if (!w.s) w.s = mkShm();
    w.s->len = 0;
    w.s->hn = w.s->hat = 0;
    w.s->idx = w.start;
    memset((void *)&w.s->st, 0, sizeof w.s->st);
    w.last = now();
    w.beat = w.s->beat;
    fflush(nullptr);
    w.pid = fork();
    if (w.pid == 0) {
      int fd = open((optOut + ".err." + std::to_string(i)).c_str(), O_WRONLY | O_CREAT | O_TRUNC, 0600);
      dup2(fd, 2);
      shm = w.s;
      stats = Stats();
      if (!optRecord.empty()) { recorder.f = fopen((optRecord + "." + std::to_string(i)).c_str(), "a"); recorder.left = optRecN; recorder.stride = optRecStride; }
      if (!optDump.empty()) {
        gorec.f = fopen((optDump + ".cmd." + std::to_string(i)).c_str(), "a");
        gorec.e = fopen((optDump + ".exp." + std::to_string(i)).c_str(), "a");
        gorec.left = optDumpN;
        gorec.stride = optDumpStride;
      }
      Runner R;
      R.shard = i; R.n = optWorkers; R.start = w.start; R.file = optOut + ".div." + std::to_string(i);
      runSuites(R);
      shm->st = stats;
      _exit(0);
    }
  };
  auto account = [&](W &w) { total.progs += w.s->st.progs; total.calls += w.s->st.calls; total.obs += w.s->st.obs; total.getters += w.s->st.getters; };
  for (int i = 0; i < optWorkers; i++) { unlink((optOut + ".div." + std::to_string(i)).c_str()); spawn(i); }
  int running = optWorkers, hangs = 0;
  while (running > 0) {
    usleep(3000);
    for (int i = 0; i < optWorkers; i++) {
      W &w = ws[i];
      if (w.done) continue;
      int st;
      pid_t r = waitpid(w.pid, &st, WNOHANG);
      bool hang = false;
      if (r == 0) {
        if (w.s->beat != w.beat) { w.beat = w.s->beat; w.last = now(); }
        else if (now() - w.last > (hangs ? 8 : 25)) { kill(w.pid, SIGKILL); waitpid(w.pid, &st, 0); hang = true; r = w.pid; }
      }
      if (r != w.pid) continue;
      account(w);
      if (!hang && WIFEXITED(st) && WEXITSTATUS(st) == 0) { w.done = true; running--; continue; }
      if (!hang && WIFEXITED(st) && (WEXITSTATUS(st) == EX_INTERNAL || WEXITSTATUS(st) == 97 || WEXITSTATUS(st) == 99)) {
        internal = true;
        internalMsg = readFile(optOut + ".err." + std::to_string(i), 4000);
        w.done = true;
        running--;
        continue;
      }
      Div d;
      if (getProg(w.s->data, w.s->len, d.p)) {
        d.o.aspect = hang ? "hang" : "crash";
        d.o.op = (int)d.p.ops.size() - 1;
        d.o.msg = hang ? "the call does not return" : crashWhy(st, optOut + ".err." + std::to_string(i));
        d.h = withHistory(w.s, d.p);
        if (divs.size() < 40) divs.push_back(d);
      }
      crashes++;
      w.crashes += hang ? 2 : 1;
      if (hang) hangs++;
      w.start = w.s->idx + 1;
      if (w.crashes >= 4 || now() - t0 > optDeadline) { w.done = true; running--; truncated = true; }
      else spawn(i);
    }
  }
  for (int i = 0; i < optWorkers; i++) {
    edges += ws[i].s->edges;
    states = std::max(states, (uint64_t)ws[i].s->states);
    truncated |= ws[i].s->truncated != 0;
    parseDivs(optOut + ".div." + std::to_string(i), divs);
  }
  if (optSuite.find("lts") == string::npos) edges = ws[0].s->edges; // each worker enumerates the same cover
  // one representative per kind; the smallest program first
  std::map<string, vector<Div *>> kinds;
  for (auto &d : divs) kinds[d.o.aspect + ":" + (d.o.op >= 0 && d.o.op < (int)d.p.ops.size() ? opNames[d.p.ops[d.o.op].code] : "end")].push_back(&d);
  string out = "{\"api\":" + jstr(API->name) + ",\"suite\":" + jstr(optSuite) + ",\"seed\":" + std::to_string(optSeed) + ",\"programs\":" + std::to_string(total.progs) +
               ",\"calls\":" + std::to_string(total.calls) + ",\"observations\":" + std::to_string(total.obs) + ",\"reads\":" + std::to_string(total.getters) + ",\"edges\":" + std::to_string(edges) +
               ",\"states\":" + std::to_string(states) + ",\"lts_edges\":" + std::to_string(L.edges) + ",\"lts_states\":" + std::to_string(L.codes.size()) + ",\"walks\":" + std::to_string(L.walks.size()) +
               ",\"truncated\":" + (truncated ? "true" : "false") + ",\"internal\":" + jstr(internal ? internalMsg.empty() ? "internal error" : internalMsg : "") + ",\"wall\":" + std::to_string(now() - t0) + ",\"divs\":[";
  int n = 0;
  double budget = now() + 60;
  bool flaky = false;
  for (auto &k : kinds) {
    if (n >= 10) break;
    std::sort(k.second.begin(), k.second.end(), [](Div *a, Div *b) { return a->p.ops.size() < b->p.ops.size(); });
    int shown = 0;
    for (auto d : k.second) {
      if (shown >= (kinds.size() <= 3 && d->o.aspect != "hang" ? 3 : 1)) break;
      Outcome o = tryProg(d->p, 20);
      Program cand = d->p;
      if (o.aspect.empty()) { // not alone: after what ran before it
        cand = d->h;
        o = tryProg(cand, 30);
        if (o.aspect.empty()) { flaky = true; continue; }
      }
      Program m = noTag ? cand : shrink(cand, o, std::max(4.0, std::min(12.0, budget - now())));
      std::set<string> tags;
      if (!noTag) tags = tagsOf(m, o);
      out += string(n ? "," : "") + "{\"aspect\":" + jstr(o.aspect) + ",\"op\":" + std::to_string(o.op) + ",\"msg\":" + jstr(o.msg) + ",\"found\":" + jstr(d->o.aspect + ": " + d->o.msg) + ",\"tags\":[";
      bool f = true;
      for (auto &t : tags) { out += (f ? "" : ",") + jstr(t); f = false; }
      out += "],\"program\":" + jstr(progText(m)) + "}";
      n++;
      shown++;
      if (now() > budget) break;
    }
  }
  out += string("],\"unconfirmed\":") + (flaky ? "true" : "false") + ",\"found\":" + std::to_string(divs.size()) + "}\n";
  fputs(out.c_str(), stdout);
  for (int i = 0; i < optWorkers; i++) { unlink((optOut + ".div." + std::to_string(i)).c_str()); unlink((optOut + ".err." + std::to_string(i)).c_str()); }
  unlink((optOut + ".trial.err").c_str());
  return internal ? 97 : n ? 3 : 0;
}
