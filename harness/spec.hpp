// The specification's tables (exported by TLC from spec/ExportTables.tla) and their interpretation.
#pragma once
#include <array>
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <fstream>
#include <map>
#include <memory>
#include <set>
#include <sstream>
#include <string>
#include <vector>
using std::string;
using std::vector;

struct Cell { int8_t m = -1; uint8_t q = 0; char op = '='; bool emit = false; }; // m < 0: reject

struct SpecTables {
  vector<string> modes;
  std::map<string, int> id;
  vector<Cell> pda; // [mode][q][top][byte]
  vector<char> cls; // per mode: 's' string 'n' number 'l' literal 'w' white-space mode
  vector<bool> acc, numend;
  vector<string> u8;
  vector<std::array<int, 3>> hi;
  vector<std::array<int, 2>> lo;
  int simple[256];
  bool needs[256];
  vector<string> i32, i64;
};
static SpecTables T;

static int modeId(const string &m) {
  auto it = T.id.find(m);
  if (it != T.id.end()) return it->second;
  int i = (int)T.modes.size();
  T.modes.push_back(m);
  T.id[m] = i;
  return i;
}
static inline Cell &cell(int m, int q, int top, int b) { return T.pda[(((size_t)m * 2 + q) * 3 + top) * 256 + b]; }
static inline int topIx(char c) { return c == 'a' ? 1 : c == 'o' ? 2 : 0; }

static bool loadTables(const char *path) {
  std::ifstream f(path);
  if (!f) return false;
  string line;
  T.pda.resize(64 * 2 * 3 * 256);
  T.u8.resize(65536);
  T.hi.resize(1024);
  T.lo.resize(1024);
  std::map<string, vector<string>> sets;
  size_t rows = 0;
  while (std::getline(f, line)) {
    std::istringstream is(line);
    string kind;
    is >> kind;
    if (kind == "#PDA") {
      string m, q, t, e;
      is >> m >> q >> t;
      int mi = modeId(m);
      for (int b = 0; b < 256; b++) {
        is >> e;
        Cell c;
        if (e != "X") {
          size_t s = e.find('/');
          c.m = (int8_t)modeId(e.substr(0, s));
          c.q = e[s + 1] == 'k';
          c.op = e[s + 2];
          c.emit = e.size() > s + 3;
        }
        cell(mi, q == "k", topIx(t[0]), b) = c;
      }
      rows++;
    } else if (kind == "#U8" || kind == "#HI" || kind == "#LO") {
      int base;
      is >> base;
      string e;
      for (int i = 0; i < 64; i++) {
        is >> e;
        vector<int> v;
        if (e != "-") {
          std::istringstream es(e);
          string x;
          while (std::getline(es, x, ',')) v.push_back(atoi(x.c_str()));
        }
        if (kind == "#U8") { for (int x : v) T.u8[base + i].push_back((char)x); }
        else if (kind == "#HI") T.hi[base + i] = {v[0], v[1], v[2]};
        else T.lo[base + i] = {v[0], v[1]};
      }
    } else if (kind == "#SIMPLE") {
      string e;
      for (int i = 0; i < 256; i++) { is >> e; T.simple[i] = e == "-" ? -1 : atoi(e.c_str()); }
    } else if (kind == "#NEEDS") {
      int e;
      for (int i = 0; i < 256; i++) { is >> e; T.needs[i] = e; }
    } else if (kind == "#I32") { string e; is >> e; T.i32.push_back(e); }
    else if (kind == "#I64") { string e; is >> e; T.i64.push_back(e); }
    else { string e; while (is >> e) sets[kind].push_back(e); }
  }
  if (rows == 0 || T.modes.size() > 64) return false;
  T.cls.assign(64, 0);
  T.acc.assign(64, false);
  T.numend.assign(64, false);
  for (auto &s : sets["#STR"]) T.cls[modeId(s)] = 's';
  for (auto &s : sets["#NUM"]) T.cls[modeId(s)] = 'n';
  for (auto &s : sets["#LIT"]) T.cls[modeId(s)] = 'l';
  for (auto &s : sets["#WS"]) T.cls[modeId(s)] = 'w';
  for (auto &s : sets["#ACC"]) T.acc[modeId(s)] = true;
  for (auto &s : sets["#NUMEND"]) T.numend[modeId(s)] = true;
  return true;
}

// ---------------------------------------------------------------- documents
struct MNode {
  char t = 'z'; // 's' string, 'n' number, 'b' bool, 'z' null, 'a' array, 'o' object
  string raw;   // source spelling of a scalar
  bool hasKey = false;
  string key;
  vector<MNode *> c;
  MNode *par = nullptr;
  uint32_t deps = 0;  // allocators whose memory the node uses
  string xt, kt;      // abstract tokens (replay of the abstract model)
};
struct Pool {
  vector<std::unique_ptr<MNode>> all;
  MNode *mk() { all.emplace_back(new MNode); return all.back().get(); }
};

static void ser(const MNode *n, string &out, bool top = true) {
  if (n->hasKey && !top) { out += '"'; out += n->key; out += "\":"; }
  switch (n->t) {
  case 's': out += '"'; out += n->raw; out += '"'; break;
  case 'a': case 'o':
    out += n->t == 'a' ? '[' : '{';
    for (size_t i = 0; i < n->c.size(); i++) { if (i) out += ','; ser(n->c[i], out, false); }
    out += n->t == 'a' ? ']' : '}';
    break;
  default: out += n->raw;
  }
}
static string ser(const MNode *n) { string s; ser(n, s); return s; }

// run the transducer; on acceptance build the document
struct TextResult { bool ok = false; string out; MNode *root = nullptr; };
static bool runText(const char *s, size_t len, Pool *pool, TextResult *res) {
  static const int mV = modeId("v");
  int m = mV, q = 0;
  string st;
  MNode *cur = nullptr, *root = nullptr;
  string key;
  size_t start = 0;
  for (size_t i = 0; i < len; i++) {
    const Cell &c = cell(m, q, topIx(st.empty() ? '-' : st.back()), (unsigned char)s[i]);
    if (c.m < 0) return false;
    if (pool) {
      char from = T.cls[m], to = T.cls[c.m];
      auto add = [&](char t) {
        MNode *n = pool->mk();
        n->t = t;
        if (cur) {
          n->par = cur;
          cur->c.push_back(n);
          if (cur->t == 'o') { n->hasKey = true; n->key = key; }
        } else root = n;
        return n;
      };
      if (T.numend[m] && to != 'n') { MNode *n = add('n'); n->raw.assign(s + start, i - start); }
      if (from == 's' && to == 'w') {
        if (q) key.assign(s + start, i - start);
        else { MNode *n = add('s'); n->raw.assign(s + start, i - start); }
      }
      if (from == 'l' && to == 'w') {
        string lit(s + start, i + 1 - start);
        MNode *n = add(lit == "null" ? 'z' : 'b');
        n->raw = lit;
      }
      if (from == 'w' && to == 's') start = i + 1;
      if (from == 'w' && (to == 'n' || to == 'l')) start = i;
      if (c.op == 'A') cur = add('a');
      else if (c.op == 'O') cur = add('o');
      else if (c.op == '-') cur = cur->par;
    }
    if (res && c.emit) res->out += s[i];
    if (c.op == 'A') st.push_back('a');
    else if (c.op == 'O') st.push_back('o');
    else if (c.op == '-') st.pop_back();
    m = c.m;
    q = c.q;
  }
  if (!st.empty() || !T.acc[m]) return false;
  if (pool && T.numend[m]) {
    MNode *n = pool->mk();
    n->t = 'n';
    n->raw.assign(s + start, len - start);
    root = n;
  }
  if (res) { res->ok = true; res->root = root; }
  return true;
}
static bool isJson(const string &s) { return runText(s.data(), s.size(), nullptr, nullptr); }

static bool strBody(const string &s) {
  static const int mS = modeId("s");
  int m = mS;
  for (unsigned char b : s) {
    const Cell &c = cell(m, 0, 0, b);
    if (c.m < 0 || T.cls[c.m] != 's') return false;
    m = c.m;
  }
  return m == mS;
}
static bool numText(const string &s) {
  static const int mV = modeId("v");
  int m = mV;
  for (unsigned char b : s) {
    const Cell &c = cell(m, 0, 0, b);
    if (c.m < 0 || T.cls[c.m] != 'n') return false;
    m = c.m;
  }
  return T.numend[m];
}
static int hexv(unsigned char c) { return c <= '9' ? c - '0' : (c | 32) - 'a' + 10; }
static string decode(const string &s) { // of a valid body
  string o;
  for (size_t i = 0; i < s.size();) {
    if (s[i] != '\\') { o += s[i++]; continue; }
    if (s[i + 1] != 'u') { o += (char)T.simple[(unsigned char)s[i + 1]]; i += 2; continue; }
    auto unit = [&](size_t p) { return hexv(s[p]) << 12 | hexv(s[p + 1]) << 8 | hexv(s[p + 2]) << 4 | hexv(s[p + 3]); };
    int u = unit(i + 2);
    if (u >= 0xD800 && u < 0xDC00) {
      int l = unit(i + 8);
      auto &h = T.hi[u - 0xD800];
      auto &w = T.lo[l - 0xDC00];
      o += (char)h[0]; o += (char)h[1]; o += (char)(h[2] + w[0]); o += (char)w[1];
      i += 12;
    } else { o += T.u8[u]; i += 6; }
  }
  return o;
}
// is body an escaped form of bytes (ZStr!EscapedForm)?
static bool escapedForm(const string &body, const string &bytes) {
  if (!strBody(body)) return false;
  size_t i = 0;
  for (unsigned char b : bytes) {
    if (i >= body.size()) return false;
    if (!T.needs[b]) { if ((unsigned char)body[i] != b) return false; i++; continue; }
    if (body[i] != '\\' || i + 1 >= body.size()) return false;
    if (body[i + 1] == 'u') {
      if (i + 6 > body.size()) return false;
      int u = hexv(body[i + 2]) << 12 | hexv(body[i + 3]) << 8 | hexv(body[i + 4]) << 4 | hexv(body[i + 5]);
      if (u != b) return false;
      i += 6;
    } else { if (T.simple[(unsigned char)body[i + 1]] != b) return false; i += 2; }
  }
  return i == body.size();
}
// exact decimal denoted by a number text (ZNum!Denotes), as a normalised string
static string denotes(const string &s) {
  size_t i = 0;
  bool neg = s[0] == '-';
  if (neg) i++;
  string d;
  long e = 0;
  while (i < s.size() && isdigit((unsigned char)s[i])) d += s[i++];
  if (i < s.size() && s[i] == '.') { i++; while (i < s.size() && isdigit((unsigned char)s[i])) { d += s[i++]; e--; } }
  if (i < s.size() && (s[i] | 32) == 'e') e += atol(s.c_str() + i + 1);
  size_t z = d.find_first_not_of('0');
  d = z == string::npos ? "" : d.substr(z);
  while (!d.empty() && d.back() == '0') { d.pop_back(); e++; }
  if (d.empty()) return "0";
  return (neg ? "-" : "") + d + "e" + std::to_string(e);
}
static bool intSpelling(const string &s) {
  if (!numText(s)) return false;
  for (char c : s) if (c != '-' && !isdigit((unsigned char)c)) return false;
  return true;
}
