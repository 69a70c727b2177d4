// Arbitrary trees of values, printed and read back by an independent reader.
#include "replay.h"
#include <json/Value.h>
#include <json/Array.h>
#include <json/Object.h>
#include <map>
#include <memory>
using replay::show; using replay::rnd;
struct T { int k; bool b; std::string s; std::vector<T> a; std::map<std::string, T> o; };   // 0 bool 1 int 2 string 3 array 4 object
static std::string rstr() { std::string r; for (int n = rnd(4) ? rnd(4) : rnd(12); n-- > 0;) r += rnd(3) ? (char)("ab\"\\,:{}[]"[rnd(10)]) : (char)rnd(256); return r; }
static T gen(int d) {
  T t; t.b = rnd(2); t.k = rnd(d > 3 ? 3 : 5);
  if (t.k == 1) { t.s = std::to_string((long)(int)rnd() >> rnd(31)); }
  if (t.k == 2) t.s = rstr();
  if (t.k == 3 && !d && !rnd(30)) { for (int n = rnd(1200); n-- > 0;) { T e; e.k = 0; e.b = rnd(2); t.a.push_back(e); } return t; }
  if (t.k == 3) for (int n = rnd(5); n-- > 0;) t.a.push_back(gen(d + 1));
  if (t.k == 4) for (int n = rnd(6) ? rnd(5) : rnd(3) || d ? rnd(40) : rnd(600); n-- > 0;) t.o[rstr()] = gen(d + 1);
  return t;
}
static json::Value build(const T& t) {
  switch (t.k) {
    case 0: return json::Value(t.b); case 1: return json::Value(eni::s256(t.s)); case 2: return json::Value(t.s);
    case 3: { json::Array a; for (auto& e : t.a) a.push_back(build(e)); return json::Value(a); }
    default: { json::Object o; for (auto& e : t.o) { if (!rnd(3)) { std::string x = rstr() + "!"; if (!t.o.count(x)) { o[x] = json::Value(1); o.erase(x); } } o[e.first] = build(e.second); } return json::Value(o); }
  }
}
struct R { const std::string& t; size_t i; };
static void ws(R& r) { while (r.i < r.t.size() && (r.t[r.i] == ' ' || r.t[r.i] == '\n' || r.t[r.i] == '\t' || r.t[r.i] == '\r')) ++r.i; }
static bool lit(R& r, const std::string& w) { if (r.t.compare(r.i, w.size(), w)) return false; r.i += w.size(); return true; }
static bool str(R& r, std::string& o) {
  if (!lit(r, "\"")) return false;
  while (r.i < r.t.size()) {
    unsigned char c = r.t[r.i++];
    if (c == '"') return true;
    if (c < 0x20) return false;
    if (c != '\\') { o += (char)c; continue; }
    if (r.i >= r.t.size()) return false;
    c = r.t[r.i++];
    if (c == 'u') { if (r.i + 4 > r.t.size()) return false; for (int k = 0; k < 4; ++k) if (!isxdigit((unsigned char)r.t[r.i + k])) return false; o += (char)strtol(r.t.substr(r.i, 4).c_str(), 0, 16); r.i += 4; }
    else { const char* p = strchr("\"\\/bfnrt", c); if (!p || !c) return false; o += "\"\\/\b\f\n\r\t"[p - "\"\\/bfnrt"]; }
  }
  return false;
}
static bool rd(R& r, T& t) {
  ws(r); if (r.i >= r.t.size()) return false;
  char c = r.t[r.i];
  if (c == 't') { t.k = 0; t.b = true; return lit(r, "true"); }
  if (c == 'f') { t.k = 0; t.b = false; return lit(r, "false"); }
  if (c == '"') { t.k = 2; return str(r, t.s); }
  if (c == '[') {
    t.k = 3; ++r.i; ws(r); if (lit(r, "]")) return true;
    for (;;) { T e; if (!rd(r, e)) return false; t.a.push_back(e); ws(r); if (lit(r, "]")) return true; if (!lit(r, ",")) return false; }
  }
  if (c == '{') {
    t.k = 4; ++r.i; ws(r); if (lit(r, "}")) return true;
    for (;;) { T e; std::string k; ws(r); if (!str(r, k)) return false; ws(r); if (!lit(r, ":") || !rd(r, e)) return false; if (t.o.count(k)) return false; t.o[k] = e; ws(r); if (lit(r, "}")) return true; if (!lit(r, ",")) return false; }
  }
  t.k = 1; if (c == '-') { t.s = "-"; ++r.i; }
  size_t n = t.s.size(); while (r.i < r.t.size() && isdigit((unsigned char)r.t[r.i])) t.s += r.t[r.i++];
  return t.s.size() > n && (t.s[n] != '0' || t.s.size() == n + 1);
}
static bool eq(const T& a, const T& b) {
  if (a.k != b.k) return false;
  switch (a.k) { case 0: return a.b == b.b; case 1: case 2: return a.s == b.s;
    case 3: { if (a.a.size() != b.a.size()) return false; for (size_t i = 0; i < a.a.size(); ++i) if (!eq(a.a[i], b.a[i])) return false; return true; }
    default: { if (a.o.size() != b.o.size()) return false; for (auto& e : a.o) { auto q = b.o.find(e.first); if (q == b.o.end() || !eq(e.second, q->second)) return false; } return true; } }
}
static std::string desc(const T& t) {
  switch (t.k) { case 0: return t.b ? "true" : "false"; case 1: return t.s; case 2: return show(t.s);
    case 3: { std::string r = "["; for (auto& e : t.a) r += desc(e) + " "; return r + "]"; } default: { std::string r = "{"; for (auto& e : t.o) r += show(e.first) + ":" + desc(e.second) + " "; return r + "}"; } }
}
static void one() {
  T t = gen(rnd(3)), u;
  replay::begin("value " + desc(t));
  json::Value v = build(t); std::ostringstream o, o2; v.print(o); std::string s = o.str();
  R r{s, 0}; bool ok = rd(r, u); if (ok) { ws(r); ok = r.i == s.size(); }
  CHECK(ok, "not well-formed: " + show(s));
  CHECK(eq(t, u), "prints other content: " + show(s));
  v.print(o2); CHECK(o2.str() == s, "printing again differs: " + show(o2.str()));
}
int main(int c, char** v) { replay::init(c, v); while (!replay::up()) for (int i = 0; i < 50; ++i) one(); return 0; }
