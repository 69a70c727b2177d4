// Arbitrary histories over JSON values, compared with a plain tree; indexing of
// every kind of value.
#include "replay.h"
#include <json/Value.h>
#include <json/Object.h>
#include <json/Array.h>
#include <stdexcept>
#include <map>
#include <new>
#include <climits>
using replay::rnd;
static long g_live = 0;
static void* get(size_t n) { void* p = malloc(n ? n : 1); if (!p) abort(); ++g_live; return p; }
void* operator new(size_t n) { return get(n); }
void* operator new[](size_t n) { return get(n); }
void operator delete(void* p) noexcept { if (p) --g_live; free(p); }
void operator delete[](void* p) noexcept { if (p) --g_live; free(p); }
void operator delete(void* p, size_t) noexcept { if (p) --g_live; free(p); }
void operator delete[](void* p, size_t) noexcept { if (p) --g_live; free(p); }
struct Tree { int kind = json::UNDEF; long n = 0; std::string s; std::vector<Tree> a; std::map<std::string, Tree> o; };
static std::string text() { std::string s; for (int n = rnd(3) ? rnd(6) : rnd(60); n-- > 0;) s += (char)rnd(256); return s; }
static Tree tree(int depth, bool ints = true) {
  Tree t;
  switch (rnd(depth ? 6 : 4)) {
  case 0: t.kind = ints ? json::INT : json::UNDEF; t.n = (int)rnd(); if (!ints) t.n = 0; break;
  case 1: t.kind = json::BOOL; t.n = rnd(2); break;
  case 2: t.kind = json::STRING; t.s = text(); break;
  case 3: break;
  case 4: t.kind = json::ARRAY; for (int n = rnd(5); n-- > 0;) t.a.push_back(tree(depth - 1, ints)); break;
  case 5: t.kind = json::OBJECT; for (int n = rnd(5); n-- > 0;) t.o[text()] = tree(depth - 1, ints); break;
  }
  return t;
}
static json::Value make(const Tree& t) {
  switch (t.kind) {
  case json::INT: return rnd(2) ? json::Value((int)t.n) : json::Value(eni::s256((int)t.n));
  case json::BOOL: return json::Value((bool)t.n);
  case json::STRING: return t.s.find('\0') == std::string::npos && rnd(2) ? json::Value(t.s.c_str()) : json::Value(t.s);
  case json::ARRAY: { json::Array a; for (size_t i = 0; i < t.a.size(); ++i) a.push_back(make(t.a[i])); return json::Value(a); }
  case json::OBJECT: { json::Object o; for (auto& p : t.o) o[p.first] = make(p.second); return json::Value(o); }
  }
  return json::Value();
}
static std::string show(const Tree& t) {
  static const char* N[] = {"integer ", "boolean ", "string ", "object ", "array ", "undefined"};
  std::string s = t.kind == json::INT ? "integer " + std::to_string(t.n) : t.kind == json::BOOL ? t.n ? "true" : "false" : t.kind == json::STRING ? replay::show(t.s) : t.kind == json::UNDEF ? "undefined" : "";
  if (t.kind == json::ARRAY) { s = "["; for (auto& x : t.a) s += show(x) + ","; s += "]"; }
  if (t.kind == json::OBJECT) { s = "{"; for (auto& x : t.o) s += replay::show(x.first) + ":" + show(x.second) + ","; s += "}"; }
  (void)N; return s;
}
static void same(const json::Value& v, const Tree& t, const char* what) {
  std::string w = what;
  CHECK((int)v.type() == t.kind, w + ": kind differs");
  CHECK(v.isInteger() == (t.kind == json::INT) && v.isBoolean() == (t.kind == json::BOOL) && v.isString() == (t.kind == json::STRING) && v.isObject() == (t.kind == json::OBJECT) && v.isArray() == (t.kind == json::ARRAY) && v.isUndefined() == (t.kind == json::UNDEF), w + ": kind query wrong");
  if (t.kind == json::INT) CHECK(v.toInteger() == eni::s256(t.n), w + ": integer differs");
  if (t.kind == json::BOOL) CHECK(v.toBoolean() == (bool)t.n, w + ": boolean differs");
  if (t.kind == json::STRING) CHECK(v.toString() == t.s, w + ": string differs");
  if (t.kind == json::ARRAY) { CHECK(v.toArray().size() == t.a.size(), w + ": length differs"); CHECK(v.toArray().isArray(), w + ": array kind"); for (size_t i = 0; i < t.a.size(); ++i) same(v.toArray()[i], t.a[i], what); }
  if (t.kind == json::OBJECT) { CHECK(v.toObject().size() == t.o.size(), w + ": number of entries differs"); CHECK(v.toObject().isObject(), w + ": object kind"); for (auto& p : t.o) same(v.toObject().at(p.first), p.second, what); }
}
// later changes
static void change(json::Value& v, Tree& t) {
  switch (t.kind) {
  case json::INT: v.asInteger() += 1; t.n += 1; break;
  case json::STRING: v.asString() += "x"; t.s += "x"; if (t.s.size()) { v.asString()[0] = 'q'; t.s[0] = 'q'; } break;
  case json::ARRAY: if (t.a.size()) { size_t i = rnd(t.a.size()); change(v.asArray().at(i), t.a[i]); } if (rnd(2)) { v.asArray().push_back(json::Value(true)); Tree b; b.kind = json::BOOL; b.n = 1; t.a.push_back(b); } break;
  case json::OBJECT: if (t.o.size()) { auto i = t.o.begin(); if (rnd(3)) change(v.asObject().at(i->first), i->second); else { v.asObject().erase(i->first); t.o.erase(i); } } break;
  }
}
static void index(const json::Value& v, const Tree& t) {
  for (int k = 0; k < 4; ++k) {
    std::string key = t.o.size() && rnd(2) ? std::next(t.o.begin(), rnd(t.o.size()))->first : text(); int r = -1; Tree u;
    try { const json::Value& x = v[key]; r = 0; if (t.kind == json::OBJECT) { CHECK(t.o.count(key), "indexing by an absent key reports no error"); same(x, t.o.at(key), "the entry of the key"); CHECK(&x == &v.toObject().at(key), "the entry itself"); } else same(x, u, "a value that is not an object, by key"); }
    catch (const std::out_of_range&) { CHECK(t.kind == json::OBJECT && !t.o.count(key), "out of range reported for a present key or a value that is no object"); r = 1; }
    catch (const std::exception& e) { replay::fail("another error is reported by key"); }
    static const int E[] = {0, 1, -1, INT_MAX, INT_MIN, INT_MIN + 1, -2, 1 << 30}; long n = t.a.size();
    int i = rnd(2) ? (int)rnd(n + 2) : rnd(2) ? E[rnd(8)] : rnd(2) ? -(int)rnd(n + 2) : (int)n;
    try { const json::Value& x = v[i]; if (t.kind == json::ARRAY) { CHECK(i >= 0 && i < n, "indexing outside the bounds reports no error: " + std::to_string(i)); same(x, t.a[i], "the element of the position"); } else same(x, u, "a value that is not an array, by position"); }
    catch (const std::out_of_range&) { CHECK(t.kind == json::ARRAY && (i < 0 || i >= n), "out of range reported for a valid position " + std::to_string(i)); }
    catch (const std::exception& e) { replay::fail("another error is reported by position"); }
  }
}
static void one() {
  Tree t = tree(rnd(4)), t2 = tree(rnd(3)); replay::begin(show(t) + " / " + show(t2));
  json::Value v = make(t); same(v, t, "construction"); index(v, t); index(json::Value(), Tree());
  { Tree c = t; json::Value w(v); same(w, t, "copy"); change(w, c); same(w, c, "changed copy"); same(v, t, "source of the copy"); }
  same(v, t, "source after the copy is destroyed");
  { Tree c = t; json::Value* w = new json::Value(v); change(v, t); same(*w, c, "copy after the source changes"); delete w; same(v, t, "source"); }
  { json::Value w = make(t2); json::Value& r = w = v; CHECK(&r == &w, "assignment returns its target"); same(w, t, "assignment"); Tree c = t; change(w, c); same(v, t, "source of the assignment"); same(w, c, "changed target"); }
  { json::Value& r = v; v = r; same(v, t, "assignment to itself"); }
  { json::Value w(v); json::Value x(std::move(w)); same(x, t, "move"); same(w, Tree(), "the moved value"); json::Value y(w); same(y, Tree(), "copy of the moved value"); }
  { json::Array* a = new json::Array; a->push_back(v); json::Object* o = new json::Object; (*o)["k"] = v; eni::s256* n = new eni::s256(7);
    Tree ta, to, ti; ta.kind = json::ARRAY; ta.a.push_back(t); to.kind = json::OBJECT; to.o["k"] = t; ti.kind = json::INT; ti.n = 7;
    json::Value x, y, z; x.delegate(*a); y.delegate(*o); z.delegate(*n); same(x, ta, "delegated array"); same(y, to, "delegated object"); same(z, ti, "delegated integer");
    CHECK(&x.asArray() == a && &y.asObject() == o && &z.asInteger() == n, "the given object is adopted");
    json::Array b; json::Object p; eni::s256 q(9); json::Value w = make(t2);
    for (int k = 0; k < 3; ++k) { bool ok = false; if (t2.kind == json::UNDEF) break; try { if (k == 0) w.delegate(b); else if (k == 1) w.delegate(p); else w.delegate(q); } catch (const std::logic_error&) { ok = true; } CHECK(ok, "delegation into a defined value reports no error"); same(w, t2, "value after failed delegation"); } }
  { json::Array a; if (rnd(2)) { a.push_back(json::Value(true)); a.push_back(v); } if (t.kind == json::ARRAY) { a = v.asArray(); json::Value w(a); same(w, t, "array assigned"); } json::Object o; if (rnd(2)) { o["u"] = json::Value(true); o[text()] = v; } if (t.kind == json::OBJECT) { o = v.asObject(); json::Value w(o); same(w, t, "object assigned"); } }
  // what is owned is released exactly once
  switch (rnd(3)) { case 0: { std::string s(100, 'x'); long b = g_live; { json::Value a(s), c(a), d(std::move(a)); } CHECK(g_live == b, "strings are not released"); break; }
    case 1: { json::Array s; long b = g_live; { json::Value a(s), c(a), d(std::move(a)); } CHECK(g_live == b, "arrays are not released"); break; }
    case 2: { json::Object s; long b = g_live; { json::Value a(s), c(a), d(std::move(a)); } CHECK(g_live == b, "objects are not released"); break; } }
}
int main(int argc, char** argv) { replay::init(argc, argv); while (!replay::up()) try { one(); } catch (const std::exception& e) { replay::fail(std::string("an error is reported: ") + e.what()); } }
