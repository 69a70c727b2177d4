// Arbitrary histories of vector operations, compared with std::vector.
#include "replay.h"
#include <adt/Vector.h>
#include <stdexcept>
using replay::rnd;
struct S { long a; long b; S(long x = 0) : a(x), b(~x) {} S(const S& o) : a(o.a), b(o.b) {} S& operator=(const S& o) { a = o.a; b = o.b; return *this; } bool operator==(const S& o) const { return a == o.a && (b == o.b); } };
static long num(const S& s) { return s.a; }
static long num(int s) { return s; }
static const size_t BIG[] = {(size_t)-1, (size_t)-2, (size_t)1 << 63, ((size_t)1 << 63) - 1, (size_t)1 << 62, (size_t)1 << 61, ((size_t)1 << 60) + 1, ((size_t)1 << 63) / 16, ((size_t)1 << 63) / 16 + 1};
static size_t big() { return BIG[rnd(sizeof BIG / sizeof *BIG)]; }
template<class T> struct Run {
  typedef eni::Vector<T> V; typedef std::vector<T> M;
  typedef typename V::iterator It; typedef typename V::const_iterator Ci;
  std::string log;
  void check(V& v, const M& m) {
    CHECK(v.size() == m.size(), "size differs from the sequence: " + log);
    CHECK(v.empty() == m.empty(), "empty() wrong");
    CHECK(v.capacity() >= v.size(), "capacity below size: " + log);
    for (size_t i = 0; i < m.size(); ++i) CHECK(v[i] == m[i] && v.at(i) == m[i], "element " + std::to_string(i) + " differs: " + log);
    const V& c = v; size_t k = 0;
    if (m.size()) { Ci e = c.end(); for (It i = v.begin(); i != v.end(); ++i) { CHECK(k < m.size() && *i == m[k], "iteration differs: " + log); ++k; } CHECK(k == m.size(), "iteration ends early: " + log);
      CHECK(v.front() == m.front() && v.back() == m.back(), "front/back");
      size_t a = rnd(m.size() + 1), b = rnd(m.size() + 1); It x = v.begin() + a, y = v.begin() + b;
      CHECK((x < y) == (a < b) && (x > y) == (a > b) && (x <= y) == (a <= b) && (x >= y) == (a >= b) && (x == y) == (a == b) && (x != y) == (a != b) && (x - y) == (long)a - (long)b, "iterator comparison");
      if (a < m.size()) { CHECK(v.begin()[a] == m[a] && *(v.end() - (m.size() - a)) == m[a], "iterator arithmetic"); It z = x; CHECK(z++ == x && z == x + 1 && --z == x && (z += 1) == x + 1 && (z -= 1) == x && ++z == x + 1 && z-- == x + 1 && z == x, "iterator steps"); } }
  }
  template<class F> void throws(V& v, const M& m, int kind, const std::string& what, F f) {
    log += what + " "; bool ok = false;
    try { f(); } catch (const std::out_of_range&) { ok = kind == 0; } catch (const std::length_error&) { ok = kind == 1; } catch (const std::exception&) {}
    CHECK(ok, "no (or another) error reported for " + what + " after " + log); check(v, m);
  }
  void go(const char* name) {
    V v; M m; log = std::string(name) + ": "; replay::begin(log);
    try { steps(v, m); } catch (const std::exception& e) { replay::fail(std::string("an error is reported for a valid operation: ") + e.what() + " in " + log); }
  }
  void steps(V& v, M& m) {
    for (int n = rnd(20) + 1; n-- > 0;) {
      size_t z = m.size(), i = rnd(z + 1), j = i + rnd(z - i + 1), c = rnd(5) ? rnd(6) : rnd(40);
      T x((long)(int)rnd(1000)); bool own = z && rnd(2); size_t w = own ? rnd(z) : 0; T val = own ? m[w] : x;
#define X (own ? v[w] : x)
      M src; for (size_t k = c; k-- > 0;) src.push_back(T((long)(int)rnd(1000)));
      const T* sb = src.data(); const T* se = sb + src.size();
      int op = rnd(32); log += std::to_string(op) + "(" + std::to_string(i) + "," + std::to_string(j) + "," + std::to_string(c) + (own ? ",own" + std::to_string(w) : "") + ") "; replay::the_case = log;
      switch (op) {
      case 0: case 1: v.push_back(X); m.push_back(val); break;
      case 2: v.emplace_back(X); m.push_back(val); break;
      case 3: v.resize(c, X); m.resize(c, val); break;
      case 4: v.resize(c); m.resize(c, T()); break;
      case 5: v.assign(c, X); m.assign(c, val); break;
      case 6: v.assign(Ci(sb), Ci(se)); m = src; break;
      case 7: v.insert(i, X); m.insert(m.begin() + i, val); break;
      case 8: v.insert(i, c, X); m.insert(m.begin() + i, c, val); break;
      case 9: v.insert(i, Ci(sb), Ci(se)); m.insert(m.begin() + i, src.begin(), src.end()); break;
      case 10: { It r = v.insert(v.begin() + i, X); m.insert(m.begin() + i, val); CHECK((size_t)(r - v.begin()) == i, "insert returns the position"); break; }
      case 11: { It r = v.insert(v.begin() + i, c, X); m.insert(m.begin() + i, c, val); CHECK((size_t)(r - v.begin()) == i, "insert returns the position"); break; }
      case 12: { It r = v.insert(v.begin() + i, Ci(sb), Ci(se)); m.insert(m.begin() + i, src.begin(), src.end()); CHECK((size_t)(r - v.begin()) == i, "insert returns the position"); break; }
      case 13: if (j > i) { v.erase(i, j); m.erase(m.begin() + i, m.begin() + j); } else throws(v, m, 0, "erase of an empty range", [&] { v.erase(i, j); }); break;
      case 14: if (i < z) { v.erase(i); m.erase(m.begin() + i); } else throws(v, m, 0, "erase at the end", [&] { v.erase(i); }); break;
      case 15: if (i < z) { It r = v.erase(v.begin() + i); m.erase(m.begin() + i); CHECK((size_t)(r - v.begin()) == i, "erase returns the position"); } else throws(v, m, 0, "erase(end())", [&] { v.erase(v.end()); }); break;
      case 16: if (j > i) { It r = v.erase(v.begin() + i, v.begin() + j); m.erase(m.begin() + i, m.begin() + j); CHECK((size_t)(r - v.begin()) == i, "erase returns the position"); } break;
      case 17: if (z) { T r = v.pop_back(); CHECK(r == m.back(), "pop_back returns the last element: " + log); m.pop_back(); } break;
      case 18: { V o(src); v.swap(o); check(o, m); m.swap(src); break; }
      case 19: if (!rnd(4)) { v.clear(); m.clear(); } break;
      case 20: v.reserve(c); CHECK(v.capacity() >= c, "reserve"); break;
      case 21: { V o(v); check(o, m); o.push_back(x); if (z) o[0] = x; check(v, m); break; }
      case 22: { V o(c, x); check(o, M(c, x)); o = v; check(o, m); o.push_back(x); check(v, m); break; }
      case 23: { V& r = v; r = v; break; }
      case 24: { V o(src); check(o, src); V p{x, val, x}; check(p, M{x, val, x}); p = {val}; check(p, M{val}); p.assign({x, x}); check(p, M{x, x}); p.insert(1, {val, x}); check(p, M{x, val, x, x}); p.insert(p.begin() + 4, {val}); check(p, M{x, val, x, x, val}); break; }
      case 25: { V o; o = V(src); check(o, src); V q(c); CHECK(q.size() == c, "sized construction"); break; }
      case 26: { size_t p = rnd(2) ? z : rnd(2) ? z + c : big(); if (p >= z) { throws(v, m, 0, "at", [&] { v.at(p); }); const V& cv = v; throws(v, m, 0, "const at", [&] { cv.at(p); }); } break; }
      case 27: { size_t p = rnd(2) ? z + 1 : big(); throws(v, m, 0, "insert position", [&] { v.insert(p, x); }); throws(v, m, 0, "insert n position", [&] { v.insert(p, c, x); }); throws(v, m, 0, "insert range position", [&] { v.insert(p, Ci(sb), Ci(se)); }); break; }
      case 28: { size_t p = rnd(2) ? z + 1 : big(); throws(v, m, 0, "erase range", [&] { v.erase(i, p); }); throws(v, m, 0, "erase position", [&] { v.erase(rnd(2) ? z : p); }); throws(v, m, 0, "erase reversed", [&] { v.erase(p, i); }); break; }
      case 29: { size_t p = big(); if (p > v.max_size()) { throws(v, m, 1, "resize", [&] { v.resize(p, x); }); throws(v, m, 1, "resize", [&] { v.resize(p); }); throws(v, m, 1, "reserve", [&] { v.reserve(p); }); throws(v, m, 1, "assign", [&] { v.assign(p, x); }); } break; }
      case 30: { size_t p = big(); if (p > v.max_size()) { throws(v, m, 1, "insert", [&] { v.insert(i, p, x); }); throws(v, m, 1, "construction", [&] { V o(p); }); throws(v, m, 1, "construction", [&] { V o(p, x); }); } break; }
      case 31: CHECK(v.max_size() == (size_t)std::numeric_limits<ptrdiff_t>::max() / sizeof(T), "max_size"); break;
      }
      check(v, m);
    }
  }
};
int main(int argc, char** argv) {
  replay::init(argc, argv);
  while (!replay::up()) { Run<int> a; a.go("int"); Run<S> b; b.go("struct"); }
}
