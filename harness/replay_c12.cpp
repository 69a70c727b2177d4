// Arbitrary histories of string map operations with keys of every length and
// content, compared with std::map.
#include "replay.h"
#include <map>
#include <new>
#include <stdexcept>
#include <iterator>
#include <cstddef>
#include <adt/StringMap.h>
using replay::rnd; using replay::show;
struct V { long* p; long pad[3]; V() : p(new long(0)) { pad[2] = 0; } V(const V& o) : p(new long(*o.p)) { pad[2] = o.pad[2]; } ~V() { delete p; p = 0; } V& operator=(const V& o) { if (this != &o) { *p = *o.p; pad[2] = o.pad[2]; } return *this; } };
typedef eni::StringMap<V> T; typedef std::map<std::string, long> M;
static std::string lg;
static void say(const std::string& s) { if (lg.size() < 60000) lg += s + " "; replay::the_case = lg; }
static std::string N(long x) { return std::to_string(x); }
static std::string name(const std::string& k) { return k.size() < 40 ? show(k) : show(k.substr(0, 12)) + "..(" + N(k.size()) + " bytes)"; }
static std::string key() {
  static const size_t big[] = {127, 128, 254, 255, 256, 257, 32767, 32768, 65534, 65535, 65536, 65537, 66000, 131072};
  size_t n = rnd(12) ? rnd(5) : rnd(3) ? 15 + rnd(3) : big[rnd(sizeof(big) / sizeof(*big))];
  std::string s; int k = rnd(4);
  for (size_t i = 0; i < n; ++i) s += k == 0 ? (char)0 : k == 1 ? (char)("a\0b"[rnd(3)]) : k == 2 ? (char)('a' + (i & 1)) : n < 20 ? (char)rnd(256) : (char)'x';
  if (!s.empty() && rnd(2)) s[s.size() - 1] = (char)rnd(3);
  return s;
}
static std::string pick(const M& m) { if (m.empty() || rnd(3) == 0) return key(); M::const_iterator i = m.begin(); std::advance(i, rnd(m.size())); if (rnd(4) == 0) { std::string s = i->first; switch (rnd(4)) { case 0: return s + std::string(1, '\0'); case 1: return s.substr(0, s.size() / 2); case 2: return s.c_str(); default: if (!s.empty()) s[s.size() - 1] ^= 1; return s; } } return i->first; }
static void check(T& t, const M& m, const std::string& who, bool deep) {
  const T& c = t;
  CHECK(t.size() == m.size(), who + ": size() is " + N(t.size()) + ", keys " + N(m.size()));
  CHECK(t.empty() == m.empty(), who + ": empty()");
  if (!deep) return;
  size_t n = 0; std::map<std::string, int> seen;
  for (T::iterator i = t.begin(); i != t.end(); ++i) { CHECK(++n <= m.size(), who + ": iteration yields too much"); std::string k = i->key(); CHECK(m.count(k), who + ": iteration yields a key never stored, " + name(k)); CHECK(!seen[k]++, who + ": iteration repeats " + name(k)); CHECK(*i->value().p == m.at(k), who + ": value of " + name(k)); }
  CHECK(n == m.size(), who + ": iteration skips keys");
  for (M::const_iterator i = m.begin(); i != m.end(); ++i) try {
    CHECK(*t.at(i->first).p == i->second, who + ": at " + name(i->first)); CHECK(*c.at(i->first).p == i->second, who + ": const at " + name(i->first)); CHECK(*c[i->first].p == i->second, who + ": const index " + name(i->first));
    CHECK(t.find(i->first)->key() == i->first, who + ": stored key differs from " + name(i->first));
  } catch (std::out_of_range&) { replay::fail(who + ": stored key " + name(i->first) + " reported absent"); }
}
static void absent(T& t, const M& m, const std::string& k, const std::string& who) {
  const T& c = t;
  if (m.count(k)) return;
  for (int i = 0; i < 3; ++i) { bool r = false; try { if (i == 0) t.at(k); else if (i == 1) c.at(k); else c[k]; } catch (std::out_of_range&) { r = true; } CHECK(r, who + ": absent key " + name(k) + " not reported"); CHECK(t.size() == m.size(), who + ": checked access changed the map"); }
  CHECK(t.find(k) == t.end(), who + ": absent key " + name(k) + " found");
}
static void run() {
  static std::string k; size_t s0 = rnd(20), s1 = rnd(3) ? 8 : 0; lg = "sizes " + N(s0) + "," + N(s1) + ": "; replay::begin(lg, 20);
  T* t[2] = {new T(s0), new T(s1)}; M m[2];
  for (int n = (rnd(6) ? 30 : 200) + rnd(20); n-- > 0;) {
    int a = rnd(2), b = rnd(5) ? 1 - a : a; T& x = *t[a]; M& w = m[a]; if (k.empty() || rnd(4)) k.assign(pick(w)); else k[rnd(k.size())] ^= 1; int op = rnd(30); bool deep = rnd(8) == 0 || n < 3;
    if (op < 11) { say("index" + N(a) + name(k)); V& v = x[k]; if (w.count(k)) CHECK(*v.p == w[k], "index access changed the value of " + name(k)); *v.p = w[k] = rnd(1000); v.pad[2] = rnd(); CHECK(*x.at(k).p == w[k], "value stored under " + name(k)); deep |= k.size() > 100; }
    else if (op < 17) { say("erase" + N(a) + name(k)); bool r = x.erase(k); CHECK(r == (w.erase(k) != 0), "erase reports presence of " + name(k)); absent(x, w, k, "after erase"); }
    else if (op < 20) { say("absent" + N(a) + name(k)); absent(x, w, k, "lookup"); }
    else if (op == 20) { say("set" + N(a) + name(k)); T::iterator f = x.find(k); CHECK((f != x.end()) == (w.count(k) != 0), "find of " + name(k)); if (w.count(k)) { V v; *v.p = w[k] = rnd(1000); v.pad[2] = -1; f->setValue(v); CHECK(f->key() == k, "the key after setting its value"); } }
    else if (op == 21) { say("assign" + N(a) + "=" + N(b)); T& r = (x = *t[b]); CHECK(&r == &x, "assignment returns the assigned map"); m[a] = m[b]; deep = true; }
    else if (op == 22) { say("move" + N(a) + "=" + N(b)); T& r = (x = std::move(*t[b])); CHECK(&r == &x, "move assignment returns the assigned map"); if (a != b) { m[a] = m[b]; delete t[b]; t[b] = new T; m[b].clear(); } deep = true; }
    else if (op == 23) { say("copy-construct" + N(a) + "from" + N(b)); T* z = new T(*t[b]); check(*z, m[b], "copy", true); if (a != b) { delete t[a]; t[a] = z; m[a] = m[b]; } else { M mz = m[b]; *(*z)[k].p = 5; mz[k] = 5; check(*z, mz, "copy", true); delete z; } deep = true; }
    else if (op == 24) { say("move-construct from" + N(b)); T* z = new T(std::move(*t[b])); check(*z, m[b], "moved", true); delete t[b]; t[b] = z; deep = true; }
    else if (op == 25) { size_t z = rnd(50); say("fresh" + N(a)); delete t[a]; t[a] = new T(z); m[a].clear(); deep = true; }
    else if (op < 28) { int z = rnd(40); say("fill" + N(a) + "x" + N(z)); while (z-- > 0) { std::string q = key(); *x[q].p = w[q] = z; } deep = true; }
    else { say("erase-all" + N(a)); while (!w.empty()) { std::string q = w.begin()->first; CHECK(x.erase(q), "erase of " + name(q)); w.erase(q); check(x, w, "erasing", false); } deep = true; }
    for (int q = 0; q < 2; ++q) check(*t[q], m[q], "map " + N(q), deep);
  }
  delete t[0]; delete t[1];
}
int main(int argc, char** argv) {
  replay::init(argc, argv);
  do { try { run(); } catch (const std::exception& e) { replay::fail(std::string("an error is reported for a valid operation: ") + e.what()); } } while (!replay::up());
}
