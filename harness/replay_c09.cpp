// Arbitrary histories of hash table operations, compared with std::map, under
// hashers that collide in every possible way.
#include "replay.h"
#include <map>
#include <set>
#include <new>
#include <iterator>
#include <adt/HashTable.h>
using replay::rnd;
static int mode;
static unsigned mix(unsigned x) { switch (mode) { case 0: return 7; case 1: return x & 3; case 2: return x; case 3: return 0; case 4: return x * 2654435761u; case 5: return 0xffffffffu - (x & 1); case 6: return x * 17; default: return x / 3 + 14; } }
struct K { long* p; K(long x) : p(new long(x)) {} K(const K& o) : p(new long(*o.p)) {} ~K() { delete p; p = 0; } bool operator==(const K& o) const { return *p == *o.p; } private: K& operator=(const K&); };
struct V { long* p; V() : p(new long(0)) {} V(const V& o) : p(new long(*o.p)) {} ~V() { delete p; p = 0; } V& operator=(const V& o) { if (this != &o) *p = *o.p; return *this; } };
struct H { unsigned operator()(const K& k) const { return mix((unsigned)*k.p); } };
typedef eni::HashTable<K, V, H> T; typedef std::map<long, long> M;
static std::string lg;
static void say(const std::string& s) { lg += s + " "; replay::the_case = lg; }
static std::string N(long x) { return std::to_string(x); }
static void check(T& t, const M& m, const std::string& who, bool deep) {
  CHECK(t.numOfEntries() == m.size(), who + ": the entry count is " + N(t.numOfEntries()) + ", stored keys " + N(m.size()));
  CHECK(t.empty() == m.empty(), who + ": empty()");
  if (!deep) return;
  const T& c = t; std::set<long> seen; size_t n = 0;
  for (T::iterator i = t.begin(); i != t.end(); ++i) { CHECK(++n <= m.size(), who + ": iteration yields too much"); long k = *i->key().p; CHECK(m.count(k) && seen.insert(k).second, who + ": iteration yields an erased or repeated key " + N(k)); CHECK(*i->value().p == m.at(k), who + ": iteration, value of " + N(k)); T::iterator j = t.find(K(k)); CHECK(j == i, who + ": find differs from iteration"); }
  CHECK(n == m.size(), who + ": iteration skips entries");
  n = 0; for (T::const_iterator i = c.begin(); i != c.end(); i++) { CHECK(++n <= m.size(), who + ": const iteration yields too much"); CHECK(m.count(*i->key().p), who + ": const iteration"); }
  CHECK(n == m.size(), who + ": const iteration skips entries");
  for (M::const_iterator i = m.begin(); i != m.end(); ++i) { T::iterator f = t.find(K(i->first)); CHECK(f != t.end(), who + ": stored key " + N(i->first) + " not found"); CHECK(*f->key().p == i->first && *f->value().p == i->second, who + ": wrong entry for key " + N(i->first)); }
}
static void chain(T& t, const M& m, long k) {
  K key(k); size_t n = 0; std::set<const void*> seen; unsigned h = mix((unsigned)k); const T& c = t;
  for (T::chain_iterator i = t.begin(key); i != t.end(key); ++i) { T::entry_type* e = i.operator->(); CHECK(e, "a walk yields a missing entry"); long x = *e->key().p; CHECK(n || x == k, "a walk does not start at its key"); CHECK(m.count(x) && mix((unsigned)x) == h && seen.insert(e).second, "a walk yields another or a repeated entry"); ++n; }
  size_t want = 0; for (M::const_iterator i = m.begin(); i != m.end(); ++i) want += mix((unsigned)i->first) == h;
  CHECK(n == (m.count(k) ? want : 0), "a walk of " + N(k) + " visits " + N(n) + " entries");
  n = 0; for (T::const_chain_iterator i = c.begin(key); i != c.end(key); ++i) ++n;
  CHECK(n == (m.count(k) ? want : 0), "a const walk of " + N(k) + " visits " + N(n) + " entries");
  CHECK((c.count(key) != 0) == (m.count(k) != 0), "count of key " + N(k));
}
static void fill(T& t, M& m, int n, int range) { for (; n > 0; --n) { long k = rnd(range); bool x; T::entry_type* e = t.insert(K(k), x); CHECK(x == (m.count(k) != 0), "insert reports presence"); if (!x) { V v; *v.p = rnd(1000); e->setValue(v); m[k] = *v.p; } } }
static void run() {
  mode = rnd(8); int range = rnd(3) ? 12 : 60 + rnd(200); lg = "hasher " + N(mode) + ": "; size_t s0 = rnd(6), s1 = rnd(40);
  say("sizes " + N(s0) + "," + N(s1)); replay::begin(lg, 20);
  T* t[2] = {new T(s0), new T(s1)}; M m[2];
  for (int n = (rnd(6) ? 40 : 400) + rnd(20); n-- > 0;) {
    int a = rnd(2), b = rnd(5) ? 1 - a : a; long k = rnd(range); T& x = *t[a]; M& w = m[a]; int op = rnd(30); bool deep = rnd(8) == 0 || n < 3;
    if (op < 9) { say("insert" + N(a) + "(" + N(k) + ")"); bool ex = !w.count(k); bool al = w.count(k) && rnd(2); T::iterator f = al ? x.find(K(k)) : x.end(); K own(k); T::entry_type* e = x.insert(al ? f->key() : own, ex);
      CHECK(ex == (w.count(k) != 0), "insert reports presence of " + N(k)); CHECK(e && *e->key().p == k, "insert returns the entry of the key"); if (ex) CHECK(*e->value().p == w[k], "insert of a present key changed its value"); else { V v; *v.p = rnd(1000); e->setValue(v); w[k] = *v.p; } CHECK(x.find(K(k)).operator->() == e, "insert returns another entry than find"); }
    else if (op < 16) { say("erase" + N(a) + "(" + N(k) + ")"); bool al = w.count(k) && rnd(2); T::iterator f = al ? x.find(K(k)) : x.end(); K own(k); bool r = x.erase(al ? f->key() : own); CHECK(r == (w.erase(k) != 0), "erase reports presence of " + N(k)); CHECK(x.find(K(k)) == x.end(), "an erased key is found"); }
    else if (op < 18) { say("find" + N(a) + "(" + N(k) + ")"); T::iterator f = x.find(K(k)); const T& c = x; T::const_iterator g = c.find(K(k)); CHECK((f != x.end()) == (w.count(k) != 0) && (g != c.end()) == (w.count(k) != 0), "find of " + N(k)); if (w.count(k)) CHECK(*f->value().p == w[k] && *g->value().p == w[k], "value found for " + N(k)); }
    else if (op == 18) { say("rehash" + N(a)); x.rehash(); deep = true; }
    else if (op == 19) { size_t z = rnd(3) ? rnd(2 * w.size() + 3) : rnd(300); say("rehash" + N(a) + "(" + N(z) + ")"); x.rehash(z); deep = true; }
    else if (op == 20) { say("clear" + N(a)); x.clear(); w.clear(); deep = true; }
    else if (op == 21) { say("assign" + N(a) + "=" + N(b)); T& r = (x = *t[b]); CHECK(&r == &x, "assignment returns the table"); m[a] = m[b]; deep = true; }
    else if (op == 22) { say("move" + N(a) + "=" + N(b)); T& r = (x = std::move(*t[b])); CHECK(&r == &x, "move assignment returns the table"); if (a != b) { m[a] = m[b]; m[b].clear(); check(*t[b], m[b], "moved-from", true); } deep = true; }
    else if (op == 23) { say("copy-construct" + N(a) + "from" + N(b)); T* z = new T(*t[b]); if (a != b) { delete t[a]; t[a] = z; m[a] = m[b]; } else { check(*z, m[b], "copy", true); M mz = m[b]; fill(*z, mz, 5, range); z->erase(K(k)); mz.erase(k); check(*z, mz, "copy", true); delete z; } deep = true; }
    else if (op == 24) { say("move-construct" + N(a) + "from" + N(b)); T* z = new T(std::move(*t[b])); M mz = m[b]; m[b].clear(); check(*t[b], m[b], "moved-from", true); delete t[a]; t[a] = z; m[a] = mz; if (a == b) {} deep = true; }
    else if (op == 25) { size_t z = rnd(50); say("fresh" + N(a) + "(" + N(z) + ")"); delete t[a]; t[a] = new T(z); m[a].clear(); deep = true; }
    else if (op == 26) { int z = rnd(40); say("fill" + N(a) + "x" + N(z)); fill(x, w, z, range); deep = true; }
    else if (op < 29) { say("chain" + N(a) + "(" + N(k) + ")"); chain(x, w, k); }
    else { say("erase-all" + N(a)); while (!w.empty()) { long q = w.begin()->first; CHECK(x.erase(K(q)), "erase of " + N(q)); w.erase(q); check(x, w, "erasing", false); } deep = true; }
    for (int q = 0; q < 2; ++q) check(*t[q], m[q], "table " + N(q), deep);
  }
  delete t[0]; delete t[1];
}
int main(int argc, char** argv) {
  replay::init(argc, argv);
  do { try { run(); } catch (const std::exception& e) { replay::fail(std::string("an error is reported for a valid operation: ") + e.what()); } } while (!replay::up());
}
