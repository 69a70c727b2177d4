#include "replay.h"
#include <adt/StringHasher.h>
using namespace eni::internal;
static void one(const std::string& s, size_t o, size_t n) {
  std::string r = s.substr(o, n);
  replay::begin("rule " + replay::show(r) + " is a substring of " + replay::show(s));
  uint32_t a = StringHasher<ES>()(r), b = StringHasher<ES>()(s);
  CHECK(StringHasher<ES>::may_include(a, b), "the filter rejects an actual substring");
  uint32_t want = 0; unsigned dots = 0;
  for (size_t i = 0; i < s.size(); ++i) {
    unsigned char c = s[i];
    if (c == '.') ++dots; else if (c >= '0' && c <= '9') want |= 1u << 27; else if (c == '_') want |= 1u << 26;
    else if (c >= 'A' && c <= 'Z') want |= 1u << (c - 'A'); else if (c >= 'a' && c <= 'z') want |= 1u << (c - 'a');
  }
  want |= (dots < 15 ? dots : 15u) << 28;
  CHECK(b == want, "characteristic value differs from the documented one (got " + replay::str(b) + ", expected " + replay::str(want) + ")");
}
int main(int argc, char** argv) {
  replay::init(argc, argv);
  for (int c = 0; c < 256; ++c) { std::string s(1, (char)c); one(s, 0, 1); one(s + ".", 0, 1); one("a" + s, 1, 1); }
  for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) { std::string s; s += (char)a; s += (char)b; one(s, 0, 2); one(s, 0, 1); one(s, 1, 1); }
  for (int n = 0; n < 600; ++n) { std::string s(n, '.'); for (int k = 0; k <= n; k += 1 + n / 50) one(s, 0, k); one(s + "a", 0, n); }
  const std::string al = "...abzABZ019_-*/ \x80\xff";
  while (!replay::up()) {
    size_t n = replay::rnd(replay::rnd(8) ? 40 : 3000);
    std::string s;
    for (size_t i = 0; i < n; ++i) s += replay::rnd(4) ? al[replay::rnd(al.size())] : (char)replay::rnd(256);
    size_t o = replay::rnd(n + 1);
    one(s, o, replay::rnd(n - o + 1));
  }
  return 0;
}
