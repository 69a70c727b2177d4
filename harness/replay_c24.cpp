// Arbitrary values of every integer type, against schoolbook conversion of their words.
#include "replay.h"
#include <eni_types.h>
#include <algorithm>
using replay::rnd;
static std::string dec(std::vector<uint32_t> w) {      // most significant first
  std::string r;
  for (;;) {
    uint64_t c = 0; bool any = false;
    for (uint32_t& x : w) { c = c << 32 | x; x = c / 10; c %= 10; any |= x != 0; }
    r += (char)('0' + c);
    if (!any) break;
  }
  return std::string(r.rbegin(), r.rend());
}
template<class T> static void one(const char* name, int words, bool neg, const std::vector<uint32_t>& w) {
  T v = 0;
  for (uint32_t x : w) { v <<= 32; v |= x; }
  if (neg) v = 0 - v;
  std::string want = dec(w);
  if (neg && want != "0") want = "-" + want;
  replay::begin(std::string(name) + " value " + want);
  std::string got = eni::to_string(v);
  CHECK(got == want, "text " + replay::show(got));
}
static std::vector<uint32_t> word(int n) {
  std::vector<uint32_t> w(n);
  int used = rnd(n + 1);
  for (int i = n - used; i < n; ++i) switch (rnd(5)) { case 0: w[i] = 0; break; case 1: w[i] = ~0u; break; case 2: w[i] = 1u << rnd(32); break; default: w[i] = (uint32_t)rnd(65536) << 16 | rnd(65536); }
  if (!rnd(8)) { for (int i = 0; i < n; ++i) w[i] = 0; w[n - 1] = rnd(300); }
  return w;
}
int main(int c, char** v) {
  replay::init(c, v);
  for (int b = 0; b < 2; ++b) { replay::begin(b ? "true" : "false"); CHECK(eni::to_string<eni::Bool>(b) == (b ? "true" : "false"), "text " + eni::to_string<eni::Bool>(b)); }
  while (!replay::up()) {
    one<eni::u64>("u64", 2, false, word(2)); one<eni::u128>("u128", 4, false, word(4)); one<eni::u160>("u160", 5, false, word(5));
    one<eni::u256>("u256", 8, false, word(8)); one<eni::s256>("s256", 8, rnd(2), word(8));
  }
  return 0;
}
