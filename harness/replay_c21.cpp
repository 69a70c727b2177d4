// The reverse operation on argument lists starting with a string.
#include "replay.h"
#include "eni_reverse.cpp"
using replay::show; using replay::rnd;
static void one(int n, const std::string& txt) {
  json::Array a, ret;
  a.push_back(json::Value(txt));
  for (int i = 1; i < n; ++i) a.push_back(json::Value("more"));
  replay::begin("reverse arguments " + replay::str(n) + " text " + show(txt));
  Reverse op("[]"); eni::EniBase& b = op;
  CHECK(b.parse(a), "argument verdict");
  CHECK(b.gas() == txt.size() * 10, "gas");
  CHECK(b.run(ret), "run verdict");
  CHECK(ret.size() == 1 && ret[0].isString(), "one string is returned");
  CHECK(ret[0].toString() == std::string(txt.rbegin(), txt.rend()), "result is " + show(ret[0].toString()));
}
int main(int argc, char** argv) {
  replay::init(argc, argv);
  for (size_t n = 0; n < 600; ++n) { std::string t; for (size_t i = 0; i < n; ++i) t += (char)(i * 7 + n); one(1 + n % 3, t); }
  while (!replay::up()) {
    std::string t; size_t n = rnd(rnd(9) ? 30 : 100000);
    for (size_t i = 0; i < n; ++i) t += (char)(rnd(4) ? rnd(256) : 0);
    one(1 + rnd(3), t);
  }
  return 0;
}
