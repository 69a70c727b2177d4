#include "replay.h"
#include "optParser.h"
static void one(const std::vector<std::string>& av) {
  std::string c = "argv:";
  std::vector<char*> p;
  for (size_t i = 0; i < av.size(); ++i) { c += " " + replay::show(av[i]); char* q = (char*)malloc(av[i].size() + 1); memcpy(q, av[i].c_str(), av[i].size() + 1); p.push_back(q); }
  int n = p.size();
  p.push_back(0);
  replay::begin(c);
  std::vector<std::string> pos;
  bool end = false;
  for (int i = 1; i < n; ++i) {
    if (!end && av[i][0] == '-') { if (av[i] == "--") end = true; }
    else pos.push_back(av[i]);
  }
  ceni::Opt o("p", "d");
  bool r = o.parse(n, &p[0]);
  CHECK(r == (pos.size() == 3), "verdict of parse is wrong");
  if (r) CHECK(o.lib() == pos[0] && o.op() == pos[1] && o.params() == pos[2], "positional arguments mixed up: " + replay::show(o.lib()) + replay::show(o.op()) + replay::show(o.params()));
  for (int i = 0; i < n; ++i) free(p[i]);
}
int main(int argc, char** argv) {
  replay::init(argc, argv);
  static const char* w[] = {"", "-", "--", "---", "-x", "--x", "a", "b.so", "-- ", "a-", "-\n"};
  const int W = 11;
  one(std::vector<std::string>());
  for (int n = 0; n <= 6; ++n) {
    long tot = 1;
    for (int i = 0; i < n; ++i) tot *= W;
    for (long k = 0; k < tot && (n < 6 || !replay::up()); k += n < 5 ? 1 : 1 + replay::rnd(40)) {
      std::vector<std::string> v(1, "prog");
      long x = k;
      for (int i = 0; i < n; ++i) { v.push_back(w[x % W]); x /= W; }
      one(v);
    }
  }
  while (!replay::up()) {
    std::vector<std::string> v(1, "prog");
    int n = replay::rnd(replay::rnd(10) ? 9 : 300);
    for (int i = 0; i < n; ++i) {
      if (replay::rnd(2)) v.push_back(w[replay::rnd(W)]);
      else { std::string s; int m = replay::rnd(replay::rnd(20) ? 12 : 70000); for (int k = 0; k < m; ++k) s += (char)(1 + replay::rnd(255)); v.push_back(s); }
    }
    one(v);
  }
  return 0;
}
