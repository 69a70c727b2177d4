// Arbitrary operations on arbitrary texts and request orders.
#include "replay.h"
#include <json/Parser.h>
struct Exited { int code; };
[[noreturn]] static void replay_exit(int c) { throw Exited{c}; }
#define exit replay_exit
#include "lib/eni.cpp"
#undef exit
using replay::show; using replay::rnd;
static int n_parse, n_gas, n_run; static bool v_parse, v_run; static uint64_t v_gas; static std::string args_text, pushed_now, pushed_all; static const char* bad;
static std::string text_of(const json::Value& v) { std::ostringstream o; v.print(o); return o.str(); }
class Op : public eni::EniBase {
public:
  explicit Op(const std::string& s) : eni::EniBase(s) {}
  ~Op() {}
private:
  bool parse(const json::Array& a) override { ++n_parse; if (n_gas || n_run) bad = "argument check after another hook"; std::ostringstream o; a.print(o); args_text = o.str(); return v_parse; }
  eni::Gas gas() const override { ++n_gas; return v_gas; }
  bool run(json::Array& r) override {
    ++n_run; pushed_now.clear();
    for (int k = rnd(4); k-- > 0;) {
      std::string t;
      switch (rnd(3)) { case 0: t = "true"; r.push_back(json::Value(true)); break; case 1: t = "\"a\\\"b\""; r.push_back(json::Value("a\"b")); break; default: t = "42"; r.push_back(json::Value(42)); }
      if (pushed_now.size()) pushed_now += ','; pushed_now += t;
      if (pushed_all.size()) pushed_all += ','; pushed_all += t;
    }
    return v_run;
  }
};
ENI_C_INTERFACE(op, Op)
static std::string gen(int d) {
  switch (rnd(d > 2 ? 4 : 6)) {
    case 0: return rnd(2) ? "true" : "false"; case 1: return std::to_string((int)rnd(1000) - 500); case 2: return "\"x\\n\\u0041\""; case 3: return "\"\"";
    case 4: { std::string r = "["; for (int k = rnd(4), i = 0; i < k; ++i) r += (i ? " ," : "") + gen(d + 1); return r + "]"; }
    default: { std::string r = "{"; for (int k = rnd(2), i = 0; i < k; ++i) r += (i ? ",\"k" : "\"k") + std::to_string(i) + "\":" + gen(d + 1); return r + "}"; }
  }
}
static void one() {
  std::string t;
  switch (rnd(6)) { case 0: t = gen(0); break; case 1: t = gen(0); if (t.size()) t.erase(rnd(t.size()), 1 + rnd(3)); break; case 2: t = gen(0); t.insert(rnd(t.size() + 1), 1, "[]{},:\"\\0t "[rnd(11)]); break;
    default: t = "["; for (int k = rnd(4), i = 0; i < k; ++i) t += (i ? "," : "") + gen(1); t += "]"; if (!rnd(9)) t += "junk"; }
  int mode = rnd(4);
  if (!rnd(3) && t.size()) { size_t q = rnd(2) && t.find('"') != std::string::npos ? t.find('"') + 1 : rnd(t.size() + 1); t.insert(q, 1, '\0'); }
  if (mode < 2) t = t.c_str();
  bool accepted, arr = false; std::string want;
  std::streambuf* cb = std::cerr.rdbuf(nullptr);
  { json::Parser p(t); accepted = bool(p); if (accepted) { arr = p.getRoot().isArray(); want = text_of(p.getRoot()); } }
  v_parse = rnd(4) != 0; bool good = accepted && arr && v_parse;
  n_parse = n_gas = n_run = 0; pushed_all.clear(); pushed_now.clear(); bad = nullptr; args_text.clear();
  std::string trace;
  auto case_is = [&](const std::string& s) { trace += s; replay::begin("text " + show(t) + " check " + (v_parse ? "accepts" : "rejects") + " requests:" + trace); };
  auto common = [&](int runs, int gases) {
    CHECK(!bad, bad); CHECK(n_parse == (arr ? 1 : 0), "argument check ran " + replay::str(n_parse) + " times");
    if (n_parse) CHECK(args_text == want, "arguments " + args_text);
    CHECK(n_run == (good ? runs : 0), "runs " + replay::str(n_run)); CHECK(n_gas == (good ? gases : 0), "gas hook " + replay::str(n_gas));
  };
  auto result = [&](char* r) {
    if (!good || !v_run) { CHECK(!r, std::string("unexpected result ") + r); return; }
    CHECK(r, "no result"); std::string s(r);
    CHECK(s == "[" + pushed_now + "]" || s == "[" + pushed_all + "]", "result " + s);
    free(r);
  };
  int code = -1; case_is("");
  try {
    if (mode == 0) { v_gas = rnd(); case_is(" op_gas"); uint64_t* g = op_gas(&t[0]); uint64_t x = *g; free(g); CHECK(x == (good ? v_gas : 1500), "gas " + replay::str(x)); common(0, 1); }
    else if (mode == 1) { v_run = rnd(3); case_is(" op_run"); char* r = op_run(&t[0]); common(1, 0); result(r); }
    else {
      Op op(t); eni::EniBase& b = op; int runs = 0, gases = 0;
      CHECK(!n_parse && !n_gas && !n_run, "a hook ran during creation");
      for (int k = 1 + rnd(5); k-- > 0;) {
        if (rnd(2)) { v_gas = rnd(); case_is(" gas"); uint64_t x = b.getGas(); ++gases; CHECK(x == (good ? v_gas : 1500), "gas " + replay::str(x)); }
        else { v_run = rnd(3); case_is(v_run ? " run" : " failing-run"); char* r = b.start(); ++runs; common(runs, gases); result(r); }
        common(runs, gases);
      }
    }
  } catch (Exited& e) { code = e.code; }
  std::cerr.rdbuf(cb);
  if (accepted) CHECK(code == -1, "the process ends with " + replay::str(code));
  else { CHECK(code == 87, "exit status " + replay::str(code)); CHECK(!n_parse && !n_gas && !n_run, "a hook ran"); }
}
int main(int argc, char** argv) { replay::init(argc, argv); while (!replay::up()) for (int i = 0; i < 200; ++i) one(); return 0; }
