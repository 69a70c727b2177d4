// Arbitrary byte strings, printed and parsed back.
#include "replay.h"
#include <json/Parser.h>
using replay::show; using replay::rnd;
static int hexv(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
// strict decoder of one literal: false unless it is a complete JSON string literal
static bool decode(const std::string& t, std::string& out) {
  size_t i = 0, n = t.size(); out.clear();
  if (n < 2 || t[0] != '"' || t[n - 1] != '"') return false;
  for (i = 1; i < n - 1; ++i) {
    unsigned char c = t[i];
    if (c < 0x20 || c == '"') return false;
    if (c != '\\') { out += (char)c; continue; }
    if (++i >= n - 1) return false;
    switch (t[i]) {
      case '"': case '\\': case '/': out += t[i]; break;
      case 'b': out += '\b'; break; case 'f': out += '\f'; break; case 'n': out += '\n'; break; case 'r': out += '\r'; break; case 't': out += '\t'; break;
      case 'u': { if (i + 4 >= n - 1) return false; int v = 0; for (int k = 1; k <= 4; ++k) { int h = hexv(t[i + k]); if (h < 0) return false; v = v * 16 + h; } out += (char)(v & 255); i += 4; break; }
      default: return false;
    }
  }
  return true;
}
static void one() {
  std::string s; size_t n = rnd(4) ? rnd(6) : rnd(200);
  for (size_t i = 0; i < n; ++i) switch (rnd(4)) { case 0: s += (char)rnd(256); break; case 1: s += (char)rnd(34); break; case 2: s += "\"\\/\x7f\x80\xff\x1f u0bn"[rnd(12)]; break; default: s += (char)(32 + rnd(95)); }
  replay::begin("string " + show(s));
  json::Value v(s); std::ostringstream o;
  if (rnd(8) == 0) o << std::hex << std::left;     // a caller's formatting state
  v.print(o); std::string t = o.str(), d;
  CHECK(decode(t, d), "not a JSON string literal: " + show(t));
  CHECK(d == s, "the literal " + show(t) + " denotes " + show(d));
  CHECK(v.isString() && v.toString() == s, "printing changed the value");
  std::streambuf* cb = std::cerr.rdbuf(nullptr);
  { json::Parser p(t); bool ok = bool(p); 
    if (!ok || !p.getRoot().isString() || p.getRoot().toString() != s) { std::cerr.rdbuf(cb); replay::fail("the literal " + show(t) + (ok ? " parses back differently" : " is refused by the parser")); } }
  { json::Parser p("[" + t + "]"); bool ok = bool(p) && p.getRoot().isArray() && p.getRoot().toArray().size() == 1;
    if (!ok || !p.getRoot()[0].isString() || p.getRoot()[0].toString() != s) { std::cerr.rdbuf(cb); replay::fail("the literal " + show(t) + " in an array does not parse back"); } }
  std::cerr.rdbuf(cb);
}
int main(int c, char** v) { replay::init(c, v); while (!replay::up()) for (int i = 0; i < 200; ++i) one(); return 0; }
