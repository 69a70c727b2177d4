// Arbitrary texts against an independent recursive-descent reading of the grammar;
// with VALUES the denoted value is compared as well.
#include "replay.h"
#include <json/Parser.h>
#include <map>
#include <memory>
using replay::show; using replay::rnd;
struct J { char k = 0; bool b = false; std::string s; std::vector<J> a; std::map<std::string, J> o; };
struct Bad {};
struct Oracle {
  const std::string& t; size_t i = 0;
  Oracle(const std::string& x) : t(x) {}
  int c(size_t k) const { return k < t.size() ? (unsigned char)t[k] : -1; }
  void blank() { while (c(i) == ' ' || c(i) == '\t' || c(i) == '\n' || c(i) == '\r') ++i; }
  static int hex(int x) { return x >= '0' && x <= '9' ? x - '0' : x >= 'a' && x <= 'f' ? x - 'a' + 10 : x >= 'A' && x <= 'F' ? x - 'A' + 10 : -1; }
  void word(const char* w) { for (; *w; ++w, ++i) if (c(i) != *w) throw Bad(); }
  std::string str() {
    std::string r;
    for (;; ++i) {
      if (c(i) < 0) throw Bad();
      if (c(i) == '"') { ++i; return r; }
      if (c(i) != '\\') { r += t[i]; continue; }
      switch (c(++i)) {
        case '"': r += '"'; break; case '\\': r += '\\'; break; case '/': r += '/'; break; case 'b': r += 8; break; case 'f': r += 12; break;
        case 'n': r += 10; break; case 'r': r += 13; break; case 't': r += 9; break;
        case 'u': { int v = 0; for (int k = 1; k <= 4; ++k) { if (hex(c(i + k)) < 0) throw Bad(); v = v * 16 + hex(c(i + k)); } i += 4; r += (char)(v % 256); break; }
        default: throw Bad();
      }
    }
  }
  J value() {
    J r; blank();
    int x = c(i);
    if (x == '{') {
      r.k = 'o'; ++i; blank();
      if (c(i) == '}') { ++i; return r; }
      for (;;) {
        blank(); if (c(i) != '"') throw Bad(); ++i;
        std::string key = str(); blank();
        if (c(i) != ':') throw Bad(); ++i;
        r.o[key] = value(); blank();
        if (c(i) == ',') { ++i; continue; }
        if (c(i) == '}') { ++i; return r; }
        throw Bad();
      }
    }
    if (x == '[') {
      r.k = 'a'; ++i; blank();
      if (c(i) == ']') { ++i; return r; }
      for (;;) {
        r.a.push_back(value()); blank();
        if (c(i) == ',') { ++i; continue; }
        if (c(i) == ']') { ++i; return r; }
        throw Bad();
      }
    }
    if (x == '"') { ++i; r.k = 's'; r.s = str(); return r; }
    if (x == 't') { word("true"); r.k = 'b'; r.b = true; return r; }
    if (x == 'f') { word("false"); r.k = 'b'; return r; }
    r.k = 'i';
    if (x == '-') { r.s = "-"; ++i; }
    if (c(i) == '0') { r.s += '0'; ++i; return r; }
    if (c(i) < '1' || c(i) > '9') throw Bad();
    while (c(i) >= '0' && c(i) <= '9') r.s += t[i++];
    return r;
  }
};
static std::string same(const J& j, const json::Value& v) {
  switch (j.k) {
    case 'b': return v.isBoolean() && v.toBoolean() == j.b ? "" : "boolean";
    case 'i': {
      if (!v.isInteger()) return "integer expected";
      bool neg = j.s[0] == '-'; std::string d = j.s.substr(neg);
      if (d.size() > 76) return "";
      eni::s256 x = 0; for (char c : d) x = x * 10 + (c - '0');
      if (neg) x = -x;
      return v.toInteger() == x ? "" : "integer " + j.s;
    }
    case 's': return v.isString() && v.toString() == j.s ? "" : "string " + show(j.s) + (v.isString() ? " is " + show(v.toString()) : "");
    case 'a': {
      if (!v.isArray()) return "array expected";
      if (v.toArray().size() != j.a.size()) return "array length";
      for (size_t i = 0; i < j.a.size(); ++i) { std::string e = same(j.a[i], v[i]); if (!e.empty()) return "element " + std::to_string(i) + ": " + e; }
      return "";
    }
    default: {
      if (!v.isObject()) return "object expected";
      if (v.toObject().size() != j.o.size()) return "number of keys";
      for (auto& p : j.o) {
        if (v.toObject().find(p.first) == v.toObject().end()) return "key " + show(p.first) + " missing";
        std::string e = same(p.second, v[p.first]); if (!e.empty()) return "key " + show(p.first) + ": " + e;
      }
      return "";
    }
  }
}
static void one(const std::string& text) {
  std::string* s = new std::string(text); s->shrink_to_fit();
  replay::begin("text " + show(text));
  J j; bool good = true;
  try { j = Oracle(*s).value(); } catch (Bad) { good = false; }
  std::streambuf* cb = std::cerr.rdbuf(nullptr);
  std::unique_ptr<json::Parser> p(new json::Parser(*s));
  std::cerr.rdbuf(cb);
  CHECK(*s == text, "the text was changed");
  CHECK(bool(*p) == good, good ? "a valid text is refused" : "an invalid text is accepted");
#ifdef REPLAY_VALUES
  delete s;
  if (good) { std::string e = same(j, p->getRoot()); CHECK(e.empty(), "wrong value: " + e); }
#else
  delete s;
#endif
}
static const char* W[] = {" ", "\t", "\n", "\r", "", "", "", "  "};
static std::string ws() { return rnd(3) ? "" : W[rnd(8)]; }
static std::string lit(bool key) {
  std::string s = "\"";
  size_t n = key && rnd(3) ? rnd(2) : rnd(8) ? rnd(5) : rnd(60);
  for (size_t i = 0; i < n; ++i) switch (rnd(key ? 12 : 8)) {
    case 0: s += "\\"; s += "\"\\/bfnrtuxa"[rnd(11)]; break;
    case 1: s += "\\u"; for (int k = 0; k < 4; ++k) s += "0123456789abcdefABCDEFg"[rnd(30) ? rnd(22) : 22]; break;
    case 2: { char c = rnd(256); if (c != '"' && c != '\\') s += c; break; }
    default: s += (char)('a' + rnd(3));
  }
  return s + "\"";
}
static std::string gen(int d) {
  std::string r = ws();
  switch (rnd(d > 0 ? 9 : 5)) {
    case 0: r += rnd(2) ? "true" : "false"; break;
    case 1: { if (!rnd(3)) r += "-"; if (!rnd(4)) r += "0"; else { r += (char)('1' + rnd(9)); size_t n = rnd(6) ? rnd(4) : rnd(75); while (n--) r += (char)('0' + rnd(10)); } break; }
    case 2: case 3: r += lit(false); break;
    case 4: r += rnd(2) ? "[" + ws() + "]" : "{" + ws() + "}"; break;
    case 5: case 6: { size_t n = 1 + rnd(rnd(9) ? 4 : 40); r += "["; for (size_t i = 0; i < n; ++i) { if (i) r += ","; r += gen(d - 1) + ws(); } r += "]"; break; }
    default: { size_t n = 1 + rnd(rnd(9) ? 4 : 40); r += "{"; for (size_t i = 0; i < n; ++i) { if (i) r += ","; r += ws() + lit(true) + ws() + ":" + gen(d - 1) + ws(); } r += "}"; }
  }
  return r + (rnd(9) ? "" : ws());
}
static std::string hurt(std::string s) {
  static const char cs[] = "{}[]\",:\\truefalsn0123-+.eE \t\n\r\v\f\0/u\x80\xff";
  for (int k = 1 + rnd(3); k; --k) switch (rnd(5)) {
    case 0: if (s.size()) s.erase(rnd(s.size()), 1); break;
    case 1: s.insert(rnd(s.size() + 1), 1, cs[rnd(sizeof cs - 1)]); break;
    case 2: if (s.size()) s[rnd(s.size())] = cs[rnd(sizeof cs - 1)]; break;
    case 3: s.resize(rnd(s.size() + 1)); break;
    default: if (s.size()) { size_t i = rnd(s.size()); s.insert(rnd(s.size() + 1), s.substr(i, 1 + rnd(4))); }
  }
  return s;
}
int main(int c, char** v) {
  replay::init(c, v);
  static const char* small = "{}[]\",:tf-01 \\u";
  for (int n = 0; n <= 3; ++n) { int t = 1; for (int i = 0; i < n; ++i) t *= 15; for (int k = 0; k < t; ++k) { std::string s; int x = k; for (int i = 0; i < n; ++i, x /= 15) s += small[x % 15]; one(s); } }
  for (int k = 0; k < 256; ++k) { std::string ch(1, (char)k); one(ch); one(ch + "1"); one("[1" + ch + "]"); one("\"" + ch + "\""); one("\"\\" + ch + "\""); one("\"\\u00" + ch + "1\""); one("1" + ch); one("tru" + ch); one("{\"a\"" + ch + "1}"); one("-" + ch); one("0" + ch + "2"); }
  while (!replay::up()) for (int i = 0; i < 300; ++i) {
#ifdef REPLAY_VALUES
    one(gen(rnd(5)));
#else
    one(rnd(4) ? hurt(gen(rnd(4))) : gen(rnd(5)));
#endif
  }
  return 0;
}
