#include "replay.h"
#include <openssl/rsa.h>
#include "eni_crypto.h"
static void one(const std::string& s) {
  replay::begin("encode " + replay::show(s));
  std::string want, got = "junk", back = "junk", up;
  char b[4];
  for (size_t i = 0; i < s.size(); ++i) { snprintf(b, 4, "%02x", (unsigned char)s[i]); want += b; snprintf(b, 4, "%02X", (unsigned char)s[i]); up += b; }
  CHECK(eni_crypto::str2hex(s, got), "encoding refused");
  CHECK(got == want, "encoding is " + replay::show(got));
  replay::begin("decode " + replay::show(want));
  CHECK(eni_crypto::hex2str(want, back) && back == s, "decoding is " + replay::show(back));
  replay::begin("decode " + replay::show(up));
  CHECK(eni_crypto::hex2str(up, back) && back == s, "decoding of upper-case digits is " + replay::show(back));
}
static void dec(const std::string& h) {
  replay::begin("decode " + replay::show(h));
  bool ok = h.size() % 2 == 0; std::string want, got = "junk";
  for (size_t i = 0; i < h.size(); ++i) if (!h[i] || !strchr("0123456789abcdefABCDEF", h[i])) ok = false;
  CHECK(eni_crypto::hex2str(h, got) == ok, ok ? "a digit string is refused" : "a text that is no even digit string is accepted");
  if (!ok) return;
  for (size_t i = 0; i < h.size(); i += 2) want += (char)strtol(h.substr(i, 2).c_str(), 0, 16);
  CHECK(got == want, "decoded " + replay::show(got));
}
int main(int argc, char** argv) {
  replay::init(argc, argv);
  one("");
  std::string all;
  for (int c = 0; c < 256; ++c) { one(std::string(1, (char)c)); all += (char)c; }
  one(all);
  for (int a = 0; a < 256; ++a) for (int b = 0; b < 256; ++b) { std::string s; s += (char)a; dec(s); s += (char)b; dec(s); dec("0" + s); dec("ab" + s + "7F"); }
  while (!replay::up()) {
    std::string s, h; size_t n = replay::rnd(replay::rnd(20) ? 60 : 5000);
    for (size_t i = 0; i < n; ++i) s += (char)replay::rnd(256);
    one(s);
    n = replay::rnd(40);
    for (size_t i = 0; i < n; ++i) h += "0123456789abcdefABCDEF"[replay::rnd(22)];
    if (replay::rnd(3) == 0 && n) h[replay::rnd(n)] = (char)replay::rnd(256);
    dec(h);
  }
  return 0;
}
