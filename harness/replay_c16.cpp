// The scrypt operation against an independent scrypt (OpenSSL's).
#include "replay.h"
#include <iomanip>
#include <openssl/evp.h>
#include <json/Value.h>
#include <json/Array.h>
#include "eni_scrypt.cpp"
using replay::show; using replay::rnd;
static int dig(char c) { return c >= '0' && c <= '9' ? c - '0' : c >= 'a' && c <= 'f' ? c - 'a' + 10 : c >= 'A' && c <= 'F' ? c - 'A' + 10 : -1; }
static std::string expect(std::string t) {
  if (t.size() % 2) t = "0" + t;
  unsigned char in[80] = {0}, out[32];
  for (size_t i = 0; i < t.size() / 2; ++i) in[i] = dig(t[2 * i]) * 16 + dig(t[2 * i + 1]);
  EVP_PBE_scrypt((const char*)in, 80, in, 80, 1024, 1, 1, 1 << 28, out, 32);
  std::string r; char b[4];
  for (unsigned char c : out) { snprintf(b, 4, "%02x", c); r += b; }
  return r;
}
static void one(int n, int k0, const std::string& txt) {
  json::Array a, ret;
  if (n > 0) switch (k0) { case 0: a.push_back(json::Value(txt)); break; case 1: a.push_back(json::Value(true)); break; case 2: a.push_back(json::Value()); break; default: a.push_back(json::Value(json::Array())); }
  if (n > 1) a.push_back(json::Value("more"));
  replay::begin("scrypt arguments " + replay::str(n) + " kind " + replay::str(k0) + " text " + show(txt));
  bool ok = n >= 1 && !k0 && txt.size() <= 160;
  for (char c : txt) if (dig(c) < 0) ok = false;
  Scrypt op("[]"); eni::EniBase& b = op;
  bool r = b.parse(a);
  CHECK(r == ok, "argument verdict");
  if (!r) return;
  CHECK(b.gas() == (txt.size() + 1) / 2 * 10, "gas");
  CHECK(b.run(ret), "run verdict");
  CHECK(ret.size() == 1 && ret[0].isString(), "one string is returned");
  CHECK(ret[0].toString() == expect(txt), "result is " + show(ret[0].toString()));
}
int main(int argc, char** argv) {
  replay::init(argc, argv);
  const char* digs = "0123456789abcdefABCDEF";
  for (int c = 0; c < 256; ++c) one(1, 0, std::string(1 + c % 2, (char)c));
  for (int n = 0; n <= 164; ++n) { std::string t; for (int i = 0; i < n; ++i) t += digs[(i * 7 + n) % 22]; one(1, 0, t); }
  for (int n = 0; n < 3; ++n) for (int k = 0; k < 4; ++k) one(n, k, "00");
  while (!replay::up()) {
    std::string t; size_t n = rnd(4) ? rnd(165) : 158 + rnd(6);
    for (size_t i = 0; i < n; ++i) t += digs[rnd(22)];
    if (!rnd(3) && n) t[rnd(n)] = (char)rnd(256);
    one(rnd(5) ? 1 : rnd(3), rnd(9) ? 0 : rnd(4), t);
  }
  return 0;
}
