// Arbitrary inputs, scratch space alignments and contents, against libcrypto's scrypt.
#include "replay.h"
#include <openssl/evp.h>
#include <string.h>
#include <memory>
#include "scrypt.h"
using replay::rnd;
static std::string hex(const std::string& s) { std::string r; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02x", c); r += b; } return r; }
static void used(const std::string& in) {
  unsigned char want[32]; char o[32];
  if (EVP_PBE_scrypt(in.data(), 80, (const unsigned char*)in.data(), 80, 1024, 1, 1, 0, want, 32) != 1) abort();
  std::unique_ptr<char[]> raw(new char[131072 + 63]);
  memset(raw.get(), 0, 131072 + 63);
  std::string c = "input " + hex(in) + ", scratch space used before";
  for (int r = 0; r < 3; ++r) {
    replay::begin(c);
    scrypt_1024_1_1_256_sp_generic(in.data(), o, raw.get());
    CHECK(!memcmp(o, want, 32), "wrote " + hex(std::string(o, 32)) + " instead of " + hex(std::string((char*)want, 32)));
    int at = 64 + rnd(100000), n = 1 + rnd(20000);
    memset(raw.get() + at, r, n);
    c += " and overwritten from " + replay::str(at) + " for " + replay::str(n) + " bytes";
  }
  // a second input that differs late
  std::string s = in; s[rnd(80)] ^= 1 + rnd(255);
  std::unique_ptr<char[]> o2(new char[32]);
  for (const std::string* t : {&in, (const std::string*)&s}) {
    replay::begin("inputs " + hex(in) + " and then " + hex(s));
    EVP_PBE_scrypt(t->data(), 80, (const unsigned char*)t->data(), 80, 1024, 1, 1, 0, want, 32);
    scrypt_1024_1_1_256(t->data(), o2.get());
    CHECK(!memcmp(o2.get(), want, 32), "wrote " + hex(std::string(o2.get(), 32)) + " instead of " + hex(std::string((char*)want, 32)));
  }
}
static void one(const std::string& in, int align, int fill) {
  replay::begin("input " + hex(in) + (align < 0 ? std::string(", own scratch space") : ", scratch space at offset " + replay::str(align) + " filled with " + replay::str(fill)));
  unsigned char want[32];
  if (EVP_PBE_scrypt(in.data(), 80, (const unsigned char*)in.data(), 80, 1024, 1, 1, 0, want, 32) != 1) abort();
  std::unique_ptr<char[]> i(new char[80]), o(new char[32]);
  memcpy(i.get(), in.data(), 80); memset(o.get(), fill, 32);
  if (align < 0) scrypt_1024_1_1_256(i.get(), o.get());
  else {
    std::unique_ptr<char[]> raw(new char[131072 + 63 + 128]);
    char* base = raw.get(); base += (64 - (uintptr_t)base % 64) % 64 + align;
    size_t pre = base - raw.get(), post = 128 - pre;
    memset(raw.get(), fill, 131072 + 63 + 128);
    scrypt_1024_1_1_256_sp_generic(i.get(), o.get(), base);
    for (size_t k = 0; k < pre; ++k) CHECK(raw[k] == (char)fill, "wrote before the scratch space");
    for (size_t k = 0; k < post; ++k) CHECK(base[131072 + 63 + k] == (char)fill, "wrote behind the scratch space");
  }
  CHECK(std::string(i.get(), 80) == in, "the input was changed");
  CHECK(!memcmp(o.get(), want, 32), "wrote " + hex(std::string(o.get(), 32)) + " instead of " + hex(std::string((char*)want, 32)));
}
int main(int c, char** v) {
  replay::init(c, v);
  const int fills[] = {0, 255, 0x5a, 0x80};
  for (unsigned n = 0; !replay::up(); ++n) {
    std::string s(80, '\0');
    switch (rnd(5)) {
      case 0: s.assign(80, (char)fills[rnd(4)]); break;
      case 1: for (int k = 0; k < 80; ++k) s[k] = rnd(8) ? 0 : rnd(256); break;
      case 2: for (int k = 0; k < 80; ++k) s[k] = rnd(4) ? 255 : rnd(256); break;
      default: for (int k = 0; k < 80; ++k) s[k] = rnd(256);
    }
    if (n % 8 == 7) { used(s); continue; }
    one(s, (int)(n % 65) - 1, fills[rnd(4)]);
  }
  return 0;
}
