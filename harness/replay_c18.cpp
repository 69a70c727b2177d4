// The RSA operations against a recording stand-in for the crypto library.
#include "replay.h"
extern "C" {
#include <openssl/pem.h>
#include <openssl/rsa.h>
}
#include <json/Value.h>
#include <json/Array.h>
static int g_size, g_len, g_asked, g_freed, g_pad, g_made; static bool g_keyok, g_fail;
static std::string g_in, g_out, g_pem, g_fn;
static char g_keymem[16], g_biomem[16];
static RSA* g_key() { return reinterpret_cast<RSA*>(g_keymem); }
static int s_size(const RSA* k) { CHECK(k == g_key(), "RSA_size of a foreign key"); return g_size; }
static int s_do(const char* fn, int flen, const unsigned char* from, unsigned char* to, RSA* k, int pad) {
  CHECK(k == g_key(), "transform with a foreign key"); CHECK(flen >= 0, "negative length"); ++g_asked; g_fn = fn; g_pad = pad;
  g_in.assign((const char*)from, flen);
  memset(to, 0xA5, g_size);
  if (g_fail) return -1;
  memcpy(to, g_out.data(), g_out.size()); return (int)g_out.size();
}
#define T(n) static int s_##n(int l, const unsigned char* f, unsigned char* t, RSA* k, int p) { return s_do(#n, l, f, t, k, p); }
T(RSA_public_encrypt) T(RSA_private_encrypt) T(RSA_public_decrypt) T(RSA_private_decrypt)
static BIO* s_bio(const void* b, int n) { g_pem = n < 0 ? std::string((const char*)b) : std::string((const char*)b, n); return reinterpret_cast<BIO*>(g_biomem); }
static RSA* s_key(const char* k) { g_fn = k; ++g_made; return g_keyok ? g_key() : NULL; }
static void s_free(RSA* k) { if (k) { CHECK(k == g_key(), "foreign key released"); ++g_freed; } }
#define BIO_new_mem_buf s_bio
#define PEM_read_bio_RSA_PUBKEY(...) s_key("pub")
#define PEM_read_bio_RSAPrivateKey(...) s_key("priv")
#define RSA_size s_size
#define RSA_free s_free
#define BIO_free(x) 1
#define BIO_free_all(x) ((void)0)
#define RSA_public_encrypt s_RSA_public_encrypt
#define RSA_private_encrypt s_RSA_private_encrypt
#define RSA_public_decrypt s_RSA_public_decrypt
#define RSA_private_decrypt s_RSA_private_decrypt
#include "eni_crypto.cpp"
using replay::show; using replay::rnd;
static std::string hex(const std::string& s) { std::string r; char b[4]; for (unsigned char c : s) { snprintf(b, 4, "%02x", c); r += b; } return r; }
static std::string bytes(size_t n, bool zeros) { std::string s; for (size_t i = 0; i < n; ++i) s += (zeros && !rnd(4)) ? '\0' : (char)rnd(256); return s; }
static std::string cut(const std::string& s) { return s.substr(0, s.find('\0') == std::string::npos ? s.size() : s.find('\0')); }
static void setup(int size) { g_size = size; g_asked = g_freed = g_made = 0; g_fail = !rnd(5); g_keyok = true; g_out = bytes(rnd(3) ? size : rnd(size + 1), rnd(2)); if (!rnd(4)) g_out.assign(size, 'x'); }
static void helper(int which, int size, const std::string& msg) {
  static const char* nm[] = {"pub_encrypt", "priv_encrypt", "pub_decrypt", "priv_decrypt"};
  static const char* fn[] = {"RSA_public_encrypt", "RSA_private_encrypt", "RSA_public_decrypt", "RSA_private_decrypt"};
  setup(size);
  replay::begin(std::string(nm[which]) + " key size " + replay::str(size) + " message " + show(msg) + (g_fail ? " library fails" : " library returns " + show(g_out)));
  std::string res = "old"; bool enc = which < 2, r;
  if (which == 0) r = rsa::pub_encrypt(*g_key(), msg, res);
  else if (which == 1) r = rsa::priv_encrypt(*g_key(), msg, res);
  else if (which == 2) r = rsa::pub_decrypt(*g_key(), msg, res);
  else r = rsa::priv_decrypt(*g_key(), msg, res);
  if (enc && msg.size() > (size_t)size) { CHECK(!r && !g_asked, "a message longer than the key is not refused"); return; }
  CHECK(g_asked == 1 && g_fn == fn[which] && g_pad == RSA_NO_PADDING, "the library is not asked once for " + std::string(fn[which]) + " without padding");
  std::string want = msg; if (enc) want.append(size - msg.size(), '\0');
  CHECK(g_in == want, "block handed over is " + show(g_in));
  CHECK(r == !g_fail, "verdict");
  if (r) CHECK(res == (enc ? g_out : cut(g_out)), "result is " + show(res));
}
static json::Value val(int k, const std::string& s) { switch (k) { case 0: return json::Value(s); case 1: return json::Value(true); case 2: return json::Value(); default: return json::Value(json::Array()); } }
template<class Op> static void life(bool enc) {
  setup(1 + rnd(rnd(2) ? 12 : 300)); g_keyok = rnd(8) != 0;
  std::string pem = bytes(rnd(20), false); for (char& c : pem) if (!c) c = 'k';
  std::string msg = bytes(rnd(2) ? rnd(g_size + 3) : g_size, true), txt = enc ? msg : hex(msg);
  bool good = true;
  if (!enc && !rnd(4)) { if (rnd(2)) txt += '0'; else if (txt.size()) txt[rnd(txt.size())] = "g/:@`G \n"[rnd(8)]; else txt = "x"; good = false; }
  if (!enc && good) for (char& c : txt) if (rnd(2) && c >= 'a') c -= 32;
  int n = rnd(4) ? 2 : rnd(4), k0 = rnd(9) ? 0 : rnd(4), k1 = rnd(9) ? 0 : rnd(4);
  json::Array a, ret;
  if (n > 0) a.push_back(val(k0, pem));
  if (n > 1) a.push_back(val(k1, txt));
  if (n > 2) a.push_back(val(0, "more"));
  replay::begin(std::string(enc ? "rsa_encrypt" : "rsa_decrypt") + " arguments " + replay::str(n) + " kinds " + replay::str(k0) + "," + replay::str(k1) + " key " + show(pem) + (g_keyok ? "" : " (unusable)") + " size " + replay::str(g_size) + " message " + show(txt) + (g_fail ? " library fails" : " library returns " + show(g_out)));
  bool ok = n >= 2 && !k0 && !k1 && g_keyok && good;
  {
    Op op("[]"); eni::EniBase& b = op;
    bool r = b.parse(a);
    CHECK(r == ok, "argument verdict");
    if (!r) goto end;
    CHECK(g_pem == pem && g_fn == (enc ? "pub" : "priv"), "key text");
    CHECK(b.gas() == (eni::Gas)g_size * 10, "gas");
    r = b.run(ret);
    bool fits = !enc || msg.size() <= (size_t)g_size;
    CHECK(r == (fits && !g_fail), "run verdict");
    CHECK(g_asked == (fits ? 1 : 0), "library calls");
    if (fits) {
      std::string want = msg; if (enc) want.append(g_size - msg.size(), '\0');
      CHECK(g_in == want && g_pad == RSA_NO_PADDING && g_fn == (enc ? "RSA_public_encrypt" : "RSA_private_decrypt"), "block handed over by " + g_fn + " is " + show(g_in));
    }
    CHECK(ret.size() == (r ? 1u : 0u), "number of results");
    if (r) CHECK(ret[0].isString() && ret[0].toString() == (enc ? hex(g_out) : cut(g_out)), "result");
  }
end:
  CHECK(g_freed == (g_made && g_keyok ? 1 : 0), "key released " + replay::str(g_freed) + " times");
}
int main(int argc, char** argv) {
  replay::init(argc, argv);
  for (int w = 0; w < 4; ++w) for (int sz : {1, 2, 3, 8, 128}) for (int d = -3; d <= 3; ++d) for (int rep = 0; rep < 6; ++rep) if (sz + d >= 0) helper(w, sz, bytes(sz + d, rep & 1));
  while (!replay::up()) {
    int sz = 1 + rnd(rnd(3) ? 20 : 600);
    helper(rnd(4), sz, bytes(rnd(sz + 5), rnd(2)));
    for (int i = 0; i < 3; ++i) { life<RSAEncrypt>(true); life<RSADecrypt>(false); }
  }
  return 0;
}
