// One life of each RSA operation: construct, check arguments, gas, run, destroy.
#include "eni_crypto.cpp"
template<class Op> static int life(const std::string& text, const json::Array& args, uint64_t& gas, json::Array& ret) {
  Op op(text);
  eni::EniBase& b = op;
  if (!b.parse(args)) return 0;
  gas = b.gas();
  return b.run(ret) ? 2 : 1;
}
int h_encrypt(const std::string& t, const json::Array& a, uint64_t& g, json::Array& r) { return life<RSAEncrypt>(t, a, g, r); }
int h_decrypt(const std::string& t, const json::Array& a, uint64_t& g, json::Array& r) { return life<RSADecrypt>(t, a, g, r); }
