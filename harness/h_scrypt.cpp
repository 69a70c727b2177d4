// One life of the scrypt operation: construct, check arguments, gas, run, destroy.
#include <iomanip>
#include "eni_scrypt.cpp"
template<class Op> static int life(const std::string& text, const json::Array& args, uint64_t& gas, json::Array& ret) {
  Op op(text);
  eni::EniBase& b = op;
  if (!b.parse(args)) return 0;
  gas = b.gas();
  return b.run(ret) ? 2 : 1;
}
int h_scrypt(const std::string& t, const json::Array& a, uint64_t& g, json::Array& r) { return life<Scrypt>(t, a, g, r); }
