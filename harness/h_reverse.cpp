// One life of the reverse operation: construct, check arguments, gas, run, destroy.
#include "eni_reverse.cpp"
template<class Op> static int life(const std::string& text, const json::Array& args, uint64_t& gas, json::Array& ret) {
  Op op(text);
  eni::EniBase& b = op;
  if (!b.parse(args)) return 0;
  gas = b.gas();
  return b.run(ret) ? 2 : 1;
}
int h_reverse(const std::string& t, const json::Array& a, uint64_t& g, json::Array& r) { return life<Reverse>(t, a, g, r); }
int h_parse(const std::string& t, const json::Array& a) { Reverse op(t); eni::EniBase& b = op; return b.parse(a); }
