// An arbitrary operation: its three hooks are unspecified functions.
#include "lib/eni.cpp"
#include "lib/json/Notation.cpp"
extern "C" {
bool hook_parse(const json::Array* a);
uint64_t hook_gas();
bool hook_run(json::Array* r);
int choose();
void got_gas(uint64_t g);
void got_text(char* t);
}
class Op : public eni::EniBase {
public:
  explicit Op(const std::string& s) : eni::EniBase(s) {}
  ~Op() {}
private:
  bool parse(const json::Array& a) override { return hook_parse(&a); }
  eni::Gas gas() const override { return hook_gas(); }
  bool run(json::Array& r) override { return hook_run(&r); }
};
// any sequence of gas and run requests on one operation
void h_history(const std::string& text) {
  Op op(text);
  eni::EniBase& b = op;
  while (int c = choose()) {
    if (c == 1) got_gas(b.getGas()); else got_text(b.start());
  }
}
void h_create(const std::string& text) { Op op(text); }
ENI_C_INTERFACE(op, Op)
