// Verification harness: calls the real string filter; restates nothing of it.
#include <cstdint>
#include <adt/StringHasher.h>
using namespace eni::internal;
uint32_t h_es(const std::string& s) { return StringHasher<ES>()(s); }
bool h_may_include(uint32_t rule, uint32_t in) { return StringHasher<ES>::may_include(rule, in); }
