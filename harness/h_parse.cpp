// Verification harness: the real JSON parser.
#include <cstdint>
#include <json/Parser.h>
bool h_parse(const std::string& s) { json::Parser p(s); return (bool)p; }
void h_new(json::Parser* p, const std::string& s) { new (p) json::Parser(s); }
bool h_ok(const json::Parser& p) { return (bool)p; }
const json::Value& h_root(json::Parser& p) { return p.getRoot(); }
extern "C" { extern const unsigned long k_Parser = sizeof(json::Parser), k_Value = sizeof(json::Value); }
