#include "lib/json/Value.cpp"
#include "lib/json/Notation.cpp"
void h_print(const json::Value& v, std::ostream& os) { v.print(os); }
