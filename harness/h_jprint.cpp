#include "lib/json/Value.cpp"
#include "lib/json/Notation.cpp"
#include "lib/json/Array.cpp"
#include "lib/json/Object.cpp"
void h_print_value(const json::Value& v, std::ostream& os) { v.print(os); }
void h_print_array(const json::Array& v, std::ostream& os) { v.print(os); }
void h_print_object(const json::Object& v, std::ostream& os) { v.print(os); }
