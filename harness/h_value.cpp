#include "lib/json/Value.cpp"
#include "lib/json/Notation.cpp"
#include "lib/json/Array.cpp"
#include "lib/json/Object.cpp"
typedef json::Value Val;
void h_default(void* p) { new (p) Val(); }
void h_copy(void* p, const Val& v) { new (p) Val(v); }
void h_move(void* p, Val& v) { new (p) Val(std::move(v)); }
Val& h_set(Val& v, const Val& o) { return v = o; }
void h_delete(Val& v) { v.Val::~Val(); }
void h_bool(void* p, bool b) { new (p) Val(b); }
void h_chars(void* p, const char* b) { new (p) Val(b); }
void h_string(void* p, const std::string& b) { new (p) Val(b); }
void h_int(void* p, int b) { new (p) Val(b); }
void h_s256(void* p, const eni::s256& b) { new (p) Val(b); }
void h_object(void* p, const json::Object& b) { new (p) Val(b); }
void h_array(void* p, const json::Array& b) { new (p) Val(b); }
Val& h_del_int(Val& v, eni::s256& b) { return v.delegate(b); }
Val& h_del_object(Val& v, json::Object& b) { return v.delegate(b); }
Val& h_del_array(Val& v, json::Array& b) { return v.delegate(b); }
int h_type(const Val& v) { return v.type(); }
bool h_isInteger(const Val& v) { return v.isInteger(); }
bool h_isBoolean(const Val& v) { return v.isBoolean(); }
bool h_isString(const Val& v) { return v.isString(); }
bool h_isObject(const Val& v) { return v.isObject(); }
bool h_isArray(const Val& v) { return v.isArray(); }
bool h_isUndefined(const Val& v) { return v.isUndefined(); }
bool h_toBoolean(const Val& v) { return v.toBoolean(); }
const void* h_toInteger(const Val& v) { return &v.toInteger(); }
const void* h_toString(const Val& v) { return &v.toString(); }
const void* h_toObject(const Val& v) { return &v.toObject(); }
const void* h_toArray(const Val& v) { return &v.toArray(); }
const void* h_asInteger(Val& v) { return &v.asInteger(); }
const void* h_asString(Val& v) { return &v.asString(); }
const void* h_asObject(Val& v) { return &v.asObject(); }
const void* h_asArray(Val& v) { return &v.asArray(); }
const Val& h_index_key(const Val& v, const std::string& k) { return v[k]; }
const Val& h_index_pos(const Val& v, int i) { return v[i]; }
void h_arr_new(void* p) { new (p) json::Array(); }
void h_arr_copy(void* p, const json::Array& a) { new (p) json::Array(a); }
json::Array& h_arr_set(json::Array& p, const json::Array& a) { return p = a; }
void h_obj_new(void* p) { new (p) json::Object(); }
void h_obj_copy(void* p, const json::Object& a) { new (p) json::Object(a); }
json::Object& h_obj_set(json::Object& p, const json::Object& a) { return p = a; }
unsigned long h_sizeof() { return sizeof(eni::s256); }
