// layout of the classes, found by executing their own accessors
#include <cstddef>
#include <new>
#include <json/Value.h>
#include <json/Array.h>
#include <json/Object.h>
typedef json::Object::entry_type OEntry;
extern "C" {
extern const unsigned long
  k_INT = json::INT, k_BOOL = json::BOOL, k_STRING = json::STRING, k_OBJECT = json::OBJECT, k_ARRAY = json::ARRAY, k_UNDEF = json::UNDEF,
  k_Value = sizeof(json::Value), k_Array = sizeof(json::Array), k_Vec = sizeof(eni::Vector<json::Value>), k_Object = sizeof(json::Object),
  k_Bucket = sizeof(json::Object::bucket_type), k_Bucket_hash = offsetof(json::Object::bucket_type, hash), k_Bucket_entry = offsetof(json::Object::bucket_type, entry);
int p_Value_type(const json::Value& v) { return v.type(); }
const void* p_Value_hold(const json::Value& v) { return &v.toString(); }
const void* p_Vec_data(eni::Vector<json::Value>& v) { return v.data(); }
size_t p_Vec_size(const eni::Vector<json::Value>& v) { return v.size(); }
size_t p_Vec_cap(const eni::Vector<json::Value>& v) { return v.capacity(); }
int p_Array_type(const json::Array& v) { return v.type(); }
int p_Object_type(const json::Object& v) { return v.type(); }
const void* p_Tab_buckets(const json::Object& v) { return &v.bucket(0); }
size_t p_Tab_n(const json::Object& v) { return v.numOfBuckets(); }
size_t p_Tab_entries(const json::Object& v) { return v.numOfEntries(); }
size_t p_Tab_tombs(const json::Object& v) { return v.numOfTombstones(); }
const void* p_Entry_value(const OEntry& e) { return &e.value(); }
}
