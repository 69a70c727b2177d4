// Verification harness: instantiates the real string map at an opaque value
// type.  Nothing of the map, its entries or its allocator is restated here.
#include <iterator>
#include <cstdint>
#include <cstddef>
#include <string>
#include <adt/StringMap.h>
struct V { long id; long more[12]; V(); V(const V&); V& operator=(const V&); ~V(); };
template class eni::StringMap<V>;
typedef eni::StringMap<V> T;
typedef T::super B;

typedef B::entry_type En;
typedef eni::MallocAllocator<En> Al;
extern "C" {
extern const unsigned long k_T = sizeof(T), k_Entry = sizeof(En), k_Bucket = sizeof(B::bucket_type), k_hash = offsetof(B::bucket_type, hash), k_entry = offsetof(B::bucket_type, entry), k_Iter = sizeof(T::iterator), k_Chain = sizeof(B::chain_iterator), k_V = sizeof(V);
const void* p_buckets(const B& v) { return &v.bucket(0); }
size_t p_n(const B& v) { return v.numOfBuckets(); }
size_t p_entries(const B& v) { return v.numOfEntries(); }
size_t p_tombs(const B& v) { return v.numOfTombstones(); }
const void* p_value(const En& e) { return &e.value(); }
}
// entries
En* e_new(Al& a, const std::string& k) { return new (a.allocate(1, &k)) En(k); }
void e_del(Al& a, En* e) { e->~En(); a.deallocate(e); }
std::string e_key(const En* e) { return e->key(); }
void e_set(En* e, const V& v) { e->setValue(v); }
void e_write(En* e, long x) { e->value().more[11] = x; }
const V& e_get(const En* e) { return e->value(); }
V& e_ref(En* e) { return e->value(); }
unsigned e_hash(const std::string& k) { return eni::HasherType()(k); }
// the table
En* h_insert(B& t, const std::string& k, bool& x) { return t.insert(k, x); }
bool h_erase(T& t, const std::string& k) { return t.erase(k); }
T::iterator h_find(T& t, const std::string& k) { return t.find(k); }
T::const_iterator h_cfind(const T& t, const std::string& k) { return t.find(k); }
bool h_is_end(T& t, T::iterator& i) { return i == t.end(); }
En* h_deref(T::iterator& i) { return i.operator->(); }
const En* h_cderef(const T::const_iterator& i) { return i.operator->(); }
// the map
V& h_at(T& t, const std::string& k) { return t.at(k); }
const V& h_cat(const T& t, const std::string& k) { return t.at(k); }
V& h_index(T& t, const std::string& k) { return t[k]; }
const V& h_cindex(const T& t, const std::string& k) { return t[k]; }
size_t h_size(const T& t) { return t.size(); }
bool h_empty(const T& t) { return t.empty(); }
void h_new(void* p, size_t n) { new (p) T(n); }
void h_copy(void* p, const T& o) { new (p) T(o); }
void h_move(void* p, T& o) { new (p) T(std::move(o)); }
void h_delete(T& t) { t.T::~T(); }
T& h_assign(T& t, const T& o) { return t = o; }
T& h_move_assign(T& t, T& o) { return t = std::move(o); }
