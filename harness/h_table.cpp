// Verification harness: instantiates the real hash table templates at opaque
// key, value and hasher types.  Nothing of the table is restated here.
#include <iterator>
#include <cstddef>
#include <string>
#include <adt/HashTable.h>
struct K { long id; K(const K&); bool operator==(const K&) const; ~K(); };
struct V { long id; long more[12]; V(); V(const V&); V& operator=(const V&); ~V(); };
struct H { unsigned int operator()(const K&) const; };
template class eni::HashTable<K, V, H>;
typedef eni::HashTable<K, V, H> T;
typedef eni::internal::TableImpl<K, V, H> TI;
template class eni::EntryIterBase<TI>;
template class eni::ChainIterBase<TI>;
typedef T::entry_type En;
extern "C" {
extern const unsigned long k_T = sizeof(T), k_Entry = sizeof(En), k_Bucket = sizeof(T::bucket_type), k_hash = offsetof(T::bucket_type, hash), k_entry = offsetof(T::bucket_type, entry), k_Iter = sizeof(T::iterator), k_Chain = sizeof(T::chain_iterator);
const void* p_buckets(const T& v) { return &v.bucket(0); }
size_t p_n(const T& v) { return v.numOfBuckets(); }
size_t p_entries(const T& v) { return v.numOfEntries(); }
size_t p_tombs(const T& v) { return v.numOfTombstones(); }
const void* p_key(const En& e) { return &e.key(); }
const void* p_value(const En& e) { return &e.value(); }
}
En* h_insert(T& t, const K& k, bool& x) { return t.insert(k, x); }
bool h_erase(T& t, const K& k) { return t.erase(k); }
T::iterator h_find(T& t, const K& k) { return t.find(k); }
T::const_iterator h_cfind(const T& t, const K& k) { return t.find(k); }
bool h_is_end(T& t, T::iterator& i) { return i == t.end(); }
En* h_deref(T::iterator& i) { return i.operator->(); }
const En* h_cderef(const T::const_iterator& i) { return i.operator->(); }
T::iterator h_begin(T& t) { return t.begin(); }
T::const_iterator h_cbegin(const T& t) { return t.begin(); }
T::iterator h_end(T& t) { return t.end(); }
T::const_iterator h_cend(const T& t) { return t.end(); }
void h_next(T::iterator& i) { ++i; }
void h_cnext(T::const_iterator& i) { ++i; }
bool h_eq(const T::iterator& a, const T::iterator& b) { return a == b; }
bool h_ceq(const T::const_iterator& a, const T::const_iterator& b) { return a == b; }
T::chain_iterator h_chain(T& t, const K& k) { return t.begin(k); }
T::const_chain_iterator h_cchain(const T& t, const K& k) { return t.begin(k); }
T::chain_iterator h_chain_end(T& t, const K& k) { return t.end(k); }
T::const_chain_iterator h_cchain_end(const T& t, const K& k) { return t.end(k); }
void h_chain_next(T::chain_iterator& i) { ++i; }
void h_cchain_next(T::const_chain_iterator& i) { ++i; }
bool h_chain_eq(const T::chain_iterator& a, const T::chain_iterator& b) { return a == b; }
En* h_chain_deref(T::chain_iterator& i) { return i.operator->(); }
const En* h_cchain_deref(const T::const_chain_iterator& i) { return i.operator->(); }
bool h_cchain_eq(const T::const_chain_iterator& a, const T::const_chain_iterator& b) { return a == b; }
T::iterator h_pnext(T::iterator& i) { return i++; }
T::const_iterator h_cpnext(T::const_iterator& i) { return i++; }
void h_set(T::iterator& a, const T::iterator& b) { a = b; }
void h_cset(T::const_iterator& a, const T::const_iterator& b) { a = b; }
void h_chain_set(T::chain_iterator& a, const T::chain_iterator& b) { a = b; }
void h_cchain_set(T::const_chain_iterator& a, const T::const_chain_iterator& b) { a = b; }
size_t h_count(const T& t, const K& k) { return t.count(k); }
bool h_empty(const T& t) { return t.empty(); }
size_t h_size(const T& t) { return t.numOfEntries(); }
void h_rehash(T& t) { t.rehash(); }
void h_rehash_to(T& t, size_t n) { t.rehash(n); }
void h_clear(T& t) { t.clear(); }
void h_new(void* p, size_t n) { new (p) T(n); }
void h_copy(void* p, const T& o) { new (p) T(o); }
void h_move(void* p, T& o) { new (p) T(std::move(o)); }
void h_delete(T& t) { t.T::~T(); }
T& h_assign(T& t, const T& o) { return t = o; }
T& h_move_assign(T& t, T& o) { return t = std::move(o); }
