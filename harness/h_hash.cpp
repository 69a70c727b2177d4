// Verification harness: instantiates the real hash table templates at opaque
// key, value and hasher types.  Nothing of the table is restated here.
#include <iterator>
#include <string>
#include <adt/HashTable.h>
struct K { long id; K(const K&); bool operator==(const K&) const; ~K(); };
struct V { long id; V(); V(const V&); V& operator=(const V&); ~V(); };
struct H { unsigned int operator()(const K&) const; };
template class eni::HashTable<K, V, H>;
typedef eni::HashTable<K, V, H> T;
typedef eni::internal::TableImpl<K, V, H> TI;
template class eni::EntryIterBase<TI>;
template class eni::ChainIterBase<TI>;
