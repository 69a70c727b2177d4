// Verification harness: instantiates the real Vector templates at an opaque
// element type (and at int).  Nothing of the vector is restated here.
#include <iterator>
#include <cstddef>
#include <adt/Vector.h>
struct O { long id; long more[2]; O(); O(const O&); O& operator=(const O&); ~O(); };
#ifdef ELT_INT
typedef int T;
#else
typedef O T;
#endif
typedef eni::Vector<T> V;
typedef V::iterator It;
typedef V::const_iterator Ci;
extern "C" {
extern const unsigned long k_T = sizeof(T), k_V = sizeof(V), k_It = sizeof(It), k_SV = sizeof(std::vector<T>), k_IL = sizeof(std::initializer_list<T>);
const void* p_data(V& v) { return v.data(); }
size_t p_size(const V& v) { return v.size(); }
size_t p_cap(const V& v) { return v.capacity(); }
const void* p_it(It& i) { return i.operator->(); }
const void* p_sv(const std::vector<T>& v) { return v.data(); }
const void* p_il(const std::initializer_list<T>& v) { return v.begin(); }
size_t p_ilsize(const std::initializer_list<T>& v) { return v.size(); }
}
void h_new(void* p) { new (p) V(); }
void h_new_n(void* p, size_t n) { new (p) V(n); }
void h_new_nv(void* p, size_t n, const T& v) { new (p) V(n, v); }
void h_new_std(void* p, const std::vector<T>& v) { new (p) V(v); }
void h_new_copy(void* p, const V& v) { new (p) V(v); }
void h_new_list(void* p, std::initializer_list<T> l) { new (p) V(l); }
void h_delete(V& v) { v.V::~V(); }
V& h_set(V& v, const V& o) { return v = o; }
V& h_set_list(V& v, std::initializer_list<T> l) { return v = l; }
size_t h_size(const V& v) { return v.size(); }
bool h_empty(const V& v) { return v.empty(); }
size_t h_max_size(const V& v) { return v.max_size(); }
size_t h_capacity(const V& v) { return v.capacity(); }
void h_reserve(V& v, size_t n) { v.reserve(n); }
void h_shrink(V& v) { v.shrink_to_fit(); }
void h_resize(V& v, size_t n) { v.resize(n); }
void h_resize_v(V& v, size_t n, const T& x) { v.resize(n, x); }
T& h_index(V& v, size_t i) { return v[i]; }
const T& h_cindex(const V& v, size_t i) { return v[i]; }
T& h_at(V& v, size_t i) { return v.at(i); }
const T& h_cat(const V& v, size_t i) { return v.at(i); }
T& h_front(V& v) { return v.front(); }
T& h_back(V& v) { return v.back(); }
T* h_data(V& v) { return v.data(); }
void h_assign_nv(V& v, size_t n, const T& x) { v.assign(n, x); }
void h_assign_range(V& v, Ci f, Ci l) { v.assign(f, l); }
void h_assign_list(V& v, std::initializer_list<T> l) { v.assign(l); }
void h_push(V& v, const T& x) { v.push_back(x); }
T h_pop(V& v) { return v.pop_back(); }
void h_emplace(V& v, const T& x) { v.emplace_back(x); }
void h_emplace0(V& v) { v.emplace_back(); }
It h_ins_it(V& v, It i, const T& x) { return v.insert(i, x); }
It h_ins_itn(V& v, It i, size_t n, const T& x) { return v.insert(i, n, x); }
It h_ins_itr(V& v, It i, Ci f, Ci l) { return v.insert(i, f, l); }
It h_ins_itl(V& v, It i, std::initializer_list<T> l) { return v.insert(i, l); }
void h_ins(V& v, size_t i, const T& x) { v.insert(i, x); }
void h_ins_n(V& v, size_t i, size_t n, const T& x) { v.insert(i, n, x); }
void h_ins_r(V& v, size_t i, Ci f, Ci l) { v.insert(i, f, l); }
void h_ins_l(V& v, size_t i, std::initializer_list<T> l) { v.insert(i, l); }
It h_era_it(V& v, It i) { return v.erase(i); }
It h_era_itr(V& v, It f, It l) { return v.erase(f, l); }
void h_era(V& v, size_t i) { v.erase(i); }
void h_era_r(V& v, size_t f, size_t l) { v.erase(f, l); }
void h_swap(V& v, V& o) { v.swap(o); }
void h_clear(V& v) { v.clear(); }
It h_begin(V& v) { return v.begin(); }
It h_end(V& v) { return v.end(); }
Ci h_cbegin(const V& v) { return v.begin(); }
Ci h_cend(const V& v) { return v.end(); }
T& i_deref(It& i) { return *i; }
T* i_arrow(It& i) { return i.operator->(); }
It i_preinc(It& i) { return ++i; }
It i_postinc(It& i) { return i++; }
It i_predec(It& i) { return --i; }
It i_postdec(It& i) { return i--; }
It i_addeq(It& i, size_t n) { return i += n; }
It i_add(It& i, size_t n) { return i + n; }
It i_subeq(It& i, size_t n) { return i -= n; }
It i_sub(It& i, size_t n) { return i - n; }
long i_diff(It& i, It& j) { return i - j; }
T& i_index(It& i, size_t n) { return i[n]; }
It i_set(It& i, It& j) { i = j; return i; }
bool i_lt(It& i, It& j) { return i < j; }
bool i_gt(It& i, It& j) { return i > j; }
bool i_le(It& i, It& j) { return i <= j; }
bool i_ge(It& i, It& j) { return i >= j; }
bool i_eq(It& i, It& j) { return i == j; }
bool i_ne(It& i, It& j) { return i != j; }
