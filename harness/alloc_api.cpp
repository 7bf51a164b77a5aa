// C++98-compatible side that uses nsimd (compiled as C++98, C++11 and C++20).
#include <nsimd/nsimd-all.hpp>
#include <nsimd/modules/memory_management.hpp>
#include <vector>
#include <new>
#include <stdexcept>
#include <string.h>
#include "alloc_api.h"
#define WRONG ((void *)1)
template <typename T> struct nmz;
#define NM(T) template <> struct nmz<T> { static const char *s(int i) { static const char *const k[] = {"alloc_for<" #T ">", "allocator<" #T ">", "scoped<" #T ">", "scopedcopy<" #T ">", "device_malloc<" #T ">", "device_calloc<" #T ">", "pair_malloc<" #T ">", "pair_calloc<" #T ">", "vector<" #T ">"}; return k[i]; } };
NM(i8) NM(u8) NM(i16) NM(u16) NM(f16) NM(i32) NM(u32) NM(f32) NM(i64) NM(u64) NM(f64)
static void *c_al(unsigned long n) { return nsimd_aligned_alloc((nsimd_nat)n); }
static void c_fr(void *p, unsigned long) { nsimd_aligned_free(p); }
static void *x_al(unsigned long n) { return nsimd::aligned_alloc((nsimd_nat)n); }
static void x_fr(void *p, unsigned long) { nsimd::aligned_free(p); }
template <typename T> void *f_al(unsigned long n) { return nsimd::aligned_alloc_for<T>((nsimd_nat)n); }
template <typename T> void f_fr(void *p, unsigned long) { nsimd::aligned_free_for<T>(p); }
template <typename T> void *a_al(unsigned long n) {
  try { nsimd::allocator<T> a; T *p = a.allocate((size_t)n); return p ? (void *)p : (n ? WRONG : NULL); } catch (std::bad_alloc &) { return NULL; }
}
template <typename T> void a_fr(void *p, unsigned long n) { nsimd::allocator<T> a; a.deallocate((T *)p, (size_t)n); }
// scoped objects live in a static table (no extra allocation)
template <typename T> struct Slots {
  typedef nsimd::scoped_aligned_mem_for<T> S;
  static S **tab() { static S *t[16]; return t; }
  static void *buf(int i) { static double b[16][16]; return b[i]; }
};
template <typename T, int CP> void *s_al(unsigned long n) {
  typedef Slots<T> Q;
  int i = 0;
  while (Q::tab()[i]) i++;
  try {
    if (CP) { typename Q::S a((size_t)n); for (unsigned long j = 0; j < n; j++) ((unsigned char *)(a.get() + j))[0] = (unsigned char)(j * 7 + 1); Q::tab()[i] = new (Q::buf(i)) typename Q::S(a);
      if (Q::tab()[i]->get() == a.get()) { return WRONG; }
      for (unsigned long j = 0; j < n; j++) if (((unsigned char *)(Q::tab()[i]->get() + j))[0] != (unsigned char)(j * 7 + 1)) return WRONG; }
    else Q::tab()[i] = new (Q::buf(i)) typename Q::S((size_t)n);
  } catch (std::bad_alloc &) { return NULL; } catch (std::length_error &) { return NULL; }
  const typename Q::S *cs = Q::tab()[i];
  if (cs->get() != Q::tab()[i]->get()) return WRONG;
  return Q::tab()[i]->get();
}
template <typename T> void s_fr(void *p, unsigned long) {
  typedef Slots<T> Q;
  for (int i = 0; i < 16; i++) if (Q::tab()[i] && (void *)Q::tab()[i]->get() == p) { typedef typename Q::S S; Q::tab()[i]->~S(); Q::tab()[i] = NULL; return; }
}
template <typename T> void *d_al(unsigned long n) { return nsimd::device_malloc<T>(n); }
template <typename T> void *d_cal(unsigned long n) { return nsimd::device_calloc<T>(n); }
template <typename T> void d_fr(void *p, unsigned long) { nsimd::device_free((T *)p); }
template <typename T> void *pr(nsimd::paired_pointers_t<T> q, unsigned long n) { if (q.device_ptr != q.host_ptr || (q.host_ptr && q.sz != n)) return WRONG; nsimd::copy_to_device(q); nsimd::copy_to_host(q); return q.host_ptr; }
template <typename T> void *p_al(unsigned long n) { return pr(nsimd::pair_malloc<T>(n), n); }
template <typename T> void *p_cal(unsigned long n) { return pr(nsimd::pair_calloc<T>(n), n); }
template <typename T> void p_fr(void *p, unsigned long n) { nsimd::paired_pointers_t<T> q; q.device_ptr = q.host_ptr = (T *)p; q.sz = n; nsimd::pair_free(q); }
static std::vector<Api> tab;
static std::vector<VecApi> vtab;
static void add(const char *n, int e, int al, int z, int mn, void *(*a)(unsigned long), void (*d)(void *, unsigned long)) { Api x; x.name = n; x.esz = e; x.aligned = al; x.zeroed = z; x.minn = mn; x.alloc = a; x.dealloc = d; tab.push_back(x); }
template <typename T> T mkval(int v) { T t; memset(&t, 0, sizeof t); unsigned char *b = (unsigned char *)&t; for (size_t i = 0; i < sizeof t; i++) b[i] = (unsigned char)(v * (2 * (int)i + 1) + (int)i); return t; }
template <typename T> struct VO {
  typedef std::vector<T, nsimd::allocator<T> > V;
  static void *make() { return new V(); }
  static void kill(void *v) { delete (V *)v; }
  static size_t size(void *v) { return ((V *)v)->size(); }
  static void *data(void *v) { return ((V *)v)->empty() ? NULL : (void *)&(*(V *)v)[0]; }
  static int op(void *v_, void *w_, int op, int val) {
    V &v = *(V *)v_, &w = *(V *)w_;
    T x = mkval<T>(val);
    try {
      switch (op) {
      case 0: v.push_back(x); break;
      case 1: v.resize(0, x); break;
      case 2: v.resize(1, x); break;
      case 3: v.resize(7, x); break;
      case 4: v.resize(65, x); break;
      case 5: if (!v.empty()) v.pop_back(); break;
      case 6: V().swap(v); break;
      case 7: w = v; break;
      case 8: v.swap(w); break;
      case 9: v.insert(v.begin(), x); break;
      case 10: if (!v.empty()) v.erase(v.begin()); break;
      case 11: v.reserve(40); break;
      case 12: { V t(v); t.push_back(x); v.swap(t); break; }
      }
      return 0;
    } catch (std::bad_alloc &) { return 1; }
  }
};
template <typename T> void type() {
  add(nmz<T>::s(0), sizeof(T), 1, 0, 0, f_al<T>, f_fr<T>);
  add(nmz<T>::s(1), sizeof(T), 1, 0, 0, a_al<T>, a_fr<T>);
  add(nmz<T>::s(2), sizeof(T), 1, 0, 1, s_al<T, 0>, s_fr<T>);
  add(nmz<T>::s(3), sizeof(T), 1, 0, 1, s_al<T, 1>, s_fr<T>);
  add(nmz<T>::s(4), sizeof(T), 0, 0, 0, d_al<T>, d_fr<T>);
  add(nmz<T>::s(5), sizeof(T), 0, 1, 0, d_cal<T>, d_fr<T>);
  add(nmz<T>::s(6), sizeof(T), 0, 0, 0, p_al<T>, p_fr<T>);
  add(nmz<T>::s(7), sizeof(T), 0, 1, 0, p_cal<T>, p_fr<T>);
  VecApi v; v.name = nmz<T>::s(8); v.esz = sizeof(T); v.make = VO<T>::make; v.kill = VO<T>::kill; v.op = VO<T>::op; v.size = VO<T>::size; v.data = VO<T>::data;
  vtab.push_back(v);
}
static void init() {
  if (!tab.empty()) return;
  add("nsimd_aligned_alloc", 1, 1, 0, 0, c_al, c_fr);
  add("nsimd::aligned_alloc", 1, 1, 0, 0, x_al, x_fr);
  type<f32>(); type<f64>(); type<u8>(); type<f16>(); type<i8>(); type<i16>(); type<u16>(); type<i32>(); type<u32>(); type<i64>(); type<u64>();
}
int api_n() { init(); return (int)tab.size(); }
const Api *api_tab() { init(); return &tab[0]; }
int vec_n() { init(); return (int)vtab.size(); }
const VecApi *vec_tab() { init(); return &vtab[0]; }
int api_align() { return NSIMD_MAX_ALIGNMENT; }
int api_width() { return nsimd::len(i8()); }
long api_cxx() { return (long)NSIMD_CXX; }
int api_alloc_traits() {
  int bad = 0;
  nsimd::allocator<f32> a, b;
  nsimd::allocator<f64> c;
  nsimd::allocator<f32> d(c), e(a);
  (void)d; (void)e;
  if (!(a == b) || a != b) bad++;
  f32 *p = a.allocate(5);
  b.deallocate(p, 5); // equal allocators can free each other's memory
  return bad;
}
void api_or_exit(int which, unsigned long n) { if (which) nsimd::pair_calloc_or_exit<f32>(n); else nsimd::pair_malloc_or_exit<f32>(n); }
nsimd_fill_dev_mem_func(fill_sq, (i * 3 + 1) % 101)
template <typename T> int fill1() {
  int bad = 0;
  for (size_t n = 0; n <= 300; n++) {
    T b[310];
    memset((void *)b, 0x5a, sizeof b);
    T ref[310];
    memcpy((void *)ref, (void *)b, sizeof b);
    fill_sq(b, n);
    for (size_t i = 0; i < n; i++) ref[i] = nsimd::to<T>((i * 3 + 1) % 101);
    if (memcmp((void *)ref, (void *)b, sizeof b)) bad++;
    T e[310];
    memset((void *)e, 0x33, sizeof e); memset((void *)ref, 0x33, sizeof ref);
    nsimd::copy_to_host(e, b, n);
    memcpy((void *)ref, (void *)b, n * sizeof(T));
    if (memcmp((void *)ref, (void *)e, sizeof e)) bad++;
    memset((void *)e, 0x33, sizeof e);
    nsimd::copy_to_device(e, b, n);
    if (memcmp((void *)ref, (void *)e, sizeof e)) bad++;
  }
  return bad;
}
int api_fill() { return fill1<i8>() + fill1<u16>() + fill1<f32>() + fill1<f64>() + fill1<i64>(); }
