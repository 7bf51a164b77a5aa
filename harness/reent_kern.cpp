// Operations for the re-entrancy exploration that the interface table
// (api_kern.cpp) does not hold: indexed memory, reductions, half precision
// scalars, modules.  One call = one vector (or one short array).
#include <nsimd/nsimd-all.hpp>
#include <nsimd/modules/random/functions.hpp>
#include <nsimd/modules/fixed_point.hpp>
#include <nsimd/modules/fixed_point/function/floor.hpp>
#include <nsimd/modules/tet1d.hpp>
#include <nsimd/modules/spmd.hpp>
#include <nsimd/scalar_utilities.h>
#include "kv.h"
// fills every vector register with a pattern (no compiler knowledge involved)
#if defined(__AVX512F__)
#define PZ(i) "vmovdqu64 (%rdi), %zmm" #i "\n"
__asm__(".text\n.globl vf_poison\nvf_poison:\n" PZ(0) PZ(1) PZ(2) PZ(3) PZ(4) PZ(5) PZ(6) PZ(7) PZ(8) PZ(9) PZ(10) PZ(11) PZ(12) PZ(13) PZ(14) PZ(15) PZ(16) PZ(17) PZ(18) PZ(19) PZ(20) PZ(21) PZ(22) PZ(23) PZ(24) PZ(25) PZ(26) PZ(27) PZ(28) PZ(29) PZ(30) PZ(31) "kmovw (%rdi), %k1\nkmovw (%rdi), %k2\nkmovw (%rdi), %k3\nkmovw (%rdi), %k4\nkmovw (%rdi), %k5\nkmovw (%rdi), %k6\nkmovw (%rdi), %k7\nret\n");
#elif defined(__AVX__)
#define PZ(i) "vmovdqu (%rdi), %ymm" #i "\n"
__asm__(".text\n.globl vf_poison\nvf_poison:\n" PZ(0) PZ(1) PZ(2) PZ(3) PZ(4) PZ(5) PZ(6) PZ(7) PZ(8) PZ(9) PZ(10) PZ(11) PZ(12) PZ(13) PZ(14) PZ(15) "ret\n");
#else
#define PZ(i) "movdqu (%rdi), %xmm" #i "\n"
__asm__(".text\n.globl vf_poison\nvf_poison:\n" PZ(0) PZ(1) PZ(2) PZ(3) PZ(4) PZ(5) PZ(6) PZ(7) PZ(8) PZ(9) PZ(10) PZ(11) PZ(12) PZ(13) PZ(14) PZ(15) "ret\n");
#endif
namespace {
template <typename T> struct nm;
#define NM(T) template <> struct nm<T> { static const char *s() { return #T; } };
NM(i8) NM(u8) NM(i16) NM(u16) NM(f16) NM(i32) NM(u32) NM(f32) NM(i64) NM(u64) NM(f64)
template <typename T> int L() { return nsimd::len(T()); }
#define ARGS const void *a_, const void *b_, const void *c_, void *r_, long n, int p
#define HDR const T *a = (const T *)a_, *b = (const T *)b_, *c = (const T *)c_; T *r = (T *)r_; (void)a; (void)b; (void)c; (void)p; (void)r; (void)n;
void add(KernTab &t, const char *op, const char *ty, Kind kd, int l, void (*f)(ARGS)) { Kern x; x.op = op; x.type = ty; x.totype = ty; x.api = "extra"; x.kind = kd; x.lanes = l; x.fn = f; t.push_back(x); }
template <typename T> struct alg { T *v; char buf[4 * 64 * 8 + 64]; T *get() { return (T *)(((size_t)buf + 63) / 64 * 64); } };
#define LU(x) nsimd::loadu(x, T())
// aligned forms, through an aligned private copy
template <typename T> void k_al(ARGS) {
  HDR alg<T> s, d; T *x = s.get(), *y = d.get(); int l = L<T>();
  for (int i = 0; i < 4 * l; i++) { x[i] = a[i]; y[i] = c[i]; }
  typename nsimd::simd_traits<T, nsimd::NSIMD_SIMD>::simd_vectorl m = nsimd::loadlu(b, T());
  switch (p) {
  case 0: nsimd::storea(y, nsimd::loada(x, T()), T()); break;
  case 1: { typename nsimd::simd_traits<T, nsimd::NSIMD_SIMD>::simd_vectorx2 v = nsimd::load2a(x, T()); nsimd::store2a(y, v.v1, v.v0, T()); } break;
  case 2: { typename nsimd::simd_traits<T, nsimd::NSIMD_SIMD>::simd_vectorx3 v = nsimd::load3a(x, T()); nsimd::store3a(y, v.v1, v.v0, v.v2, T()); } break;
  case 3: { typename nsimd::simd_traits<T, nsimd::NSIMD_SIMD>::simd_vectorx4 v = nsimd::load4a(x, T()); nsimd::store4a(y, v.v1, v.v0, v.v3, v.v2, T()); } break;
  case 4: nsimd::mask_storea1(m, y, LU(a), T()); break;
  case 5: nsimd::storea(y, nsimd::masko_loada1(m, x, LU(c), T()), T()); break;
  case 6: nsimd::storea(y, nsimd::maskz_loada1(m, x, T()), T()); break;
  case 7: nsimd::storela(y, nsimd::loadla(x, T()), T()); break;
  }
  for (int i = 0; i < 4 * l; i++) r[i] = y[i];
}
template <typename T> void k_idx(ARGS) {
  HDR typedef typename nsimd::traits<T>::itype I; I ix[64]; int l = L<T>();
  for (int i = 0; i < l; i++) ix[i] = (I)((i * 5 + 3) % l * 2);
  if (p == 0) nsimd::storeu(r, nsimd::gather(a, nsimd::loadu(ix, I()), T()), T());
  else nsimd::scatter(r, nsimd::loadu(ix, I()), LU(a), T());
}
template <typename T> void k_addv(ARGS) { HDR r[0] = nsimd::addv(LU(a), T()); }
template <typename T> void flt(KernTab &t) { add(t, "addv", nm<T>::s(), K_UN, L<T>(), k_addv<T>); }
template <typename T> void idx(KernTab &t) { for (int i = 0; i < 2; i++) add(t, i ? "scatter" : "gather", nm<T>::s(), K_RED, i, k_idx<T>); }
template <typename T> void all(KernTab &t) { for (int i = 0; i < 8; i++) add(t, "aligned", nm<T>::s(), K_RED, i, k_al<T>); }
#define TAB11(X) X(i8) X(u8) X(i16) X(u16) X(f16) X(i32) X(u32) X(f32) X(i64) X(u64) X(f64)
void k_half(ARGS) {
  (void)c_; (void)n; const f32 *a = (const f32 *)a_; const f16 *h = (const f16 *)b_; int *r = (int *)r_;
  for (int i = 0; i < 8; i++) switch (p) {
    case 0: r[i] = nsimd_f32_to_u16(a[i]); break;
    case 1: { f32 x = nsimd_f16_to_f32(h[i]); memcpy(r + i, &x, 4); } break;
    case 2: r[i] = nsimd::isnan(a[i]) + 2 * nsimd::isinf(a[i]) + 4 * nsimd::isnormal(a[i]); break;
    case 3: r[i] = nsimd::isnan(h[i]) + 2 * nsimd::isinf(h[i]); break;
    case 4: r[i] = nsimd_ufp_f32(a[i], a[i + 1]); break;
    case 5: r[i] = nsimd_ufp_f16(h[i], h[i + 1]); break;
    case 6: r[i] = nsimd_ufp_f64(a[i], a[i + 1]); break;
  }
}
// counter based generators
template <typename W> void put(nsimd::packx1<W> &x, const W *p) { x.v0 = nsimd::loadu<nsimd::pack<W> >(p); }
template <typename W> void put(nsimd::packx2<W> &x, const W *p) { x.v0 = nsimd::loadu<nsimd::pack<W> >(p); x.v1 = nsimd::loadu<nsimd::pack<W> >(p + 3); }
template <typename W> void put(nsimd::packx4<W> &x, const W *p) { x.v0 = nsimd::loadu<nsimd::pack<W> >(p); x.v1 = nsimd::loadu<nsimd::pack<W> >(p + 3); x.v2 = nsimd::loadu<nsimd::pack<W> >(p + 5); x.v3 = nsimd::loadu<nsimd::pack<W> >(p + 6); }
template <typename W> void get(const nsimd::packx2<W> &x, W *o) { nsimd::storeu(o, x.v0); nsimd::storeu(o + L<W>(), x.v1); }
template <typename W> void get(const nsimd::packx4<W> &x, W *o) { nsimd::storeu(o, x.v0); nsimd::storeu(o + L<W>(), x.v1); nsimd::storeu(o + 2 * L<W>(), x.v2); nsimd::storeu(o + 3 * L<W>(), x.v3); }
template <typename W, typename XC, typename XK> inline void rnd(XC (*f)(XC, XK), const W *a, W *r) { XC c; XK k; put(c, a); put(k, a + 1); get(f(c, k), r); }
#define RND(G, W) void k_##G(ARGS) { (void)b_; (void)c_; (void)n; (void)p; rnd<W>(nsimd::random::G, (const W *)a_, (W *)r_); }
RND(philox_2x32_10, u32) RND(philox_4x32_10, u32) RND(philox_2x64_10, u64) RND(philox_4x64_10, u64) RND(threefry_2x32_20, u32) RND(threefry_4x32_20, u32) RND(threefry_2x64_20, u64) RND(threefry_4x64_20, u64)
// fixed point: scalar and vector
template <int LF, int RT> struct FX {
  typedef nsimd::fixed_point::fp_t<LF, RT> F; typedef nsimd::fixed_point::pack<F> P;
  static void simd(ARGS) {
    (void)n; (void)c_; const F *a = (const F *)a_, *b = (const F *)b_; F *r = (F *)r_;
    P x = nsimd::fixed_point::loadu<P>((F *)a), y = nsimd::fixed_point::loadu<P>((F *)b);
    switch (p) {
    case 0: nsimd::fixed_point::storeu(r, x + y); break;
    case 1: nsimd::fixed_point::storeu(r, x * y); break;
    case 2: nsimd::fixed_point::storeu(r, x / y); break;
    case 3: nsimd::fixed_point::storeu(r, nsimd::fixed_point::fma(x, y, x)); break;
    case 4: nsimd::fixed_point::storeu(r, nsimd::fixed_point::min(x, y)); break;
    case 5: nsimd::fixed_point::storeu(r, nsimd::fixed_point::if_else1(nsimd::fixed_point::lt(x, y), x, y)); break;
    case 6: nsimd::fixed_point::storeu(r, nsimd::fixed_point::rec(y)); break;
    }
  }
  static void sca(ARGS) {
    (void)n; (void)c_; const F *a = (const F *)a_, *b = (const F *)b_; F *r = (F *)r_;
    for (int i = 0; i < 4; i++) switch (p) {
      case 0: r[i] = a[i] + b[i]; break;
      case 1: r[i] = a[i] * b[i]; break;
      case 2: r[i] = a[i] / b[i]; break;
      case 3: r[i] = nsimd::fixed_point::floor(b[i]); break;
      case 4: r[i] = a[i] - b[i]; break;
      case 5: r[i] = a[i] < b[i] ? a[i] : b[i]; break;
      case 6: r[i] = F((float)a[i] * 0.5f); break;
    }
  }
};
// array expressions and kernels
template <typename T> void k_tet(ARGS) {
  HDR const int m = 2 * L<T>() + 1;
  TET1D_OUT(T) o = tet1d::out(r);
  switch (p) {
  case 0: o = tet1d::in(a, m) + tet1d::in(b, m) * tet1d::in(c, m); break;
  case 1: o(tet1d::in(a, m) > tet1d::in(c, m)) = tet1d::in(b, m) - tet1d::in(a, m); break;
  case 2: o = tet1d::in(a, m) * b[0]; break;
  }
}
spmd_kernel_1d(vf_spmd, f32 *r, f32 *a, f32 *b)
  k_float x = k_unmasked_load(a), y(k_unmasked_load(b));
  k_unmasked_store(r, x + y);
  k_while(x < y)
    k_set(x, x + (f32)1.5);
    k_if(x > y - (f32)2.0)
      k_break;
    k_endif
    k_store(r, x);
  k_endwhile
spmd_kernel_end
void k_spmd(ARGS) {
  (void)c_; (void)n; (void)p; f32 *r = (f32 *)r_; f32 x[64], y[64]; int m = L<f32>() + 1;
  for (int i = 0; i < m; i++) { x[i] = (f32)(((const unsigned char *)a_)[i] % 16); y[i] = (f32)(((const unsigned char *)b_)[i] % 16); }
  spmd_launch_kernel_1d(vf_spmd, 32, 1, m, r, x, y)
}
} // namespace
void reent_reg(KernTab &t) {
#define A_(T) all<T>(t);
  TAB11(A_)
  idx<i16>(t); idx<u16>(t); idx<f16>(t); idx<i32>(t); idx<u32>(t); idx<f32>(t); idx<i64>(t); idx<u64>(t); idx<f64>(t);
  flt<f16>(t); flt<f32>(t); flt<f64>(t);
  for (int i = 0; i < 7; i++) add(t, "half", "f32", K_RED, i, k_half);
#define AR(n, ty) add(t, #n, ty, K_UN, 0, k_##n);
  AR(philox_2x32_10, "u32") AR(philox_4x32_10, "u32") AR(philox_2x64_10, "u64") AR(philox_4x64_10, "u64") AR(threefry_2x32_20, "u32") AR(threefry_4x32_20, "u32") AR(threefry_2x64_20, "u64") AR(threefry_4x64_20, "u64")
  for (int i = 0; i < 7; i++) { add(t, "fixed4_2", "i8", K_RED, i, FX<4, 2>::simd); add(t, "fixed8_4", "i16", K_RED, i, FX<8, 4>::simd); add(t, "fixed16_8", "i32", K_RED, i, FX<16, 8>::simd); add(t, "sfixed8_4", "i16", K_RED, i, FX<8, 4>::sca); add(t, "sfixed16_8", "i32", K_RED, i, FX<16, 8>::sca); }
  for (int i = 0; i < 3; i++) { add(t, "tet1d", "i16", K_RED, i, k_tet<i16>); add(t, "tet1d", "f32", K_RED, i, k_tet<f32>); add(t, "tet1d", "f64", K_RED, i, k_tet<f64>); add(t, "tet1d", "u8", K_RED, i, k_tet<u8>); }
  add(t, "spmd", "f32", K_RED, 0, k_spmd);
}
