// SIMD side: array kernels over every value operation, through the C++ base
// API ("base") and the scalar API ("scalar").
#include <nsimd/nsimd-all.hpp>
#include "kv.h"
#define STR_(x) #x
#define STR(x) STR_(x)
#ifndef GROUP
#define GROUP 0
#endif
namespace {
template <typename T> struct nm;
#define NM(T) template <> struct nm<T> { static const char *s() { return #T; } };
NM(i8) NM(u8) NM(i16) NM(u16) NM(f16) NM(i32) NM(u32) NM(f32) NM(i64) NM(u64) NM(f64)
template <typename T> int L() { return nsimd::len(T()); }
#define HDR const T *a = (const T *)a_, *b = (const T *)b_, *c = (const T *)c_; T *r = (T *)r_; (void)a; (void)b; (void)c; (void)p; (void)r;
#define ARGS const void *a_, const void *b_, const void *c_, void *r_, long n, int p
#define LD(x) nsimd::loadu(x + i, T())
#define UN(op) template <typename T> void b_##op(ARGS) { HDR for (long i = 0; i < n; i += L<T>()) nsimd::storeu(r + i, nsimd::op(LD(a), T()), T()); } \
  template <typename T> void s_##op(ARGS) { HDR for (long i = 0; i < n; i++) r[i] = nsimd::scalar_##op(a[i]); }
#define BIN(op) template <typename T> void b_##op(ARGS) { HDR for (long i = 0; i < n; i += L<T>()) nsimd::storeu(r + i, nsimd::op(LD(a), LD(b), T()), T()); } \
  template <typename T> void s_##op(ARGS) { HDR for (long i = 0; i < n; i++) r[i] = nsimd::scalar_##op(a[i], b[i]); }
#define TER(op) template <typename T> void b_##op(ARGS) { HDR for (long i = 0; i < n; i += L<T>()) nsimd::storeu(r + i, nsimd::op(LD(a), LD(b), LD(c), T()), T()); } \
  template <typename T> void s_##op(ARGS) { HDR for (long i = 0; i < n; i++) r[i] = nsimd::scalar_##op(a[i], b[i], c[i]); }
#define SH(op) template <typename T> void b_##op(ARGS) { HDR for (long i = 0; i < n; i += L<T>()) nsimd::storeu(r + i, nsimd::op(LD(a), p, T()), T()); } \
  template <typename T> void s_##op(ARGS) { HDR for (long i = 0; i < n; i++) r[i] = nsimd::scalar_##op(a[i], p); }
#define CMP(op) template <typename T> void b_##op(ARGS) { HDR for (long i = 0; i < n; i += L<T>()) nsimd::storelu(r + i, nsimd::op(LD(a), LD(b), T()), T()); } \
  template <typename T> void s_##op(ARGS) { HDR for (long i = 0; i < n; i++) r[i] = nsimd::to<T>((int)nsimd::scalar_##op(a[i], b[i])); }
#define R1(op, K) t.push_back(mk(#op, nm<T>::s(), nm<T>::s(), "base", K, L<T>(), b_##op<T>)); t.push_back(mk(#op, nm<T>::s(), nm<T>::s(), "scalar", K, 1, s_##op<T>));
#define RB(op, K) t.push_back(mk(#op, nm<T>::s(), nm<T>::s(), "base", K, L<T>(), b_##op<T>));
Kern mk(const char *o, const char *ty, const char *tt, const char *api, Kind k, int l, void (*f)(ARGS)) {
  Kern x; x.op = o; x.type = ty; x.totype = tt; x.api = api; x.kind = k; x.lanes = l; x.fn = f; return x;
}
#if GROUP == 0
UN(neg) UN(abs) UN(notb) UN(ceil) UN(floor) UN(trunc) UN(round_to_even)
BIN(add) BIN(sub) BIN(mul) BIN(div) BIN(min) BIN(max) BIN(adds) BIN(subs) BIN(orb) BIN(andb) BIN(andnotb) BIN(xorb)
SH(shl) SH(shr) SH(shra)
template <typename T> void reg_all(KernTab &t) {
  R1(neg, K_UN) R1(abs, K_UN) R1(notb, K_UN) R1(ceil, K_UN) R1(floor, K_UN) R1(trunc, K_UN) R1(round_to_even, K_UN)
  R1(add, K_BIN) R1(sub, K_BIN) R1(mul, K_BIN) R1(div, K_BIN) R1(min, K_BIN) R1(max, K_BIN) R1(adds, K_BIN) R1(subs, K_BIN)
  R1(orb, K_BIN) R1(andb, K_BIN) R1(andnotb, K_BIN) R1(xorb, K_BIN)
}
template <typename T> void reg_int(KernTab &t) { R1(shl, K_SHIFT) R1(shr, K_SHIFT) R1(shra, K_SHIFT) }
template <typename T> void reg_flt(KernTab &) {}
#elif GROUP == 1
TER(fma) TER(fnma) TER(fms) TER(fnms)
CMP(eq) CMP(ne) CMP(lt) CMP(le) CMP(gt) CMP(ge)
UN(rec) UN(rec8) UN(rec11) UN(sqrt) UN(rsqrt8) UN(rsqrt11)
template <typename T> void b_if_else1(ARGS) { HDR for (long i = 0; i < n; i += L<T>()) nsimd::storeu(r + i, nsimd::if_else1(nsimd::loadlu(a + i, T()), LD(b), LD(c), T()), T()); }
template <typename T> void b_to_mask(ARGS) { HDR for (long i = 0; i < n; i += L<T>()) nsimd::storeu(r + i, nsimd::to_mask(nsimd::loadlu(a + i, T()), T()), T()); }
template <typename T> void b_to_logical(ARGS) { HDR for (long i = 0; i < n; i += L<T>()) nsimd::storelu(r + i, nsimd::to_logical(LD(a), T()), T()); }
template <typename T> void b_loadl(ARGS) { HDR for (long i = 0; i < n; i += L<T>()) nsimd::storelu(r + i, nsimd::loadlu(a + i, T()), T()); }
template <typename T> void b_copy(ARGS) { HDR for (long i = 0; i < n; i += L<T>()) nsimd::storeu(r + i, LD(a), T()); }
template <typename T> void b_set1(ARGS) { HDR for (long i = 0; i < n; i += L<T>()) { T buf[NSIMD_MAX_LEN(u8)]; nsimd::storeu(buf, nsimd::set1(a[i], T()), T()); for (int j = 0; j < L<T>(); j++) { nsimd::storeu(buf, nsimd::set1(a[i + j], T()), T()); r[i + j] = buf[(i + j) % L<T>()]; } } }
#define LG2(op) template <typename T> void b_##op(ARGS) { HDR for (long i = 0; i < n; i += L<T>()) nsimd::storelu(r + i, nsimd::op(nsimd::loadlu(a + i, T()), nsimd::loadlu(b + i, T()), T()), T()); }
LG2(orl) LG2(andl) LG2(andnotl) LG2(xorl)
template <typename T> void b_notl(ARGS) { HDR for (long i = 0; i < n; i += L<T>()) nsimd::storelu(r + i, nsimd::notl(nsimd::loadlu(a + i, T()), T()), T()); }
template <typename T> void reg_all(KernTab &t) {
  R1(fma, K_TER) R1(fnma, K_TER) R1(fms, K_TER) R1(fnms, K_TER)
  R1(eq, K_CMP) R1(ne, K_CMP) R1(lt, K_CMP) R1(le, K_CMP) R1(gt, K_CMP) R1(ge, K_CMP)
  RB(if_else1, K_SEL) RB(to_mask, K_LOG1) RB(to_logical, K_UN) RB(loadl, K_UN) RB(copy, K_UN) RB(set1, K_UN)
  RB(orl, K_LOG2) RB(andl, K_LOG2) RB(andnotl, K_LOG2) RB(xorl, K_LOG2) RB(notl, K_LOG1)
}
template <typename T> void reg_int(KernTab &) {}
template <typename T> void reg_flt(KernTab &t) { R1(rec, K_UN) R1(rec8, K_UN) R1(rec11, K_UN) R1(sqrt, K_UN) R1(rsqrt8, K_UN) R1(rsqrt11, K_UN) }
#elif GROUP == 2
template <typename T> void reg_all(KernTab &) {}
template <typename T> void reg_int(KernTab &) {}
template <typename T> void reg_flt(KernTab &) {}
template <typename T, typename U> void b_cvt(ARGS) { (void)b_; (void)c_; (void)p; const T *a = (const T *)a_; U *r = (U *)r_; for (long i = 0; i < n; i += L<T>()) nsimd::storeu(r + i, nsimd::cvt(LD(a), T(), U()), U()); }
template <typename T, typename U> void s_cvt(ARGS) { (void)b_; (void)c_; (void)p; const T *a = (const T *)a_; U *r = (U *)r_; for (long i = 0; i < n; i++) r[i] = nsimd::scalar_cvt(U(), a[i]); }
template <typename T, typename U> void b_reinterpret(ARGS) { (void)b_; (void)c_; (void)p; const T *a = (const T *)a_; U *r = (U *)r_; for (long i = 0; i < n; i += L<T>()) nsimd::storeu(r + i, nsimd::reinterpret(LD(a), T(), U()), U()); }
template <typename T, typename U> void s_reinterpret(ARGS) { (void)b_; (void)c_; (void)p; const T *a = (const T *)a_; U *r = (U *)r_; for (long i = 0; i < n; i++) r[i] = nsimd::scalar_reinterpret(U(), a[i]); }
template <typename T, typename U> void b_reinterpretl(ARGS) { (void)b_; (void)c_; (void)p; const T *a = (const T *)a_; U *r = (U *)r_; for (long i = 0; i < n; i += L<T>()) nsimd::storelu(r + i, nsimd::reinterpretl(nsimd::loadlu(a + i, T()), T(), U()), U()); }
template <typename T, typename U> void b_upcvt(ARGS) { (void)b_; (void)c_; (void)p; const T *a = (const T *)a_; U *r = (U *)r_; typedef typename nsimd::simd_traits<U, nsimd::NSIMD_SIMD>::simd_vectorx2 V2;
  for (long i = 0; i < n; i += L<T>()) { V2 v = nsimd::upcvt(LD(a), T(), U()); nsimd::storeu(r + i, v.v0, U()); nsimd::storeu(r + i + L<U>(), v.v1, U()); } }
template <typename T, typename U> void b_downcvt(ARGS) { (void)b_; (void)c_; (void)p; const T *a = (const T *)a_; U *r = (U *)r_;
  for (long i = 0; i < n; i += L<U>()) nsimd::storeu(r + i, nsimd::downcvt(LD(a), nsimd::loadu(a + i + L<T>(), T()), T(), U()), U()); }
template <typename T, typename U> void same(KernTab &t) {
  t.push_back(mk("cvt", nm<T>::s(), nm<U>::s(), "base", K_CVT, L<T>(), b_cvt<T, U>));
  t.push_back(mk("cvt", nm<T>::s(), nm<U>::s(), "scalar", K_CVT, 1, s_cvt<T, U>));
  t.push_back(mk("reinterpret", nm<T>::s(), nm<U>::s(), "base", K_CVT, L<T>(), b_reinterpret<T, U>));
  t.push_back(mk("reinterpret", nm<T>::s(), nm<U>::s(), "scalar", K_CVT, 1, s_reinterpret<T, U>));
  t.push_back(mk("reinterpretl", nm<T>::s(), nm<U>::s(), "base", K_CVT, L<T>(), b_reinterpretl<T, U>));
}
template <typename T, typename U> void up(KernTab &t) { t.push_back(mk("upcvt", nm<T>::s(), nm<U>::s(), "base", K_UPCVT, L<T>(), b_upcvt<T, U>)); }
template <typename T, typename U> void down(KernTab &t) { t.push_back(mk("downcvt", nm<T>::s(), nm<U>::s(), "base", K_DOWNCVT, L<U>(), b_downcvt<T, U>)); }
#endif
} // namespace
#if GROUP == 2
void kv_reg_2(KernTab &t) {
  same<i8, i8>(t); same<i8, u8>(t); same<u8, i8>(t); same<u8, u8>(t);
#define S3(A, B, C) same<A, A>(t); same<A, B>(t); same<A, C>(t); same<B, A>(t); same<B, B>(t); same<B, C>(t); same<C, A>(t); same<C, B>(t); same<C, C>(t);
  S3(i16, u16, f16) S3(i32, u32, f32) S3(i64, u64, f64)
#define U1(T, A, B, C) up<T, A>(t); up<T, B>(t); up<T, C>(t);
  U1(i8, i16, u16, f16) U1(u8, i16, u16, f16)
  U1(i16, i32, u32, f32) U1(u16, i32, u32, f32) U1(f16, i32, u32, f32)
  U1(i32, i64, u64, f64) U1(u32, i64, u64, f64) U1(f32, i64, u64, f64)
#define D2(T, A, B) down<T, A>(t); down<T, B>(t);
#define D3(T, A, B, C) down<T, A>(t); down<T, B>(t); down<T, C>(t);
  D2(i16, i8, u8) D2(u16, i8, u8) D2(f16, i8, u8)
  D3(i32, i16, u16, f16) D3(u32, i16, u16, f16) D3(f32, i16, u16, f16)
  D3(i64, i32, u32, f32) D3(u64, i32, u32, f32) D3(f64, i32, u32, f32)
}
#else
template <typename T> static void ri(KernTab &t) { reg_all<T>(t); reg_int<T>(t); }
template <typename T> static void rf(KernTab &t) { reg_all<T>(t); reg_flt<T>(t); }
#if GROUP == 0
void kv_reg_0(KernTab &t)
#else
void kv_reg_1(KernTab &t)
#endif
{ ri<i8>(t); ri<u8>(t); ri<i16>(t); ri<u16>(t); ri<i32>(t); ri<u32>(t); ri<i64>(t); ri<u64>(t); rf<f16>(t); rf<f32>(t); rf<f64>(t); }
#endif
// every group carries these; the linker keeps one, absent groups are skipped
__attribute__((weak)) void kv_reg_0(KernTab &);
__attribute__((weak)) void kv_reg_1(KernTab &);
__attribute__((weak)) void kv_reg_2(KernTab &);
__attribute__((weak)) void kv_reg_3(KernTab &);
__attribute__((weak)) void kv_reg_4(KernTab &);
__attribute__((weak)) void kv_register_all(KernTab &t) {
  void (*volatile f[])(KernTab &) = {kv_reg_0, kv_reg_1, kv_reg_2, kv_reg_3, kv_reg_4};
  for (int i = 0; i < 5; i++) if (f[i]) f[i](t);
}
__attribute__((weak)) const char *kv_ext() { return STR(NSIMD_SIMD); }
#ifdef CFG
extern "C" __attribute__((weak, visibility("default"))) void kv_export(KernTab *t, const char **cfg) { kv_register_all(*t); *cfg = STR(CFG); }
#endif
