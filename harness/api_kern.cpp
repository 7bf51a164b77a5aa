// One group of element types: every value operation through the C++ base API,
// packs of 1, 2 and 3 registers (named function, operator, compound
// assignment, mixed vector/scalar).  P09 compares all of them.
#include <nsimd/nsimd-all.hpp>
#include <nsimd/friendly_but_not_optimized.hpp>
#ifdef SPMD_OPS
#include <nsimd/modules/spmd.hpp>
#endif
#include "math_list.h"
#include "kv.h"
#define STR_(x) #x
#define STR(x) STR_(x)
namespace {
template <typename T> struct nm;
#define NM(T) template <> struct nm<T> { static const char *s() { return #T; } };
NM(i8) NM(u8) NM(i16) NM(u16) NM(f16) NM(i32) NM(u32) NM(f32) NM(i64) NM(u64) NM(f64)
template <typename T> int L() { return nsimd::len(T()); }
#define ARGS const void *a_, const void *b_, const void *c_, void *r_, long n, int p
#define HDR const T *a = (const T *)a_, *b = (const T *)b_, *c = (const T *)c_; T *r = (T *)r_; (void)a; (void)b; (void)c; (void)p; (void)r;
#define HDP HDR typedef nsimd::pack<T, N> P; typedef nsimd::packl<T, N> PL; const int S = nsimd::len(P()); (void)sizeof(PL);
#define LD(x) nsimd::loadu(x + i, T())
#define LL(x) nsimd::loadlu(x + i, T())
#define PD(x) nsimd::loadu<P>(x + i)
#define PLD(x) nsimd::loadlu<PL>(x + i)
#define BASE(nm, st, e) template <typename T> void b_##nm(ARGS) { HDR for (long i = 0; i < n; i += L<T>()) nsimd::st(r + i, e, T()); }
#define PACK(nm, st, e) template <typename T, int N> void nm(ARGS) { HDP for (long i = 0; i < n; i += S) nsimd::st(r + i, e); }
#ifdef SPMD_OPS
// the operation as an SPMD kernel, with whole vectors (s_, unrolled N times)
// and one thread index at a time (u_), the latter against the scalar function
#define KERNEL(op, body, sc) \
  spmd_tmpl_kernel_1d(k1_##op, T, T *a, T *b, T *c, T *r, int p) (void)a; (void)b; (void)c; (void)p; const T one_ = nsimd::to<T>(1), zero_ = nsimd::to<T>(0); (void)one_; (void)zero_; body spmd_kernel_end \
  template <typename T, int N> void s_##op(ARGS) { HDR spmd_launch_tmpl_kernel_1d(k1_##op, T, (int)sizeof(T) * 8, N, n, const_cast<T *>(a), const_cast<T *>(b), const_cast<T *>(c), r, p) } \
  template <typename T> void u_##op(ARGS) { HDR for (long i = 0; i < n; i++) { T *x = const_cast<T *>(a) + i, *y = const_cast<T *>(b) + i, *z = const_cast<T *>(c) + i; T *w = r + i; const long m = 1; spmd_launch_tmpl_kernel_1d(k1_##op, T, (int)sizeof(T) * 8, 1 + (int)(sizeof(T) & 1), m, x, y, z, w, p) } } \
  template <typename T> void v_##op(ARGS) { HDR for (long i = 0; i < n; i++) r[i] = sc; }
#define KBOOL(e) k_if ((e)) k_store(r, one_); k_else k_store(r, zero_); k_endif
#define NZ(x) k_ne(k_load(x), zero_)
#define SB(e) nsimd::to<T>((e) ? 1 : 0)
#define SN(x) (nsimd::to<f64>(x[i]) != 0)
#define UN(op) BASE(op, storeu, nsimd::op(LD(a), T())) KERNEL(op, k_store(r, k_##op(k_load(a)));, nsimd::scalar_##op(a[i]))
#define BIN(op) BASE(op, storeu, nsimd::op(LD(a), LD(b), T())) KERNEL(op, k_store(r, k_##op(k_load(a), k_load(b)));, nsimd::scalar_##op(a[i], b[i]))
#define TER(op) BASE(op, storeu, nsimd::op(LD(a), LD(b), LD(c), T())) KERNEL(op, k_store(r, k_##op(k_load(a), k_load(b), k_load(c)));, nsimd::scalar_##op(a[i], b[i], c[i]))
#define SHF(op) BASE(op, storeu, nsimd::op(LD(a), p, T())) KERNEL(op, k_store(r, k_##op(k_load(a), p));, nsimd::scalar_##op(a[i], p))
#define CMP(op) BASE(op, storelu, nsimd::op(LD(a), LD(b), T())) KERNEL(op, KBOOL(k_##op(k_load(a), k_load(b))), SB(nsimd::scalar_##op(a[i], b[i])))
#define LG1(op) BASE(op, storelu, nsimd::op(LL(a), T())) KERNEL(op, KBOOL(k_##op(NZ(a))), SB(nsimd::scalar_##op(SN(a))))
#define LG2(op) BASE(op, storelu, nsimd::op(LL(a), LL(b), T())) KERNEL(op, KBOOL(k_##op(NZ(a), NZ(b))), SB(nsimd::scalar_##op(SN(a), SN(b))))
#else
#define UN(op) BASE(op, storeu, nsimd::op(LD(a), T())) PACK(n_##op, storeu, nsimd::op(PD(a)))
#define BIN(op) BASE(op, storeu, nsimd::op(LD(a), LD(b), T())) PACK(n_##op, storeu, nsimd::op(PD(a), PD(b)))
#define TER(op) BASE(op, storeu, nsimd::op(LD(a), LD(b), LD(c), T())) PACK(n_##op, storeu, nsimd::op(PD(a), PD(b), PD(c)))
#define SHF(op) BASE(op, storeu, nsimd::op(LD(a), p, T())) PACK(n_##op, storeu, nsimd::op(PD(a), p))
#define CMP(op) BASE(op, storelu, nsimd::op(LD(a), LD(b), T())) PACK(n_##op, storelu, nsimd::op(PD(a), PD(b)))
#define LG1(op) BASE(op, storelu, nsimd::op(LL(a), T())) PACK(n_##op, storelu, nsimd::op(PLD(a)))
#define LG2(op) BASE(op, storelu, nsimd::op(LL(a), LL(b), T())) PACK(n_##op, storelu, nsimd::op(PLD(a), PLD(b)))
#endif
#define OPB(op, o) PACK(o_##op, storeu, PD(a) o PD(b)) PACK(vs_##op, storeu, PD(a) o b[0]) PACK(sv_##op, storeu, b[0] o PD(a)) \
  template <typename T, int N> void as_##op(ARGS) { HDP for (long i = 0; i < n; i += S) { P x = PD(a); P *y = &(x o##= PD(b)); nsimd::storeu(r + i, y == &x ? x : P(T())); } }
#define OPC(op, o) PACK(o_##op, storelu, PD(a) o PD(b)) PACK(vs_##op, storelu, PD(a) o b[0]) PACK(sv_##op, storelu, b[0] o PD(a))
#define OPL(op, o) PACK(o_##op, storelu, PLD(a) o PLD(b)) PACK(vs_##op, storelu, PLD(a) o bool(nsimd::to<f64>(b[0]) != 0)) PACK(sv_##op, storelu, bool(nsimd::to<f64>(b[0]) != 0) o PLD(a))
#define OPU(op, o) PACK(o_##op, storeu, o PD(a))
Kern mk(const char *o, const char *ty, const char *tt, const char *api, Kind k, int l, void (*f)(ARGS)) {
  Kern x; x.op = o; x.type = ty; x.totype = tt; x.api = api; x.kind = k; x.lanes = l; x.fn = f; return x;
}
#define AD(op, api, K, l, f) t.push_back(mk(#op, nm<T>::s(), nm<T>::s(), api, K, l, f));
#ifdef SPMD_OPS
#define RN(op, K, pre, api)
#define RM(N)
#define RV(N)
#define AC(op, K, l)
#ifdef SPMD_THREAD
#define RTH(op, K) t.push_back(mk("thread_" #op, nm<T>::s(), nm<T>::s(), "base", K, 1, v_##op<T>)); t.push_back(mk("thread_" #op, nm<T>::s(), nm<T>::s(), "spmd", K, 1, u_##op<T>));
#else
#define RTH(op, K)
#endif
#define RSU_(op, K, N) AD(op, "spmd" #N, K, N * L<T>(), (s_##op<T, N>))
#define RSU(op, K, N) RSU_(op, K, N)
#define R(op, K) AD(op, "base", K, L<T>(), b_##op<T>) RSU(op, K, 1) RSU(op, K, SPMD_OPS) RTH(op, K)
#elif defined(BASE_ONLY) // the re-entrancy harness needs the base API only
#define RN(op, K, pre, api)
#define RM(N)
#define RV(N)
#define AC(op, K, l) t.push_back(mk(#op, nm<T>::s(), nm<U>::s(), "base", K, l, b_##op<T, U>));
#else
#define RM(N) AD(mem##N, "base", K_RED, N, (e_mem<T, N>)) AD(mem##N, "pack", K_RED, N, (p_mem<T, N>))
#define RV(N) AD(addv##N, "base", K_RED, N, (e_addv<T, N>)) AD(addv##N, "pack", K_RED, N, (p_addv<T, N>))
#define AC(op, K, l) t.push_back(mk(#op, nm<T>::s(), nm<U>::s(), "base", K, l, b_##op<T, U>)); t.push_back(mk(#op, nm<T>::s(), nm<U>::s(), "pack1", K, l, n_##op<T, U, 1>)); t.push_back(mk(#op, nm<T>::s(), nm<U>::s(), "pack2", K, 2 * l, n_##op<T, U, 2>)); t.push_back(mk(#op, nm<T>::s(), nm<U>::s(), "pack3", K, 3 * l, n_##op<T, U, 3>));
#define RN(op, K, pre, api) AD(op, api "1", K, L<T>(), (pre##op<T, 1>)) AD(op, api "2", K, 2 * L<T>(), (pre##op<T, 2>)) AD(op, api "3", K, 3 * L<T>(), (pre##op<T, 3>))
#endif
#ifndef R
#define R(op, K) AD(op, "base", K, L<T>(), b_##op<T>) RN(op, K, n_, "pack")
#endif
#define RO(op, K) RN(op, K, o_, "operator")
#define RS(op, K) RN(op, K, vs_, "vs") RN(op, K, sv_, "sv")
#define RA(op, K) RO(op, K) RS(op, K) RN(op, K, as_, "assign")
UN(neg) UN(abs) UN(notb) UN(ceil) UN(floor) UN(trunc) UN(round_to_even) OPU(neg, -) OPU(notb, ~)
BIN(add) BIN(sub) BIN(mul) BIN(div) BIN(min) BIN(max) BIN(adds) BIN(subs) BIN(orb) BIN(andb) BIN(andnotb) BIN(xorb)
OPB(add, +) OPB(sub, -) OPB(mul, *) OPB(div, /) OPB(orb, |) OPB(andb, &) OPB(xorb, ^)
TER(fma) TER(fnma) TER(fms) TER(fnms)
CMP(eq) CMP(ne) CMP(lt) CMP(le) CMP(gt) CMP(ge) OPC(eq, ==) OPC(ne, !=) OPC(lt, <) OPC(le, <=) OPC(gt, >) OPC(ge, >=)
LG1(notl) LG2(orl) LG2(andl) LG2(andnotl) LG2(xorl) OPL(orl, ||) OPL(andl, &&) PACK(o_notl, storelu, !PLD(a))
#ifdef SPMD_OPS
BASE(to_logical, storelu, nsimd::to_logical(LD(a), T())) KERNEL(to_logical, KBOOL(k_to_logical(k_load(a))), SB(nsimd::scalar_to_logical(a[i])))
BASE(if_else1, storeu, nsimd::if_else1(LL(a), LD(b), LD(c), T())) KERNEL(if_else1, k_if ((NZ(a))) k_store(r, k_load(b)); k_else k_store(r, k_load(c)); k_endif, SN(a) ? b[i] : c[i])
#else
BASE(to_mask, storeu, nsimd::to_mask(LL(a), T())) PACK(n_to_mask, storeu, nsimd::to_mask(PLD(a)))
BASE(to_logical, storelu, nsimd::to_logical(LD(a), T())) PACK(n_to_logical, storelu, nsimd::to_logical(PD(a)))
BASE(if_else1, storeu, nsimd::if_else1(LL(a), LD(b), LD(c), T())) PACK(n_if_else1, storeu, nsimd::if_else1(PLD(a), PD(b), PD(c))) PACK(o_if_else1, storeu, nsimd::if_else(PLD(a), PD(b), PD(c)))
#endif
#if FLOATS
UN(rec) UN(rec8) UN(rec11) UN(sqrt) UN(rsqrt8) UN(rsqrt11)
PACK(o_abs, storeu, nsimd::fabs(PD(a))) PACK(o_min, storeu, nsimd::fmin(PD(a), PD(b))) PACK(o_max, storeu, nsimd::fmax(PD(a), PD(b)))
MATH1(UN) MATH2(BIN)
template <typename T> void reg_flt(KernTab &t) {
  R(rec, K_UN) R(rec8, K_UN) R(rec11, K_UN) R(sqrt, K_UN) R(rsqrt8, K_UN) R(rsqrt11, K_UN) RO(abs, K_UN) RO(min, K_BIN) RO(max, K_BIN)
#define M1(op) R(op, K_UN)
#define M2(op) R(op, K_BIN)
  MATH1(M1) MATH2(M2)
}
#else
SHF(shl) SHF(shr) SHF(shra) PACK(o_shl, storeu, PD(a) << p) PACK(o_shr, storeu, PD(a) >> p)
template <typename T, int N> void as_shl(ARGS) { HDP for (long i = 0; i < n; i += S) { P x = PD(a); x <<= p; nsimd::storeu(r + i, x); } }
template <typename T, int N> void as_shr(ARGS) { HDP for (long i = 0; i < n; i += S) { P x = PD(a); x >>= p; nsimd::storeu(r + i, x); } }
template <typename T> void reg_int(KernTab &t) { R(shl, K_SHIFT) R(shr, K_SHIFT) R(shra, K_SHIFT) RO(shl, K_SHIFT) RO(shr, K_SHIFT) RN(shl, K_SHIFT, as_, "assign") RN(shr, K_SHIFT, as_, "assign") }
#endif
// horizontal and memory operations: case p, scalar n; base API
#define X2 typename nsimd::simd_traits<T, nsimd::NSIMD_SIMD>::simd_vectorx2
#define X3 typename nsimd::simd_traits<T, nsimd::NSIMD_SIMD>::simd_vectorx3
#define X4 typename nsimd::simd_traits<T, nsimd::NSIMD_SIMD>::simd_vectorx4
#define LU(x) nsimd::loadu(x, T())
#define LB nsimd::loadlu(b, T())
template <typename T> void b_mem(ARGS) {
  HDR int l = L<T>();
  switch (p) {
  case 0: for (int k = 0; k < 3; k++) nsimd::storeu(r + k * l, LU(a + k * l), T()); break;
  case 1: { X2 v = nsimd::load2u(a, T()); nsimd::storeu(r, v.v0, T()); nsimd::storeu(r + l, v.v1, T()); } break;
  case 2: { X3 v = nsimd::load3u(a, T()); nsimd::storeu(r, v.v0, T()); nsimd::storeu(r + l, v.v1, T()); nsimd::storeu(r + 2 * l, v.v2, T()); } break;
  case 3: { X4 v = nsimd::load4u(a, T()); nsimd::storeu(r, v.v0, T()); nsimd::storeu(r + l, v.v1, T()); nsimd::storeu(r + 2 * l, v.v2, T()); nsimd::storeu(r + 3 * l, v.v3, T()); } break;
  case 4: nsimd::store2u(r, LU(a), LU(a + l), T()); break;
  case 5: nsimd::store3u(r, LU(a), LU(a + l), LU(a + 2 * l), T()); break;
  case 6: nsimd::store4u(r, LU(a), LU(a + l), LU(a + 2 * l), LU(a + 3 * l), T()); break;
  case 7: nsimd::storeu(r, nsimd::set1(a[0], T()), T()); break;
  case 8: nsimd::storelu(r, nsimd::set1l((int)n, T()), T()); break;
  case 9: nsimd::mask_storeu1(LB, r, LU(a), T()); break;
  case 10: nsimd::storeu(r, nsimd::masko_loadu1(LB, a, LU(c), T()), T()); break;
  case 11: nsimd::storeu(r, nsimd::maskz_loadu1(LB, a, T()), T()); break;
  case 12: nsimd::storelu(r, nsimd::mask_for_loop_tail((int)n, l / 2, T()), T()); break;
  case 13: nsimd::storeu(r, nsimd::iota(T()), T()); break;
  case 14: nsimd::storeu(r, nsimd::gather_linear(a, (int)n, T()), T()); break;
  case 15: nsimd::scatter_linear(r, (int)n, LU(a), T()); break;
  case 16: nsimd::storeu(r, nsimd::ziplo(LU(a), LU(b), T()), T()); break;
  case 17: nsimd::storeu(r, nsimd::ziphi(LU(a), LU(b), T()), T()); break;
  case 18: nsimd::storeu(r, nsimd::unziplo(LU(a), LU(b), T()), T()); break;
  case 19: nsimd::storeu(r, nsimd::unziphi(LU(a), LU(b), T()), T()); break;
  case 20: { X2 v = nsimd::zip(LU(a), LU(b), T()); nsimd::storeu(r, v.v0, T()); nsimd::storeu(r + l, v.v1, T()); } break;
  case 21: { X2 v = nsimd::unzip(LU(a), LU(b), T()); nsimd::storeu(r, v.v0, T()); nsimd::storeu(r + l, v.v1, T()); } break;
  case 22: ((int *)r_)[0] = nsimd::all(LB, T()) != 0; ((int *)r_)[1] = nsimd::any(LB, T()) != 0; ((int *)r_)[2] = nsimd::nbtrue(LB, T()); break;
  case 23: ((int *)r_)[0] = l; break;
  case 24: nsimd::storeu(r, LU(a), T()); nsimd::storelu(r + l, LB, T()); break;
  }
}
// packs of N registers.  e_: what each element must be, from the elements
// themselves (array accesses stay consistent with the base API register by
// register where the order of structures inside a register is its own choice)
template <typename T, int S, bool has> struct ga {
  template <typename P> static void go(int p, const T *a, T *r, const typename nsimd::traits<T>::itype *ix, int N) {
    typedef typename nsimd::traits<T>::itype I; typedef nsimd::pack<I, P::unroll> Q;
    Q q = nsimd::loadu<Q>(ix);
    if (p == 30) nsimd::storeu(r, nsimd::gather(a, q)); else nsimd::scatter(r, q, nsimd::loadu<P>(a));
  }
};
template <typename T, int S> struct ga<T, S, false> { template <typename P> static void go(int, const T *, T *, const typename nsimd::traits<T>::itype *, int) {} };
template <typename T> void idx(typename nsimd::traits<T>::itype *ix, int s, int n) { for (int i = 0; i < s; i++) ix[i] = (typename nsimd::traits<T>::itype)(n == 0 ? i : n == 1 ? s - 1 - i : n == 2 ? (i * 5 + 3) % s + 7 : i / 2 * 3 + i); }
template <typename T, int N> void p_mem(ARGS) {
  HDP const int l = S / N; typedef nsimd::packx2<T, N> P2; typedef nsimd::packx3<T, N> P3; typedef nsimd::packx4<T, N> P4;
  const PL m = nsimd::loadlu<PL>(b);
  typedef typename nsimd::traits<T>::itype I; typedef typename nsimd::traits<T>::utype U; typedef nsimd::packl<I, N> ML;
  switch (p) {
  case 0: nsimd::storeu(r, nsimd::loadu<P>(a)); nsimd::storea(r + 256, nsimd::loada<P>(a)); nsimd::store<nsimd::unaligned>(r + 513, nsimd::load<P, nsimd::unaligned>(a)); nsimd::store<nsimd::aligned>(r + 768, nsimd::load<P, nsimd::aligned>(a)); break;
  case 1: { P2 v = n ? nsimd::load2<P2, nsimd::aligned>(a) : nsimd::load2u<P2>(a + 1); nsimd::storeu(r, v.v0); nsimd::storeu(r + S, v.v1); } break;
  case 2: { P3 v = n ? nsimd::load3<P3, nsimd::aligned>(a) : nsimd::load3u<P3>(a + 1); nsimd::storeu(r, v.v0); nsimd::storeu(r + S, v.v1); nsimd::storeu(r + 2 * S, v.v2); } break;
  case 3: { P4 v = n ? nsimd::load4<P4, nsimd::aligned>(a) : nsimd::load4u<P4>(a + 1); nsimd::storeu(r, v.v0); nsimd::storeu(r + S, v.v1); nsimd::storeu(r + 2 * S, v.v2); nsimd::storeu(r + 3 * S, v.v3); } break;
  case 4: if (n) nsimd::store2<nsimd::aligned>(r, nsimd::loadu<P>(a), nsimd::loadu<P>(a + S)); else nsimd::store2u(r + 1, nsimd::loadu<P>(a), nsimd::loadu<P>(a + S)); break;
  case 5: if (n) nsimd::store3<nsimd::aligned>(r, nsimd::loadu<P>(a), nsimd::loadu<P>(a + S), nsimd::loadu<P>(a + 2 * S)); else nsimd::store3u(r + 1, nsimd::loadu<P>(a), nsimd::loadu<P>(a + S), nsimd::loadu<P>(a + 2 * S)); break;
  case 6: if (n) nsimd::store4<nsimd::aligned>(r, nsimd::loadu<P>(a), nsimd::loadu<P>(a + S), nsimd::loadu<P>(a + 2 * S), nsimd::loadu<P>(a + 3 * S)); else nsimd::store4u(r + 1, nsimd::loadu<P>(a), nsimd::loadu<P>(a + S), nsimd::loadu<P>(a + 2 * S), nsimd::loadu<P>(a + 3 * S)); break;
  case 7: nsimd::storeu(r, nsimd::set1<P>(a[0])); nsimd::storeu(r + S, P(a[1])); { P q(a[2]); nsimd::storeu(r + 2 * S, q); } break;
  case 8: nsimd::storelu(r, nsimd::set1l<PL>((int)n)); nsimd::storelu(r + S, PL(bool(n != 0))); break;
  case 9: nsimd::mask_storeu1(m, r + 1, nsimd::loadu<P>(a)); nsimd::mask_storea1(m, r + 256, nsimd::loadu<P>(a)); nsimd::mask_storeu(nsimd::reinterpretl<ML>(m), r + 513, nsimd::loadu<P>(a)); nsimd::mask_store<nsimd::aligned>(m, r + 768, nsimd::loadu<P>(a)); break;
  case 10: nsimd::storeu(r, nsimd::masko_loadu1(m, a + 1, nsimd::loadu<P>(c))); nsimd::storeu(r + S, nsimd::masko_loada1(m, a, nsimd::loadu<P>(c))); nsimd::storeu(r + 2 * S, nsimd::masko_loadu(nsimd::reinterpretl<ML>(m), a + 1, nsimd::loadu<P>(c))); nsimd::storeu(r + 3 * S, nsimd::masko_loada(m, a, nsimd::loadu<P>(c))); break;
  case 11: nsimd::storeu(r, nsimd::maskz_loadu1(m, a + 1)); nsimd::storeu(r + S, nsimd::maskz_loada1(m, a)); nsimd::storeu(r + 2 * S, nsimd::maskz_loadu(nsimd::reinterpretl<ML>(m), a + 1)); nsimd::storeu(r + 3 * S, nsimd::maskz_loada(m, a)); break;
  case 12: nsimd::storelu(r, nsimd::mask_for_loop_tail<PL>((int)n, S / 2)); break;
  case 13: nsimd::storeu(r, nsimd::iota<P>()); break;
  case 14: nsimd::storeu(r, nsimd::gather_linear<P>(a, (int)n)); break;
  case 15: nsimd::scatter_linear(r, (int)n, nsimd::loadu<P>(a)); break;
  case 22: ((int *)r_)[0] = nsimd::all(m) != 0; ((int *)r_)[1] = nsimd::any(m) != 0; ((int *)r_)[2] = nsimd::nbtrue(m); break;
  case 23: ((int *)r_)[0] = nsimd::len(P()); ((int *)r_)[1] = nsimd::len(PL()); ((int *)r_)[2] = nsimd::len(P2()); ((int *)r_)[3] = nsimd::len(P3()); ((int *)r_)[4] = nsimd::len(P4()); ((int *)r_)[5] = nsimd::len<P>(); ((int *)r_)[6] = P::unroll; break;
  case 24: nsimd::storeu(r, nsimd::if_else(nsimd::reinterpretl<ML>(m), nsimd::loadu<P>(a), nsimd::loadu<P>(c))); nsimd::storela(r + 256, nsimd::loadla<PL>(b)); nsimd::storel<nsimd::aligned>(r + 512, nsimd::loadl<PL, nsimd::aligned>(b)); nsimd::storel<nsimd::unaligned>(r + 769, nsimd::loadl<PL, nsimd::unaligned>(b)); break;
  case 26: nsimd::storeu(r, nsimd::masko_load<nsimd::unaligned>(m, a + 1, nsimd::loadu<P>(c))); nsimd::storeu(r + S, nsimd::masko_load<nsimd::aligned>(m, a, nsimd::loadu<P>(c))); nsimd::storeu(r + 2 * S, nsimd::maskz_load<nsimd::unaligned>(m, a + 1)); nsimd::storeu(r + 3 * S, nsimd::maskz_load<nsimd::aligned>(m, a)); break;
  case 25: { P x = nsimd::loadu<P>(a); const T *q = a; P y(x); P z; z = y; nsimd::storeu(r, z); (void)q; } break;
  case 32: { // structures of packs joined into one pack
    P x = nsimd::loadu<P>(a), y = nsimd::loadu<P>(a + S), z = nsimd::loadu<P>(a + 2 * S), w = nsimd::loadu<P>(a + 3 * S);
    nsimd::packx1<T, N> s1; s1.v0 = x; P2 s2; s2.v0 = x; s2.v1 = y; P3 s3; s3.v0 = x; s3.v1 = y; s3.v2 = z; P4 s4; s4.v0 = x; s4.v1 = y; s4.v2 = z; s4.v3 = w;
    T *q = r + 1024;
    if (n == 0) { nsimd::storeu(r, nsimd::to_pack(x)); nsimd::storeu(q, nsimd::to_pack_interleave(x)); }
    if (n == 1) { nsimd::storeu(r, nsimd::to_pack(s1)); nsimd::storeu(q, nsimd::to_pack_interleave(s1)); }
    if (n == 2) { nsimd::storeu(r, nsimd::to_pack(s2)); nsimd::storeu(q, nsimd::to_pack_interleave(s2)); }
    if (n == 3) { nsimd::storeu(r, nsimd::to_pack(s3)); nsimd::storeu(q, nsimd::to_pack_interleave(s3)); }
    if (n == 4) { nsimd::storeu(r, nsimd::to_pack(s4)); nsimd::storeu(q, nsimd::to_pack_interleave(s4)); }
    if (n == 5) { nsimd::storeu(r, nsimd::get_pack<0>(x)); nsimd::storeu(r + S, nsimd::get_pack<0>(s1)); nsimd::storeu(q, nsimd::get_pack<0>(s2)); nsimd::storeu(q + S, nsimd::get_pack<1>(s2)); }
    if (n == 6) { nsimd::storeu(r, nsimd::get_pack<0>(s3)); nsimd::storeu(r + S, nsimd::get_pack<1>(s3)); nsimd::storeu(r + 2 * S, nsimd::get_pack<2>(s3)); }
    if (n == 7) { nsimd::storeu(r, nsimd::get_pack<0>(s4)); nsimd::storeu(r + S, nsimd::get_pack<1>(s4)); nsimd::storeu(r + 2 * S, nsimd::get_pack<2>(s4)); nsimd::storeu(r + 3 * S, nsimd::get_pack<3>(s4)); }
    if (n == 8) { typedef nsimd::pack<T, 1> A1; typedef nsimd::packl<T, 1> L1; nsimd::storeu(r, nsimd::loadu<A1>(a).native_register(), T()); nsimd::storelu(r + l, nsimd::loadlu<L1>(b).native_register(), T()); nsimd::storeu(q, nsimd::native_register(nsimd::loadu<nsimd::pack<T, 1> >(a + 3)), T()); }
  } break;
  case 33: // the alignment as a template argument, at odd addresses
    if (n == 0) { nsimd::storeu(r, nsimd::load<P, nsimd::unaligned>(a + 1)); nsimd::storelu(r + S, nsimd::loadl<PL, nsimd::unaligned>(b + 1)); }
    if (n == 1) { P2 v = nsimd::load2<P2, nsimd::unaligned>(a + 1); nsimd::storeu(r, v.v0); nsimd::storeu(r + S, v.v1); }
    if (n == 2) { P3 v = nsimd::load3<P3, nsimd::unaligned>(a + 1); nsimd::storeu(r, v.v0); nsimd::storeu(r + S, v.v1); nsimd::storeu(r + 2 * S, v.v2); }
    if (n == 3) { P4 v = nsimd::load4<P4, nsimd::unaligned>(a + 1); nsimd::storeu(r, v.v0); nsimd::storeu(r + S, v.v1); nsimd::storeu(r + 2 * S, v.v2); nsimd::storeu(r + 3 * S, v.v3); }
    if (n == 4) nsimd::store2<nsimd::unaligned>(r + 1, nsimd::loadu<P>(a), nsimd::loadu<P>(a + S));
    if (n == 5) nsimd::store3<nsimd::unaligned>(r + 1, nsimd::loadu<P>(a), nsimd::loadu<P>(a + S), nsimd::loadu<P>(a + 2 * S));
    if (n == 6) nsimd::store4<nsimd::unaligned>(r + 1, nsimd::loadu<P>(a), nsimd::loadu<P>(a + S), nsimd::loadu<P>(a + 2 * S), nsimd::loadu<P>(a + 3 * S));
    if (n == 7) nsimd::mask_store<nsimd::unaligned>(m, r + 1, nsimd::loadu<P>(a));
    if (n == 8) { nsimd::storel<nsimd::unaligned>(r + 1, m); nsimd::mask_storea(nsimd::reinterpretl<ML>(m), r + 512, nsimd::loadu<P>(a)); }
    break;
  case 30: case 31: { I ix[NSIMD_MAX_LEN(u8) * N]; idx<T>(ix, S, (int)n); ga<T, N, (sizeof(T) > 1)>::template go<P>(p, a, r, ix, N); } break;
  }
}
template <typename T, int N> void e_mem(ARGS) {
  HDR const int l = L<T>(), S = N * l; const T one = nsimd::to<T>(1), zero = nsimd::to<T>(0);
  bool m[NSIMD_MAX_LEN(u8) * N]; int cnt = 0;
  for (int i = 0; i < S; i++) { m[i] = nsimd::to<f64>(b[i]) != 0; cnt += m[i]; }
  switch (p) {
  case 0: for (int i = 0; i < S; i++) r[i] = r[256 + i] = r[513 + i] = r[768 + i] = a[i]; break;
  case 1: for (int k = 0; k < N; k++) { X2 v = nsimd::load2u(a + !n + 2 * l * k, T()); nsimd::storeu(r + k * l, v.v0, T()); nsimd::storeu(r + S + k * l, v.v1, T()); } break;
  case 2: for (int i = 0; i < S; i++) for (int j = 0; j < 3; j++) r[j * S + i] = a[!n + 3 * i + j]; break;
  case 3: for (int k = 0; k < N; k++) { X4 v = nsimd::load4u(a + !n + 4 * l * k, T()); nsimd::storeu(r + k * l, v.v0, T()); nsimd::storeu(r + S + k * l, v.v1, T()); nsimd::storeu(r + 2 * S + k * l, v.v2, T()); nsimd::storeu(r + 3 * S + k * l, v.v3, T()); } break;
  case 4: for (int k = 0; k < N; k++) nsimd::store2u(r + !n + 2 * l * k, LU(a + k * l), LU(a + S + k * l), T()); break;
  case 5: for (int i = 0; i < S; i++) for (int j = 0; j < 3; j++) r[!n + 3 * i + j] = a[j * S + i]; break;
  case 6: for (int k = 0; k < N; k++) nsimd::store4u(r + !n + 4 * l * k, LU(a + k * l), LU(a + S + k * l), LU(a + 2 * S + k * l), LU(a + 3 * S + k * l), T()); break;
  case 7: for (int i = 0; i < S; i++) for (int j = 0; j < 3; j++) r[j * S + i] = a[j]; break;
  case 8: for (int i = 0; i < 2 * S; i++) r[i] = n ? one : zero; break;
  case 9: for (int i = 0; i < S; i++) if (m[i]) r[1 + i] = r[256 + i] = r[513 + i] = r[768 + i] = a[i]; break;
  case 10: for (int i = 0; i < S; i++) { r[i] = r[2 * S + i] = m[i] ? a[1 + i] : c[i]; r[S + i] = r[3 * S + i] = m[i] ? a[i] : c[i]; } break;
  case 11: for (int i = 0; i < S; i++) { r[i] = r[2 * S + i] = m[i] ? a[1 + i] : zero; r[S + i] = r[3 * S + i] = m[i] ? a[i] : zero; } break;
  case 12: for (int i = 0; i < S; i++) r[i] = (long)n + i < S / 2 ? one : zero; break;
  case 13: for (int i = 0; i < S; i++) r[i] = nsimd::to<T>(i); break;
  case 14: for (int i = 0; i < S; i++) r[i] = a[i * n]; break;
  case 15: for (int i = 0; i < S; i++) r[i * n] = a[i]; break;
  case 22: ((int *)r_)[0] = cnt == S; ((int *)r_)[1] = cnt != 0; ((int *)r_)[2] = cnt; break;
  case 23: ((int *)r_)[0] = ((int *)r_)[1] = ((int *)r_)[5] = S; ((int *)r_)[2] = 2 * S; ((int *)r_)[3] = 3 * S; ((int *)r_)[4] = 4 * S; ((int *)r_)[6] = N; break;
  case 24: for (int i = 0; i < S; i++) { r[i] = m[i] ? a[i] : c[i]; r[256 + i] = r[512 + i] = r[769 + i] = m[i] ? one : zero; } break;
  case 26: for (int i = 0; i < S; i++) { r[i] = m[i] ? a[1 + i] : c[i]; r[S + i] = m[i] ? a[i] : c[i]; r[2 * S + i] = m[i] ? a[1 + i] : zero; r[3 * S + i] = m[i] ? a[i] : zero; } break;
  case 25: for (int i = 0; i < S; i++) r[i] = a[i]; break;
  case 32:
    if (n < 5) { const int X = n ? (int)n : 1; for (int j = 0; j < X; j++) for (int k = 0; k < N; k++) for (int i = 0; i < l; i++) r[(j * N + k) * l + i] = r[1024 + (k * X + j) * l + i] = a[j * S + k * l + i]; }
    else if (n == 5) for (int i = 0; i < S; i++) { r[i] = r[S + i] = r[1024 + i] = a[i]; r[1024 + S + i] = a[S + i]; }
    else if (n < 8) for (int i = 0; i < (n - 3) * S; i++) r[i] = a[i];
    else for (int i = 0; i < l; i++) { r[i] = a[i]; r[l + i] = m[i] ? one : zero; r[1024 + i] = a[3 + i]; }
    break;
  case 33:
    if (n == 0) for (int i = 0; i < S; i++) { r[i] = a[1 + i]; r[S + i] = nsimd::to<f64>(b[1 + i]) != 0 ? one : zero; }
    if (n == 1 || n == 3) for (int k = 0; k < N; k++) {
      if (n == 1) { X2 v = nsimd::load2u(a + 1 + 2 * l * k, T()); nsimd::storeu(r + k * l, v.v0, T()); nsimd::storeu(r + S + k * l, v.v1, T()); }
      else { X4 v = nsimd::load4u(a + 1 + 4 * l * k, T()); nsimd::storeu(r + k * l, v.v0, T()); nsimd::storeu(r + S + k * l, v.v1, T()); nsimd::storeu(r + 2 * S + k * l, v.v2, T()); nsimd::storeu(r + 3 * S + k * l, v.v3, T()); }
    }
    if (n == 2) for (int i = 0; i < S; i++) for (int j = 0; j < 3; j++) r[j * S + i] = a[1 + 3 * i + j];
    if (n == 4) for (int k = 0; k < N; k++) nsimd::store2u(r + 1 + 2 * l * k, LU(a + k * l), LU(a + S + k * l), T());
    if (n == 5) for (int i = 0; i < S; i++) for (int j = 0; j < 3; j++) r[1 + 3 * i + j] = a[j * S + i];
    if (n == 6) for (int k = 0; k < N; k++) nsimd::store4u(r + 1 + 4 * l * k, LU(a + k * l), LU(a + S + k * l), LU(a + 2 * S + k * l), LU(a + 3 * S + k * l), T());
    if (n == 7) for (int i = 0; i < S; i++) if (m[i]) r[1 + i] = a[i];
    if (n == 8) for (int i = 0; i < S; i++) { r[1 + i] = m[i] ? one : zero; if (m[i]) r[512 + i] = a[i]; }
    break;
  case 30: case 31: if (sizeof(T) > 1) { typename nsimd::traits<T>::itype ix[NSIMD_MAX_LEN(u8) * N]; idx<T>(ix, S, (int)n); for (int i = 0; i < S; i++) if (p == 30) r[i] = a[ix[i]]; else r[ix[i]] = a[i]; } break;
  }
}
#if FLOATS
// the sum of the elements in any association of exactly representable values
template <typename T, int N> void p_addv(ARGS) { HDP for (long i = 0; i < n; i++) r[i] = nsimd::addv(nsimd::loadu<P>(a + i)); }
template <typename T, int N> void e_addv(ARGS) { HDR for (long i = 0; i < n; i++) { f64 s = 0; for (int k = 0; k < N * L<T>(); k++) s += nsimd::to<f64>(a[i + k]); r[i] = nsimd::to<T>(s); } }
#endif
template <typename T> void reg(KernTab &t) {
  R(neg, K_UN) R(abs, K_UN) R(notb, K_UN) R(ceil, K_UN) R(floor, K_UN) R(trunc, K_UN) R(round_to_even, K_UN) RO(neg, K_UN) RO(notb, K_UN)
  R(add, K_BIN) R(sub, K_BIN) R(mul, K_BIN) R(div, K_BIN) R(min, K_BIN) R(max, K_BIN) R(adds, K_BIN) R(subs, K_BIN) R(orb, K_BIN) R(andb, K_BIN) R(andnotb, K_BIN) R(xorb, K_BIN)
  RA(add, K_BIN) RA(sub, K_BIN) RA(mul, K_BIN) RA(div, K_BIN) RA(orb, K_BIN) RA(andb, K_BIN) RA(xorb, K_BIN)
  R(fma, K_TER) R(fnma, K_TER) R(fms, K_TER) R(fnms, K_TER)
  R(eq, K_CMP) R(ne, K_CMP) R(lt, K_CMP) R(le, K_CMP) R(gt, K_CMP) R(ge, K_CMP)
  RO(eq, K_CMP) RO(ne, K_CMP) RO(lt, K_CMP) RO(le, K_CMP) RO(gt, K_CMP) RO(ge, K_CMP) RS(eq, K_CMP) RS(ne, K_CMP) RS(lt, K_CMP) RS(le, K_CMP) RS(gt, K_CMP) RS(ge, K_CMP)
  R(notl, K_LOG1) R(orl, K_LOG2) R(andl, K_LOG2) R(andnotl, K_LOG2) R(xorl, K_LOG2) RO(orl, K_LOG2) RO(andl, K_LOG2) RO(notl, K_LOG1) RS(orl, K_LOG2) RS(andl, K_LOG2)
#ifndef SPMD_OPS
  AD(mem, "base", K_RED, 1, b_mem<T>)
#endif
  RM(1) RM(2) RM(3)
#if FLOATS
  RV(1) RV(2) RV(3)
#endif
#ifndef SPMD_OPS
  R(to_mask, K_LOG1)
#endif
  R(to_logical, K_UN) R(if_else1, K_SEL) RO(if_else1, K_SEL)
#if FLOATS
  reg_flt<T>(t);
#else
  reg_int<T>(t);
#endif
}
// conversions
#define HCV (void)b_; (void)c_; (void)p; const T *a = (const T *)a_; U *r = (U *)r_;
template <typename T, typename U> void b_cvt(ARGS) { HCV for (long i = 0; i < n; i += L<T>()) nsimd::storeu(r + i, nsimd::cvt(LD(a), T(), U()), U()); }
template <typename T, typename U, int N> void n_cvt(ARGS) { HCV typedef nsimd::pack<T, N> P; typedef nsimd::pack<U, N> Q; for (long i = 0; i < n; i += N * L<T>()) nsimd::storeu(r + i, nsimd::cvt<Q>(PD(a))); }
template <typename T, typename U> void b_reinterpret(ARGS) { HCV for (long i = 0; i < n; i += L<T>()) nsimd::storeu(r + i, nsimd::reinterpret(LD(a), T(), U()), U()); }
template <typename T, typename U, int N> void n_reinterpret(ARGS) { HCV typedef nsimd::pack<T, N> P; typedef nsimd::pack<U, N> Q; for (long i = 0; i < n; i += N * L<T>()) nsimd::storeu(r + i, nsimd::reinterpret<Q>(PD(a))); }
template <typename T, typename U> void b_reinterpretl(ARGS) { HCV for (long i = 0; i < n; i += L<T>()) nsimd::storelu(r + i, nsimd::reinterpretl(LL(a), T(), U()), U()); }
template <typename T, typename U, int N> void n_reinterpretl(ARGS) { HCV typedef nsimd::packl<T, N> PL; typedef nsimd::packl<U, N> Q; for (long i = 0; i < n; i += N * L<T>()) nsimd::storelu(r + i, nsimd::reinterpretl<Q>(PLD(a))); }
// register by register: halves of register k go to registers k of v0 and v1
template <typename T, typename U> void b_upcvt(ARGS) { HCV for (long i = 0; i < n; i += L<T>()) { typename nsimd::simd_traits<U, nsimd::NSIMD_SIMD>::simd_vectorx2 v = nsimd::upcvt(LD(a), T(), U()); nsimd::storeu(r + i, v.v0, U()); nsimd::storeu(r + i + L<U>(), v.v1, U()); } }
template <typename T, typename U, int N> void n_upcvt(ARGS) { HCV typedef nsimd::pack<T, N> P; U t0[NSIMD_MAX_LEN(u8) * N], t1[NSIMD_MAX_LEN(u8) * N];
  for (long i = 0; i < n; i += N * L<T>()) { nsimd::packx2<U, N> v = nsimd::upcvt<nsimd::packx2<U, N> >(PD(a)); nsimd::storeu(t0, v.v0); nsimd::storeu(t1, v.v1);
    for (int k = 0; k < N; k++) for (int j = 0; j < L<U>(); j++) { r[i + 2 * k * L<U>() + j] = t0[k * L<U>() + j]; r[i + (2 * k + 1) * L<U>() + j] = t1[k * L<U>() + j]; } } }
template <typename T, typename U> void b_downcvt(ARGS) { HCV for (long i = 0; i < n; i += L<U>()) nsimd::storeu(r + i, nsimd::downcvt(LD(a), nsimd::loadu(a + i + L<T>(), T()), T(), U()), U()); }
template <typename T, typename U, int N> void n_downcvt(ARGS) { HCV typedef nsimd::pack<T, N> P; T t0[NSIMD_MAX_LEN(u8) * N], t1[NSIMD_MAX_LEN(u8) * N];
  for (long i = 0; i < n; i += N * L<U>()) {
    for (int k = 0; k < N; k++) for (int j = 0; j < L<T>(); j++) { t0[k * L<T>() + j] = a[i + 2 * k * L<T>() + j]; t1[k * L<T>() + j] = a[i + (2 * k + 1) * L<T>() + j]; }
    nsimd::storeu(r + i, nsimd::downcvt<nsimd::pack<U, N> >(nsimd::loadu<P>(t0), nsimd::loadu<P>(t1))); } }
template <typename T, typename U> void same(KernTab &t) { AC(cvt, K_CVT, L<T>()) AC(reinterpret, K_CVT, L<T>()) AC(reinterpretl, K_CVT, L<T>()) }
template <typename T, typename U> void up(KernTab &t) { AC(upcvt, K_UPCVT, L<T>()) }
template <typename T, typename U> void down(KernTab &t) { AC(downcvt, K_DOWNCVT, L<U>()) }
template <typename T> struct conv;
#define S2(T, A, B) same<T, A>(t); same<T, B>(t);
#define S3(T, A, B, C) S2(T, A, B) same<T, C>(t);
#define U3(T, A, B, C) up<T, A>(t); up<T, B>(t); up<T, C>(t);
#define D2(T, A, B) down<T, A>(t); down<T, B>(t);
#define D3(T, A, B, C) D2(T, A, B) down<T, C>(t);
#define CV(T, ...) template <> struct conv<T> { static void r(KernTab &t) { __VA_ARGS__ } };
CV(i8, S2(i8, i8, u8) U3(i8, i16, u16, f16)) CV(u8, S2(u8, i8, u8) U3(u8, i16, u16, f16))
CV(i16, S3(i16, i16, u16, f16) U3(i16, i32, u32, f32) D2(i16, i8, u8)) CV(u16, S3(u16, i16, u16, f16) U3(u16, i32, u32, f32) D2(u16, i8, u8)) CV(f16, S3(f16, i16, u16, f16) U3(f16, i32, u32, f32) D2(f16, i8, u8))
CV(i32, S3(i32, i32, u32, f32) U3(i32, i64, u64, f64) D3(i32, i16, u16, f16)) CV(u32, S3(u32, i32, u32, f32) U3(u32, i64, u64, f64) D3(u32, i16, u16, f16)) CV(f32, S3(f32, i32, u32, f32) U3(f32, i64, u64, f64) D3(f32, i16, u16, f16))
CV(i64, S3(i64, i64, u64, f64) D3(i64, i32, u32, f32)) CV(u64, S3(u64, i64, u64, f64) D3(u64, i32, u32, f32)) CV(f64, S3(f64, i64, u64, f64) D3(f64, i32, u32, f32))
} // namespace
#define G_(i) api_reg_##i
#define G(i) G_(i)
void G(GROUP)(KernTab &t) {
#define ONE(T) reg<T>(t); conv<T>::r(t);
  TYPES
}
#ifdef SPMD_OPS
struct cent;
#define C_(i) capi_tab_##i
#define C2(i) C_(i)
extern "C" const cent *C2(GROUP)(int *n) { *n = 0; return 0; }
#endif
#if GROUP == 0
const char *kv_ext() { return STR(NSIMD_SIMD); }
#endif
