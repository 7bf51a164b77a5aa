#ifndef TET_KERN_H
#define TET_KERN_H
#include <nsimd/nsimd-all.hpp>
#include <nsimd/scalar_utilities.h>
#include <nsimd/modules/tet1d.hpp>
#include <cmath>
#include <limits>
#include <cstring>
#include "tet_tab.h"
namespace {
template <typename T> struct IsF { static const bool v = false; };
template <> struct IsF<f16> { static const bool v = true; };
template <> struct IsF<f32> { static const bool v = true; };
template <> struct IsF<f64> { static const bool v = true; };
template <typename T> double dv(T x) { return (double)x; }
template <> double dv<f16>(f16 x) { return (double)nsimd_f16_to_f32(x); }
template <typename T> T tlit(int v) { return (T)v; }
template <> f16 tlit<f16>(int v) { return nsimd_f32_to_f16((f32)v); }
template <typename T> const char *tn();
#define TN(t) template <> const char *tn<t>() { return #t; }
TN(i8) TN(u8) TN(i16) TN(u16) TN(i32) TN(u32) TN(i64) TN(u64) TN(f16) TN(f32) TN(f64)
template <typename T> int mant() { return sizeof(T) == 2 ? 11 : sizeof(T) == 4 ? 24 : 53; }
// Element-wise evaluation. poison: the expected value is not determined
// (NaN payloads, out-of-range conversions, sign of min(+0,-0), rounding of fma)
// Half vectors without half registers keep single precision between operations,
// so an operation on an inexact half intermediate is undetermined as well.
template <typename T> struct Ref {
  bool poison, skip, inx;
  Ref() : poison(false), skip(false), inx(false) {}
  void in() { if (inx) poison = true; }
  template <typename X> X chk(X r) { in(); if (IsF<X>::v && std::isnan(dv(r))) poison = true; return r; }
  template <typename X> X rnd(X r, double e) { chk(r); if (IsF<X>::v && sizeof(X) == 2 && dv(r) != e) inx = true; return r; }
  // half vectors without half registers do bitwise operations on singles
  template <typename X> X em(X r) { if (IsF<X>::v && sizeof(X) == 2) poison = true; return chk(r); }
#define BB(op) template <typename X> X op(X x, X y) { return em(nsimd::scalar_##op(x, y)); }
  BB(orb) BB(andb) BB(andnotb) BB(xorb)
#define B2(op, e) template <typename X> X op(X x, X y) { return rnd(nsimd::scalar_##op(x, y), e); }
  B2(add, dv(x) + dv(y)) B2(sub, dv(x) - dv(y)) B2(mul, dv(x) * dv(y)) B2(div, dv(x) / dv(y)) B2(adds, dv(x) + dv(y)) B2(subs, dv(x) - dv(y))
#define MM(op) template <typename X> X op(X x, X y) { if (IsF<X>::v && dv(x) == 0 && dv(y) == 0) poison = true; return chk(nsimd::scalar_##op(x, y)); }
  MM(min) MM(max)
#define U1(op) template <typename X> X op(X x) { return chk(nsimd::scalar_##op(x)); }
  template <typename X> X notb(X x) { return em(nsimd::scalar_notb(x)); } U1(neg) U1(abs) U1(ceil) U1(floor) U1(trunc) U1(round_to_even)
  template <typename X> X sqrt(X x) { return rnd(nsimd::scalar_sqrt(x), std::sqrt(dv(x))); }
  template <typename X> X rec(X x) { return rnd(nsimd::scalar_rec(x), 1 / dv(x)); }
  // exact in both the fused and the unfused form, or undetermined
#define T3(op, e) template <typename X> X op(X x, X y, X z) { \
    if (IsF<X>::v) { long double p = (long double)dv(x) * dv(y), r = e, lim = std::ldexp(1.0L, mant<X>() - 4); \
      if (!(std::fabs(p) < lim && std::fabs(r) < lim && std::fabs((long double)dv(z)) < lim) || std::floor(p * 4) != p * 4 || std::floor(dv(z) * 4) != dv(z) * 4 || r == 0) poison = true; } \
    return chk(nsimd::scalar_##op(x, y, z)); }
  T3(fma, p + dv(z)) T3(fnma, -p + dv(z)) T3(fms, p - dv(z)) T3(fnms, -p - dv(z))
#define C2(op) template <typename X> bool op(X x, X y) { in(); return nsimd::scalar_##op(x, y); }
  C2(eq) C2(ne) C2(gt) C2(ge) C2(lt) C2(le)
#define L2(op) bool op(bool x, bool y) { return nsimd::scalar_##op(x, y); }
  L2(orl) L2(andl) L2(andnotl) L2(xorl)
  bool notl(bool x) { return nsimd::scalar_notl(x); }
#define SH(op) template <typename X> X op(X x, int s) { return nsimd::scalar_##op(x, s); }
  SH(shl) SH(shr) SH(shra)
  T to_mask(bool x) { return nsimd::scalar_to_mask(T(), x); }
  template <typename X> bool to_logical(X x) { in(); return nsimd::scalar_to_logical(x); }
  template <typename U, typename X> U cvt(X x) {
    if (IsF<X>::v && !IsF<U>::v) {
      double d = std::trunc(dv(x)), lo = dv(std::numeric_limits<U>::min()), hi = std::ldexp(1.0, (int)sizeof(U) * 8 - (std::numeric_limits<U>::is_signed ? 1 : 0));
      if (!(d >= lo && d < hi)) { poison = true; return U(); }
    }
    return rnd(nsimd::scalar_cvt(U(), x), dv(x));
  }
  template <typename U, typename X> U reinterpret(X x) { return chk(nsimd::scalar_reinterpret(U(), x)); }
};
// inputs: which 0 a, 1 b (never 0 or -1), 2 c
template <typename T, bool F> struct Data { static T get(int which, long i) {
  unsigned long h = (unsigned long)(i + 1) * 0x9e3779b97f4a7c15ul; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ul + which * 2; h ^= h >> 32;
  if (which == 2 && i % 5 == 2) return get(0, i);
  T r = (T)h;
  if (i % 7 == 3) r = (T)(long)(h % 9) - (T)4;
  if (i % 11 == 5 && which != 1) r = h & 1 ? std::numeric_limits<T>::max() : std::numeric_limits<T>::min();
  if (which == 1) { r = (T)((h % 13) + 2 + (i % 4 == 0 ? (h >> 8) % 100 : 0)); if (std::numeric_limits<T>::is_signed && h & 64) r = (T)-r; }
  return r;
} };
template <typename T> T mkf(double d) { return (T)d; }
template <> f16 mkf<f16>(double d) { return nsimd_f32_to_f16((f32)d); }
template <typename T> struct Data<T, true> { static T get(int which, long i) {
  unsigned long h = (unsigned long)(i + 1) * 0x9e3779b97f4a7c15ul; h ^= h >> 29; h *= 0xbf58476d1ce4e5b9ul + which * 2; h ^= h >> 32;
  if (which == 2 && i % 5 == 2) return get(0, i);
  double d = (double)(long)(h % 61) - 30;
  if (h & 0x10000) d *= 0.5;
  if (which == 1 && d == 0) d = 7;
  if (which != 1 && i % 11 == 5) d = 0;
  return mkf<T>(d);
} };
template <typename T> bool same(T x, T y) {
  if (!memcmp(&x, &y, sizeof(T))) return true;
  if (!IsF<T>::v) return false;
  double a = dv(x), b = dv(y);
  return (a == b && a == 0) || (std::isnan(a) && std::isnan(b));
}
template <typename T> unsigned long bitsof(T x) { unsigned long r = 0; memcpy(&r, &x, sizeof(T)); return r; }
template <typename T> int check(int idx, int L, void (*run)(T *, TET1D_IN(T), TET1D_IN(T), TET1D_IN(T)), T (*ref)(Ref<T> &, T, T, T, T)) {
  const long BIG = idx % 512 == 1 || tet_thorough() ? 70001 + idx % 7 : idx % 32 == 3 ? 4095 + idx % 16 : 1000 + idx % 60;
  const long SMALLN = 3 * L + 4, MAXN = BIG, G = L + 5;
  static std::vector<T> a, b, c, old;
  if ((long)a.size() < MAXN + 1) {
    a.clear(); b.clear(); c.clear(); old.clear();
    for (long i = 0; i <= MAXN; i++) { a.push_back(Data<T, IsF<T>::v>::get(0, i)); b.push_back(Data<T, IsF<T>::v>::get(1, i)); c.push_back(Data<T, IsF<T>::v>::get(2, i)); old.push_back(mkf<T>((double)(i * 5 % 97 + 1))); }
  }
  std::vector<T> ex[2]; std::vector<char> po[2];
  long trans = 0, traces = 0;
  for (int al = 0; al < 2; al++) for (long i = 0; i <= MAXN; i++) {
    T o = al ? a[i] : old[i];
    Ref<T> q; T r = ref(q, a[i], b[i], c[i], o);
    if (q.skip) r = o;
    ex[al].push_back(r); po[al].push_back(q.poison);
    if (q.poison) tet_skipped++; else tet_seen(bitsof(r) * 31 + sizeof(T));
  }
  for (long n = 0; n <= MAXN; n++) {
    if (n > SMALLN) n = BIG;
    else if (n > L + 2 && !(n >= 2 * L - 1 && n <= 2 * L + 2) && n < 3 * L - 1) continue;
    // modes: 0..3 separate output, 4.. in place; slices of larger inputs
    for (int mode = 0; mode < 8; mode++) {
      if (!tet_thorough() && mode > 1 && mode != 2 + (int)(n % 6)) continue;
      int slice = mode == 0 || mode == 4 ? 0 : 1 + mode % 3, al = mode >= 4 || mode == 1;
      if (slice && n < 2) slice = 0;
      int pre = slice ? slice + 1 : 0, post = slice == 0 ? 0 : slice == 1 ? 3 : 1;
      // inputs end at a guard page (unaligned for most n) or start at an offset
      T *p[3]; TET1D_IN(T) in[3];
      for (int k = 0; k < 3; k++) {
        long tot = pre + n + post;
        T *e = (T *)tet_page(k);
        p[k] = e - tot - (k * mode) % 3;
        for (long i = 0; i < tot + (k * mode) % 3; i++) p[k][i] = mkf<T>(113);
        const std::vector<T> &s = k == 0 ? a : k == 1 ? b : c;
        for (long i = 0; i < n; i++) p[k][pre + i] = s[i];
        if (k == 1) for (long i = 0; i < tot; i++) if (i < pre || i >= pre + n) p[k][i] = mkf<T>(3);
        in[k] = tet1d::in((const T *)p[k], slice == 2 ? (long)tot : (int)tot);
        if (slice == 1) in[k] = in[k](pre, pre + n - 1);
        else if (slice == 2) in[k] = in[k](pre - tot, tet1d::end - post);
        else if (slice == 3) in[k] = in[k](1, tet1d::end)(pre - 1, (int)(pre + n - 2));
      }
      T *o; std::vector<T> guard;
      if (al) o = p[0] + pre;
      else { o = (T *)tet_page(3) - n - (mode == 0 ? 0 : G); for (long i = 0; i < n; i++) o[i] = old[i]; }
      long after = al ? post : mode == 0 ? 0 : G, before = al ? pre : G;
      for (long i = 0; i < before; i++) guard.push_back(o[-1 - i] = al ? o[-1 - i] : mkf<T>(91));
      for (long i = 0; i < after; i++) guard.push_back(o[n + i] = al ? o[n + i] : mkf<T>(91));
      run(o, in[0], in[1], in[2]);
      traces++; trans += n;
      for (long i = 0; i < n; i++) if (!po[al][i] && !same(o[i], ex[al][i])) {
        tet_bad("n=%ld mode=%d element %ld: 0x%lx instead of 0x%lx (a=0x%lx b=0x%lx c=0x%lx)", n, mode, i, bitsof(o[i]), bitsof(ex[al][i]), bitsof(a[i]), bitsof(b[i]), bitsof(c[i]));
        return 0;
      }
      for (size_t i = 0; i < guard.size(); i++) { T g = (long)i < before ? o[-1 - (long)i] : o[n + (long)i - before]; if (memcmp(&g, &guard[i], sizeof g)) { tet_bad("n=%ld mode=%d: an element outside the range was changed", n, mode); return 0; } }
      for (int k = al ? 1 : 0; k < 3; k++) for (long i = 0; i < n; i++) if (bitsof(p[k][pre + i]) != bitsof((k == 0 ? a : k == 1 ? b : c)[i])) { tet_bad("n=%ld mode=%d: input %d was changed", n, mode, k); return 0; }
    }
  }
  tet_count(MAXN + 1, trans, traces);
  return 0;
}
template <class S, typename T, int U> struct Run {
  static void run(T *o, TET1D_IN(T) a, TET1D_IN(T) b, TET1D_IN(T) c) { S::run(tet1d::out<T, nsimd::pack<T, U> >(o, 0, 0), a, b, c); }
  static int go(int i) { return check<T>(i, nsimd::len(nsimd::pack<T, U>()), run, S::ref); }
};
template <class S, typename T> struct Run<S, T, 1> {
  static void run(T *o, TET1D_IN(T) a, TET1D_IN(T) b, TET1D_IN(T) c) { S::run(tet1d::out(o), a, b, c); }
  static int go(int i) { return check<T>(i, nsimd::len(nsimd::pack<T>()), run, S::ref); }
};
static void reg(const char *t, int u, const char *d, int (*f)(int)) { TetCase k = {t, u, d, f}; tet_tab().push_back(k); }
#define TET(name, T, U, desc) static struct R_##name { R_##name() { reg(#T, U, desc, Run<name, T, U>::go); } } r_##name;
}
// each unit has its own copy of the non-inline helpers of the header
#endif
