#ifndef SPMD_KERN_H
#define SPMD_KERN_H
#include <nsimd/nsimd-all.hpp>
#include <nsimd/modules/spmd.hpp>
#include "spmd_tab.h"
#define STR_(x) #x
#define STR(x) STR_(x)
namespace {
template <int B> struct QT;
template <> struct QT<8> { typedef i8 I; typedef u8 U; typedef i8 F; static F f(int x) { return (F)x; } };
template <> struct QT<16> { typedef i16 I; typedef u16 U; typedef f16 F; static F f(int x) { return nsimd::to<f16>(x); } };
template <> struct QT<32> { typedef i32 I; typedef u32 U; typedef f32 F; static F f(int x) { return (F)x; } };
template <> struct QT<64> { typedef i64 I; typedef u64 U; typedef f64 F; static F f(int x) { return (F)x; } };
const int GUARD = 70, SENT = 77;
template <typename Q> struct Ptrs { typename Q::I *d1, *d2, *d3, *d4, *src; typename Q::U *us; typename Q::F *fb; long st; };
// run a kernel on the given inputs; every other run on arrays that end at an
// inaccessible page, the others followed by guard elements. Returns the number
// of guard elements changed.
template <typename Q> int drive(void (*go)(long, Ptrs<Q>), const long *v, long n, int bits, Out *o) {
  typedef typename Q::I I;
  typedef typename Q::U U;
  typedef typename Q::F F;
  static int turn;
  bool page = turn++ & 1;
  long st = page ? n : n + GUARD, nf = st * (bits + 1);
  std::vector<I> mem[5];
  std::vector<U> um;
  std::vector<F> fm;
  I *a[5];
  U *us;
  F *fb;
  for (int k = 0; k < 5; k++) {
    if (page) a[k] = (I *)spmd_page(k, st * sizeof(I)) - st;
    else { mem[k].resize(st); a[k] = &mem[k][0]; }
    for (long i = 0; i < st; i++) a[k][i] = (I)SENT;
  }
  if (page) { us = (U *)spmd_page(5, st * sizeof(U)) - st; fb = (F *)spmd_page(6, nf * sizeof(F)) - nf; }
  else { um.resize(st); fm.resize(nf); us = &um[0]; fb = &fm[0]; }
  for (long i = 0; i < st; i++) { fb[i] = Q::f(0); us[i] = 0; a[4][i] = 0; }
  for (long i = 0; i < n; i++) {
    a[4][i] = (I)v[i]; us[i] = (U)v[i];
    // false bits are a mix of 0, negative numbers and (floating) -0
    for (int b = 0; b < bits; b++) fb[(b + 1) * st + i] = Q::f((v[i] >> b) & 1 ? 1 + (int)((i + b) % 3) : -(int)((i + b) % 3));
  }
  if (!page) for (int b = 0; b < bits; b++) for (long i = n; i < st; i++) fb[(b + 1) * st + i] = Q::f(0);
  Ptrs<Q> p;
  p.d1 = a[0]; p.d2 = a[1]; p.d3 = a[2]; p.d4 = a[3]; p.src = a[4]; p.us = us; p.fb = fb; p.st = st;
  go(n, p);
  for (long i = 0; i < n; i++) { o[i].d1 = (long)a[0][i]; o[i].d2 = (long)a[1][i]; o[i].d3 = (long)a[2][i]; o[i].d4 = (long)a[3][i]; }
  int bad = 0;
  for (long i = n; i < st; i++) for (int k = 0; k < 4; k++) bad += a[k][i] != (I)SENT;
  return bad;
}
template <typename Q, void (*GO)(long, Ptrs<Q>)> int drv(const long *v, long n, int bits, Out *o) { return drive<Q>(GO, v, n, bits, o); }
static void add(int idx, const char *desc, int bits, void (*ref)(long, Out &), int width, int unroll, int lanes, int (*run)(const long *, long, int, Out *)) {
  SP s; s.idx = idx; s.desc = desc; s.bits = bits; s.ref = ref; s.width = width; s.unroll = unroll; s.lanes = lanes; s.run = run;
  spmd_tab().push_back(s);
}
#define PROG(name, idx, bits_, desc_, ...) \
  template <int B, int N> struct L_##name { \
    static void go(long n, Ptrs<QT<B> > p) { spmd_launch_tmpl_kernel_1d(name, QT<B>, B, N, n, p.d1, p.d2, p.d3, p.d4, p.src, p.us, p.fb, p.st) } \
    static void reg() { add(idx, desc_, bits_, ref_##name, B, N, nsimd::len(nsimd::pack<typename QT<B>::I, N>()), drv<QT<B>, go>); } }; \
  static struct R_##name { R_##name() { __VA_ARGS__ } } r_##name;
// kernels and device functions without a template argument
#define PLAIN(name, idx, bits_, desc_, B, N) \
  static void P_##name(long n, Ptrs<QT<B> > p) { using plain_##name::name; spmd_launch_kernel_1d(name, B, N, n, p.d1, p.d2, p.d3, p.d4, p.src, p.us, p.fb, p.st) } \
  static struct RP_##name { RP_##name() { add(idx, desc_, bits_, ref_##name, B, N, nsimd::len(nsimd::pack<typename QT<B>::I, N>()), drv<QT<B>, P_##name>); } } rp_##name;
}
#endif
