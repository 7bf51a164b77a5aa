// Mathematical functions of all SIMD configurations (shared objects given on
// the command line) against a reference of higher precision.
// usage: math_main --op NAME --type 0|1|2 [--thorough] [--shard i n] so...
#include "hx.h"
#include "math_list.h"
#include <algorithm>
#include <cmath>
#include <dlfcn.h>
#include <limits>
typedef long double ld;
typedef _Float16 h16;
static const ld PI_L = 3.14159265358979323846264338327950288L;
// ---- references: double for f16 and f32, x87 extended for f64 ---------------
template <typename F> F pi_part(F x, int shift) { // sin(pi x) (shift 0), cos(pi x) (shift 1)
  if (!(std::fabs(x) <= std::numeric_limits<F>::max())) return NAN;
  F r = std::fmod(x, (F)2), k = std::nearbyint(r * 2), t = r - k / 2; // all exact, |t| <= 1/4
  switch (((int)k + shift) & 3) { case 0: return std::sin((F)PI_L * t); case 1: return std::cos((F)PI_L * t); case 2: return -std::sin((F)PI_L * t); default: return -std::cos((F)PI_L * t); }
}
static double p10(double x) { return exp10(x); }
static ld p10(ld x) { return exp10l(x); }
// x87 powl is wrong for (-inf, -2^63): special operands go through double
static double powr(double x, double y) { return std::pow(x, y); }
static ld powr(ld x, ld y) { return std::isinf(x) || std::isinf(y) || x == 0 ? (ld)std::pow((double)x, (double)y) : std::pow(x, y); }
#define REFS(R) R(sin, std::sin(x)) R(cos, std::cos(x)) R(tan, std::tan(x)) R(asin, std::asin(x)) R(acos, std::acos(x)) R(atan, std::atan(x)) R(log, std::log(x)) R(cbrt, std::cbrt(x)) R(exp, std::exp(x)) R(sinh, std::sinh(x)) R(cosh, std::cosh(x)) R(tanh, std::tanh(x)) R(asinh, std::asinh(x)) R(acosh, std::acosh(x)) R(atanh, std::atanh(x)) R(exp2, std::exp2(x)) R(exp10, p10(x)) R(expm1, std::expm1(x)) R(log10, std::log10(x)) R(log2, std::log2(x)) R(log1p, std::log1p(x)) R(sinpi, pi_part(x, 0)) R(cospi, pi_part(x, 1)) R(lgamma, std::lgamma(x)) R(tgamma, std::tgamma(x)) R(erf, std::erf(x)) R(erfc, std::erfc(x)) R(atan2, std::atan2(x, y)) R(pow, powr(x, y)) R(hypot, std::hypot(x, y)) R(remainder, std::remainder(x, y)) R(fmod, std::fmod(x, y))
#define R(n, e) template <typename F> F r_##n(F x, F y) { (void)y; return e; }
REFS(R)
#undef R
struct Ref { const char *name; double (*d)(double, double); ld (*l)(ld, ld); };
static const Ref refs[] = {
#define R(n, e) {#n, r_##n<double>, r_##n<ld>},
  REFS(R)
#undef R
};
// ---- formats ----------------------------------------------------------------
template <typename T> struct Fm;
template <> struct Fm<h16> { typedef double F; typedef uint16_t U; enum { M = 10, EMIN = -14, EMAX = 15 }; };
template <> struct Fm<float> { typedef double F; typedef uint32_t U; enum { M = 23, EMIN = -126, EMAX = 127 }; };
template <> struct Fm<double> { typedef ld F; typedef uint64_t U; enum { M = 52, EMIN = -1022, EMAX = 1023 }; };
template <typename T> T of(uint64_t b) { typename Fm<T>::U u = (typename Fm<T>::U)b; T t; memcpy(&t, &u, sizeof t); return t; }
template <typename T> uint64_t bits(T t) { typename Fm<T>::U u; memcpy(&u, &t, sizeof t); return u; }
struct Lib { const char *cfg; math_fn f; int len; };
static std::vector<Lib> libs;
static std::string opt_op, opt_base;
static int opt_type = 1, opt_shard = 0, opt_shards = 1, opt_measure = 0, opt_arity = 1;
#include "math_spec.h"
template <typename T> struct Check {
  typedef typename Fm<T>::F F;
  F maxerr[16]; T arg[16][2], got[16]; F want[16];
  unsigned long long nan_n[16], inf_n[16], zs_n[16]; T nan_a[16][2], inf_a[16][2], zs_a[16][2];
  Spec sp;
  int tail_n = 0;
  std::string key[16];
  Check() { memset((void *)nan_n, 0, sizeof nan_n); memset((void *)inf_n, 0, sizeof inf_n); memset((void *)zs_n, 0, sizeof zs_n); for (int i = 0; i < 16; i++) maxerr[i] = 0; sp = spec(opt_op, opt_type); static const char *tn[] = {"f16", "f32", "f64"}; for (size_t i = 0; i < libs.size(); i++) key[i] = std::string(libs[i].cfg) + ":" + opt_op + ":" + tn[opt_type]; }
  static std::string tailkey() { return opt_op + (opt_type == 1 ? ":f32" : ":f64") + ":near-underflow"; }
  static F ulp(F x) {
    int e = (x == 0) ? Fm<T>::EMIN : std::ilogb(x);
    if (e < Fm<T>::EMIN) e = Fm<T>::EMIN;
    if (e > Fm<T>::EMAX) e = Fm<T>::EMAX;
    return std::ldexp((F)1, e - Fm<T>::M);
  }
  // one result against the reference
  void one(int l, T x, T y, T r, F w) {
    F lim = std::ldexp((F)2, Fm<T>::EMAX), fr = (F)r;
    int kind = 0;
    F err = 0;
    if (w != w) { if (fr == fr) kind = 1; }
    else if (fr != fr) kind = 1;
    else {
      F ww = w, u = ulp(w);
      if (std::fabs(w) > lim) ww = w > 0 ? lim : -lim;
      if (fr > lim) fr = lim;
      if (fr < -lim) fr = -lim;
      if (ww == 0 && fr == 0) { if (std::signbit(w) != std::signbit((F)r)) kind = 3; }
      else if (fr == ww) ;
      else {
        err = std::fabs(fr - ww) / u;
        F tol = sp.ulp;
        if (std::fabs(w) < std::ldexp((F)65536, Fm<T>::EMIN) && sp.tiny > tol) tol = sp.tiny;
        if (sp.abs > 0 && (F)x < 0 && sp.abs / u > tol) tol = sp.abs / u;
        if (std::fabs(w) > std::ldexp((F)2, Fm<T>::EMAX) * (F)0.9999 && std::fabs(fr) == lim && std::signbit(fr) == std::signbit(w)) err = 0; // just below overflow
        else if (err > tol && sp.tail && (F)x < (sizeof(T) == 4 ? -33 : -170) && std::fabs(fr - ww) <= std::ldexp((F)1, Fm<T>::EMIN)) kind = 4;
        else if (err <= tol) { if (err > sp.ulp) err = 0; }
        else kind = 2;
      }
    }
    if (opt_measure) {
      if (kind == 1) { if (!nan_n[l]++) nan_a[l][0] = x, nan_a[l][1] = y; return; }
      if (kind == 2) { if (!inf_n[l]++) inf_a[l][0] = x, inf_a[l][1] = y; return; }
      if (kind == 3) { if (!zs_n[l]++) zs_a[l][0] = x, zs_a[l][1] = y; return; }
      if (err > maxerr[l]) { maxerr[l] = err; arg[l][0] = x; arg[l][1] = y; got[l] = r; want[l] = w; }
      return;
    }
    if (kind == 0) { if (err > maxerr[l]) maxerr[l] = err; return; }
    if (kind == 4) { err = 0; if (!tail_n++) hx_bad(tailkey(), "%s argument %.17Lg: result %.17Lg, exact %.17Lg", libs[l].cfg, (ld)(F)x, (ld)(F)r, (ld)w); return; }
    if (kind == 3 && !sp.zsign) return;
    hx_bad(key[l], "argument %.17Lg (0x%llx) %.17Lg (0x%llx): result %.17Lg, exact %.20Lg, %.2Lf units in the last place (%.2f allowed)", (ld)x, (unsigned long long)bits(x), (ld)y, (unsigned long long)bits(y), (ld)(F)r, (ld)w, (ld)err, sp.ulp);
  }
  void block(const std::vector<T> &a, const std::vector<T> &b, F (*f)(F, F)) {
    size_t n = a.size(), N = (n + 63) & ~(size_t)63;
    std::vector<T> A(N), B(N), PA(N), PB(N), o(N + 64);
    std::vector<F> w(N);
    std::vector<char> cl(N);
    for (size_t i = 0; i < N; i++) { size_t j = i < n ? i : n - 1; A[i] = a[j]; B[i] = opt_arity == 2 ? b[j] : (T)0; cl[i] = claimed(sp, opt_base, opt_type, (F)A[i], (F)B[i]); w[i] = f((F)A[i], (F)B[i]); hx_states++; if (cl[i] && (i & 15) == 0) { F t = w[i]; uint64_t u = 0; memcpy(&u, &t, 8); hx_seen(u); } }
    // second order: neighbours of very different size
    size_t step = (size_t)(N * 0.381966) | 1;
    while (std::__gcd(step, N) != 1) step += 2;
    std::vector<uint32_t> pm(N);
    for (size_t i = 0, p = step % N; i < N; i++, p = (p + step) % N) { pm[i] = (uint32_t)p; PA[i] = A[p]; PB[i] = B[p]; }
    for (size_t l = 0; l < libs.size(); l++) {
      if (!hx_only.empty() && key[l] != hx_only && tailkey() != hx_only) continue;
      hx_case(key[l]);
      libs[l].f(&A[0], &B[0], &o[0], (long)N);
      for (size_t i = 0; i < N; i++) if (cl[i]) one((int)l, A[i], B[i], o[i], w[i]);
      libs[l].f(&PA[0], &PB[0], &o[0], (long)N);
      for (size_t i = 0; i < N; i++) if (cl[pm[i]]) one((int)l, PA[i], PB[i], o[i], w[pm[i]]);
      hx_trans += 2 * N;
      hx_traces += 2;
    }
  }
  void report() {
    for (size_t l = 0; l < libs.size(); l++) {
      if (opt_measure) {
        printf("M %-16s t%d %-6s max %.3Lf ulp at %.9Lg %.9Lg (got %.9Lg want %.9Lg)", opt_op.c_str(), opt_type, libs[l].cfg, (ld)maxerr[l], (ld)(F)arg[l][0], (ld)(F)arg[l][1], (ld)(F)got[l], (ld)want[l]);
        if (nan_n[l]) printf(" NAN %llu at %.9Lg %.9Lg", nan_n[l], (ld)(F)nan_a[l][0], (ld)(F)nan_a[l][1]);
        if (inf_n[l]) printf(" INF %llu at %.9Lg %.9Lg", inf_n[l], (ld)(F)inf_a[l][0], (ld)(F)inf_a[l][1]);
        if (zs_n[l]) printf(" ZS %llu at %.9Lg %.9Lg", zs_n[l], (ld)(F)zs_a[l][0], (ld)(F)zs_a[l][1]);
        printf("\n");
      } else if (l == 0)
        printf("SAMPLE %s type %d: largest error %.3Lf ulp of %.2f allowed (%s)\n", opt_op.c_str(), opt_type, (ld)maxerr[l], sp.ulp, libs[l].cfg);
    }
  }
};
// ---- inputs -----------------------------------------------------------------
static uint64_t mixh(uint64_t x) { x ^= x >> 33; x *= 0xff51afd7ed558ccdull; x ^= x >> 33; x *= 0xc4ceb9fe1a85ec53ull; return x ^ (x >> 33); }
// all signs and exponents with m leading mantissa bits; lower bits follow a pattern
template <typename T> T grid(uint64_t i, int m, uint64_t phase) {
  int low = Fm<T>::M - m;
  uint64_t lm = low > 0 ? (((uint64_t)1 << low) - 1) : 0, p;
  switch ((i + phase) & 3) { case 0: p = 0; break; case 1: p = lm; break; default: p = mixh(i * 8 + phase) & lm; }
  return of<T>((i << low) | p);
}
template <typename T> std::vector<T> specials() {
  std::vector<T> v;
  typedef typename Fm<T>::U U;
  U sgn = (U)((U)1 << (8 * sizeof(T) - 1));
  std::vector<ld> x;
  for (int k = 0; k <= 2048; k++) { x.push_back(k * 0.5L); x.push_back(k * PI_L / 4); x.push_back(k * PI_L); }
  for (int k = 0; k <= 400; k++) x.push_back(k / 8.0L), x.push_back(k / 64.0L), x.push_back(1 + k / 4096.0L), x.push_back(1 - k / 4096.0L);
  for (int e = 11; e <= Fm<T>::EMAX; e += (e < 64 ? 1 : 13)) for (int k = 1; k < 16; k += 2) x.push_back(std::ldexp((ld)k * PI_L / 2, e - 3));
  ld th[] = {88.72283905L, 88.02969L, 87.3365L, 103.972L, 104.0L, 709.782712893384L, 708.396L, 745.13L, 744.44L, 128, 127, 149, 150, 1024, 1074, 1075, 38.2308L, 38.53L, 44.85L, 308.25L, 323.3L, 35.04L, 36.04L, 33.0L, 171.62L, 170.6L, 9.19L, 10.05L, 26.2L, 26.54L, 27.2L, 0.693147L, 710.4758L, 89.4159L, 39000.L, 1.84e19L, 1.34e154L, 2.55e305L, 4.08e36L, 1.4616321449683623L, 1.0L, 2.0L, 3.0L};
  for (ld t : th) x.push_back(t), x.push_back(1 / t);
  for (ld t : x) {
    if (t > std::ldexp(1.0L, Fm<T>::EMAX)) continue;
    uint64_t b = bits((T)t);
    for (int d = -2; d <= 2; d++) { U u = (U)(b + d); v.push_back(of<T>(u)); v.push_back(of<T>((U)(u | sgn))); }
  }
  U inf = (U)(((U)(((U)1 << (8 * sizeof(T) - 1 - Fm<T>::M)) - 1)) << Fm<T>::M);
  U sp[] = {0, 1, 2, 3, (U)(((U)1 << Fm<T>::M) - 1), (U)((U)1 << Fm<T>::M), (U)(((U)1 << Fm<T>::M) + 1), (U)(inf - 1), (U)(inf - 2), inf, (U)(inf + ((U)1 << (Fm<T>::M - 1)))};
  for (U u : sp) { v.push_back(of<T>(u)); v.push_back(of<T>((U)(u | sgn))); }
  return v;
}
template <typename T> std::vector<T> pair_alphabet(size_t cap) {
  std::vector<T> v = specials<T>(), s;
  typedef typename Fm<T>::U U;
  std::vector<U> u;
  // every exponent (every 16th for f64 away from 1) with a few mantissas
  int E = 8 * sizeof(T) - 1 - Fm<T>::M, bias = (1 << (E - 1)) - 1;
  for (int e = 0; e < (1 << E); e++) {
    int d = std::abs(e - bias);
    if (sizeof(T) == 8 && d > 66 && d % 32 && e > 3 && e < (1 << E) - 3) continue;
    U b = (U)((U)e << Fm<T>::M), m = (U)(((U)1 << Fm<T>::M) - 1);
    U ms[] = {0, 1, m, (U)(mixh(e) & m), (U)((U)1 << (Fm<T>::M - 1))};
    for (int k = 0; k < (d < 12 ? 5 : 3); k++) { u.push_back((U)(b | ms[k])); u.push_back((U)(b | ms[k] | ((U)1 << (8 * sizeof(T) - 1)))); }
  }
  size_t room = cap > u.size() ? cap - u.size() : 0;
  for (size_t i = 0; i < v.size() && room; i++) if (room >= v.size() || mixh(i) % v.size() < room || i + 22 >= v.size()) u.push_back((U)bits(v[i]));
  std::sort(u.begin(), u.end());
  u.erase(std::unique(u.begin(), u.end()), u.end());
  for (U x : u) s.push_back(of<T>(x));
  return s;
}
template <typename T> void run(typename Fm<T>::F (*f)(typename Fm<T>::F, typename Fm<T>::F)) {
  Check<T> c;
  std::vector<T> a, b;
  const size_t B = 1 << 20;
  if (opt_arity == 1) {
    a = specials<T>();
    c.block(a, b, f);
    if (sizeof(T) == 2) { a.clear(); for (int i = 0; i < 65536; i++) a.push_back(of<T>(i)); c.block(a, b, f); }
    else {
      int m = sizeof(T) == 4 ? (hx_tier ? 23 : 12) : (hx_tier ? 16 : 8), E = 8 * sizeof(T) - 1 - Fm<T>::M;
      if (opt_measure) m = opt_measure;
      uint64_t N = (uint64_t)1 << (m + E + 1);
      for (uint64_t i = 0; i < N; i += B) { if ((int)((i / B) % opt_shards) != opt_shard) continue; a.clear(); for (uint64_t j = i; j < i + B && j < N; j++) a.push_back(grid<T>(j, m, 0)); c.block(a, b, f); }
      if (sizeof(T) == 8) { // denser where the functions vary
        int md = hx_tier ? 21 : 14;
        a.clear();
        for (int s = 0; s < 2; s++) for (int e = 1023 - 12; e < 1023 + 12; e++) {
          for (uint64_t k = 0; k < ((uint64_t)1 << md); k++) { uint64_t top = (((uint64_t)s << 11 | e) << md) | k; a.push_back(grid<T>(top, md, 1)); if (a.size() == B) { c.block(a, b, f); a.clear(); } }
          if (((e + s) % opt_shards) != opt_shard) a.clear();
        }
        if (!a.empty()) c.block(a, b, f);
      }
    }
  } else {
    std::vector<T> x = pair_alphabet<T>(sizeof(T) == 2 ? 1000 : hx_tier ? 12000 : 1800), y = x;
    if (sizeof(T) == 2 && hx_tier) { x.clear(); for (int i = 0; i < 65536; i++) x.push_back(of<T>(i)); }
    for (size_t i = 0; i < x.size(); i++) {
      if ((int)(i % opt_shards) != opt_shard) continue;
      for (size_t j = 0; j < y.size(); j++) { a.push_back(x[i]); b.push_back(y[j]); }
      if (a.size() >= B) { c.block(a, b, f); a.clear(); b.clear(); }
    }
    if (!a.empty()) c.block(a, b, f);
  }
  c.report();
}
int main(int argc, char **argv) {
  hx_init(argc, argv);
  std::vector<std::string> so;
  for (int i = 1; i < argc; i++) {
    std::string s = argv[i];
    if (s == "--op") opt_op = argv[++i];
    else if (s == "--type") opt_type = atoi(argv[++i]);
    else if (s == "--shard") { opt_shard = atoi(argv[++i]); opt_shards = atoi(argv[++i]); }
    else if (s == "--measure") opt_measure = atoi(argv[++i]);
    else if (s == "--only" || s == "--limit") i++;
    else if (s[0] != '-') so.push_back(s);
  }
  opt_base = opt_op.substr(0, opt_op.find('_'));
  for (size_t i = 0; i < so.size(); i++) {
    void *h = dlopen(so[i].c_str(), RTLD_NOW | RTLD_LOCAL);
    if (!h) { fprintf(stderr, "%s\n", dlerror()); return 3; }
    const math_ent *(*t)(int *, int *, const char **) = (const math_ent *(*)(int *, int *, const char **))dlsym(h, "math_table");
    int n, len[3];
    Lib l;
    const math_ent *e = t(&n, len, &l.cfg);
    for (int k = 0; k < n; k++) if (opt_op == e[k].name) { l.f = e[k].f[opt_type]; l.len = len[opt_type]; opt_arity = e[k].arity; libs.push_back(l); }
  }
  if (libs.empty()) { fprintf(stderr, "no function %s\n", opt_op.c_str()); return 3; }
  for (const Ref &r : refs) if (opt_base == r.name) {
    if (opt_type == 0) run<h16>(r.d);
    else if (opt_type == 1) run<float>(r.d);
    else run<double>(r.l);
  }
  return hx_done();
}
