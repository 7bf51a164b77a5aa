// Independent scalar reference model. Never includes nsimd. Works on bit
// patterns; IEEE arithmetic is the host's SSE2 (round to nearest even), f16
// uses the compiler's _Float16 conversions (libgcc), not the library's.
#ifndef REF_H
#define REF_H
#include <cmath>
#include <cstdint>
#include <cstdio>
#include <cstdlib>
#include <cstring>
#include <limits>
#include <map>
#include <set>
#include <string>
#include <vector>
typedef uint64_t W;
enum Ty { I8, U8, I16, U16, F16, I32, U32, F32, I64, U64, F64, NTY };
static const char *const TYN[NTY] = {"i8", "u8", "i16", "u16", "f16", "i32", "u32", "f32", "i64", "u64", "f64"};
static const int TSZ[NTY] = {1, 1, 2, 2, 2, 4, 4, 4, 8, 8, 8};
static inline bool isflt(Ty t) { return t == F16 || t == F32 || t == F64; }
static inline bool issgn(Ty t) { return t == I8 || t == I16 || t == I32 || t == I64; }
static inline Ty tyof(const char *s) { for (int i = 0; i < NTY; i++) if (!strcmp(s, TYN[i])) return (Ty)i; fprintf(stderr, "bad type %s\n", s); exit(3); }
static inline int bits(Ty t) { return 8 * TSZ[t]; }
static inline W mask(Ty t) { return TSZ[t] == 8 ? ~(W)0 : (((W)1 << bits(t)) - 1); }
static inline int64_t sx(Ty t, W v) { int s = 64 - bits(t); return ((int64_t)(v << s)) >> s; }
static inline W ldw(const void *p, Ty t) { W w = 0; memcpy(&w, p, TSZ[t]); return w; }
static inline void stw(void *p, Ty t, W v) { memcpy(p, &v, TSZ[t]); }
static inline double h2d(W v) { uint16_t u = (uint16_t)v; _Float16 h; memcpy(&h, &u, 2); return (double)h; }
static inline W d2h(double d) { _Float16 h = (_Float16)d; uint16_t u; memcpy(&u, &h, 2); return u; }
static inline W s2h(float d) { _Float16 h = (_Float16)d; uint16_t u; memcpy(&u, &h, 2); return u; }
static inline float w2s(W v) { uint32_t u = (uint32_t)v; float f; memcpy(&f, &u, 4); return f; }
static inline W s2w(float f) { uint32_t u; memcpy(&u, &f, 4); return u; }
static inline double w2d(W v) { double d; memcpy(&d, &v, 8); return d; }
static inline W d2w(double d) { W u; memcpy(&u, &d, 8); return u; }
static inline double val(Ty t, W v) { return t == F16 ? h2d(v) : t == F32 ? (double)w2s(v) : w2d(v); }
static inline W rnd(Ty t, double d) { return t == F16 ? d2h(d) : t == F32 ? s2w((float)d) : d2w(d); }
static inline W one(Ty t) { return t == F16 ? 0x3c00 : t == F32 ? s2w(1.f) : t == F64 ? d2w(1.) : 1; }
static inline bool fnan(Ty t, W v) { return isflt(t) && std::isnan(val(t, v)); }
static inline bool fzero(Ty t, W v) { return isflt(t) && val(t, v) == 0; }
// Smallest positive normal
static inline double minnorm(Ty t) { return t == F16 ? 6.103515625e-05 : t == F32 ? 1.17549435082228750797e-38 : 2.2250738585072014e-308; }
static inline double maxfin(Ty t) { return t == F16 ? 65504. : t == F32 ? 3.4028234663852886e38 : 1.7976931348623157e308; }

// expectation: exact (v) / one of v,alt / any value / relative error bound
struct Exp {
  W v, alt;
  unsigned char mode; // 0 exact, 1 any, 2 v or alt, 3 NaN, 4 zero of any sign, 5 relerr
  double tgt, rel;
};
static inline Exp ex(W v) { Exp e = {v, v, 0, 0, 0}; return e; }
static inline Exp ex2(W v, W a) { Exp e = {v, a, (unsigned char)(v == a ? 0 : 2), 0, 0}; return e; }
static inline Exp ex2f(Ty t, W v, W a);
static inline Exp any() { Exp e = {0, 0, 1, 0, 0}; return e; }
static inline Exp exf(Ty t, W v) { Exp e = ex(v); if (fnan(t, v)) e.mode = 3; return e; }
static inline Exp ex2f(Ty t, W v, W a) { Exp e = ex2(v, a); if (e.mode == 0 && fnan(t, v)) e.mode = 3; return e; }
static inline Exp exrel(double tgt, double rel) { Exp e = {0, 0, 5, tgt, rel}; return e; }
static inline bool okexp(const Exp &e, Ty t, W g) {
  switch (e.mode) {
  case 0: return g == e.v;
  case 1: return true;
  case 2: return g == e.v || g == e.alt || (fnan(t, g) && (fnan(t, e.v) || fnan(t, e.alt)));
  case 3: return fnan(t, g);
  case 4: return fzero(t, g);
  case 5: { double x = val(t, g); if (std::isinf(e.tgt)) return x == e.tgt; if (!std::isfinite(x)) return false; return std::fabs(x - e.tgt) <= e.rel * std::fabs(e.tgt); }
  }
  return false;
}
static inline W satadd(Ty t, W a, W b) {
  if (issgn(t)) { __int128 s = (__int128)sx(t, a) + sx(t, b); __int128 mx = ((__int128)1 << (bits(t) - 1)) - 1, mn = -mx - 1; if (s > mx) s = mx; if (s < mn) s = mn; return (W)s & mask(t); }
  unsigned __int128 s = (unsigned __int128)a + b; return s > mask(t) ? mask(t) : (W)s;
}
static inline W satsub(Ty t, W a, W b) {
  if (issgn(t)) { __int128 s = (__int128)sx(t, a) - sx(t, b); __int128 mx = ((__int128)1 << (bits(t) - 1)) - 1, mn = -mx - 1; if (s > mx) s = mx; if (s < mn) s = mn; return (W)s & mask(t); }
  return a < b ? 0 : a - b;
}
static inline double rne(double x) { return std::nearbyint(x); }
// element-wise reference for same-type operations
constexpr uint32_t OPH(const char *s, uint32_t h = 2166136261u) { return *s ? OPH(s + 1, (h ^ (unsigned char)*s) * 16777619u) : h; }
template <uint32_t H> struct opc { static const uint32_t v = H; };
static inline Exp ref(uint32_t op, Ty t, W a, W b, W c, int p, bool simd) {
  W m = mask(t);
#define OP(s) if (op == opc<OPH(s)>::v)
  // f16 vectors are held as f32 vectors: NaN payloads are not preserved and
  // bitwise operations may act on the f32 images of the operands
  OP("copy") return t == F16 ? exf(t, a) : ex(a);
  OP("set1") return t == F16 ? exf(t, a) : ex(a);
#define BITW(x, y) { if (t != F16 || !simd) return ex((x) & m); if (nanarg(a) || nanarg(b)) return any(); return ex2f(t, (x) & m, y); }
  auto nanarg = [](W x) { return fnan(F16, x) && x != 0xffff; };
  W a32 = t == F16 ? s2w((float)h2d(a)) : 0, b32 = t == F16 ? s2w((float)h2d(b)) : 0;
  OP("orb") BITW(a | b, s2h(w2s(a32 | b32)))
  OP("andb") BITW(a & b, s2h(w2s(a32 & b32)))
  OP("andnotb") BITW(a & ~b, s2h(w2s(a32 & ~b32)))
  OP("xorb") BITW(a ^ b, s2h(w2s(a32 ^ b32)))
  OP("notb") BITW(~a, s2h(w2s(~a32)))
  if (!isflt(t)) {
    int64_t A = sx(t, a), B = sx(t, b);
    bool sg = issgn(t);
    OP("add") return ex((a + b) & m);
    OP("sub") return ex((a - b) & m);
    OP("mul") return ex((a * b) & m);
    OP("div") { if (b == 0 || (sg && B == -1 && a == (W)1 << (bits(t) - 1))) return any(); return ex((sg ? (W)(A / B) : a / b) & m); }
    OP("neg") return ex((0 - a) & m);
    OP("abs") return ex((sg && A < 0 ? 0 - a : a) & m);
    OP("min") return ex(sg ? (A < B ? a : b) : (a < b ? a : b));
    OP("max") return ex(sg ? (A > B ? a : b) : (a > b ? a : b));
    OP("adds") return ex(satadd(t, a, b));
    OP("subs") return ex(satsub(t, a, b));
    OP("shl") return ex((a << p) & m);
    OP("shr") return ex(a >> p);
    OP("shra") return ex((sg ? (W)(A >> p) : a >> p) & m);
    OP("ceil") return ex(a);
    OP("floor") return ex(a);
    OP("trunc") return ex(a);
    OP("round_to_even") return ex(a);
    OP("fma") return ex((a * b + c) & m);
    OP("fnma") return ex((c - a * b) & m);
    OP("fms") return ex((a * b - c) & m);
    OP("fnms") return ex((0 - a * b - c) & m);
    OP("eq") return ex(a == b);
    OP("ne") return ex(a != b);
    OP("lt") return ex(sg ? A < B : a < b);
    OP("le") return ex(sg ? A <= B : a <= b);
    OP("gt") return ex(sg ? A > B : a > b);
    OP("ge") return ex(sg ? A >= B : a >= b);
    OP("if_else1") return ex(a ? b : c);
    OP("to_mask") return ex(a ? m : 0);
    OP("to_logical") return ex(a != 0);
    OP("loadl") return ex(a != 0);
    OP("orl") return ex(a || b);
    OP("andl") return ex(a && b);
    OP("andnotl") return ex(a && !b);
    OP("xorl") return ex(!a != !b);
    OP("notl") return ex(!a);
  } else {
    double A = val(t, a), B = val(t, b), C = val(t, c);
    W sgn = (W)1 << (bits(t) - 1), on = one(t);
    if (t == F32) { // genuine single precision
      float fa = (float)A, fb = (float)B, fc = (float)C;
      OP("add") return exf(t, s2w(fa + fb));
      OP("sub") return exf(t, s2w(fa - fb));
      OP("mul") return exf(t, s2w(fa * fb));
      OP("div") return exf(t, s2w(fa / fb));
      OP("fma") return ex2f(t, s2w(fmaf(fa, fb, fc)), s2w((float)((volatile float)(fa * fb)) + fc));
      OP("fnma") return ex2f(t, s2w(fmaf(-fa, fb, fc)), s2w((float)((volatile float)(-fa * fb)) + fc));
      OP("fms") return ex2f(t, s2w(fmaf(fa, fb, -fc)), s2w((float)((volatile float)(fa * fb)) - fc));
      OP("fnms") return ex2f(t, s2w(fmaf(-fa, fb, -fc)), s2w((float)((volatile float)(-fa * fb)) - fc));
      OP("sqrt") return exf(t, s2w(sqrtf(fa)));
      OP("rec") return exf(t, s2w(1.f / fa));
    } else if (t == F16) { // double rounding through f32/f64 is innocuous for + - * / sqrt
      float fa = (float)A, fb = (float)B, fc = (float)C;
      OP("add") return exf(t, s2h(fa + fb));
      OP("sub") return exf(t, s2h(fa - fb));
      OP("mul") return exf(t, s2h(fa * fb));
      OP("div") return exf(t, s2h(fa / fb));
      OP("fma") return ex2f(t, s2h(fa * fb + fc), d2h(A * B + C));
      OP("fnma") return ex2f(t, s2h(-fa * fb + fc), d2h(-A * B + C));
      OP("fms") return ex2f(t, s2h(fa * fb - fc), d2h(A * B - C));
      OP("fnms") return ex2f(t, s2h(-fa * fb - fc), d2h(-A * B - C));
      OP("sqrt") return exf(t, s2h(sqrtf(fa)));
      OP("rec") return exf(t, s2h(1.f / fa));
    } else {
      OP("add") return exf(t, d2w(A + B));
      OP("sub") return exf(t, d2w(A - B));
      OP("mul") return exf(t, d2w(A * B));
      OP("div") return exf(t, d2w(A / B));
      OP("fma") return ex2f(t, d2w(std::fma(A, B, C)), d2w((double)((volatile double)(A * B)) + C));
      OP("fnma") return ex2f(t, d2w(std::fma(-A, B, C)), d2w((double)((volatile double)(-A * B)) + C));
      OP("fms") return ex2f(t, d2w(std::fma(A, B, -C)), d2w((double)((volatile double)(A * B)) - C));
      OP("fnms") return ex2f(t, d2w(std::fma(-A, B, -C)), d2w((double)((volatile double)(-A * B)) - C));
      OP("sqrt") return exf(t, d2w(std::sqrt(A)));
      OP("rec") return exf(t, d2w(1. / A));
    }
    OP("adds") return ref(OPH("add"), t, a, b, c, p, simd);
    OP("subs") return ref(OPH("sub"), t, a, b, c, p, simd);
    OP("neg") return exf(t, a ^ sgn);
    OP("abs") { Exp e = exf(t, a & ~sgn); if (A == 0) e.mode = 4; return e; } // sign of |-0.0| not claimed
    OP("min") { if (A != A || B != B) return any(); if (A == 0 && B == 0) { Exp e = ex(0); e.mode = 4; return e; } return ex(A < B ? a : b); }
    OP("max") { if (A != A || B != B) return any(); if (A == 0 && B == 0) { Exp e = ex(0); e.mode = 4; return e; } return ex(A > B ? a : b); }
#define RND(f) { if (A != A) { Exp e = ex(0); e.mode = 3; return e; } W v = rnd(t, f(A)); if (fzero(t, v)) { Exp e = ex(v); e.mode = 4; return e; } return ex(v); }
    OP("ceil") RND(std::ceil)
    OP("floor") RND(std::floor)
    OP("trunc") RND(std::trunc)
    OP("round_to_even") RND(rne)
    OP("eq") return ex(A == B ? on : 0);
    OP("ne") return ex(A != B ? on : 0);
    OP("lt") return ex(A < B ? on : 0);
    OP("le") return ex(A <= B ? on : 0);
    OP("gt") return ex(A > B ? on : 0);
    OP("ge") return ex(A >= B ? on : 0);
    bool tb = A != 0, ub = B != 0;
    OP("if_else1") return t == F16 ? exf(t, tb ? b : c) : ex(tb ? b : c);
    OP("to_mask") return ex(tb ? m : 0);
    OP("to_logical") return ex(a != 0 ? on : 0);
    OP("loadl") return ex(tb ? on : 0);
    OP("orl") return ex(tb || ub ? on : 0);
    OP("andl") return ex(tb && ub ? on : 0);
    OP("andnotl") return ex(tb && !ub ? on : 0);
    OP("xorl") return ex(tb != ub ? on : 0);
    OP("notl") return ex(!tb ? on : 0);
    int rb = 0; bool rs = false;
    OP("rec8") rb = 8; OP("rec11") rb = 11; OP("rsqrt8") rb = 8, rs = true; OP("rsqrt11") rb = 11, rs = true;
    if (rb) {
      // claimed only for normal operands whose result is normal
      if (!std::isfinite(A) || std::fabs(A) < minnorm(t) || (rs && A < 0)) return any();
      double y = rs ? 1. / std::sqrt(A) : 1. / A;
      if (std::fabs(y) < 2 * minnorm(t) || std::fabs(y) > maxfin(t) / 2) return any();
      double e = std::ldexp(1., -rb);
      if (t == F16) e += std::ldexp(1., -11);
      return exrel(y, e);
    }
  }
  fprintf(stderr, "no reference for operation\n");
  exit(3);
}
// conversions by value (C cast); undefined casts -> any
static inline Exp refcvt(Ty f, Ty t, W a) {
  if (isflt(f)) {
    double A = val(f, a);
    if (isflt(t)) return exf(t, rnd(t, A)); // f32/f64 -> narrower: one rounding
    if (A != A) return any();
    double tr = std::trunc(A);
    double lo = issgn(t) ? -std::ldexp(1., bits(t) - 1) : 0, hi = std::ldexp(1., bits(t) - (issgn(t) ? 1 : 0));
    if (!(tr >= lo && tr < hi)) return any();
    return ex((issgn(t) ? (W)(int64_t)tr : tr >= 9223372036854775808. ? ((W)(int64_t)(tr - 9223372036854775808.)) | ((W)1 << 63) : (W)(int64_t)tr) & mask(t));
  }
  if (!isflt(t)) return ex((issgn(f) ? (W)sx(f, a) : a) & mask(t));
  if (issgn(f)) {
    int64_t v = sx(f, a);
    if (t == F64) return ex(d2w((double)v));
    if (t == F32) return ex2(s2w((float)v), s2w((float)(double)v));
    return ex2(d2h((double)v), s2h((float)v));
  }
  if (t == F64) return ex(d2w((double)a));
  if (t == F32) return ex2(s2w((float)a), s2w((float)(double)a));
  return ex2(d2h((double)a), s2h((float)a));
}

// ---- value alphabets -----------------------------------------------------
static inline void dedup(std::vector<W> &v) { std::set<W> s; std::vector<W> r; for (W x : v) if (s.insert(x).second) r.push_back(x); v.swap(r); }
// level 0: small (ternary), 1: normal, 2: rich
static inline std::vector<W> alpha(Ty t, int level) {
  std::vector<W> v;
  W m = mask(t);
  int n = bits(t);
  if (!isflt(t)) {
    if (n == 8 && level >= 1) { for (int i = 0; i < 256; i++) v.push_back(i); return v; }
    W base[] = {0, 1, 2, 3, m, m - 1, m - 2, (W)1 << (n - 1), ((W)1 << (n - 1)) - 1, ((W)1 << (n - 1)) + 1, 0x5555555555555555ull & m, 0xAAAAAAAAAAAAAAAAull & m, 0x0123456789ABCDEFull & m, 0xFEDCBA9876543210ull & m,
                (W)1 << (n / 2), ((W)1 << (n / 2)) - 1, m ^ (((W)1 << (n / 2)) - 1), 0x00FF00FF00FF00FFull & m, 0x7F807F807F807F80ull & m, 100, 10, 7, m - 99};
    for (W x : base) v.push_back(x & m);
    if (level >= 1) {
      for (int k = 0; k < n; k++) for (int d = -1; d <= 1; d++) { W x = ((W)1 << k) + d; v.push_back(x & m); v.push_back((0 - x) & m); }
      for (int i = 0; i < 24; i++) v.push_back(i);
      W pat[] = {0x3333333333333333ull, 0x0F0F0F0F0F0F0F0Full, 0x8000000080000000ull, 0x00000000FFFFFFFFull, 0x7FFFFFFF80000000ull, 0x80000000FFFFFFFFull, 0x7FFFFFFFFFFFFFFEull, 0x8000000000000001ull, 0x80008000ull, 0x7FFF8000ull, 0x8000FFFFull, 0x0001000100010001ull, 0x8080808080808080ull, 0x0102030405060708ull, 12345, 54321, 1000000007ull, 0xDEADBEEFCAFEBABEull};
      for (W x : pat) v.push_back(x & m), v.push_back(~x & m);
    }
    if (level >= 2) {
      for (int i = 0; i < n; i++) for (int j = 0; j < i; j += (n == 64 ? 3 : 1)) { W x = ((W)1 << i) + ((W)1 << j); v.push_back(x & m); v.push_back((0 - x) & m); }
      W x = 88172645463325252ull; // fixed, enumerated filler (xorshift sequence)
      for (int i = 0; i < 256; i++) { x ^= x << 13; x ^= x >> 7; x ^= x << 17; v.push_back(x & m); }
    }
  } else {
    std::vector<double> d;
    double b0[] = {0, 1, 2, 3, .5, 1.5, 2.5, 10, 0.1, 1. / 3, 3.14159265358979311600, 100.25, 1e-3};
    for (double x : b0) d.push_back(x);
    if (level >= 1) {
      double b1[] = {0.25, 0.75, 3.5, 4.5, 5, 6, 7, 7.5, 8, 0.49999, 0.500001, 0.99, 1.01, 15.999, 127, 128, 255, 256, 1023.5, 1024.5, 2047, 2048, 2049, 4095.5, 32767, 32768, 65504, 65519, 65520, 65535, 65536, 8388607.5, 8388608, 8388609, 16777215, 16777216, 2147483520, 2147483647, 2147483648., 4294967040., 4294967295., 4294967296., 9223371487098961920., 9223372036854775808., 18446742974197923840., 18446744073709551616., 4503599627370495.5, 4503599627370496., 9007199254740991., 9007199254740992., 2.718281828459045, 123.456, 1e5, 1e10, 1e20, 1e30, 1e-5, 1e-10, 1e-20, 1e-30, 6.1e-5, 6.0e-8, 1e100, 1e-100, 1e300, 1e-300};
      for (double x : b1) d.push_back(x);
    }
    for (double x : d) { v.push_back(rnd(t, x)); v.push_back(rnd(t, -x)); }
    int eb = t == F16 ? 5 : t == F32 ? 8 : 11, mb = n - 1 - eb;
    W sg = (W)1 << (n - 1), ei = ((((W)1 << eb) - 1) << mb), mm = ((W)1 << mb) - 1;
    W sp[] = {0, 1, 2, mm, mm - 1, mm / 2, mm + 1, mm + 2, ei - 1, ei - 2, ei, ei | ((W)1 << (mb - 1)), one(t) + 1, one(t) - 1, one(t) + 2, one(t) | mm};
    for (W x : sp) v.push_back(x), v.push_back(x | sg);
    if (level >= 1) {
      v.push_back(ei | 1); v.push_back(m); v.push_back(ei | sg | ((W)1 << (mb - 1)) | 5);
      int step = eb == 5 ? 1 : eb == 8 ? 8 : 64;
      for (W e = 1; e < ((W)1 << eb) - 1; e += step) { W x = e << mb; v.push_back(x); v.push_back(x | mm); v.push_back(sg | x | ((W)1 << (mb - 1)) | 1); if (level >= 2) { v.push_back(sg | x); v.push_back(x | 1); v.push_back(sg | x | mm); v.push_back(x | (0x5555555555555555ull & mm)); } }
      // every exponent around the integer/half-integer boundary of this type
      for (int e = -2; e <= mb + 2; e++) { W x = one(t) + ((W)(int64_t)e << mb); if (t == F16 && e > 15) break; v.push_back(x); v.push_back(x | mm); v.push_back((x | ((W)1 << (mb > e && e >= 0 ? mb - e - 1 + (mb - e - 1 < 0) : 0))) & m); v.push_back(sg | x | 1); }
    }
  }
  dedup(v);
  return v;
}
#endif
