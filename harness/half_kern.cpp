// Half-precision support: conversions over all 2^16 / 2^32 operands, float
// classification, and the bit-agreement distance.
//   half [--shard i n]
#include <nsimd/nsimd-all.hpp>
#include "hx.h"
#define STR_(x) #x
#define STR(x) STR_(x)
typedef uint32_t U;
typedef uint64_t W;
static float ref16(uint16_t u) { _Float16 h; memcpy(&h, &u, 2); return (float)h; }
static uint16_t refto16(float f) { _Float16 h = (_Float16)f; uint16_t u; memcpy(&u, &h, 2); return u; }
static U bf(float f) { U u; memcpy(&u, &f, 4); return u; }
static float fb(U u) { float f; memcpy(&f, &u, 4); return f; }
static f16 hb(uint16_t u) { f16 h; memcpy(&h, &u, 2); return h; }
static uint16_t bh(f16 h) { uint16_t u; memcpy(&u, &h, 2); return u; }
static bool nan16(uint16_t u) { return (u & 0x7fff) > 0x7c00; }
static bool nan32(U u) { return (u & 0x7fffffff) > 0x7f800000; }
static std::string K(const char *s) { return std::string(STR(NSIMD_SIMD)) + ":" + s; }
static unsigned long sh_i = 0, sh_n = 1;
// Incremental reference for f32 -> f16 over increasing bit patterns: the result
// is the number of rounding thresholds (midpoints of adjacent halves, ties to
// even) below the operand.
static double hval(unsigned h) { return h == 0x7c00 ? 65536. : (double)ref16((uint16_t)h); }
struct Inc {
  U up[0x7c01]; // largest |f32| pattern that rounds to h
  unsigned h;
  Inc() : h(0) {
    for (unsigned i = 0; i < 0x7c00; i++) { U m = bf((float)((hval(i) + hval(i + 1)) / 2)); up[i] = (i & 1) ? m - 1 : m; }
    up[0x7c00] = 0x7f800000;
  }
  uint16_t at(U u) { // u must not decrease between calls (sign excluded)
    U a = u & 0x7fffffff;
    if (a > 0x7f800000) return 0x7e00;
    if (h && a <= up[h - 1]) h = 0;
    while (a > up[h]) h++;
    return (uint16_t)(h | ((u >> 16) & 0x8000));
  }
};
template <typename T> struct fm;
template <> struct fm<f16> { enum { M = 10, E = 5 }; typedef uint16_t B; };
template <> struct fm<f32> { enum { M = 23, E = 8 }; typedef uint32_t B; };
template <> struct fm<f64> { enum { M = 52, E = 11 }; typedef uint64_t B; };
template <typename T> int refufp(W a, W b) {
  const int M = fm<T>::M, E = fm<T>::E;
  long ea = (long)((a >> M) & ((1u << E) - 1)), eb = (long)((b >> M) & ((1u << E) - 1));
  if (labs(ea - eb) > 1) return 0;
  W man = ((W)1 << M) - 1;
  __int128 ma = (__int128)((a & man) | (man + 1)), mb = (__int128)((b & man) | (man + 1));
  if (ea > eb) ma *= 2;
  if (eb > ea) mb *= 2;
  __int128 d = ma > mb ? ma - mb : mb - ma;
  int n = 0;
  while (d) d >>= 1, n++;
  int r = M + 1 - n;
  return r < 0 ? 0 : r;
}
template <typename T> void ufp(const char *nm, const std::vector<W> &A, const std::vector<W> &Bv) {
  std::string k = K(nm);
  if (!hx_case(k)) return;
  for (size_t i = 0; i < A.size(); i++) {
    typename fm<T>::B xa = (typename fm<T>::B)A[i];
    T a; memcpy(&a, &xa, sizeof a);
    for (size_t j = 0; j < Bv.size(); j++) {
      typename fm<T>::B xb = (typename fm<T>::B)Bv[j];
      T b; memcpy(&b, &xb, sizeof b);
      int g = nsimd::ufp(a, b), e = refufp<T>(xa, xb);
      if ((g < 0 ? 0 : g) != e) hx_bad(k, "ufp(0x%llx,0x%llx)=%d want %d", (W)xa, (W)xb, g, e);
    }
    hx_states += Bv.size(); hx_trans += Bv.size(); hx_traces++;
  }
  for (int i = 0; i <= fm<T>::M + 1; i++) hx_seen(hx_mix(fm<T>::M, i));
}
template <typename T> void classify(const char *ty, W lo, W hi, const std::vector<W> *list) {
  const int M = fm<T>::M, E = fm<T>::E;
  std::string kn = K((std::string("isnan:") + ty).c_str()), ki = K((std::string("isinf:") + ty).c_str()), ko = K((std::string("isnormal:") + ty).c_str()), kx = K((std::string("isnormal-inverted:") + ty).c_str());
  bool n = hx_case(kn), f = hx_case(ki), o = hx_case(ko) || hx_case(kx);
  if (!n && !f && !o) return;
  W badn = 0, inv = 0, tot = 0, firstbad = 0;
  for (W q = lo; q < hi; q++) {
    W w = list ? (*list)[q] : q;
    typename fm<T>::B u = (typename fm<T>::B)w;
    T v; memcpy(&v, &u, sizeof v);
    W ex = (w >> M) & (((W)1 << E) - 1), ma = w & (((W)1 << M) - 1), mx = ((W)1 << E) - 1;
    bool en = ex == mx && ma, ei = ex == mx && !ma, eo = !(ex == 0 && ma);
    if (n && (nsimd::isnan(v) != 0) != en) hx_bad(kn, "isnan(0x%llx)=%d", w, nsimd::isnan(v));
    if (f && (nsimd::isinf(v) != 0) != ei) hx_bad(ki, "isinf(0x%llx)=%d", w, nsimd::isinf(v));
    if (o) {
      bool g = nsimd::isnormal(v) != 0;
      if (g != eo) { if (!badn++) firstbad = w; }
      if (g != (ex == 0 && u != 0)) inv++;
    }
    tot++;
  }
  // the documented inverted behaviour is recognised exactly; anything else is
  // a different violation
  if (badn) hx_bad(inv == 0 ? kx : ko, "isnormal wrong for %llu of %llu values, first 0x%llx", badn, tot, firstbad);
  hx_states += tot; hx_trans += 3 * tot; hx_traces++;
}
int main(int argc, char **argv) {
  hx_init(argc, argv);
  bool full = false, vec = false;
  for (int i = 1; i < argc; i++) { if (!strcmp(argv[i], "--shard")) { sh_i = strtoul(argv[i + 1], 0, 10); sh_n = strtoul(argv[i + 2], 0, 10); } if (!strcmp(argv[i], "--full")) full = true; if (!strcmp(argv[i], "--vec")) vec = true; }
  hx_limit = 600;
  // ---- half to float, all values
  std::string k = K("u16_to_f32");
  if (sh_i == 0 && hx_case(k)) for (U u = 0; u < 65536; u++) {
    float e = ref16((uint16_t)u);
    f32 g[6] = {nsimd_u16_to_f32((u16)u), nsimd_f16_to_f32(hb((uint16_t)u)), nsimd::u16_to_f32((u16)u), nsimd::f16_to_f32(hb((uint16_t)u)), nsimd::to<f32>(hb((uint16_t)u)), (f32)nsimd::to<f64>(hb((uint16_t)u))};
    for (int i = 0; i < 6; i++) if (nan16((uint16_t)u) ? !nan32(bf(g[i])) : bf(g[i]) != bf(e)) hx_bad(k, "0x%x via entry %d gives 0x%x want 0x%x", u, i, bf(g[i]), bf(e));
    // round trip is the identity
    uint16_t r[3] = {(uint16_t)nsimd_f32_to_u16(nsimd_u16_to_f32((u16)u)), bh(nsimd_f32_to_f16(nsimd_f16_to_f32(hb((uint16_t)u)))), bh(nsimd::to<f16>(nsimd::to<f64>(hb((uint16_t)u))))};
    for (int i = 0; i < 3; i++) if (nan16((uint16_t)u) ? !nan16(r[i]) : r[i] != u) hx_bad(k, "round trip %d of 0x%x gives 0x%x", i, u, r[i]);
    hx_states++; hx_trans += 9; hx_traces++; hx_seen(hx_mix(1, u));
  }
  // ---- float to half: all 2^32 (--full), else the boundary-rich subset
  k = K("f32_to_u16");
  if (!vec && hx_case(k)) {
    W per = (1ull << 32) / sh_n, lo = per * sh_i, hi = sh_i + 1 == sh_n ? 1ull << 32 : lo + per;
    Inc inc;
    for (W b = lo; b < hi; b++) {
      if (!full) { // every exponent and top-13-bit mantissa, with the sticky patterns of the low 10 bits
        U low = (U)b & 0x3ff;
        if (low > 2 && low < 0x3fe && low != 0x200) { b += (low < 0x200 ? 0x200 : 0x3fe) - low - 1; continue; }
      }
      U u = (U)b;
      float f = fb(u);
      uint16_t e = inc.at(u), g = (uint16_t)nsimd_f32_to_u16(f);
      if ((u & 0xffff) == 0x1234 && !nan32(u) && e != refto16(f)) { fprintf(stderr, "reference disagreement\n"); return 3; }
      if (nan32(u) ? !nan16(g) : g != e) hx_bad(k, "0x%x gives 0x%x want 0x%x", u, g, e);
      if (!full && !nan32(u)) {
        uint16_t g1 = bh(nsimd_f32_to_f16(f)), g2 = bh(nsimd::f32_to_f16(f)), g3 = bh(nsimd::to<f16>(f));
        if (g1 != e || g2 != e || g3 != e) hx_bad(k, "0x%x gives 0x%x/0x%x/0x%x want 0x%x", u, g1, g2, g3, e);
      }
      hx_states++; hx_trans++;
      if ((b & 0xfffff) == 0) hx_traces++, hx_seen(hx_mix(2, e));
    }
    printf("SAMPLE f32_to_u16(0x%llx..0x%llx) against the IEEE round-to-nearest-even conversion\n", lo, hi - 1);
  }
  // ---- vector stores of halves: same rounding as the scalar conversion
  k = K("vector f32->f16");
  for (int rep = 0; rep < (vec ? 1 : 0); rep++) {
    k = K("vector_f32_to_f16");
    if (!hx_case(k)) break;
    int l = nsimd::len(f16()), l2 = nsimd::len(f32());
    W per = (1ull << 32) / sh_n, lo = per * sh_i, hi = lo + per;
    W st = full ? 1 : 61; // prime stride in quick mode
    Inc inc;
    std::vector<float> in(l * 64);
    std::vector<f16> out(l * 64);
    for (W b = lo; b + st * in.size() <= hi; b += st * in.size()) {
      for (size_t i = 0; i < in.size(); i++) in[i] = fb((U)(b + i * st));
      for (size_t i = 0; i < in.size(); i += l) nsimd::storeu(&out[i], nsimd::downcvt(nsimd::loadu(&in[i], f32()), nsimd::loadu(&in[i + l2], f32()), f32(), f16()), f16());
      for (size_t i = 0; i < in.size(); i++) { uint16_t e = inc.at(bf(in[i])), g = bh(out[i]); if (nan16(e) ? !nan16(g) : g != e) hx_bad(k, "0x%x gives 0x%x want 0x%x", bf(in[i]), g, e); }
      hx_states += in.size(); hx_trans += in.size(); hx_traces++;
    }
  }
  if (vec) return hx_done();
  // ---- classification
  if (sh_i == 0) classify<f16>("f16", 0, 65536, 0);
  if (full) { W per = (1ull << 32) / sh_n; classify<f32>("f32", per * sh_i, per * (sh_i + 1), 0); }
  std::vector<W> l32, l64;
  for (W h = 0; h < 4096; h++) for (int j = 0; j < 24; j++) { l32.push_back(h << 20 | (j < 20 ? 1u << j : j == 20 ? 0 : j == 21 ? 0xfffff : 0x55555)); }
  for (W h = 0; h < 65536; h++) for (int j = 0; j < 52; j++) { l64.push_back(h << 48 | (j < 48 ? (W)1 << j : j == 48 ? 0 : j == 49 ? 0xffffffffffffull : 0x555555555555ull)); }
  if (sh_i == 0) { classify<f32>("f32", 0, l32.size(), &l32); classify<f64>("f64", 0, l64.size(), &l64); }
  // ---- bit agreement distance
  std::vector<W> a, b;
  for (W i = sh_i; i < 65536; i += sh_n * (full ? 1 : 16)) a.push_back(i);
  for (W i = 0; i < 65536; i++) b.push_back(i);
  ufp<f16>("ufp:f16", a, b);
  if (sh_i == 0) {
    std::vector<W> v32, v64;
    W e32[] = {0, 1, 2, 126, 127, 128, 253, 254, 255}, e64[] = {0, 1, 2, 1022, 1023, 1024, 2045, 2046, 2047};
    for (W e : e32) for (int s = 0; s < 2; s++) for (int j = 0; j < 23; j++) { v32.push_back((W)s << 31 | e << 23 | 1u << j); v32.push_back((W)s << 31 | e << 23 | ((1u << j) - 1)); v32.push_back((W)s << 31 | e << 23 | (0x7fffff ^ (1u << j))); }
    for (W e : e64) for (int s = 0; s < 2; s++) for (int j = 0; j < 52; j++) { v64.push_back((W)s << 63 | e << 52 | (W)1 << j); v64.push_back((W)s << 63 | e << 52 | (((W)1 << j) - 1)); v64.push_back((W)s << 63 | e << 52 | (0xfffffffffffffull ^ ((W)1 << j))); }
    ufp<f32>("ufp:f32", v32, v32);
    ufp<f64>("ufp:f64", v64, v64);
  }
  return hx_done();
}
