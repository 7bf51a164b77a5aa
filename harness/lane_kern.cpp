// Position-dependent operations of one SIMD extension through the C++ base
// API: reductions over masks (PART 0), shuffles (PART 1), memory (PART 2).
#include <nsimd/nsimd-all.hpp>
#include "hx.h"
#include <sys/mman.h>
#include <algorithm>
#define STR_(x) #x
#define STR(x) STR_(x)
template <typename T> struct nm;
#define NM(T) template <> struct nm<T> { static const char *s() { return #T; } };
NM(i8) NM(u8) NM(i16) NM(u16) NM(f16) NM(i32) NM(u32) NM(f32) NM(i64) NM(u64) NM(f64)
typedef unsigned long long M;
template <typename T> int L() { return nsimd::len(T()); }
template <typename T> std::string key(const char *op) { return std::string(STR(NSIMD_SIMD)) + ":" + op + ":" + nm<T>::s(); }
template <typename T> struct isf { enum { v = 0 }; };
template <> struct isf<f16> { enum { v = 1 }; };
template <> struct isf<f32> { enum { v = 1 }; };
template <> struct isf<f64> { enum { v = 1 }; };
// distinct, NaN-free bit pattern number i (round r)
template <typename T> T pat(unsigned i, int r) {
  unsigned long long w;
  switch (sizeof(T)) {
  case 1: w = (i * 1u + 37u * r) & 0xff; break;
  case 2: w = (i * 0x0101u + 0x1234u * r + 0x0203u); if (isf<T>::v) w = (w & 0x83ff) | (((i * 7 + r) % 30 + 1) << 10); break;
  case 4: w = (0x01010101ull * (i + 1) + 0x01234567ull * r) ^ (r & 1 ? 0xffffffffull : 0); w &= 0xffffffffull; if (isf<T>::v) w = (w & 0x807fffff) | ((unsigned long long)((i * 3 + r) % 250 + 1) << 23); break;
  default: w = (0x0101010101010101ull * (i + 1) + 0x0123456789abcdefull * r) ^ (r & 1 ? ~0ull : 0); if (isf<T>::v) w = (w & 0x800fffffffffffffull) | ((unsigned long long)((i * 3 + r) % 2000 + 1) << 52);
  }
  T t;
  memcpy(&t, &w, sizeof(T));
  return t;
}
template <typename T> T bitsT(unsigned long long w) { T t; memcpy(&t, &w, sizeof(T)); return t; }
template <typename T> bool same(const T &a, const T &b) { return !memcmp(&a, &b, sizeof(T)); }
template <typename T> unsigned long long wd(const T &a) { unsigned long long w = 0; memcpy(&w, &a, sizeof(T)); return w; }
static std::vector<M> masks(int l) {
  std::vector<M> v;
  M all = l == 64 ? ~0ull : ((1ull << l) - 1);
  if (l <= 16) { for (M m = 0; m <= all; m++) v.push_back(m); return v; }
  for (int i = 0; i <= l; i++) for (int j = i; j <= l; j++) { M hi = j == 64 ? ~0ull : ((1ull << j) - 1), lo = i == 64 ? ~0ull : ((1ull << i) - 1); v.push_back(hi & ~lo); v.push_back(all & ~(hi & ~lo)); }
  for (int i = 0; i < l; i++) for (int j = 0; j < l; j++) { M m = (1ull << i) | (1ull << j); v.push_back(m); v.push_back(all & ~m); }
  int wb = hx_tier ? 16 : 8;
  for (int b = 0; b + wb <= l; b += wb / 2) for (M x = 0; x < (1ull << wb); x++) { v.push_back(x << b); v.push_back(all & ~(x << b)); }
  for (int p = 2; p < l; p++) for (int o = 0; o < p && o < 8; o++) { M m = 0; for (int i = o; i < l; i += p) m |= 1ull << i; v.push_back(m); v.push_back(all & ~m); }
  std::sort(v.begin(), v.end());
  v.erase(std::unique(v.begin(), v.end()), v.end());
  return v;
}
// encode mask m as elements that are zero / not zero
template <typename T> void enc(M m, T *p, int l, int style) {
  for (int i = 0; i < l; i++) {
    bool on = (m >> i) & 1;
    unsigned long long top = 1ull << (8 * sizeof(T) - 1), one = 0;
    T o = nsimd::to<T>(1);
    memcpy(&one, &o, sizeof(T));
    unsigned long long w = !on ? (isf<T>::v && style == 1 ? top : 0) : style == 0 ? one : style == 1 ? (isf<T>::v ? one | top : ~0ull) : (isf<T>::v ? 1 : top);
    p[i] = bitsT<T>(w);
  }
}
#define VT typename nsimd::simd_traits<T, nsimd::NSIMD_SIMD>::simd_vector
#define LT typename nsimd::simd_traits<T, nsimd::NSIMD_SIMD>::simd_vectorl
#define BAD(k, ...) do { hx_bad(k, __VA_ARGS__); } while (0)
template <typename T> LT ldm(M m, int style = 0) { T b[64]; enc(m, b, L<T>(), style); return nsimd::loadlu(b, T()); }
template <typename T> M rdm(LT l) { T b[64]; nsimd::storelu(b, l, T()); M m = 0; T o = nsimd::to<T>(1), z = bitsT<T>(0); for (int i = 0; i < L<T>(); i++) { if (same(b[i], o)) m |= 1ull << i; else if (!same(b[i], z)) hx_bad(key<T>("storel"), "lane %d holds 0x%llx", i, wd(b[i])); } return m; }
static int pc(M m) { return __builtin_popcountll(m); }

#if PART == 0
template <typename T> void part() {
  int l = L<T>();
  M all = l == 64 ? ~0ull : ((1ull << l) - 1);
  std::vector<M> v = masks(l);
  // logicals obtained four different ways must reduce identically
  for (int src = 0; src < 4; src++) {
    static const char *const SN[] = {"load", "cmp", "not", "tological"};
    std::string ka = key<T>((std::string("all.") + SN[src]).c_str()), kn = key<T>((std::string("any.") + SN[src]).c_str()), kc = key<T>((std::string("nbtrue.") + SN[src]).c_str());
    bool a = hx_case(ka), n = hx_case(kn), c = hx_case(kc);
    if (!a && !n && !c) continue;
    for (size_t i = 0; i < v.size(); i++) {
      M m = v[i];
      T b[64], z[64];
      enc(src == 2 ? all & ~m : m, b, l, src == 1 ? 0 : (int)(i % 3));
      memset(z, 0, sizeof z);
      LT q;
      if (src == 0) q = nsimd::loadlu(b, T());
      else if (src == 1) q = nsimd::ne(nsimd::loadu(b, T()), nsimd::loadu(z, T()), T());
      else if (src == 2) q = nsimd::notl(nsimd::loadlu(b, T()), T());
      else { for (int j = 0; j < l; j++) if (wd(b[j]) == 1ull << (8 * sizeof(T) - 1) && isf<T>::v) b[j] = z[0]; q = nsimd::to_logical(nsimd::loadu(b, T()), T()); }
      int ra = nsimd::all(q, T()) != 0, rn = nsimd::any(q, T()) != 0, rc = nsimd::nbtrue(q, T());
      hx_states++; hx_trans += 3; hx_traces++;
      hx_seen(hx_mix(ra * 2 + rn, rc + 100 * l));
      if (a && ra != (m == all)) BAD(ka, "mask 0x%llx: all=%d", m, ra);
      if (n && rn != (m != 0)) BAD(kn, "mask 0x%llx: any=%d", m, rn);
      if (c && rc != pc(m)) BAD(kc, "mask 0x%llx: nbtrue=%d", m, rc);
    }
  }
  // logical operators on whole masks (pairs from a reduced set)
  std::vector<M> w;
  for (size_t i = 0; i < v.size(); i += std::max((size_t)1, v.size() / (hx_tier ? 900 : 150))) w.push_back(v[i]);
  w.push_back(all);
  std::string k = key<T>("logicalops");
  if (hx_case(k)) for (M x : w) for (M y : w) {
    LT p = ldm<T>(x), q = ldm<T>(y, 1);
    M r[4] = {rdm<T>(nsimd::andl(p, q, T())), rdm<T>(nsimd::orl(p, q, T())), rdm<T>(nsimd::xorl(p, q, T())), rdm<T>(nsimd::andnotl(p, q, T()))};
    M e[4] = {x & y, x | y, x ^ y, x & ~y};
    for (int i = 0; i < 4; i++) if (r[i] != e[i]) BAD(k, "op %d on 0x%llx 0x%llx gives 0x%llx", i, x, y, r[i]);
    int al = nsimd::all(nsimd::xorl(p, q, T()), T()), nb = nsimd::nbtrue(nsimd::andl(p, q, T()), T());
    if ((al != 0) != ((x ^ y) == all) || nb != pc(x & y)) BAD(k, "reduction of computed logicals 0x%llx 0x%llx: all=%d nbtrue=%d", x, y, al, nb);
    hx_states++; hx_trans += 6; hx_traces++;
  }
  // selection and set1l
  k = key<T>("select");
  if (hx_case(k)) for (size_t i = 0; i < v.size(); i++) for (int r = 0; r < 2; r++) {
    T b[64], c[64], o[64];
    for (int j = 0; j < l; j++) b[j] = pat<T>(j, r), c[j] = pat<T>(j + l + 1, r + 2);
    nsimd::storeu(o, nsimd::if_else1(ldm<T>(v[i], r), nsimd::loadu(b, T()), nsimd::loadu(c, T()), T()), T());
    for (int j = 0; j < l; j++) if (!same(o[j], ((v[i] >> j) & 1) ? b[j] : c[j])) BAD(k, "mask 0x%llx lane %d got 0x%llx", v[i], j, wd(o[j]));
    hx_states++; hx_trans += l; hx_traces++;
  }
  k = key<T>("set1l");
  if (hx_case(k)) for (int p = -3; p <= 300; p++) {
    M m = rdm<T>(nsimd::set1l(p == 300 ? 1 << 30 : p == 299 ? -2147483647 - 1 : p, T()));
    if (m != (p ? all : 0)) BAD(k, "set1l(%d) gives 0x%llx", p, m);
    hx_states++; hx_trans++; hx_traces++;
  }
  k = key<T>("to_mask");
  if (hx_case(k)) for (size_t i = 0; i < v.size(); i++) {
    T o[64];
    nsimd::storeu(o, nsimd::to_mask(ldm<T>(v[i]), T()), T());
    for (int j = 0; j < l; j++) { unsigned long long w = wd(o[j]), e = ((v[i] >> j) & 1) ? (sizeof(T) == 8 ? ~0ull : (1ull << (8 * sizeof(T))) - 1) : 0; if (w != e) BAD(k, "mask 0x%llx lane %d got 0x%llx", v[i], j, w); }
    if (rdm<T>(nsimd::to_logical(nsimd::to_mask(ldm<T>(v[i]), T()), T())) != v[i]) BAD(k, "to_logical(to_mask(0x%llx)) differs", v[i]);
    hx_states++; hx_trans += l; hx_traces++;
  }
  k = key<T>("mask_for_loop_tail");
  if (hx_case(k)) {
    std::vector<std::pair<int, int> > pr;
    for (int n = 0; n <= 3 * l + 2; n++) for (int i = 0; i <= n + 3 * l; i++) pr.push_back(std::make_pair(i, n));
    int big[] = {255, 256, 257, 32767, 32768, 65535, 65536, 65537, 16777216, 16777217, 2147483646, 2147483647};
    for (int n : big) for (int d = -2 * l - 1; d <= 2 * l + 1; d++) { long long i = (long long)n + d; if (i >= 0 && i <= 2147483647) pr.push_back(std::make_pair((int)i, n)); pr.push_back(std::make_pair(n > 1000000 ? 0 : n / 2, n)); }
    for (auto &q : pr) {
      int i = q.first, n = q.second;
      M e = 0;
      for (int j = 0; j < l; j++) if ((long long)i + j < n) e |= 1ull << j;
      M m = rdm<T>(nsimd::mask_for_loop_tail(i, n, T()));
      if (m != e) BAD(k, "mask_for_loop_tail(%d,%d) gives 0x%llx want 0x%llx", i, n, m, e);
      hx_states++; hx_trans++; hx_traces++;
      hx_seen(hx_mix(777, e));
    }
  }
  printf("SAMPLE %s: %zu lane masks of %d lanes, reductions from 4 origins\n", nm<T>::s(), v.size(), l);
}
template <typename T> void fpart() {}
#endif

#if PART == 1
typedef void SHUF;
template <typename T> void shuf(const char *op, int kind) {
  std::string k = key<T>(op);
  if (!hx_case(k)) return;
  int l = L<T>(), h = l / 2;
  // data sets: 4 rounds of all-distinct lanes, then one-hot patterns over two
  // backgrounds for every lane of both operands
  int nset = 4 + 2 * 2 * l;
  for (int s = 0; s < nset; s++) {
    T a[64], b[64], o[128], e[128];
    for (int i = 0; i < l; i++) {
      if (s < 4) { a[i] = pat<T>(i, s); b[i] = pat<T>(i + l, s); }
      else { a[i] = b[i] = pat<T>(1, s & 1); }
    }
    if (s >= 4) { int q = (s - 4) / 2; (q < l ? a[q] : b[q - l]) = pat<T>(90, 3); }
    VT x = nsimd::loadu(a, T()), y = nsimd::loadu(b, T());
    int no = l;
    if (kind == 0) nsimd::storeu(o, nsimd::ziplo(x, y, T()), T());
    if (kind == 1) nsimd::storeu(o, nsimd::ziphi(x, y, T()), T());
    if (kind == 2) nsimd::storeu(o, nsimd::unziplo(x, y, T()), T());
    if (kind == 3) nsimd::storeu(o, nsimd::unziphi(x, y, T()), T());
    if (kind == 4) { typename nsimd::simd_traits<T, nsimd::NSIMD_SIMD>::simd_vectorx2 r = nsimd::zip(x, y, T()); nsimd::storeu(o, r.v0, T()); nsimd::storeu(o + l, r.v1, T()); no = 2 * l; }
    if (kind == 5) { typename nsimd::simd_traits<T, nsimd::NSIMD_SIMD>::simd_vectorx2 r = nsimd::unzip(x, y, T()); nsimd::storeu(o, r.v0, T()); nsimd::storeu(o + l, r.v1, T()); no = 2 * l; }
    if (kind == 6 || kind == 7) { // round trips
      typename nsimd::simd_traits<T, nsimd::NSIMD_SIMD>::simd_vectorx2 r = kind == 6 ? nsimd::zip(x, y, T()) : nsimd::unzip(x, y, T());
      r = kind == 6 ? nsimd::unzip(r.v0, r.v1, T()) : nsimd::zip(r.v0, r.v1, T());
      nsimd::storeu(o, r.v0, T()); nsimd::storeu(o + l, r.v1, T()); no = 2 * l;
    }
    T ab[128];
    for (int i = 0; i < l; i++) ab[i] = a[i], ab[i + l] = b[i];
    for (int i = 0; i < no; i++) {
      if (kind == 0) e[i] = (i & 1 ? b : a)[i / 2];
      if (kind == 1) e[i] = (i & 1 ? b : a)[h + i / 2];
      if (kind == 2) e[i] = ab[2 * i];
      if (kind == 3) e[i] = ab[2 * i + 1];
      if (kind == 4) e[i] = (i & 1 ? b : a)[i / 2];
      if (kind == 5) e[i] = i < l ? ab[2 * i] : ab[2 * (i - l) + 1];
      if (kind >= 6) e[i] = ab[i];
      if (!same(e[i], o[i])) BAD(k, "data set %d lane %d got 0x%llx want 0x%llx", s, i, wd(o[i]), wd(e[i]));
      hx_seen(hx_mix(kind * 100 + i, wd(e[i])));
    }
    hx_states++; hx_trans += no; hx_traces++;
  }
}
template <typename T> void part() {
  if (L<T>() > 1) {
    shuf<T>("ziplo", 0); shuf<T>("ziphi", 1); shuf<T>("unziplo", 2); shuf<T>("unziphi", 3); shuf<T>("zip", 4); shuf<T>("unzip", 5); shuf<T>("zip-unzip", 6); shuf<T>("unzip-zip", 7);
  }
  std::string k = key<T>("iota");
  if (hx_case(k)) {
    T o[64];
    nsimd::storeu(o, nsimd::iota(T()), T());
    for (int i = 0; i < L<T>(); i++) if (!same(o[i], nsimd::to<T>(i))) BAD(k, "lane %d holds 0x%llx", i, wd(o[i]));
    hx_states++; hx_trans += L<T>(); hx_traces++;
  }
  k = key<T>("len");
  if (hx_case(k)) {
    int bits = 128;
    const char *e = STR(NSIMD_SIMD);
    if (!strncmp(e, "avx512", 6)) bits = 512; else if (!strncmp(e, "avx", 3)) bits = 256;
    if (L<T>() != bits / 8 / (int)sizeof(T) || nsimd::max_len_t<T>::value < L<T>()) BAD(k, "len=%d", L<T>());
    hx_states++; hx_trans++; hx_traces++;
  }
}
template <typename T> void fpart() {
  std::string k = key<T>("addv");
  if (!hx_case(k)) return;
  int l = L<T>();
  T a[64];
  // every mask of lanes holding 1 (others 0), scaled and shifted: all partial
  // sums are exact, so the result does not depend on the summation order
  std::vector<M> v = masks(l);
  for (int r = 0; r < 3; r++) for (size_t i = 0; i < v.size(); i++) {
    long s = 0;
    for (int j = 0; j < l; j++) { int x = ((v[i] >> j) & 1) ? (r == 0 ? 1 : r == 1 ? -3 : j + 1) : r == 2 ? -1 : 0; a[j] = nsimd::to<T>(x); s += x; }
    T g = nsimd::addv(nsimd::loadu(a, T()), T());
    if (!same(g, nsimd::to<T>((int)s)) && !(s == 0 && (wd(g) << (64 - 8 * sizeof(T)) << 1) == 0)) BAD(k, "round %d mask 0x%llx gives 0x%llx want %ld", r, v[i], wd(g), s);
    hx_states++; hx_trans += l; hx_traces++; hx_seen(hx_mix(s, 3));
  }
  // a single infinity or NaN or large/tiny/fractional value in each lane
  for (int j = 0; j < l; j++) for (int s = 0; s < 6; s++) {
    double vals[] = {INFINITY, -INFINITY, NAN, 0.5, -0.125, 1024.25};
    for (int i = 0; i < l; i++) a[i] = nsimd::to<T>(0);
    a[j] = nsimd::to<T>((f64)vals[s]);
    T g = nsimd::addv(nsimd::loadu(a, T()), T());
    double d = nsimd::to<f64>(g), w = nsimd::to<f64>(a[j]);
    if (!(d == w || (d != d && w != w))) BAD(k, "%g in lane %d gives %g", vals[s], j, d);
    hx_states++; hx_trans++; hx_traces++;
  }
  printf("SAMPLE addv %s: %zu lane masks x 3 weightings\n", nm<T>::s(), v.size());
}
#endif

#if PART == 2
static unsigned char *A0, *A1; // accessible area [A0, A1), guard pages around
static unsigned char SHADOW[16384];
static void area_init() {
  size_t pg = 4096;
  unsigned char *p = (unsigned char *)mmap(0, 6 * pg, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
  mprotect(p, pg, PROT_NONE);
  mprotect(p + 5 * pg, pg, PROT_NONE);
  A0 = p + pg; A1 = p + 5 * pg;
}
static void fill(int r) { for (int i = 0; i < 16384; i++) SHADOW[i] = A0[i] = (unsigned char)(i * 131 + r * 17 + (i >> 8)); }
static bool diff(std::string const &k, const char *what, long arg) {
  if (!memcmp(A0, SHADOW, 16384)) return false;
  for (int i = 0; i < 16384; i++) if (A0[i] != SHADOW[i]) { hx_bad(k, "%s %ld: byte %d of the area holds %02x, expected %02x", what, arg, i, A0[i], SHADOW[i]); break; }
  memcpy(A0, SHADOW, 16384);
  return true;
}
// positions (element pointers) where n elements fit: every element offset
// within one cache line at the start of the area, and the last one
template <typename T> std::vector<T *> places(int n, bool aligned) {
  std::vector<T *> v;
  int st = aligned ? std::max(16, L<T>() * (int)sizeof(T)) : (int)sizeof(T);
  for (int o = 0; o <= 128; o += st) v.push_back((T *)(A0 + o));
  for (int o = 0; o <= 128; o += st) { T *p = (T *)(A1 - n * sizeof(T) - o); if (!aligned || ((size_t)p % st) == 0) v.push_back(p); }
  for (int o = -64; o <= 64; o += st) v.push_back((T *)(A0 + 4096 + o)); // page crossing
  return v;
}
template <typename T> std::string at(T *p) { char b[64]; sprintf(b, "start+%ld", (long)((unsigned char *)p - A0)); return b; }
template <typename T> std::vector<int> &perm(int deg) { static std::vector<int> v[5]; if (v[deg].empty()) v[deg].assign(64, -1); return v[deg]; }
// "one structure per lane" permutation of the degree-n loads; the stores must
// be its exact inverse. Learnt from one load of distinct values.
template <typename T> void learn() {
  int l = L<T>();
  T *p = (T *)A0, o[64];
  for (int deg = 1; deg <= 4; deg++) {
    for (int i = 0; i < l * deg; i++) p[i] = pat<T>(i, 0);
    if (deg == 1) nsimd::storeu(o, nsimd::loadu(p, T()), T());
    if (deg == 2) nsimd::storeu(o, nsimd::load2u(p, T()).v0, T());
    if (deg == 3) nsimd::storeu(o, nsimd::load3u(p, T()).v0, T());
    if (deg == 4) nsimd::storeu(o, nsimd::load4u(p, T()).v0, T());
    std::vector<int> &pm = perm<T>(deg);
    for (int i = 0; i < l; i++) for (int j = 0; j < l; j++) if (same(o[j], p[i * deg])) pm[i] = j;
    for (int i = 0; i < l; i++) if (pm[i] < 0) pm[i] = i;
  }
}
template <typename T> void loads(bool al) {
  int l = L<T>();
  for (int deg = 1; deg <= 4; deg++) {
    char nmb[32];
    sprintf(nmb, deg == 1 ? "load%s" : "load%d%s", deg == 1 ? (al ? "a" : "u") : "", 0);
    if (deg == 1) sprintf(nmb, "load%s", al ? "a" : "u"); else sprintf(nmb, "load%d%s", deg, al ? "a" : "u");
    std::string k = key<T>(nmb);
    if (!hx_case(k)) continue;
    std::vector<T *> v = places<T>(l * deg, al);
    for (int r = 0; r < 3; r++) for (T *p : v) {
      for (int i = 0; i < l * deg; i++) p[i] = pat<T>(i, r);
      T o[4][64];
      if (deg == 1) nsimd::storeu(o[0], al ? nsimd::loada(p, T()) : nsimd::loadu(p, T()), T());
      if (deg == 2) { typename nsimd::simd_traits<T, nsimd::NSIMD_SIMD>::simd_vectorx2 x = al ? nsimd::load2a(p, T()) : nsimd::load2u(p, T()); nsimd::storeu(o[0], x.v0, T()); nsimd::storeu(o[1], x.v1, T()); }
      if (deg == 3) { typename nsimd::simd_traits<T, nsimd::NSIMD_SIMD>::simd_vectorx3 x = al ? nsimd::load3a(p, T()) : nsimd::load3u(p, T()); nsimd::storeu(o[0], x.v0, T()); nsimd::storeu(o[1], x.v1, T()); nsimd::storeu(o[2], x.v2, T()); }
      if (deg == 4) { typename nsimd::simd_traits<T, nsimd::NSIMD_SIMD>::simd_vectorx4 x = al ? nsimd::load4a(p, T()) : nsimd::load4u(p, T()); nsimd::storeu(o[0], x.v0, T()); nsimd::storeu(o[1], x.v1, T()); nsimd::storeu(o[2], x.v2, T()); nsimd::storeu(o[3], x.v3, T()); }
      // lane of structure i: fixed permutation, the same for every member
      std::vector<int> &pm = perm<T>(deg);
      for (int i = 0; i < l; i++) {
        for (int m = 0; m < deg; m++) if (!same(o[m][pm[i]], p[i * deg + m])) BAD(k, "at %s: member %d of structure %d (lane %d) read as 0x%llx want 0x%llx", at(p).c_str(), m, i, pm[i], wd(o[m][pm[i]]), wd(p[i * deg + m]));
      }
      hx_states++; hx_trans += l * deg; hx_traces++; hx_seen(hx_mix(deg, (uint64_t)((unsigned char *)p - A0)));
    }
  }
}
template <typename T> void stores(bool al) {
  int l = L<T>();
  fill(1);
  for (int deg = 1; deg <= 4; deg++) {
    char nmb[32];
    if (deg == 1) sprintf(nmb, "store%s", al ? "a" : "u"); else sprintf(nmb, "store%d%s", deg, al ? "a" : "u");
    std::string k = key<T>(nmb);
    if (!hx_case(k)) continue;
    std::vector<T *> v = places<T>(l * deg, al);
    for (int r = 0; r < 3; r++) for (T *p : v) {
      T in[4][64];
      std::vector<int> &pm = perm<T>(deg);
      for (int i = 0; i < l * deg; i++) { in[i % deg][i / deg] = pat<T>(i, r); }
      for (int i = 0; i < l * deg; i++) memcpy(SHADOW + ((unsigned char *)(p + i) - A0), &in[i % deg][pm[i / deg]], sizeof(T));
      VT x0 = nsimd::loadu(in[0], T());
      if (deg == 1) { if (al) nsimd::storea(p, x0, T()); else nsimd::storeu(p, x0, T()); }
      else {
        VT x1 = nsimd::loadu(in[1], T());
        if (deg == 2) { if (al) nsimd::store2a(p, x0, x1, T()); else nsimd::store2u(p, x0, x1, T()); }
        else {
          VT x2 = nsimd::loadu(in[2], T());
          if (deg == 3) { if (al) nsimd::store3a(p, x0, x1, x2, T()); else nsimd::store3u(p, x0, x1, x2, T()); }
          else { VT x3 = nsimd::loadu(in[3], T()); if (al) nsimd::store4a(p, x0, x1, x2, x3, T()); else nsimd::store4u(p, x0, x1, x2, x3, T()); }
        }
      }
      diff(k, "store at offset", (long)((unsigned char *)p - A0));
      hx_states++; hx_trans += l * deg; hx_traces++; hx_seen(hx_mix(10 + deg, (uint64_t)((unsigned char *)p - A0)));
    }
  }
}
// dead stack filled before each masked access, which then runs in a frame of
// its own: what it reads beyond its own objects is not what the caller left
static __attribute__((noinline)) void poison(int v) {
  unsigned char b[2048];
  memset(b, v, sizeof b);
  __asm__ volatile("" : : "r"(b) : "memory");
}
template <typename T> __attribute__((noinline)) void mcall(int op, T *lg, T *p, T *ov, T *o) {
  LT q = nsimd::loadlu(lg, T());
  VT x = nsimd::loadu(ov, T());
  switch (op) {
  case 0: x = nsimd::maskz_loadu1(q, p, T()); break;
  case 1: x = nsimd::maskz_loada1(q, p, T()); break;
  case 2: x = nsimd::masko_loadu1(q, p, x, T()); break;
  case 3: x = nsimd::masko_loada1(q, p, x, T()); break;
  case 4: nsimd::mask_storeu1(q, p, x, T()); break;
  case 5: nsimd::mask_storea1(q, p, x, T()); break;
  }
  nsimd::storeu(o, x, T());
}
template <typename T> void masked() {
  int l = L<T>();
  M all = l == 64 ? ~0ull : ((1ull << l) - 1);
  std::vector<M> v = masks(l);
  static const char *const nmz[] = {"maskz_loadu1", "maskz_loada1", "masko_loadu1", "masko_loada1", "mask_storeu1", "mask_storea1"};
  for (int op = 0; op < 6; op++) {
    std::string k = key<T>(nmz[op]);
    if (!hx_case(k)) continue;
    bool al = op & 1;
    fill(2);
    for (size_t i = 0; i < v.size(); i++) for (int pl = 0; pl < 4; pl++) {
      M m = v[i];
      if (pl >= 2 && (m == 0)) continue;
      // 0: start of area, 1: end of area (aligned) or odd offset,
      // 2: last active element is the last accessible one,
      // 3: first active element is the first accessible one
      T *p = (T *)A0;
      if (pl == 1) p = al ? (T *)(A1 - l * sizeof(T)) : (T *)(A0 + 512 - 3 * sizeof(T));
      if (pl == 2) { if (al) continue; int last = 63 - __builtin_clzll(m); p = (T *)A1 - (last + 1); }
      if (pl == 3) { if (al) continue; int first = __builtin_ctzll(m); p = (T *)A0 - first; }
      T in[64], ot[64], o[64], lg[64];
      enc(m, lg, l, (int)(i % 3) == 1 ? 1 : 0);
      for (int j = 0; j < l; j++) { in[j] = pat<T>(j, 1); ot[j] = pat<T>(j + l + 3, 2); }
      if (op < 4) {
        for (int j = 0; j < l; j++) if (((unsigned char *)(p + j) >= A0) && (unsigned char *)(p + j) < A1) p[j] = in[j];
        poison((i + pl) & 1 ? 0xFF : 0);
        mcall(op, lg, p, ot, o);
        for (int j = 0; j < l; j++) { T e = ((m >> j) & 1) ? in[j] : op < 2 ? bitsT<T>(0) : ot[j]; if (!same(e, o[j])) BAD(k, "mask 0x%llx placement %d lane %d got 0x%llx want 0x%llx", m, pl, j, wd(o[j]), wd(e)); }
      } else {
        for (int j = 0; j < l; j++) if ((m >> j) & 1) memcpy(SHADOW + ((unsigned char *)(p + j) - A0), &in[j], sizeof(T));
        poison((i + pl) & 1 ? 0xFF : 0);
        mcall(op, lg, p, in, o);
        // compare only the neighbourhood (the whole area every 64 masks)
        if (i % 64 == 0 || i + 1 == v.size()) diff(k, "store with mask", (long)m);
        else { unsigned char *lo = std::max(A0, (unsigned char *)p - 256), *hi = std::min(A1, (unsigned char *)(p + l) + 256); if (memcmp(lo, SHADOW + (lo - A0), hi - lo)) diff(k, "store with mask", (long)m); }
        for (int j = 0; j < l; j++) if ((m >> j) & 1) { unsigned char *c = (unsigned char *)(p + j); for (size_t b = 0; b < sizeof(T); b++) SHADOW[c + b - A0] = c[b] = (unsigned char)((c - A0) * 131 + b * 7 + 34); }
      }
      hx_states++; hx_trans += l; hx_traces++;
    }
    hx_seen(hx_mix(op, all));
  }
  // logical loads and stores
  for (int op = 0; op < 4; op++) {
    static const char *const ln[] = {"loadlu", "loadla", "storelu", "storela"};
    std::string k = key<T>(ln[op]);
    if (!hx_case(k)) continue;
    fill(3);
    for (size_t i = 0; i < v.size(); i++) for (int pl = 0; pl < 2; pl++) {
      bool al = op & 1;
      T *p = (T *)(pl ? A1 - l * sizeof(T) : al ? A0 : A0 + sizeof(T) * (i % 9));
      if (op < 2) {
        enc(v[i], p, l, (int)(i % 3));
        M m = rdm<T>(al ? nsimd::loadla(p, T()) : nsimd::loadlu(p, T()));
        if (m != v[i]) BAD(k, "mask 0x%llx read as 0x%llx", v[i], m);
      } else {
        T e[64];
        enc(v[i], e, l, 0);
        memcpy(SHADOW + ((unsigned char *)p - A0), e, l * sizeof(T));
        if (al) nsimd::storela(p, ldm<T>(v[i], 1), T()); else nsimd::storelu(p, ldm<T>(v[i], 1), T());
        unsigned char *lo = std::max(A0, (unsigned char *)p - 256), *hi = std::min(A1, (unsigned char *)(p + l) + 256);
        if (i % 64 == 0 || memcmp(lo, SHADOW + (lo - A0), hi - lo)) diff(k, "store of logicals", (long)v[i]);
      }
      hx_states++; hx_trans += l; hx_traces++;
    }
  }
}
template <typename T> void linear() {
  int l = L<T>();
  std::string k = key<T>("gather_linear");
  int maxs = 16384 / (int)sizeof(T) / l - 1;
  if (maxs > 40) maxs = 40;
  if (hx_case(k)) for (int st = -maxs; st <= maxs; st++) for (int pl = 0; pl < 2; pl++) {
    int span = (st < 0 ? -st : st) * (l - 1) + 1;
    T *b = pl ? (T *)A1 - span : (T *)A0;
    T *p = st < 0 ? b + span - 1 : b;
    for (int i = 0; i < span; i++) b[i] = pat<T>(i % (sizeof(T) == 1 ? 251 : 1000000), 1);
    T o[64];
    nsimd::storeu(o, nsimd::gather_linear(p, st, T()), T());
    for (int j = 0; j < l; j++) if (!same(o[j], p[j * st])) BAD(k, "step %d lane %d got 0x%llx want 0x%llx", st, j, wd(o[j]), wd(p[j * st]));
    hx_states++; hx_trans += l; hx_traces++; hx_seen(hx_mix(900, st + 1000));
  }
  k = key<T>("scatter_linear");
  if (hx_case(k)) for (int st = -maxs; st <= maxs; st++) for (int pl = 0; pl < 2; pl++) {
    if (!st) continue;
    fill(st + 50);
    int span = (st < 0 ? -st : st) * (l - 1) + 1;
    T *b = pl ? (T *)A1 - span : (T *)A0;
    T *p = st < 0 ? b + span - 1 : b;
    T in[64];
    for (int j = 0; j < l; j++) { in[j] = pat<T>(j, 1); memcpy(SHADOW + ((unsigned char *)(p + j * st) - A0), in + j, sizeof(T)); }
    nsimd::scatter_linear(p, st, nsimd::loadu(in, T()), T());
    diff(k, "step", st);
    hx_states++; hx_trans += l; hx_traces++;
  }
}
template <typename T> void part() {
  learn<T>();
  loads<T>(false); loads<T>(true); stores<T>(false); stores<T>(true); masked<T>(); linear<T>();
  printf("SAMPLE %s: %d lanes, %zu lane masks, guard pages on both sides, every element offset in two cache lines\n", nm<T>::s(), L<T>(), masks(L<T>()).size());
}
template <typename T> void gs() {
  typedef typename nsimd::traits<T>::itype I;
  int l = L<T>();
  std::string k = key<T>("gather"), k2 = key<T>("scatter");
  std::vector<std::vector<long> > ix;
  long tot = sizeof(T) == 2 ? 65536 : 16384 / (long)sizeof(T), lo = -tot / 2, hi = tot / 2 - 1;
  std::vector<long> e(l);
  for (int s = 0; s < l; s++) { for (int j = 0; j < l; j++) e[j] = (j + s) % l; ix.push_back(e); for (int j = 0; j < l; j++) e[j] = l - 1 - (j + s) % l; ix.push_back(e); for (int j = 0; j < l; j++) e[j] = -((j + s) % l) - 1; ix.push_back(e); }
  for (int m = 2; m < 24; m++) { if (m * l <= hi) { for (int j = 0; j < l; j++) e[j] = (long)j * m; ix.push_back(e); for (int j = 0; j < l; j++) e[j] = -(long)j * m; ix.push_back(e); } }
  for (int p = 0; p < l; p++) for (int q = 0; q < p; q++) { for (int j = 0; j < l; j++) e[j] = j; e[p] = q; e[q] = p; ix.push_back(e); }
  for (int p = 0; p < l; p++) { for (int j = 0; j < l; j++) e[j] = j; e[p] = hi; ix.push_back(e); e[p] = lo; ix.push_back(e); }
  size_t nperm = ix.size();
  for (long x = lo; x <= hi; x += l) { for (int j = 0; j < l; j++) e[j] = std::min(x + j, hi); ix.push_back(e); } // sweep the whole index range
  std::vector<T> mem(tot), ref(tot);
  for (long i = 0; i < tot; i++) mem[i] = pat<T>((unsigned)i, (int)(i >> 8) & 3);
  T *base = &mem[0] + tot / 2;
  if (hx_case(k)) for (size_t z = 0; z < ix.size(); z++) for (int r = 0; r < (z < nperm ? 1 : std::min(l, 2)); r++) {
    I idx[64]; T o[64];
    for (int j = 0; j < l; j++) idx[j] = (I)ix[z][(j + r) % l];
    nsimd::storeu(o, nsimd::gather(base, nsimd::loadu(idx, I()), T()), T());
    for (int j = 0; j < l; j++) if (!same(o[j], base[(long)idx[j]])) BAD(k, "index set %zu lane %d index %ld got 0x%llx", z, j, (long)idx[j], wd(o[j]));
    hx_states++; hx_trans += l; hx_traces++; hx_seen(hx_mix(800, idx[0]));
  }
  if (hx_case(k2)) {
    ref = mem;
    for (size_t z = 0; z < ix.size(); z++) {
      I idx[64]; T in[64];
      for (int j = 0; j < l; j++) idx[j] = (I)ix[z][j], in[j] = pat<T>(j + (unsigned)z, 2);
      std::set<long> s(ix[z].begin(), ix[z].end());
      if ((int)s.size() != l) continue; // repeated indices: order not specified
      nsimd::scatter(base, nsimd::loadu(idx, I()), nsimd::loadu(in, T()), T());
      for (int j = 0; j < l; j++) { if (!same(base[(long)idx[j]], in[j])) BAD(k2, "index set %zu lane %d index %ld holds 0x%llx", z, j, (long)idx[j], wd(base[(long)idx[j]])); ref[tot / 2 + idx[j]] = in[j]; base[(long)idx[j]] = in[j]; }
      if ((z < nperm || z % 97 == 0 || z + 1 == ix.size()) && memcmp(&mem[0], &ref[0], tot * sizeof(T))) { BAD(k2, "index set %zu: another element was written", z); mem = ref; base = &mem[0] + tot / 2; }
      hx_states++; hx_trans += l; hx_traces++;
    }
  }
}
#endif
int main(int argc, char **argv) {
  hx_init(argc, argv);
  if (!hx_limit) hx_limit = 200;
#if PART == 2
  area_init();
  gs<i16>(); gs<u16>(); gs<f16>(); gs<i32>(); gs<u32>(); gs<f32>(); gs<i64>(); gs<u64>(); gs<f64>();
#else
  fpart<f16>(); fpart<f32>(); fpart<f64>();
#endif
  part<i8>(); part<u8>(); part<i16>(); part<u16>(); part<f16>(); part<i32>(); part<u32>(); part<f32>(); part<i64>(); part<u64>(); part<f64>();
  return hx_done();
}
