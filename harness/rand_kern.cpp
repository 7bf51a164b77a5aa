// Counter based generators against an independent model of the published
// Random123 definition (Salmon et al., SC11), every lane.
#include <nsimd/nsimd-all.hpp>
#include <nsimd/modules/random/functions.hpp>
#include "hx.h"
#include <algorithm>
#define STR_(x) #x
#define STR(x) STR_(x)
// ---- reference model ------------------------------------------------------
template <typename W> struct C;
template <> struct C<u32> {
  enum { B = 32 };
  static u32 m2() { return 0xd256d193u; }
  static u32 m4(int i) { return i ? 0xCD9E8D57u : 0xD2511F53u; }
  static u32 w(int i) { return i ? 0xBB67AE85u : 0x9E3779B9u; }
  static u32 par() { return 0x1BD11BDAu; }
  static int r2(int i) { static const int t[] = {13, 15, 26, 6, 17, 29, 16, 24}; return t[i]; }
  static int r4(int i, int j) { static const int t[][2] = {{10, 26}, {11, 21}, {13, 27}, {23, 5}, {6, 20}, {17, 11}, {25, 10}, {18, 20}}; return t[i][j]; }
};
template <> struct C<u64> {
  enum { B = 64 };
  static u64 m2() { return 0xD2B74407B1CE6E93ull; }
  static u64 m4(int i) { return i ? 0xCA5A826395121157ull : 0xD2E7470EE14C6C93ull; }
  static u64 w(int i) { return i ? 0xBB67AE8584CAA73Bull : 0x9E3779B97F4A7C15ull; }
  static u64 par() { return 0x1BD11BDAA9FC1A22ull; }
  static int r2(int i) { static const int t[] = {16, 42, 12, 31, 16, 32, 24, 21}; return t[i]; }
  static int r4(int i, int j) { static const int t[][2] = {{14, 16}, {52, 57}, {23, 40}, {5, 37}, {25, 33}, {46, 12}, {58, 22}, {32, 32}}; return t[i][j]; }
};
template <typename W> W hi(W a, W b) { return (W)(((unsigned __int128)a * b) >> C<W>::B); }
template <typename W> W rotl(W a, int r) { return (W)((a << r) | (a >> (C<W>::B - r))); }
template <typename W> void philox(int n, int rounds, const W *c, const W *k, W *o) {
  W x[4], q[2];
  for (int i = 0; i < n; i++) x[i] = c[i];
  for (int i = 0; i < n / 2; i++) q[i] = k[i];
  for (int r = 0; r < rounds; r++) {
    if (n == 2) { W h = hi<W>(C<W>::m2(), x[0]), l = (W)(C<W>::m2() * x[0]); x[0] = h ^ q[0] ^ x[1]; x[1] = l; }
    else {
      W h0 = hi<W>(C<W>::m4(0), x[0]), l0 = (W)(C<W>::m4(0) * x[0]), h1 = hi<W>(C<W>::m4(1), x[2]), l1 = (W)(C<W>::m4(1) * x[2]);
      W y[4] = {(W)(h1 ^ x[1] ^ q[0]), l1, (W)(h0 ^ x[3] ^ q[1]), l0};
      memcpy(x, y, sizeof x);
    }
    for (int i = 0; i < n / 2; i++) q[i] = (W)(q[i] + C<W>::w(i));
  }
  for (int i = 0; i < n; i++) o[i] = x[i];
}
template <typename W> void threefry(int n, int rounds, const W *c, const W *k, W *o) {
  W ks[5], x[4];
  ks[n] = C<W>::par();
  for (int i = 0; i < n; i++) ks[i] = k[i], ks[n] ^= k[i];
  for (int i = 0; i < n; i++) x[i] = (W)(c[i] + ks[i]);
  for (int r = 0; r < rounds; r++) {
    if (n == 2) { x[0] += x[1]; x[1] = rotl<W>(x[1], C<W>::r2(r % 8)) ^ x[0]; }
    else {
      int a = r % 2 ? 3 : 1, b = r % 2 ? 1 : 3;
      x[0] += x[a]; x[a] = rotl<W>(x[a], C<W>::r4(r % 8, 0)) ^ x[0];
      x[2] += x[b]; x[b] = rotl<W>(x[b], C<W>::r4(r % 8, 1)) ^ x[2];
    }
    if (r % 4 == 3) { int s = r / 4 + 1; for (int i = 0; i < n; i++) x[i] = (W)(x[i] + ks[(s + i) % (n + 1)]); x[n - 1] = (W)(x[n - 1] + s); }
  }
  for (int i = 0; i < n; i++) o[i] = x[i];
}
// ---- implementation side --------------------------------------------------
template <typename W> nsimd::pack<W> ld(const W *p) { return nsimd::loadu<nsimd::pack<W> >(p); }
template <typename W> void put(nsimd::packx1<W> &x, const W *const *p) { x.v0 = ld(p[0]); }
template <typename W> void put(nsimd::packx2<W> &x, const W *const *p) { x.v0 = ld(p[0]); x.v1 = ld(p[1]); }
template <typename W> void put(nsimd::packx4<W> &x, const W *const *p) { x.v0 = ld(p[0]); x.v1 = ld(p[1]); x.v2 = ld(p[2]); x.v3 = ld(p[3]); }
template <typename W> void get(const nsimd::packx2<W> &x, W (*o)[64]) { nsimd::storeu(o[0], x.v0); nsimd::storeu(o[1], x.v1); }
template <typename W> void get(const nsimd::packx4<W> &x, W (*o)[64]) { nsimd::storeu(o[0], x.v0); nsimd::storeu(o[1], x.v1); nsimd::storeu(o[2], x.v2); nsimd::storeu(o[3], x.v3); }
template <typename W> std::vector<W> words(int level) {
  W m = (W)~(W)0;
  int B = C<W>::B;
  std::vector<W> v;
  W b[] = {0, m, 1, (W)((W)1 << (B - 1)), (W)(m >> (B / 2)), (W)(m >> 1), (W)0x9E3779B97F4A7C15ull, (W)(m << (B / 2)), (W)0x0123456789abcdefull, 2, (W)(m - 1), (W)0x5555555555555555ull, (W)0xdeadbeefcafebabeull};
  for (W x : b) v.push_back(x);
  if (level) for (int i = 0; i < B; i++) { v.push_back((W)1 << i); v.push_back((W)~((W)1 << i)); v.push_back((W)(((W)1 << i) - 1)); }
  std::vector<W> r;
  for (W x : v) if (std::find(r.begin(), r.end(), x) == r.end()) r.push_back(x);
  return r;
}
template <typename W> const std::vector<std::vector<W> > &space(int n) {
  static std::map<int, std::vector<std::vector<W> > > cache;
  std::vector<std::vector<W> > &t = cache[n];
  if (!t.empty()) return t;
  std::vector<W> s = words<W>(0), r = words<W>(1);
  // all n-tuples over a small alphabet
  int q = n == 3 ? 13 : n == 4 ? 11 : n == 6 ? 5 : 3;
  if (hx_tier) q = n == 3 ? 13 : n == 4 ? 13 : n == 6 ? 8 : 5;
  if ((size_t)q > s.size()) q = (int)s.size();
  std::vector<int> ix(n, 0);
  for (;;) {
    std::vector<W> x(n);
    for (int i = 0; i < n; i++) x[i] = s[ix[i]];
    t.push_back(x);
    int i = 0;
    while (i < n && ++ix[i] == q) ix[i++] = 0;
    if (i == n) break;
  }
  // every pair of positions, rich words in one and small ones in the other, over backgrounds
  W bg[] = {0, (W)~(W)0, (W)0x0123456789abcdefull};
  for (W g : bg) for (int i = 0; i < n; i++) for (W a : r) for (int j = 0; j < n; j++) if (j != i) for (size_t k = 0; k < (hx_tier ? r.size() : (n > 4 ? 4 : 13)); k++) {
    std::vector<W> x(n, g);
    x[i] = a; x[j] = hx_tier ? r[k] : s[k];
    t.push_back(x);
  }
  // counters counting up across carries
  for (int i = 0; i < n; i++) for (int d = -200; d < 200; d++) { std::vector<W> x(n, (W)7); x[i] = (W)d; t.push_back(x); x[i] = (W)((((W)1) << (C<W>::B / 2)) + d); t.push_back(x); x[i] = (W)((((W)1) << (C<W>::B - 1)) + d); t.push_back(x); }
  return t;
}
template <typename W, int NC, int NK, typename XC, typename XK> void gen(const char *name, XC (*f)(XC, XK), int rounds, bool phil) {
  std::string key = std::string(STR(NSIMD_SIMD)) + ":" + name;
  if (!hx_case(key)) return;
  const std::vector<std::vector<W> > &t = space<W>(NC + NK);
  size_t N = t.size();
  int L = nsimd::len(W());
  std::vector<std::vector<W> > in(NC + NK), ex(NC);
  for (int w = 0; w < NC + NK; w++) { in[w].resize(N + 3 * L); for (size_t i = 0; i < N + 3 * L; i++) in[w][i] = t[(i * 1) % N][w]; }
  for (int w = 0; w < NC; w++) ex[w].resize(N + 3 * L);
  for (size_t i = 0; i < N; i++) {
    W o[4];
    if (phil) philox<W>(NC, rounds, &t[i][0], &t[i][NC], o); else threefry<W>(NC, rounds, &t[i][0], &t[i][NC], o);
    for (int w = 0; w < NC; w++) ex[w][i] = o[w];
    hx_seen(hx_mix(o[0], o[1]));
  }
  for (int w = 0; w < NC; w++) for (size_t i = N; i < N + 3 * L; i++) ex[w][i] = ex[w][i - N];
  hx_states += N;
  for (int s = 0; s < L; s++) {
    for (size_t i = s; i < N + s; i += L) {
      const W *p[8];
      for (int w = 0; w < NC + NK; w++) p[w] = &in[w][i];
      XC c; XK k;
      put(c, p); put(k, p + NC);
      XC r = f(c, k);
      W o[4][64];
      get(r, o);
      for (int w = 0; w < NC; w++) if (memcmp(o[w], &ex[w][i], L * sizeof(W))) for (int j = 0; j < L; j++) if (o[w][j] != ex[w][i + j]) {
        const std::vector<W> &x = t[(i + j) % N];
        hx_bad(key, "counter/key words 0x%llx 0x%llx 0x%llx .. lane %d: word %d is 0x%llx, published definition gives 0x%llx", (unsigned long long)x[0], (unsigned long long)x[1], (unsigned long long)x[2], j, w, (unsigned long long)o[w][j], (unsigned long long)ex[w][i + j]);
      }
      hx_trans += L;
    }
    hx_traces++;
  }
  printf("SAMPLE %s on %zu counter/key tuples in each of %d lanes; tuple 0 -> 0x%llx 0x%llx\n", name, N, L, (unsigned long long)ex[0][0], (unsigned long long)ex[1][0]);
}
template <typename W> bool kat(bool phil, int n, int r, const char *hex) {
  W z[8] = {0}, o[4];
  if (phil) philox<W>(n, r, z, z, o); else threefry<W>(n, r, z, z, o);
  std::string h;
  for (int i = 0; i < n; i++) { char b[32]; sprintf(b, sizeof(W) == 8 ? "%016llx" : "%08llx", (unsigned long long)o[i]); h += b; }
  return h == hex;
}
int main(int argc, char **argv) {
  hx_init(argc, argv);
  // the model itself reproduces published known answers
  if (!kat<u32>(true, 4, 10, "6627e8d5e169c58dbc57ac4c9b00dbd8") || !kat<u32>(true, 2, 10, "ff1dae596cd10df2") || !kat<u64>(true, 2, 10, "ca00a0459843d73166c24222c9a845b5") ||
      !kat<u64>(true, 4, 10, "16554d9eca36314cdb20fe9d672d0fdcd7e772cee186176b7e68b68aec7ba23b") || !kat<u32>(false, 2, 20, "6b20015999ba4efe") || !kat<u32>(false, 4, 20, "9c6ca96ae17eae66fc10ecd45256a7d8") ||
      !kat<u64>(false, 2, 13, "f167b032c3b480bde91f9fee4b7a6fb5")) { fprintf(stderr, "reference model broken\n"); return 3; }
#define PH(n, w, r, k) gen<u##w, n, k>("philox_" #n "x" #w "_" #r, nsimd::random::philox_##n##x##w##_##r, r, true);
#define TF(n, w, r) gen<u##w, n, n>("threefry_" #n "x" #w "_" #r, nsimd::random::threefry_##n##x##w##_##r, r, false);
  PH(2, 32, 10, 1) PH(4, 32, 7, 2) PH(4, 32, 10, 2) PH(2, 64, 6, 1) PH(2, 64, 10, 1) PH(4, 64, 7, 2) PH(4, 64, 10, 2)
  TF(2, 32, 12) TF(2, 32, 20) TF(2, 32, 32) TF(4, 32, 12) TF(4, 32, 20) TF(4, 32, 72)
  TF(2, 64, 13) TF(2, 64, 20) TF(2, 64, 32) TF(4, 64, 12) TF(4, 64, 20) TF(4, 64, 72)
  return hx_done();
}
