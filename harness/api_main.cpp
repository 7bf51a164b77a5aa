// Every programming interface against the C++ base API, operation by
// operation: all tuples of the alphabets, in every lane of every register.
#include "kv.h"
#include "ref.h"
#include "hx.h"
#include <algorithm>
struct cent { const char *op, *type, *totype, *api; int kind, lanes; void (*fn)(const void *, const void *, const void *, void *, long, int); };
#define D(i) void api_reg_##i(KernTab &); extern "C" const cent *capi_tab_##i(int *n);
D(0) D(1) D(2)
const char *kv_ext();
struct Tup { std::vector<W> a, b, c; };
static Tup tuples(Ty t, int ar, bool isdiv) {
  Tup r;
  if (ar == 1) { r.a = alpha(t, hx_tier ? 2 : 1); return r; }
  std::vector<W> v = alpha(t, hx_tier && ar == 2 && bits(t) != 8 ? 1 : 0);
  if (ar == 2) {
    for (W x : v) for (W y : v) {
      if (isdiv && !isflt(t) && (y == 0 || (issgn(t) && y == mask(t) && x == (W)1 << (bits(t) - 1)))) continue;
      r.a.push_back(x); r.b.push_back(y);
    }
    return r;
  }
  size_t st = hx_tier ? 1 : v.size() / 10 + 1;
  for (size_t i = 0; i < v.size(); i += st) for (size_t j = i % 2; j < v.size(); j += st) for (size_t k = j % 3; k < v.size(); k += st) { r.a.push_back(v[i]); r.b.push_back(v[j]); r.c.push_back(v[k]); }
  return r;
}
typedef unsigned char B8;
static B8 *aligned(std::vector<B8> &v, size_t n) { v.assign(n + 128, 0xEE); return (B8 *)(((uintptr_t)&v[0] + 63) / 64 * 64); }
static std::string key(const Kern &k) { return std::string(kv_ext()) + ":" + k.op + ":" + k.type + ":" + k.totype + ":" + k.api; }
static bool same(Ty t, W x, W y) { return x == y || (isflt(t) && fnan(t, x) && fnan(t, y)); }
// k and the base kernel q on n elements (multiple of both lane counts)
static void compare(const Kern &k, const Kern &q, Ty ta, Ty tr, const std::vector<W> &a, const std::vector<W> &b, const std::vector<W> &c, int p, bool scalar) {
  int l = std::max(k.lanes, q.lanes), sa = TSZ[ta], sr = TSZ[tr];
  size_t n = a.size(), N = (n + 2 * l) / l * l;
  std::vector<B8> A_, B_, C_, R_, X_;
  B8 *A = aligned(A_, (N + l) * 8), *B = aligned(B_, (N + l) * 8), *C = aligned(C_, (N + l) * 8), *R = aligned(R_, N * 8), *X = aligned(X_, N * 8);
  int rot = l <= 64 || hx_tier ? l : 64;
  for (int s0 = 0; s0 < rot; s0++) {
    int s = rot == l ? s0 : s0 * l / rot;
    for (size_t i = 0; i < N; i++) {
      size_t j = (i + n - (size_t)s % n) % n;
      stw(A + i * sa, ta, a[j]);
      if (!b.empty()) stw(B + i * sa, ta, scalar ? b[0] : b[j]);
      if (!c.empty()) stw(C + i * sa, ta, c[j]);
    }
    memset(R, 0xEE, N * sr); memset(X, 0xEE, N * sr);
    q.fn(A, B, C, X, (long)N, p);
    k.fn(A, B, C, R, (long)N, p);
    hx_states += n; hx_trans += 2 * N; hx_traces++;
    if (!memcmp(R, X, N * sr)) continue;
    for (size_t i = 0; i < N; i++) {
      W g = ldw(R + i * sr, tr), w = ldw(X + i * sr, tr);
      if (!same(tr, g, w)) { hx_bad(key(k), "element %zu (lane %zu of %d) of a=0x%llx b=0x%llx c=0x%llx p=%d: 0x%llx, base interface 0x%llx", i, i % k.lanes, k.lanes, (unsigned long long)ldw(A + i * sa, ta), (unsigned long long)ldw(B + i * sa, ta), (unsigned long long)ldw(C + i * sa, ta), p, (unsigned long long)g, (unsigned long long)w); break; }
    }
  }
}
static void seenres(const Kern &q, Ty ta, Ty tr, const std::vector<W> &a) { (void)q; (void)ta; (void)tr; for (W x : a) hx_seen(x); }
// memory and horizontal operations
static void memory(const Kern &k, const Kern &q, Ty t, int L, bool packs) {
  const size_t BYTES = 8 * 2048;
  int S = packs ? k.lanes * L : L, sz = TSZ[t];
  std::vector<B8> A_, B_, C_, R_, X_;
  B8 *A = aligned(A_, BYTES), *B = aligned(B_, BYTES), *C = aligned(C_, BYTES), *R = aligned(R_, BYTES), *X = aligned(X_, BYTES);
  for (int i = 0; i < 2048; i++) { W v = isflt(t) ? rnd(t, (i * 7 % 509) * 0.5 + 1) : ((W)i * 0x9e3779b97f4a7c15ull >> 11) & mask(t); stw(A + i * sz, t, v); stw(C + i * sz, t, isflt(t) ? rnd(t, -(i % 300) - 1.0) : ~v & mask(t)); }
  std::vector<std::vector<int> > masks;
  int full = hx_tier ? 14 : 8;
  if (S <= full) for (int m = 0; m < 1 << S; m++) { std::vector<int> v(S); for (int i = 0; i < S; i++) v[i] = m >> i & 1; masks.push_back(v); }
  else for (int f = 0; f < 8; f++) for (int i = 0; i <= (f < 4 ? S - 1 : 3); i++) {
    std::vector<int> v(S);
    for (int j = 0; j < S; j++) v[j] = f == 0 ? j == i : f == 1 ? j != i : f == 2 ? j < i : f == 3 ? j >= i : f == 4 ? (j >> i & 1) : f == 5 ? !(j >> i & 1) : f == 6 ? (i & 1) : (int)(((((unsigned)(j * 4 + i) * 2654435761u) >> 13)) & 1);
    masks.push_back(v);
  }
  for (int p = 0; p < 34; p++) {
    if (p > 26 && p < 30) continue;
    if (!packs && p > 24) continue;
    if (packs && p >= 16 && p <= 21) continue;
    bool um = p == 9 || p == 10 || p == 11 || p == 22 || p == 24 || p == 26 || p == 33, uz = p >= 16 && p <= 21;
    long lo = 0, hi = 0;
    if (p >= 1 && p <= 6 && packs) hi = 1;
    if (p == 8) hi = 2;
    if (p == 32 || p == 33) hi = 8;
    if (p == 12) { lo = -3; hi = S + 3; }
    if (p == 14 || p == 15) { lo = 1; hi = 4; }
    if (p == 30 || p == 31) { hi = 3; if (TSZ[t] == 1) continue; }
    for (size_t mi = 0; mi < (um ? masks.size() : 1); mi++) for (long n = lo; n <= hi; n++) {
      for (int i = 0; i < 2048; i++) stw(B + i * sz, t, uz ? ldw(C + i * sz, t) : i < S && masks[mi][i] ? one(t) : 0);
      memset(R, 0xEE, BYTES); memset(X, 0xEE, BYTES);
      q.fn(A, B, C, X, n, p);
      k.fn(A, B, C, R, n, p);
      hx_states++; hx_trans += 2; hx_traces++;
      for (size_t i = 0; i < BYTES; i += sz) if (memcmp(R + i, X + i, sz)) { hx_bad(key(k), "case %d scalar %ld mask %zu: element %zu is 0x%llx, expected 0x%llx", p, n, mi, i / sz, (unsigned long long)ldw(R + i, t), (unsigned long long)ldw(X + i, t)); break; }
    }
  }
}
int main(int argc, char **argv) {
  hx_init(argc, argv);
  int part = 0, parts = 1;
  for (int i = 1; i < argc; i++) if (!strcmp(argv[i], "--part")) { part = atoi(argv[++i]); parts = atoi(argv[++i]); }
  KernTab tab;
#define R(i) if ((i) % parts == part) { api_reg_##i(tab); int n; const cent *e = capi_tab_##i(&n); for (int j = 0; j < n; j++) { Kern k; k.op = e[j].op; k.type = e[j].type; k.totype = e[j].totype; k.api = e[j].api; k.kind = (Kind)e[j].kind; k.lanes = 0; k.fn = e[j].fn; tab.push_back(k); } }
  R(0) R(1) R(2)
  std::map<std::string, size_t> base, len;
  for (size_t i = 0; i < tab.size(); i++) if (!strcmp(tab[i].api, "base")) { base[std::string(tab[i].op) + ":" + tab[i].type + ":" + tab[i].totype] = i; if (!strcmp(tab[i].op, "add")) len[tab[i].type] = (size_t)tab[i].lanes; }
  size_t nb = 0, smp = 0;
  for (size_t i = 0; i < tab.size(); i++) {
    Kern k = tab[i];
    if (!strcmp(k.api, "base")) continue;
    auto it = base.find(std::string(k.op) + ":" + k.type + ":" + k.totype);
    if (it == base.end()) { hx_bad(key(k), "no base operation"); continue; }
    const Kern &q = tab[it->second];
    if (!k.lanes) k.lanes = q.lanes;
    if (!hx_case(key(k))) continue;
    nb++;
    Ty t = tyof(k.type), u = tyof(k.totype);
    std::string op = k.op;
    if (op == "mem") { memory(k, q, t, (int)len[k.type], false); continue; }
    if (op.substr(0, 3) == "mem") { memory(k, q, t, (int)len[k.type], true); continue; }
    std::vector<W> none;
    if (op.substr(0, 4) == "addv") {
      std::vector<W> a;
      for (int j = 0; j < 256; j++) a.push_back(rnd(t, j % 5 == 4 ? -(j % 7) : j % 3 == 0 ? j % 8 : 0));
      Kern k2 = k, q2 = q;
      size_t tot = 3 * len[k.type] + 256; // windows read beyond n
      std::vector<B8> A_, R_, X_;
      B8 *A = aligned(A_, tot * 8), *R = aligned(R_, 256 * 8), *X = aligned(X_, 256 * 8);
      for (size_t j = 0; j < tot; j++) stw(A + j * TSZ[t], t, a[j % 256]);
      q2.fn(A, 0, 0, X, 256, 0); k2.fn(A, 0, 0, R, 256, 0);
      hx_states += 256; hx_trans += 512; hx_traces++;
      for (int j = 0; j < 256; j++) if (ldw(R + j * TSZ[t], t) != ldw(X + j * TSZ[t], t)) { hx_bad(key(k), "sum from element %d: 0x%llx, expected 0x%llx", j, (unsigned long long)ldw(R + j * TSZ[t], t), (unsigned long long)ldw(X + j * TSZ[t], t)); break; }
      continue;
    }
    int ar = k.kind == K_BIN || k.kind == K_CMP || k.kind == K_LOG2 ? 2 : k.kind == K_TER || k.kind == K_SEL ? 3 : 1;
    Tup tp = tuples(t, ar, op == "div" || op == "thread_div");
    bool scalar = (k.api[0] == 'v' || k.api[0] == 's') && (k.api[1] == 's' || k.api[1] == 'v');
    if (smp++ % 97 == 0) printf("SAMPLE %s: %zu tuples in each of %d lanes\n", key(k).c_str(), tp.a.size(), k.lanes);
    seenres(q, t, u, tp.a);
    if (k.kind == K_SHIFT) { for (int p = 0; p < bits(t); p++) compare(k, q, t, t, tp.a, none, none, p, false); continue; }
    if (!scalar) { compare(k, q, t, u, tp.a, tp.b, tp.c, 0, false); continue; }
    // mixed vector/scalar: one scalar at a time
    std::vector<W> v = alpha(t, 0);
    Kern sq = q;
    for (W s : v) {
      std::vector<W> a, b(1, s);
      for (W x : v) {
        W num = k.api[0] == 's' ? s : x, den = k.api[0] == 's' ? x : s;
        if (op == "div" && !isflt(t) && (den == 0 || (issgn(t) && den == mask(t) && num == (W)1 << (bits(t) - 1)))) continue;
        a.push_back(x);
      }
      if (a.empty()) continue;
      if (k.api[0] == 'v') compare(k, sq, t, u, a, b, none, 0, true);
      else { // scalar first: exchange the operands of the base operation
        static const Kern *cur; cur = &q;
        struct X { static void f(const void *a, const void *b, const void *c, void *r, long n, int p) { cur->fn(b, a, c, r, n, p); } };
        Kern x = q; x.fn = X::f;
        compare(k, x, t, u, a, b, none, 0, true);
      }
    }
  }
  (void)nb;
  return hx_done();
}
