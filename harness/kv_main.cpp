// Driver: exhaustively enumerates (operation x type x operand tuple x lane)
// for one SIMD extension and compares the library with the reference model.
//   kv --ops add,sub,... [--deep] [--only op:type:totype:api]
// Output: "COUNT ..." totals, "BAD ..." one line per distinct violation.
#include "kv.h"
#include "ref.h"
#include "hx.h"
#include <algorithm>
static std::set<std::string> OPS;
static std::set<std::string> APIS, TYPES;
static bool deep = false;
struct Tuples { std::vector<W> a, b, c; };
static std::string key(const Kern &k) { return std::string(kv_ext()) + ":" + k.op + ":" + k.type + ":" + k.totype + ":" + k.api; }
static bool sel(const Kern &k) {
  if (!OPS.empty() && !OPS.count(k.op)) return false;
  if (!APIS.empty() && !APIS.count(k.api)) return false;
  if (!TYPES.empty() && !TYPES.count(k.type)) return false;
  return hx_case(key(k));
}
static std::string hx(W w) { char b[32]; sprintf(b, "0x%llx", (unsigned long long)w); return b; }
static void bad(const Kern &k, W a, W b, W c, int p, int lane, W got, const Exp &e) {
  char ebuf[128];
  if (e.mode == 5) sprintf(ebuf, "%a(rel %g)", e.tgt, e.rel); else sprintf(ebuf, "%s/%s(mode %d)", hx(e.v).c_str(), hx(e.alt).c_str(), e.mode);
  hx_bad(key(k), "a=%s b=%s c=%s p=%d lane=%d got=%s want=%s", hx(a).c_str(), hx(b).c_str(), hx(c).c_str(), p, lane, hx(got).c_str(), ebuf);
}
// Run kernel k on all tuples in every lane; expectation per tuple in E.
static void run(const Kern &k, Ty ta, Ty tr, const Tuples &tp, const std::vector<Exp> &E, int p, bool alllanes, Ty tc) {
  size_t n = tp.a.size();
  int L = k.lanes, sa = TSZ[ta], sr = TSZ[tr];
  (void)tc;
  size_t N = n + 3 * L + 128;
  std::vector<unsigned char> A(N * 8), B(N * 8), C(N * 8), R(N * 8), X(N * 8);
  for (size_t i = 0; i < N; i++) {
    size_t j = i < (size_t)L ? (n - 1 - (i % n)) : (i - L) % n;
    stw(&A[i * sa], ta, tp.a[j]);
    if (!tp.b.empty()) stw(&B[i * sa], ta, tp.b[j]);
    if (!tp.c.empty()) stw(&C[i * sa], ta, tp.c[j]);
  }
  bool exact = true;
  for (size_t i = 0; i < n; i++) { if (E[i].mode) exact = false; stw(&X[(i + L) * sr], tr, E[i].v); }
  int ns = alllanes ? L : 1;
  for (int s = 0; s < ns; s++) {
    // element j of the tuple list sits at index L + j -> lane (L + j - s) % L
    long cnt = (long)((n + L + L - 1) / L * L);
    memset(&R[0], 0xEE, R.size());
    k.fn(&A[s * sa], &B[s * sa], &C[s * sa], &R[s * sr], cnt, p);
    hx_trans += n; hx_traces++;
    if (exact && !memcmp(&R[L * sr], &X[L * sr], n * sr)) continue;
    for (size_t i = 0; i < n; i++) {
      W g = ldw(&R[(i + L) * sr], tr);
      if (E[i].mode == 0 ? g == E[i].v : okexp(E[i], tr, g)) continue;
      bad(k, tp.a[i], tp.b.empty() ? 0 : tp.b[i], tp.c.empty() ? 0 : tp.c[i], p, (int)((L + i - s) % L), g, E[i]);
    }
  }
  hx_states += n;
  for (size_t i = 0; i < n; i++) if (E[i].mode != 1) hx_seen(E[i].mode == 5 ? d2w(E[i].tgt) : E[i].v);
}
static std::vector<W> unary_inputs(Ty t) {
  std::vector<W> v;
  if (bits(t) <= 16) { for (W i = 0; i <= mask(t); i++) v.push_back(i); return v; }
  v = alpha(t, 2);
  if (isflt(t)) {
    int mb = t == F32 ? 23 : 52, top = t == F32 ? 7 : 4;
    for (W h = 0; h < ((W)1 << (bits(t) - mb + top)); h++) {
      W x = h << (mb - top), lo = ((W)1 << (mb - top)) - 1;
      v.push_back(x); v.push_back(x | 1); v.push_back(x | lo); if (t == F32) v.push_back(x | (lo / 3));
    }
  } else {
    for (int i = 0; i < 65536; i++) { v.push_back(i); v.push_back((W)i << (bits(t) - 16)); v.push_back(((W)i * 0x0001000100010001ull) & mask(t)); }
  }
  dedup(v);
  return v;
}
static const Tuples &tuples(Ty t, int arity, bool isdiv) {
  static std::map<int, Tuples> cache;
  int key = t * 8 + arity * 2 + isdiv;
  auto it = cache.find(key);
  if (it != cache.end()) return it->second;
  Tuples &r = cache[key];
  if (arity == 1) r.a = unary_inputs(t);
  else if (arity == 2) {
    std::vector<W> v = alpha(t, deep ? 2 : 1);
    for (W x : v) for (W y : v) {
      if (isdiv && !isflt(t) && (y == 0 || (issgn(t) && y == mask(t) && x == (W)1 << (bits(t) - 1)))) continue;
      r.a.push_back(x); r.b.push_back(y);
    }
  } else {
    std::vector<W> v = alpha(t, 0);
    for (W x : v) for (W y : v) for (W z : v) { r.a.push_back(x); r.b.push_back(y); r.c.push_back(z); }
  }
  return r;
}
// Deep: all 2^32 operand pairs of a 16-bit type, or all 2^32 operands of f32.
static void deep_run(const Kern &k, Ty t) {
  int L = k.lanes;
  uint32_t op = OPH(k.op);
  const int CH = 65536;
  std::vector<unsigned char> A(CH * 8 + 512), B(CH * 8 + 512), C(CH * 8 + 512), R(CH * 8 + 512);
  (void)L;
  for (uint32_t hi = 0; hi < 65536; hi++) {
    for (int lo = 0; lo < CH; lo++) {
      W a, b = 0;
      if (k.kind == K_UN) a = ((W)hi << 16) | (W)lo; else { a = hi; b = (W)((lo + hi) & 0xffff); }
      if (op == OPH("div") && !isflt(t) && (b == 0 || (issgn(t) && b == mask(t) && a == (W)1 << (bits(t) - 1)))) b = 1;
      stw(&A[lo * TSZ[t]], t, a); stw(&B[lo * TSZ[t]], t, b);
    }
    k.fn(&A[0], &B[0], &C[0], &R[0], CH, 0);
    for (int lo = 0; lo < CH; lo++) {
      W a = ldw(&A[lo * TSZ[t]], t), b = ldw(&B[lo * TSZ[t]], t);
      Exp e = ref(op, t, a, b, 0, 0, strcmp(k.api, "scalar") != 0);
      W g = ldw(&R[lo * TSZ[t]], t);
      if (!okexp(e, t, g)) bad(k, a, b, 0, 0, lo % k.lanes, g, e);
    }
    hx_states += CH; hx_trans += CH; hx_traces++;
  }
}
static void split(const char *c, std::set<std::string> &r) { std::string o = c; size_t p = 0; while (p < o.size()) { size_t q = o.find(',', p); if (q == std::string::npos) q = o.size(); r.insert(o.substr(p, q - p)); p = q + 1; } }
int main(int argc, char **argv) {
  bool deep16 = false;
  hx_init(argc, argv);
  for (int i = 1; i < argc; i++) {
    std::string s = argv[i];
    if (s == "--ops") split(argv[++i], OPS);
    else if (s == "--api") split(argv[++i], APIS);
    else if (s == "--types") split(argv[++i], TYPES);
    else if (s == "--deep") deep = true;
    else if (s == "--deep16") deep16 = true;
  }
  deep = deep || hx_tier;
  KernTab tab;
  kv_register_all(tab);
  std::map<std::string, std::vector<Exp> > memo;
  for (size_t ki = 0; ki < tab.size(); ki++) {
    const Kern &k = tab[ki];
    if (!sel(k)) continue;
    Ty t = tyof(k.type), u = tyof(k.totype);
    uint32_t op = OPH(k.op);
    bool simd = strcmp(k.api, "scalar") != 0;
    if (deep16) {
      if ((k.kind == K_BIN || k.kind == K_CMP) && bits(t) == 16) deep_run(k, t);
      if (k.kind == K_UN && t == F32) deep_run(k, t);
      continue;
    }
    if (k.kind == K_CVT || k.kind == K_UPCVT || k.kind == K_DOWNCVT) {
      Tuples tp; tp.a = unary_inputs(t);
      std::vector<Exp> E(tp.a.size());
      for (size_t i = 0; i < E.size(); i++) {
        W a = tp.a[i];
        if (op == OPH("reinterpret")) E[i] = !simd || !fnan(F16, a) || (t != F16 && u != F16) ? ex(a) : u == F16 ? exf(u, a) : any();
        else if (op == OPH("reinterpretl")) E[i] = ex((isflt(t) ? val(t, a) != 0 : a != 0) ? one(u) : 0);
        else E[i] = refcvt(t, u, a);
      }
      run(k, t, u, tp, E, 0, true, t);
      static int smp = 0;
      if (smp++ % 16 == 0) { size_t i = tp.a.size() / 3; printf("SAMPLE %s %s->%s of %s -> %s\n", k.op, k.type, k.totype, hx(tp.a[i]).c_str(), hx(E[i].v).c_str()); }
      continue;
    }
    if (k.kind == K_SHIFT) {
      Tuples tp; tp.a = bits(t) <= 16 ? unary_inputs(t) : alpha(t, 2);
      for (int p = 0; p < bits(t); p++) {
        std::vector<Exp> E(tp.a.size());
        for (size_t i = 0; i < E.size(); i++) E[i] = ref(op, t, tp.a[i], 0, 0, p, simd);
        run(k, t, t, tp, E, p, bits(t) != 16 || deep, t);
      }
      continue;
    }
    int ar = k.kind == K_UN || k.kind == K_LOG1 ? 1 : k.kind == K_TER || k.kind == K_SEL ? 3 : 2;
    const Tuples &tp = tuples(t, ar, op == OPH("div"));
    std::string mk = std::string(k.op) + ":" + k.type + (t == F16 ? k.api : "");
    std::vector<Exp> &E = memo[mk];
    if (E.empty()) {
      E.resize(tp.a.size());
      for (size_t i = 0; i < E.size(); i++) E[i] = ref(op, t, tp.a[i], tp.b.empty() ? 0 : tp.b[i], tp.c.empty() ? 0 : tp.c[i], 0, simd);
    }
    run(k, t, t, tp, E, 0, tp.a.size() < 300000 || deep, t);
    static int smp = 0;
    if (smp++ % 16 == 0) { size_t i = tp.a.size() / 3; printf("SAMPLE %s(%s,%s,%s) on %s -> %s in each of %d lanes\n", k.op, hx(tp.a[i]).c_str(), tp.b.empty() ? "-" : hx(tp.b[i]).c_str(), tp.c.empty() ? "-" : hx(tp.c[i]).c_str(), k.type, hx(E[i].v).c_str(), k.lanes); }
    if (!strcmp(k.api, "scalar")) std::vector<Exp>().swap(E);
  }
  return hx_done();
}
