// Driver: streams large operand spaces through every SIMD configuration at
// once (one shared object each) and compares with the reference model, which
// is evaluated once per operand tuple.
//   kvdeep --ops add,sub --types i16 [--shard i n] a.so b.so ...
#include "kv.h"
#include "ref.h"
#include "hx.h"
#include <algorithm>
#include <dlfcn.h>
static std::set<std::string> OPS, TYPES;
static void split(const char *c, std::set<std::string> &r) { std::string o = c; size_t p = 0; while (p < o.size()) { size_t q = o.find(',', p); if (q == std::string::npos) q = o.size(); r.insert(o.substr(p, q - p)); p = q + 1; } }
static std::string hx(W w) { char b[32]; sprintf(b, "0x%llx", (unsigned long long)w); return b; }
struct Ent { Kern k; std::string ext; };
static const int CH = 65536, PAD = 256;
static long sh_i = 0, sh_n = 1, chunkno = 0;
struct Chunk { std::vector<W> a, b, c; };
struct Job {
  uint32_t op; Ty t, u; bool simd, cvt, isdiv; int p, ar;
  std::vector<const Ent *> ks;
};
static std::string key(const Ent *e) { return e->ext + ":" + e->k.op + ":" + e->k.type + ":" + e->k.totype + ":" + e->k.api; }
static Exp expect(const Job &j, W a, W b, W c) {
  if (!j.cvt) return ref(j.op, j.t, a, b, c, j.p, j.simd);
  if (j.op == OPH("reinterpret")) return !j.simd || !fnan(F16, a) || (j.t != F16 && j.u != F16) ? ex(a) : j.u == F16 ? exf(j.u, a) : any();
  if (j.op == OPH("reinterpretl")) return ex((isflt(j.t) ? val(j.t, a) != 0 : a != 0) ? one(j.u) : 0);
  return refcvt(j.t, j.u, a);
}
template <typename T> static void fill(void *p, const W *v, long n) { T *q = (T *)p; for (long i = 0; i < n; i++) q[i] = (T)v[i]; }
static void put(void *p, Ty t, const W *v, long n) {
  switch (TSZ[t]) { case 1: fill<uint8_t>(p, v, n); break; case 2: fill<uint16_t>(p, v, n); break; case 4: fill<uint32_t>(p, v, n); break; default: fill<uint64_t>(p, v, n); }
}
// run one chunk (lists of n tuples) through all kernels of the job
static void chunk(const Job &j, const W *a, const W *b, const W *c, long n) {
  if (chunkno++ % sh_n != sh_i) return;
  static std::vector<unsigned char> A((CH + PAD) * 8), B((CH + PAD) * 8), C((CH + PAD) * 8), R((CH + PAD) * 8), X((CH + PAD) * 8);
  static std::vector<Exp> E(CH + PAD);
  put(&A[0], j.t, a, n);
  if (b) put(&B[0], j.t, b, n);
  if (c) put(&C[0], j.t, c, n);
  for (long i = n; i < n + PAD; i++) { stw(&A[i * TSZ[j.t]], j.t, a[i % n]); stw(&B[i * TSZ[j.t]], j.t, b ? b[i % n] : 0); stw(&C[i * TSZ[j.t]], j.t, c ? c[i % n] : 0); }
  static std::vector<int> odd;
  odd.clear();
  int sr = TSZ[j.u];
  for (long i = 0; i < n; i++) {
    E[i] = expect(j, a[i], b ? b[i] : 0, c ? c[i] : 0);
    if (E[i].mode) odd.push_back((int)i);
    stw(&X[i * sr], j.u, E[i].v);
  }
  for (long i = 0; i < n; i += 257) if (E[i].mode != 1) hx_seen(E[i].mode == 5 ? d2w(E[i].tgt) : E[i].v);
  hx_states += n;
  for (const Ent *e : j.ks) {
    int L = e->k.lanes;
    long cnt = (n + L - 1) / L * L;
    memset(&R[0], 0xEE, n * sr);
    snprintf(hx_cur, sizeof hx_cur, "%s", key(e).c_str());
    e->k.fn(&A[0], &B[0], &C[0], &R[0], cnt, j.p);
    hx_trans += n; hx_traces++;
    // unconstrained or loosely constrained lanes are judged one by one
    for (int i : odd) {
      W g = ldw(&R[i * sr], j.u);
      if (!okexp(E[i], j.u, g)) hx_bad(key(e), "a=%s b=%s c=%s p=%d lane=%d got=%s want=%s/%s (mode %d, %a rel %g)", hx(a[i]).c_str(), b ? hx(b[i]).c_str() : "-", c ? hx(c[i]).c_str() : "-", j.p, (int)(i % L), hx(g).c_str(), hx(E[i].v).c_str(), hx(E[i].alt).c_str(), E[i].mode, E[i].tgt, E[i].rel);
      stw(&R[i * sr], j.u, E[i].v);
    }
    if (!memcmp(&R[0], &X[0], n * sr)) continue;
    for (long i = 0; i < n; i++) {
      W g = ldw(&R[i * sr], j.u);
      if (g != E[i].v) hx_bad(key(e), "a=%s b=%s c=%s p=%d lane=%d got=%s want=%s", hx(a[i]).c_str(), b ? hx(b[i]).c_str() : "-", c ? hx(c[i]).c_str() : "-", j.p, (int)(i % L), hx(g).c_str(), hx(E[i].v).c_str());
    }
  }
}
static bool undef(const Job &j, W a, W b) { return j.isdiv && !isflt(j.t) && (b == 0 || (issgn(j.t) && b == mask(j.t) && a == (W)1 << (bits(j.t) - 1))); }
struct Stream { // collects tuples into chunks
  const Job &j; std::vector<W> a, b, c;
  Stream(const Job &j_) : j(j_) {}
  void add(W x, W y = 0, W z = 0) { if (undef(j, x, y)) y = 1; a.push_back(x); b.push_back(y); c.push_back(z); if (a.size() == CH) flush(); }
  void flush() { if (a.empty()) return; chunk(j, &a[0], j.ar > 1 ? &b[0] : 0, j.ar > 2 ? &c[0] : 0, (long)a.size()); a.clear(); b.clear(); c.clear(); }
  bool skip() { // a whole chunk that belongs to another shard
    if (a.empty() && chunkno % sh_n != sh_i) { chunkno++; return true; }
    return false;
  }
};
static void explore(const Job &j) {
  Stream s(j);
  int n = bits(j.t);
  if (j.ar == 1) {
    if (n <= 16) for (W x = 0; x <= mask(j.t); x++) s.add(x);
    else if (n == 32 && hx_tier) for (W h = 0; h < 65536; h++) { if (s.skip()) continue; for (W l = 0; l < 65536; l++) s.add(h << 16 | l); }
    else {
      // every value of the leading bits with zero, one, low, high and mixed tails
      int top = n == 32 ? 20 : hx_tier ? 24 : 18, lo = n - top;
      W lm = ((W)1 << lo) - 1, tails[] = {0, 1, lm, lm ^ 1, lm & 0x5555555555555555ull, lm & 0xAAAAAAAAAAAAAAAAull, (W)1 << (lo - 1), ((W)1 << (lo - 1)) - 1};
      for (W h = 0; h < (W)1 << top; h++) for (W x : tails) s.add(h << lo | x);
      // and every value of the trailing bits below small leading parts
      for (W l = 0; l < (W)1 << 18; l++) { s.add(l); s.add((0 - l) & mask(j.t)); if (n == 64) { s.add((l << 32) - 1); s.add((l << 32) + (l >> 2)); } }
    }
  } else if (j.ar == 2) {
    if (n == 8) { for (W x = 0; x < 256; x++) for (W y = 0; y < 256; y++) s.add(x, y); }
    else if (n == 16 && hx_tier) for (W h = 0; h < 65536; h++) { if (s.skip()) continue; for (W l = 0; l < 65536; l++) s.add(h, (l + h) & 0xffff); }
    else if (n == 16) {
      std::vector<W> v = alpha(j.t, 1);
      for (W x : v) { if (!s.skip()) for (W l = 0; l < 65536; l++) s.add(x, l); if (!s.skip()) for (W l = 0; l < 65536; l++) s.add(l, x); }
    } else {
      std::vector<W> v = alpha(j.t, 2);
      if (hx_tier) {
        std::vector<W> w = v; // neighbours, halves and complements of everything
        for (W x : w) { v.push_back((x + 1) & mask(j.t)); v.push_back((x - 1) & mask(j.t)); v.push_back(x ^ mask(j.t)); v.push_back(x ^ ((W)1 << (n - 1))); }
        dedup(v);
      }
      // and around each other: operands that nearly coincide
      for (W x : v) for (W y : v) s.add(x, y);
      for (W x : v) for (int d = -3; d <= 3; d++) { s.add(x, (x + d) & mask(j.t)); s.add(x, (0 - x + d) & mask(j.t)); s.add(x, (~x ^ (W)(d + 3)) & mask(j.t)); }
    }
  } else {
    if (n == 8) { for (W x = 0; x < 256; x++) { if (s.skip()) continue; for (W y = 0; y < 256; y++) for (W z = 0; z < 256; z++) { s.add(x, y, z); } } }
    else {
      std::vector<W> v0 = alpha(j.t, 0), v1 = alpha(j.t, 1), &w = hx_tier ? v1 : v0;
      for (W x : w) for (W y : v1) for (W z : w) s.add(x, y, z);
      if (!hx_tier) for (W x : v0) for (W y : v0) for (W z : v1) s.add(x, y, z);
      // products that nearly cancel the addend
      for (W x : v1) for (W y : v0) {
        Exp e = ref(OPH("mul"), j.t, x, y, 0, 0, false);
        for (int d = -2; d <= 2; d++) for (int g = 0; g < 2; g++) { W z = (e.v + d) & mask(j.t); if (g) z = isflt(j.t) ? z ^ ((W)1 << (n - 1)) : (0 - z) & mask(j.t); s.add(x, y, z); }
      }
    }
  }
  s.flush();
}
int main(int argc, char **argv) {
  hx_init(argc, argv);
  std::vector<Ent> ents;
  for (int i = 1; i < argc; i++) {
    std::string s = argv[i];
    if (s == "--ops") split(argv[++i], OPS);
    else if (s == "--types") split(argv[++i], TYPES);
    else if (s == "--shard") { sh_i = atol(argv[++i]); sh_n = atol(argv[++i]); }
    else if (s == "--only") ++i;
    else if (s.size() > 3 && s.substr(s.size() - 3) == ".so") {
      void *h = dlopen(s.c_str(), RTLD_NOW | RTLD_LOCAL);
      if (!h) { fprintf(stderr, "%s\n", dlerror()); return 3; }
      void (*reg)(KernTab *, const char **) = (void (*)(KernTab *, const char **))dlsym(h, "kv_export");
      if (!reg) { fprintf(stderr, "%s\n", dlerror()); return 3; }
      KernTab t; const char *cfg;
      reg(&t, &cfg);
      for (size_t q = 0; q < t.size(); q++) { Ent e; e.k = t[q]; e.ext = cfg; ents.push_back(e); }
    }
  }
  // group the kernels that have the same expectation
  std::map<std::string, Job> jobs;
  for (size_t i = 0; i < ents.size(); i++) {
    const Kern &k = ents[i].k;
    if (!OPS.count(k.op) || !TYPES.count(k.type)) continue;
    if (!hx_only.empty() && key(&ents[i]) != hx_only) continue;
    Ty t = tyof(k.type);
    bool simd = strcmp(k.api, "scalar") != 0;
    if (k.kind == K_SHIFT && bits(t) <= 16) continue; // already complete in kv
    bool cv = k.kind == K_CVT || k.kind == K_UPCVT || k.kind == K_DOWNCVT;
    int ar = cv || k.kind == K_UN || k.kind == K_LOG1 || k.kind == K_SHIFT ? 1 : k.kind == K_TER || k.kind == K_SEL ? 3 : 2;
    if (ar == 1 && bits(t) <= 16) continue;
    if (!simd && ents[i].ext != ents[0].ext && !hx_tier) continue; // scalar forms: one configuration
    std::string g = std::string(k.op) + ":" + k.type + ":" + k.totype + (simd ? "" : ":s");
    if (t != F16 && tyof(k.totype) != F16) g = std::string(k.op) + ":" + k.type + ":" + k.totype;
    Job &j = jobs[g];
    j.op = OPH(k.op); j.t = t; j.u = tyof(k.totype); j.simd = simd; j.cvt = cv; j.ar = ar; j.p = k.kind == K_SHIFT ? -1 : 0; j.isdiv = !strcmp(k.op, "div");
    j.ks.push_back(&ents[i]);
  }
  for (auto &g : jobs) {
    Job j = g.second;
    printf("SAMPLE %s through %zu kernels\n", g.first.c_str(), j.ks.size());
    if (j.p < 0) for (int p = 0; p < bits(j.t); p++) { j.p = p; explore(j); }
    else explore(j);
  }
  return hx_done();
}
