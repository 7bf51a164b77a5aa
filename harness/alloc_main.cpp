// Allocation histories with fault injection. The C allocation functions are
// replaced by an adversarial arena: every block has exactly the alignment that
// was asked for and no more, is followed by canaries directly after the
// requested size, fresh memory is dirty, memory is never reused in a history,
// releases are checked, and the k-th allocation can be made to fail.
#include "alloc_api.h"
#include "hx.h"
#include <errno.h>
#include <sys/mman.h>
#include <sys/wait.h>
extern "C" { int trk = 0; }
struct Blk { unsigned char *p; size_t n; bool live; };
static Blk blk[4096];
static int nblk, nalloc, failat = -1, failfrom = -1, livecnt, arenabad;
static const char *arenamsg = "";
static unsigned char *boot, *bootp, *ar, *cur;
static const size_t BOOT = 512u << 20, AR = 64u << 20;
static void need() { if (!boot) { boot = bootp = (unsigned char *)mmap(0, BOOT, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); ar = cur = (unsigned char *)mmap(0, AR, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS | MAP_NORESERVE, -1, 0); } }
static void abad(const char *m) { arenabad++; arenamsg = m; }
// size-class free lists for the driver's own memory
static unsigned char *fl[48];
static void *bootalloc(size_t n, size_t al) {
  need();
  int c = 5;
  while (((size_t)1 << c) < n + 16) c++;
  if (al <= 16 && fl[c]) { unsigned char *p = fl[c]; memcpy(&fl[c], p, sizeof(void *)); return p; }
  if (al < 16) al = 16;
  uintptr_t u = ((uintptr_t)bootp + 16 + al - 1) / al * al;
  bootp = (unsigned char *)u + ((size_t)1 << c);
  if (bootp > boot + BOOT) { if (write(2, "boot arena full\n", 16) < 0) {} _exit(3); }
  int *h = (int *)(u - 16);
  *h = al <= 16 ? c : -1;
  return (void *)u;
}
static void *take(size_t n, size_t al, bool zero) {
  if (!trk) { void *p = bootalloc(n, al); if (zero) memset(p, 0, n); return p; }
  int k = nalloc++;
  if (k == failat || (failfrom >= 0 && k >= failfrom)) { errno = ENOMEM; return 0; }
  if (n > (1u << 20) || nblk >= 4000) { errno = ENOMEM; return 0; }
  uintptr_t u = ((uintptr_t)cur + 64 + al - 1) / al * al;
  if (u % (2 * al) == 0) u += al;
  unsigned char *p = (unsigned char *)u;
  if (p + n + 64 > ar + AR) { errno = ENOMEM; return 0; }
  memset(p - 32, 0xC3, 32);
  memset(p, zero ? 0 : 0xA5, n);
  memset(p + n, 0xC3, 64);
  cur = p + n + 64;
  blk[nblk].p = p; blk[nblk].n = n; blk[nblk].live = true; nblk++;
  livecnt++;
  return p;
}
static bool canary(const Blk &b) { for (int i = 1; i <= 16; i++) if (b.p[-i] != 0xC3) return false; for (int i = 0; i < 64; i++) if (b.p[b.n + i] != 0xC3) return false; return true; }
extern "C" {
void *malloc(size_t n) { return take(n, 16, false); }
void *calloc(size_t a, size_t b) { if (b && a > (size_t)-1 / b) { if (trk) nalloc++; errno = ENOMEM; return 0; } return take(a * b, 16, true); }
void free(void *p_) {
  unsigned char *p = (unsigned char *)p_;
  if (!p) return;
  if (p >= ar && p < ar + AR) {
    for (int i = nblk - 1; i >= 0; i--) if (blk[i].p == p) {
      if (!blk[i].live) { abad("released twice"); return; }
      if (!canary(blk[i])) abad("bytes around a block were overwritten");
      blk[i].live = false; livecnt--;
      memset(p, 0xDD, blk[i].n);
      return;
    }
    abad("release of a pointer that was not allocated");
    return;
  }
  if (p >= boot && p < boot + BOOT) { int c = *(int *)(p - 16); if (c > 0) { memcpy(p, &fl[c], sizeof(void *)); fl[c] = p; } return; }
  abad("release of a foreign pointer");
}
void *realloc(void *p, size_t n) {
  if (!p) return malloc(n);
  size_t o = n;
  unsigned char *q = (unsigned char *)p;
  if (q >= ar && q < ar + AR) { for (int i = 0; i < nblk; i++) if (blk[i].p == q) o = blk[i].n; } else o = ((size_t)1 << *(int *)(q - 16)) - 16;
  void *r = malloc(n);
  if (r) { memcpy(r, p, o < n ? o : n); free(p); }
  return r;
}
int posix_memalign(void **r, size_t al, size_t n) { if (al < sizeof(void *) || (al & (al - 1))) return EINVAL; void *p = take(n, al, false); if (!p) return ENOMEM; *r = p; return 0; }
void *aligned_alloc(size_t al, size_t n) { return take(n, al, false); }
void *memalign(size_t al, size_t n) { return take(n, al, false); }
void *valloc(size_t n) { return take(n, 4096, false); }
}
static void reset(int fa, int ff) { cur = ar; nblk = nalloc = livecnt = arenabad = 0; failat = fa; failfrom = ff; }
static std::string pre;
struct Live { const Api *a; unsigned char *p; unsigned long n; unsigned char pat; };
static bool intact(const Live &l) { size_t b = l.n * l.a->esz; for (size_t i = 0; i < b; i++) if (l.p[i] != (unsigned char)(l.pat + i * 5)) return false; return true; }
// run one history: ops < A*S allocate, then releases of the j-th live block
static const char *runhist(const std::vector<int> &h, const std::vector<const Api *> &A, const std::vector<unsigned long> &S, int *used) {
  static char msg[256];
  std::vector<Live> lv;
  int nA = (int)A.size() * (int)S.size();
  unsigned char pat = 1;
  const char *e = 0;
  for (size_t s = 0; s < h.size() && !e; s++) {
    int o = h[s];
    if (o < nA) {
      const Api *a = A[o / S.size()];
      unsigned long bytes = S[o % S.size()], n = (bytes + a->esz - 1) / a->esz;
      if (n < (unsigned long)a->minn) n = a->minn;
      int before = nalloc;
      trk = 1; unsigned char *p = (unsigned char *)a->alloc(n); trk = 0;
      hx_trans++;
      bool mayfail = (failat >= before && failat < nalloc) || (failfrom >= 0 && nalloc > failfrom);
      if (p == (void *)1) { snprintf(msg, sizeof msg, "step %zu: %s(%lu) reports failure or its block wrongly", s, a->name, n); e = msg; break; }
      if (!p) { if (!mayfail && n) { snprintf(msg, sizeof msg, "step %zu: %s(%lu) fails although memory is available", s, a->name, n); e = msg; } continue; }
      if (a->aligned && ((uintptr_t)p % api_align() || (uintptr_t)p % api_width())) { snprintf(msg, sizeof msg, "step %zu: %s(%lu) returns %p, not aligned to %d", s, a->name, n, (void *)p, api_align()); e = msg; break; }
      bool in = false;
      for (int i = 0; i < nblk; i++) if (blk[i].live && p >= blk[i].p && p + n * a->esz <= blk[i].p + blk[i].n) in = true;
      if (!in && n) { snprintf(msg, sizeof msg, "step %zu: %s(%lu) returns a block shorter than %lu bytes", s, a->name, n, n * a->esz); e = msg; break; }
      for (size_t j = 0; j < lv.size(); j++) if (p < lv[j].p + lv[j].n * lv[j].a->esz && lv[j].p < p + n * a->esz) { snprintf(msg, sizeof msg, "step %zu: %s(%lu) overlaps a live block", s, a->name, n); e = msg; }
      if (a->zeroed) for (size_t i = 0; i < n * a->esz; i++) if (p[i]) { snprintf(msg, sizeof msg, "step %zu: %s(%lu) byte %zu not zero", s, a->name, n, i); e = msg; break; }
      Live l; l.a = a; l.p = p; l.n = n; l.pat = pat += 37;
      for (size_t i = 0; i < n * a->esz; i++) p[i] = (unsigned char)(l.pat + i * 5);
      lv.push_back(l);
    } else {
      size_t j = o - nA;
      if (j >= lv.size()) { e = "skip"; break; }
      if (!intact(lv[j])) { snprintf(msg, sizeof msg, "step %zu: contents of %s block changed", s, lv[j].a->name); e = msg; break; }
      trk = 1; lv[j].a->dealloc(lv[j].p, lv[j].n); trk = 0;
      hx_trans++;
      lv.erase(lv.begin() + j);
    }
    for (size_t j = 0; j < lv.size() && !e; j++) if (!intact(lv[j])) { snprintf(msg, sizeof msg, "step %zu: contents of live %s block changed", s, lv[j].a->name); e = msg; }
  }
  *used = nalloc;
  for (size_t j = 0; j < lv.size(); j++) { trk = 1; lv[j].a->dealloc(lv[j].p, lv[j].n); trk = 0; }
  if (e && !strcmp(e, "skip")) return e;
  if (!e && arenabad) { snprintf(msg, sizeof msg, "%s", arenamsg); e = msg; }
  if (!e && livecnt) { snprintf(msg, sizeof msg, "%d block(s) leaked", livecnt); e = msg; }
  return e;
}
static std::string hstr(const std::vector<int> &h, const std::vector<const Api *> &A, const std::vector<unsigned long> &S) {
  std::string r;
  int nA = (int)(A.size() * S.size());
  for (int o : h) { char b[96]; if (o < nA) snprintf(b, sizeof b, "%s:%luB;", A[o / S.size()]->name, S[o % S.size()]); else snprintf(b, sizeof b, "release#%d;", o - nA); r += b; }
  return r;
}
static void hists(const std::string &key, const std::vector<const Api *> &A, const std::vector<unsigned long> &S, int depth, bool faults) {
  if (!hx_case(key)) return;
  int nA = (int)(A.size() * S.size()), nO = nA + depth - 1;
  std::vector<int> h(depth, 0);
  bool more = true;
  while (more) {
    int used = 0;
    reset(-1, -1);
    const char *e = runhist(h, A, S, &used);
    bool skip = e && !strcmp(e, "skip");
    if (!skip) {
      hx_states++; hx_traces++;
      hx_seen(hx_mix(used, cur - ar));
      if (e) hx_bad(key, "history %s %s", hstr(h, A, S).c_str(), e);
      int u = used, u2;
      if (faults && !e) for (int k = 0; k < u; k++) for (int m = 0; m < 2; m++) {
        reset(m ? -1 : k, m ? k : -1);
        const char *f = runhist(h, A, S, &u2);
        hx_traces++;
        if (f && strcmp(f, "skip")) hx_bad(key, "history %s with allocation %d %s failing: %s", hstr(h, A, S).c_str(), k, m ? "and later" : "", f);
      }
    }
    int i = depth - 1;
    while (i >= 0 && ++h[i] == nO) h[i--] = 0;
    more = i >= 0;
  }
}
static void vecs(const VecApi &V, int depth, bool faults) {
  std::string key = pre + V.name + (faults ? ":faults" : ":histories");
  if (!hx_case(key)) return;
  const int NO = 13;
  std::vector<int> h(depth, 0);
  for (;;) {
    int maxk = faults ? 1 : 0;
    for (int k = -1; k < maxk; k++) {
      reset(-1, -1);
      std::vector<std::vector<unsigned char> > m[2];
      const char *e = 0;
      trk = 1; void *v = V.make(); void *w = V.make(); trk = 0;
      // make() itself is not part of the fault space
      nalloc = 0; failat = k;
      for (int s = 0; s < depth && !e; s++) {
        int op = h[s], val = s * 19 + 3;
        std::vector<unsigned char> x(V.esz);
        for (int i = 0; i < V.esz; i++) x[i] = (unsigned char)(val * (2 * i + 1) + i);
        std::vector<std::vector<unsigned char> > o = m[0], ow = m[1];
        trk = 1; int r = V.op(v, w, op, val); trk = 0;
        hx_trans++;
        static const int RS[] = {0, 0, 1, 7, 65};
        switch (op) {
        case 0: m[0].push_back(x); break;
        case 1: case 2: case 3: case 4: m[0].resize(RS[op], x); break;
        case 5: if (!m[0].empty()) m[0].pop_back(); break;
        case 6: m[0].clear(); break;
        case 7: m[1] = m[0]; break;
        case 8: m[0].swap(m[1]); break;
        case 9: m[0].insert(m[0].begin(), x); break;
        case 10: if (!m[0].empty()) m[0].erase(m[0].begin()); break;
        case 12: m[0].push_back(x); break;
        }
        if (r) { if (k < 0) e = "throws although memory is available"; m[0] = o; m[1] = ow; }
        void *vv[2] = {v, w};
        for (int q = 0; q < 2 && !e; q++) {
          if (V.size(vv[q]) != m[q].size()) { e = "wrong size"; break; }
          unsigned char *d = (unsigned char *)V.data(vv[q]);
          if (d && ((uintptr_t)d % api_align() || (uintptr_t)d % api_width())) { e = "storage not aligned"; break; }
          for (size_t i = 0; i < m[q].size() && !e; i++) if (memcmp(d + i * V.esz, &m[q][i][0], V.esz)) e = "wrong contents";
        }
      }
      if (k == -1 && faults) maxk = nalloc;
      trk = 1; V.kill(v); V.kill(w); trk = 0;
      if (!e && arenabad) e = arenamsg;
      if (!e && livecnt) e = "leak";
      hx_traces++;
      if (k < 0) { hx_states++; hx_seen(hx_mix(m[0].size() * 100 + m[1].size(), nblk)); }
      if (e) { std::string t; for (int o : h) t += std::to_string(o) + ","; hx_bad(key, "operations %s failing allocation %d: %s", t.c_str(), k, e); }
    }
    int i = depth - 1;
    while (i >= 0 && ++h[i] == NO) h[i--] = 0;
    if (i < 0) break;
  }
}
int main(int argc, char **argv) {
  need();
  hx_init(argc, argv);
  pre = "cxx" + std::to_string(api_cxx()) + ":";
  int n = api_n();
  const Api *T = api_tab();
  std::vector<const Api *> A;
  std::vector<unsigned long> S;
  // every function on its own: all sizes, each allocation failing
  for (int i = 0; i < n; i++) {
    A.assign(1, &T[i]);
    S.clear();
    for (unsigned long b = 0; b <= 600; b++) S.push_back(b);
    for (unsigned long b = 1000; b <= 100000; b = b * 3 + 1) S.push_back(b), S.push_back(b - 1);
    hists(pre + T[i].name + ":sizes", A, S, 1, true);
    S.clear(); S.push_back(1); S.push_back(63); S.push_back(64); S.push_back(129);
    hists(pre + T[i].name + ":same", A, S, hx_tier ? 6 : 5, false);
    hists(pre + T[i].name + ":samefaults", A, S, hx_tier ? 5 : 4, true);
    // sizes that overflow
    std::string key = pre + T[i].name + ":overflow";
    if (hx_case(key)) {
      unsigned long M = ~0ul, e = T[i].esz;
      std::vector<unsigned long> v;
      for (int d = -3; d <= 3; d++) for (int k = 50; k < 64; k++) { unsigned long x = (1ul << k) + d, y = (M / e) + d, z = (M / 2 / e) + d; v.push_back(x); v.push_back(0ul - x); v.push_back(y); v.push_back(z); }
      v.push_back(M); v.push_back(M - 63); v.push_back(M - 64);
      for (unsigned long x : v) {
        if ((double)x * e < 2e6) continue;
        reset(-1, -1);
        trk = 1; void *p = T[i].alloc(x); trk = 0;
        hx_states++; hx_trans++; hx_traces++;
        if (p) hx_bad(key, "%s(%lu) returns %p (largest block handed out: %zu bytes)", T[i].name, x, p, nblk ? blk[nblk - 1].n : 0);
        if (!p && livecnt) hx_bad(key, "%s(%lu) fails and leaks %d block(s)", T[i].name, x, livecnt);
        if (p && p != (void *)1) { trk = 1; T[i].dealloc(p, x); trk = 0; }
      }
    }
  }
  // mixed histories over all kinds of one element type (and the C functions)
  for (int t = 0; t < (n - 2) / 8; t++) {
    if (!hx_tier && t >= 3) break;
    A.clear();
    A.push_back(&T[0]); A.push_back(&T[1]);
    for (int i = 0; i < 8; i++) A.push_back(&T[2 + t * 8 + i]);
    S.clear(); S.push_back(24); S.push_back(200);
    hists(pre + "mixed:" + T[2 + t * 8].name, A, S, 4, false);
    hists(pre + "mixedfaults:" + T[2 + t * 8].name, A, S, 3, true);
  }
  for (int i = 0; i < vec_n(); i++) { if (i >= 4 && !hx_tier) { vecs(vec_tab()[i], 3, true); continue; } vecs(vec_tab()[i], hx_tier ? 5 : 4, false); vecs(vec_tab()[i], hx_tier ? 4 : 3, true); }
  if (hx_case(pre + "equality")) {
    reset(-1, -1);
    trk = 1; int b = api_alloc_traits(); trk = 0;
    hx_states++; hx_trans += 3; hx_traces++;
    if (b || arenabad || livecnt) hx_bad(pre + "equality", "allocators of the same type must be interchangeable");
  }
  if (hx_case(pre + "fill")) {
    int b = api_fill();
    hx_states += 301 * 5; hx_trans += 301 * 15; hx_traces++;
    if (b) hx_bad(pre + "fill", "%d fill/copy lengths wrong", b);
  }
  if (hx_case(pre + "width")) { hx_states++; hx_traces++; if (api_align() < api_width() || api_align() < 16 || (api_align() & (api_align() - 1))) hx_bad(pre + "width", "announced alignment %d, vector width %d", api_align(), api_width()); }
  for (int w = 0; w < 2; w++) for (int f = 0; f < 3; f++) {
    std::string key = pre + (w ? "pair_calloc_or_exit" : "pair_malloc_or_exit");
    if (!hx_case(key)) continue;
    fflush(stdout);
    reset(-1, -1);
    pid_t pid = fork();
    if (!pid) { if (!freopen("/dev/null", "w", stderr)) {} trk = 1; failat = f == 1 ? 0 : -1; api_or_exit(w, f == 2 ? ~0ul / 4 + 2 : 100); _exit(77); }
    int st = 0;
    waitpid(pid, &st, 0);
    hx_states++; hx_trans++; hx_traces++;
    if (f == 0 ? !(WIFEXITED(st) && WEXITSTATUS(st) == 77) : !(WIFEXITED(st) && WEXITSTATUS(st) == EXIT_FAILURE)) hx_bad(key, "case %d: status 0x%x", f, st);
  }
  printf("SAMPLE C++%ld: %d allocation functions, histories up to depth 5, every allocation failing in turn\n", api_cxx(), n);
  return hx_done();
}
