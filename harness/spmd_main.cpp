// Every enumerated SPMD kernel against the same program executed one thread
// index at a time, for all inputs, all pairs of inputs sharing a vector, and
// all lengths around the vector length.
#include "spmd_tab.h"
#include "hx.h"
#include <sys/mman.h>
std::vector<SP> &spmd_tab() { static std::vector<SP> t; return t; }
void *spmd_page(int w, long bytes) {
  static char *p[7];
  static long have[7];
  if (have[w] < bytes || !p[w]) {
    long n = (bytes * 2 + 65536) / 4096 * 4096;
    char *m = (char *)mmap(0, n + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0);
    if (m == (char *)MAP_FAILED) abort();
    mprotect(m + n, 4096, PROT_NONE);
    if (p[w]) munmap(p[w] - have[w], have[w] + 4096);
    p[w] = m + n; have[w] = n;
  }
  return p[w];
}
#ifndef CFGNAME
#define CFGNAME "?"
#endif
static long wrap(long x, int w) { return w == 64 ? x : w == 32 ? (long)(int)x : w == 16 ? (long)(short)x : (long)(signed char)x; }
int main(int argc, char **argv) {
  hx_limit = 60;
  hx_init(argc, argv);
  std::vector<SP> &T = spmd_tab();
  int smp = 0;
  for (SP &p : T) {
    std::string key = std::string(CFGNAME) + ":w" + std::to_string(p.width) + "x" + std::to_string(p.unroll) + ":" + p.desc + ":" + std::to_string(p.idx);
    if (!hx_case(key)) continue;
    long V = 1l << p.bits;
    std::vector<Out> E(V);
    for (long v = 0; v < V; v++) { E[v].d2 = E[v].d3 = 77; long vv = wrap(v, p.width); p.ref(vv, E[v]); hx_seen(hx_mix(E[v].d1, E[v].d4 * 64 + E[v].d2)); }
    hx_states += V;
    int L = p.lanes;
    bool stop = false;
    auto check = [&](const std::vector<long> &in, const char *what) {
      long n = (long)in.size();
      std::vector<Out> o(n + 1);
      int g = p.run(n ? &in[0] : 0, n, p.bits, &o[0]);
      hx_trans += n; hx_traces++;
      if (g) { hx_bad(key, "%s n=%ld: %d elements at or beyond n were changed", what, n, g); stop = true; }
      for (long i = 0; i < n; i++) {
        const Out &e = E[in[i]];
        long a[4] = {o[i].d1, o[i].d2, o[i].d3, o[i].d4}, b[4] = {wrap(e.d1, p.width), wrap(e.d2, p.width), wrap(e.d3, p.width), wrap(e.d4, p.width)};
        for (int k = 0; k < 4; k++) if (a[k] != b[k]) {
          std::string nb;
          for (long j = i / L * L; j < i / L * L + L && j < n; j++) nb += std::to_string(in[j]) + (j == i ? "* " : " ");
          hx_bad(key, "%s n=%ld index %ld input %ld output %d: %ld instead of %ld; lanes: %s", what, n, i, in[i], k, a[k], b[k], nb.c_str());
          stop = true;
          return;
        }
      }
    };
    std::vector<long> in;
    for (long i = 0; i < std::max(V, (long)L) + L / 2 + 1; i++) in.push_back(i % V);
    check(in, "all inputs");
    for (long n = 0; n <= 2 * L + 1 && !stop; n += (L > 16 && n > 3 && n < 2 * L - 3 && n % L > 2 && n % L < L - 2) ? 7 : 1) { in.clear(); for (long i = 0; i < n; i++) in.push_back((i * 3 + n) % V); check(in, "length"); }
    // pairs of inputs sharing one vector
    in.clear();
    unsigned long pt[] = {0x5555555555555555ul, 1, 0x8000000000000000ul, 0x00ff00ff00ff00fful, 0x7fffffffffffffffl, 0x3333333333333333ul};
    std::vector<long> part;
    if (V <= 64 || hx_tier) for (long v = 0; v < V; v++) part.push_back(v);
    else for (long v = 0; v < V; v++) if (v < 8 || v >= V - 4 || !(v & (v - 1)) || v % 11 == 0) part.push_back(v);
    int k = 0;
    for (long a = 0; a < V && !stop; a++) {
      for (long b : part) { unsigned long m = pt[k++ % 6]; for (int j = 0; j < L; j++) in.push_back(((m >> (L <= 64 ? j * (64 / L > 0 && (k % 2) ? 1 : 1) % 64 : j % 64)) & 1) ? a : b); }
      if (in.size() > 4096) { check(in, "pairs"); in.clear(); }
    }
    if (!in.empty() && !stop) check(in, "pairs");
    if (smp++ % 97 == 0) printf("SAMPLE kernel %s width %d unroll %d: %ld inputs, %zu partners each\n", p.desc, p.width, p.unroll, V, part.size());
  }
  return hx_done();
}
