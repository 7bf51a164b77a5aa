// Every enumerated tet1d statement against its element-wise evaluation.
#include "tet_tab.h"
#include "hx.h"
#include <sys/mman.h>
std::vector<TetCase> &tet_tab() { static std::vector<TetCase> t; return t; }
#ifndef CFGNAME
#define CFGNAME "?"
#endif
static std::string key;
long tet_skipped;
extern "C" void tet_bad(const char *fmt, ...) { char b[512]; va_list ap; va_start(ap, fmt); vsnprintf(b, sizeof b, fmt, ap); va_end(ap); hx_bad(key, "%s", b); }
extern "C" void tet_count(long s, long t, long r) { hx_states += s; hx_trans += t; hx_traces += r; }
extern "C" void tet_seen(unsigned long h) { hx_seen(h); }
extern "C" int tet_thorough() { return hx_tier; }
extern "C" void *tet_page(int w) {
  static char *p[4];
  if (!p[w]) { char *m = (char *)mmap(0, TET_AREA + 4096, PROT_READ | PROT_WRITE, MAP_PRIVATE | MAP_ANONYMOUS, -1, 0); mprotect(m + TET_AREA, 4096, PROT_NONE); p[w] = m + TET_AREA; }
  return p[w];
}
int main(int argc, char **argv) {
  hx_limit = 60;
  hx_init(argc, argv);
  int i = 0;
  for (TetCase &c : tet_tab()) {
    key = std::string(CFGNAME) + ":" + c.type + "x" + std::to_string(c.unroll) + ":" + c.desc;
    i++;
    if (!hx_case(key)) continue;
    long s0 = tet_skipped;
    c.check(i);
    if (i % 211 == 1) printf("SAMPLE statement %s on %s, unroll %d (%ld undetermined elements)\n", c.desc, c.type, c.unroll, tet_skipped - s0);
  }
  printf("SAMPLE %ld element evaluations undetermined and not compared\n", tet_skipped);
  return hx_done();
}
