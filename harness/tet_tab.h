#ifndef TET_TAB_H
#define TET_TAB_H
#include <vector>
struct TetCase { const char *type; int unroll; const char *desc; int (*check)(int idx); };
std::vector<TetCase> &tet_tab();
// services of the driver
extern "C" {
void tet_bad(const char *fmt, ...);
void tet_count(long states, long trans, long traces);
void tet_seen(unsigned long h);
void *tet_page(int which); // end of a writable area followed by a guard page
int tet_thorough();
extern long tet_skipped;
}
const long TET_AREA = 1 << 20;
#endif
