#ifndef SPMD_TAB_H
#define SPMD_TAB_H
#include <vector>
struct Out { long d1, d2, d3, d4; };
struct SP { int idx, bits, width, unroll, lanes; const char *desc; void (*ref)(long, Out &); int (*run)(const long *, long, int, Out *); };
std::vector<SP> &spmd_tab();
void *spmd_page(int which, long bytes); // end of a writable area followed by an inaccessible page
#endif
