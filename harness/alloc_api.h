#ifndef ALLOC_API_H
#define ALLOC_API_H
#include <stddef.h>
struct Api {
  const char *name;
  int esz, aligned, zeroed, minn; // element size, alignment promised, zero filled, smallest n
  void *(*alloc)(unsigned long n); // NULL: failure was reported; (void*)1: reported wrongly
  void (*dealloc)(void *p, unsigned long n);
};
// vectors using the library's allocator; operations return 0, or 1 when the
// standard exception was thrown
struct VecApi {
  const char *name;
  int esz;
  void *(*make)();
  void (*kill)(void *);
  int (*op)(void *v, void *w, int op, int val);
  size_t (*size)(void *);
  void *(*data)(void *);
};
int api_n();
const Api *api_tab();
int vec_n();
const VecApi *vec_tab();
int api_align();      // alignment the library announces
int api_width();      // bytes of one vector register
long api_cxx();
int api_alloc_traits(); // number of broken static facts
void api_or_exit(int which, unsigned long n);
int api_fill();
extern "C" { extern int trk; }
#endif
