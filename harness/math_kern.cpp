// Every mathematical function of one SIMD configuration, behind a table.
#include <nsimd/nsimd-all.hpp>
#include "math_list.h"
#define STR_(x) #x
#define STR(x) STR_(x)
template <typename T> struct K {
#define F1(op) static void op(const void *a, const void *, void *o, long n) { int L = nsimd::len(T()); for (long i = 0; i < n; i += L) nsimd::storeu((T *)o + i, nsimd::op(nsimd::loadu((const T *)a + i, T()), T()), T()); }
#define F2(op) static void op(const void *a, const void *b, void *o, long n) { int L = nsimd::len(T()); for (long i = 0; i < n; i += L) nsimd::storeu((T *)o + i, nsimd::op(nsimd::loadu((const T *)a + i, T()), nsimd::loadu((const T *)b + i, T()), T()), T()); }
  MATH1(F1)
  MATH2(F2)
};
#define E1(op) {#op, 1, {K<f16>::op, K<f32>::op, K<f64>::op}},
#define E2(op) {#op, 2, {K<f16>::op, K<f32>::op, K<f64>::op}},
static const math_ent tab[] = {MATH1(E1) MATH2(E2)};
extern "C" __attribute__((visibility("default"))) const math_ent *math_table(int *n, int *len, const char **cfg) {
  *n = (int)(sizeof tab / sizeof tab[0]);
  len[0] = nsimd::len(f16()); len[1] = nsimd::len(f32()); len[2] = nsimd::len(f64());
  *cfg = STR(CFG);
  return tab;
}
