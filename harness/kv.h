// Kernel table shared by the SIMD side (one translation unit per extension,
// includes nsimd) and the driver side (plain x86-64, never includes nsimd).
#ifndef KV_H
#define KV_H
#include <stddef.h>
#include <vector>
#include <string>
enum Kind { K_UN = 1, K_BIN, K_TER, K_CMP, K_SHIFT, K_CVT, K_UPCVT, K_DOWNCVT, K_RED, K_SEL, K_LOG1, K_LOG2 };
struct Kern {
  const char *op, *type, *totype, *api; // totype = type except conversions
  Kind kind;
  int lanes;                            // elements consumed per vector
  // r = op(a, b, c) over n elements (n multiple of lanes); p = scalar param
  void (*fn)(const void *a, const void *b, const void *c, void *r, long n, int p);
};
typedef std::vector<Kern> KernTab;
void kv_register_all(KernTab &);
const char *kv_ext();
#endif
