/* One group of element types: every value operation through the C base macros
   and (with C11) the generic C interface.  P09 compares them with C++. */
#include <nsimd/nsimd-all.h>
struct cent { const char *op, *type, *totype, *api; int kind, lanes; void (*fn)(const void *, const void *, const void *, void *, long, int); };
enum { K_UN = 1, K_BIN, K_TER, K_CMP, K_SHIFT, K_CVT, K_UPCVT, K_DOWNCVT, K_RED, K_SEL, K_LOG1, K_LOG2 };
#define ARGS const void *a_, const void *b_, const void *c_, void *r_, long n, int p
#define HDR(T, U) const T *a = (const T *)a_, *b = (const T *)b_, *c = (const T *)c_; U *r = (U *)r_; long i; (void)a; (void)b; (void)c; (void)p;
#define FN(pre, op, T, st) static void pre##op##_##T(ARGS) { HDR(T, T) for (i = 0; i < n; i += vlen(T)) { st; } }
/* C base macros */
#define CL(x, T) vloadu(x + i, T)
#define CLL(x, T) vloadlu(x + i, T)
#define C_UN(op, T) FN(c_, op, T, vstoreu(r + i, v##op(CL(a, T), T), T))
#define C_BIN(op, T) FN(c_, op, T, vstoreu(r + i, v##op(CL(a, T), CL(b, T), T), T))
#define C_TER(op, T) FN(c_, op, T, vstoreu(r + i, v##op(CL(a, T), CL(b, T), CL(c, T), T), T))
#define C_CMP(op, T) FN(c_, op, T, vstorelu(r + i, v##op(CL(a, T), CL(b, T), T), T))
#define C_SHF(op, T) FN(c_, op, T, vstoreu(r + i, v##op(CL(a, T), p, T), T))
#define C_LG1(op, T) FN(c_, op, T, vstorelu(r + i, v##op(CLL(a, T), T), T))
#define C_LG2(op, T) FN(c_, op, T, vstorelu(r + i, v##op(CLL(a, T), CLL(b, T), T), T))
#define C_TM(op, T) FN(c_, op, T, vstoreu(r + i, v##op(CLL(a, T), T), T))
#define C_TL(op, T) FN(c_, op, T, vstorelu(r + i, v##op(CL(a, T), T), T))
#define C_SEL(op, T) FN(c_, op, T, vstoreu(r + i, v##op(CLL(a, T), CL(b, T), CL(c, T), T), T))
/* C11 */
#define GL(x, T) nsimd_loadu(nsimd_pack_##T, x + i)
#define GLL(x, T) nsimd_loadlu(nsimd_packl_##T, x + i)
#define G_UN(op, T) FN(g_, op, T, nsimd_pack(T) x = GL(a, T); nsimd_storeu(r + i, nsimd_##op(x)))
#define G_BIN(op, T) FN(g_, op, T, nsimd_pack(T) x = GL(a, T); nsimd_pack(T) y = GL(b, T); nsimd_storeu(r + i, nsimd_##op(x, y)))
#define G_TER(op, T) FN(g_, op, T, nsimd_pack(T) x = GL(a, T); nsimd_pack(T) y = GL(b, T); nsimd_pack(T) z = GL(c, T); nsimd_storeu(r + i, nsimd_##op(x, y, z)))
#define G_CMP(op, T) FN(g_, op, T, nsimd_pack(T) x = GL(a, T); nsimd_pack(T) y = GL(b, T); nsimd_packl(T) z = nsimd_##op(x, y); nsimd_storelu(r + i, z))
#define G_SHF(op, T) FN(g_, op, T, nsimd_pack(T) x = GL(a, T); nsimd_storeu(r + i, nsimd_##op(x, p)))
#define G_LG1(op, T) FN(g_, op, T, nsimd_packl(T) x = GLL(a, T); nsimd_storelu(r + i, nsimd_##op(x)))
#define G_LG2(op, T) FN(g_, op, T, nsimd_packl(T) x = GLL(a, T); nsimd_packl(T) y = GLL(b, T); nsimd_storelu(r + i, nsimd_##op(x, y)))
#define G_TM(op, T) FN(g_, op, T, nsimd_packl(T) x = GLL(a, T); nsimd_pack(T) y = nsimd_##op(x); nsimd_storeu(r + i, y))
#define G_TL(op, T) FN(g_, op, T, nsimd_pack(T) x = GL(a, T); nsimd_packl(T) y = nsimd_##op(x); nsimd_storelu(r + i, y))
#define G_SEL(op, T) FN(g_, op, T, nsimd_packl(T) x = GLL(a, T); nsimd_pack(T) y = GL(b, T); nsimd_pack(T) z = GL(c, T); nsimd_pack(T) w = nsimd_##op(x, y, z); nsimd_storeu(r + i, w))
#define ALL(X, T) X(UN, neg, T) X(UN, abs, T) X(UN, notb, T) X(UN, ceil, T) X(UN, floor, T) X(UN, trunc, T) X(UN, round_to_even, T) \
 X(BIN, add, T) X(BIN, sub, T) X(BIN, mul, T) X(BIN, div, T) X(BIN, min, T) X(BIN, max, T) X(BIN, adds, T) X(BIN, subs, T) X(BIN, orb, T) X(BIN, andb, T) X(BIN, andnotb, T) X(BIN, xorb, T) \
 X(TER, fma, T) X(TER, fnma, T) X(TER, fms, T) X(TER, fnms, T) X(CMP, eq, T) X(CMP, ne, T) X(CMP, lt, T) X(CMP, le, T) X(CMP, gt, T) X(CMP, ge, T) \
 X(LG1, notl, T) X(LG2, orl, T) X(LG2, andl, T) X(LG2, andnotl, T) X(LG2, xorl, T) X(TM, to_mask, T) X(TL, to_logical, T) X(SEL, if_else1, T) SPECIFIC(X, T)
#if FLOATS
#define MM1(op) MM1_(op)
#define SPECIFIC(X, T) X(UN, rec, T) X(UN, rec8, T) X(UN, rec11, T) X(UN, sqrt, T) X(UN, rsqrt8, T) X(UN, rsqrt11, T) MATHS(X, T)
#define MATHS(X, T) X(UN, sin_u35, T) X(UN, cos_u35, T) X(UN, tan_u35, T) X(UN, asin_u35, T) X(UN, acos_u35, T) X(UN, atan_u35, T) X(UN, log_u35, T) X(UN, cbrt_u35, T) X(UN, sin_u10, T) X(UN, cos_u10, T) X(UN, tan_u10, T) X(UN, asin_u10, T) X(UN, acos_u10, T) X(UN, atan_u10, T) X(UN, log_u10, T) X(UN, cbrt_u10, T) X(UN, exp_u10, T) X(UN, sinh_u10, T) X(UN, cosh_u10, T) X(UN, tanh_u10, T) X(UN, sinh_u35, T) X(UN, cosh_u35, T) X(UN, tanh_u35, T) X(UN, asinh_u10, T) X(UN, acosh_u10, T) X(UN, atanh_u10, T) X(UN, exp2_u10, T) X(UN, exp2_u35, T) X(UN, exp10_u10, T) X(UN, exp10_u35, T) X(UN, expm1_u10, T) X(UN, log10_u10, T) X(UN, log2_u10, T) X(UN, log2_u35, T) X(UN, log1p_u10, T) X(UN, sinpi_u05, T) X(UN, cospi_u05, T) X(UN, lgamma_u10, T) X(UN, tgamma_u10, T) X(UN, erf_u10, T) X(UN, erfc_u15, T) \
  X(BIN, atan2_u35, T) X(BIN, atan2_u10, T) X(BIN, pow_u10, T) X(BIN, hypot_u05, T) X(BIN, hypot_u35, T) X(BIN, remainder, T) X(BIN, fmod, T)
#else
#define SPECIFIC(X, T) X(SHF, shl, T) X(SHF, shr, T) X(SHF, shra, T)
#endif
#define KD_UN K_UN
#define KD_BIN K_BIN
#define KD_TER K_TER
#define KD_CMP K_CMP
#define KD_SHF K_SHIFT
#define KD_LG1 K_LOG1
#define KD_LG2 K_LOG2
#define KD_TM K_LOG1
#define KD_TL K_UN
#define KD_SEL K_SEL
#define DEFC(k, op, T) C_##k(op, T)
#define DEFG(k, op, T) G_##k(op, T)
#define E(pre, api, k, op, T) {#op, #T, #T, api, KD_##k, 0, pre##op##_##T},
#define ENTC(k, op, T) E(c_, "c", k, op, T)
#define ENTG(k, op, T) E(g_, "c11", k, op, T)
/* conversions */
#define FC(pre, op, T, U, step, st) static void pre##op##_##T##_##U(ARGS) { HDR(T, U) for (i = 0; i < n; i += step) { st; } }
#define C_SAME(T, U) FC(c_, cvt, T, U, vlen(T), vstoreu(r + i, vcvt(CL(a, T), T, U), U)) FC(c_, reinterpret, T, U, vlen(T), vstoreu(r + i, vreinterpret(CL(a, T), T, U), U)) FC(c_, reinterpretl, T, U, vlen(T), vstorelu(r + i, vreinterpretl(CLL(a, T), T, U), U))
#define C_UP(T, U) FC(c_, upcvt, T, U, vlen(T), vecx2(U) v = vupcvt(CL(a, T), T, U); vstoreu(r + i, v.v0, U); vstoreu(r + i + vlen(U), v.v1, U))
#define C_DOWN(T, U) FC(c_, downcvt, T, U, vlen(U), vstoreu(r + i, vdowncvt(CL(a, T), vloadu(a + i + vlen(T), T), T, U), U))
#define G_SAME(T, U) FC(g_, cvt, T, U, vlen(T), nsimd_pack(T) x = GL(a, T); nsimd_pack(U) y = nsimd_cvt(nsimd_pack_##U, x); nsimd_storeu(r + i, y)) FC(g_, reinterpret, T, U, vlen(T), nsimd_pack(T) x = GL(a, T); nsimd_pack(U) y = nsimd_reinterpret(nsimd_pack_##U, x); nsimd_storeu(r + i, y)) FC(g_, reinterpretl, T, U, vlen(T), nsimd_packl(T) x = GLL(a, T); nsimd_packl(U) y = nsimd_reinterpretl(nsimd_packl_##U, x); nsimd_storelu(r + i, y))
#define G_UP(T, U) FC(g_, upcvt, T, U, vlen(T), nsimd_pack(T) x = GL(a, T); nsimd_packx2(U) v = nsimd_upcvt(nsimd_packx2_##U, x); nsimd_storeu(r + i, v.v0); nsimd_storeu(r + i + vlen(U), v.v1))
#define G_DOWN(T, U) FC(g_, downcvt, T, U, vlen(U), nsimd_pack(T) x = GL(a, T); nsimd_pack(T) z = nsimd_loadu(nsimd_pack_##T, a + i + vlen(T)); nsimd_pack(U) y = nsimd_downcvt(nsimd_pack_##U, x, z); nsimd_storeu(r + i, y))
#define EC(pre, api, op, K, T, U) {#op, #T, #U, api, K, 0, pre##op##_##T##_##U},
#define ES(pre, api, T, U) EC(pre, api, cvt, K_CVT, T, U) EC(pre, api, reinterpret, K_CVT, T, U) EC(pre, api, reinterpretl, K_CVT, T, U)
#define CONV_i8(S, P, D) S(i8, i8) S(i8, u8) P(i8, i16) P(i8, u16) P(i8, f16)
#define CONV_u8(S, P, D) S(u8, i8) S(u8, u8) P(u8, i16) P(u8, u16) P(u8, f16)
#define C16(T, S, P, D) S(T, i16) S(T, u16) S(T, f16) P(T, i32) P(T, u32) P(T, f32) D(T, i8) D(T, u8)
#define C32(T, S, P, D) S(T, i32) S(T, u32) S(T, f32) P(T, i64) P(T, u64) P(T, f64) D(T, i16) D(T, u16) D(T, f16)
#define C64(T, S, P, D) S(T, i64) S(T, u64) S(T, f64) D(T, i32) D(T, u32) D(T, f32)
#define CONV_i16(S, P, D) C16(i16, S, P, D)
#define CONV_u16(S, P, D) C16(u16, S, P, D)
#define CONV_f16(S, P, D) C16(f16, S, P, D)
#define CONV_i32(S, P, D) C32(i32, S, P, D)
#define CONV_u32(S, P, D) C32(u32, S, P, D)
#define CONV_f32(S, P, D) C32(f32, S, P, D)
#define CONV_i64(S, P, D) C64(i64, S, P, D)
#define CONV_u64(S, P, D) C64(u64, S, P, D)
#define CONV_f64(S, P, D) C64(f64, S, P, D)
#define ESC(T, U) ES(c_, "c", T, U)
#define EUC(T, U) EC(c_, "c", upcvt, K_UPCVT, T, U)
#define EDC(T, U) EC(c_, "c", downcvt, K_DOWNCVT, T, U)
#define ESG(T, U) ES(g_, "c11", T, U)
#define EUG(T, U) EC(g_, "c11", upcvt, K_UPCVT, T, U)
#define EDG(T, U) EC(g_, "c11", downcvt, K_DOWNCVT, T, U)
#define ONE(T) ALL(DEFC, T) CONV_##T(C_SAME, C_UP, C_DOWN)
TYPES
#undef ONE
#if NSIMD_C >= 2011
#define ONE(T) ALL(DEFG, T) CONV_##T(G_SAME, G_UP, G_DOWN)
TYPES
#undef ONE
#endif
/* horizontal and memory operations: the result is written to r; c selects */
#define HM(T) \
 static void c_mem_##T(ARGS) { HDR(T, T) int L = vlen(T), k; (void)i; switch (p) { \
  case 0: for (k = 0; k < 3; k++) vstoreu(r + k * L, vloadu(a + k * L, T), T); break; \
  case 1: { vecx2(T) v = vload2u(a, T); vstoreu(r, v.v0, T); vstoreu(r + L, v.v1, T); } break; \
  case 2: { vecx3(T) v = vload3u(a, T); vstoreu(r, v.v0, T); vstoreu(r + L, v.v1, T); vstoreu(r + 2 * L, v.v2, T); } break; \
  case 3: { vecx4(T) v = vload4u(a, T); vstoreu(r, v.v0, T); vstoreu(r + L, v.v1, T); vstoreu(r + 2 * L, v.v2, T); vstoreu(r + 3 * L, v.v3, T); } break; \
  case 4: vstore2u(r, vloadu(a, T), vloadu(a + L, T), T); break; \
  case 5: vstore3u(r, vloadu(a, T), vloadu(a + L, T), vloadu(a + 2 * L, T), T); break; \
  case 6: vstore4u(r, vloadu(a, T), vloadu(a + L, T), vloadu(a + 2 * L, T), vloadu(a + 3 * L, T), T); break; \
  case 7: vstoreu(r, vset1(a[0], T), T); break; \
  case 8: vstorelu(r, vset1l((int)n, T), T); break; \
  case 9: vmask_storeu1(vloadlu(b, T), r, vloadu(a, T), T); break; \
  case 10: vstoreu(r, vmasko_loadu1(vloadlu(b, T), a, vloadu(c, T), T), T); break; \
  case 11: vstoreu(r, vmaskz_loadu1(vloadlu(b, T), a, T), T); break; \
  case 12: vstorelu(r, vmask_for_loop_tail((int)n, L / 2, T), T); break; \
  case 13: vstoreu(r, viota(T), T); break; \
  case 14: vstoreu(r, vgather_linear(a, (int)n, T), T); break; \
  case 15: vscatter_linear(r, (int)n, vloadu(a, T), T); break; \
  case 16: vstoreu(r, vziplo(vloadu(a, T), vloadu(b, T), T), T); break; \
  case 17: vstoreu(r, vziphi(vloadu(a, T), vloadu(b, T), T), T); break; \
  case 18: vstoreu(r, vunziplo(vloadu(a, T), vloadu(b, T), T), T); break; \
  case 19: vstoreu(r, vunziphi(vloadu(a, T), vloadu(b, T), T), T); break; \
  case 20: { vecx2(T) v = vzip(vloadu(a, T), vloadu(b, T), T); vstoreu(r, v.v0, T); vstoreu(r + L, v.v1, T); } break; \
  case 21: { vecx2(T) v = vunzip(vloadu(a, T), vloadu(b, T), T); vstoreu(r, v.v0, T); vstoreu(r + L, v.v1, T); } break; \
  case 22: ((int *)r_)[0] = vall(vloadlu(b, T), T) != 0; ((int *)r_)[1] = vany(vloadlu(b, T), T) != 0; ((int *)r_)[2] = vnbtrue(vloadlu(b, T), T); break; \
  case 23: ((int *)r_)[0] = vlen(T); break; \
  case 24: vstorea(r, vloada(a, T), T); vstorela(r + L, vloadla(b, T), T); break; \
  } }
#if NSIMD_C >= 2011
#define HG(T) \
 static void g_mem_##T(ARGS) { HDR(T, T) int L = nsimd_len(nsimd_pack_##T), k; nsimd_pack(T) x, y, z, w; nsimd_packl(T) m; (void)i; \
  x = nsimd_loadu(nsimd_pack_##T, a); y = nsimd_loadu(nsimd_pack_##T, a + L); z = nsimd_loadu(nsimd_pack_##T, a + 2 * L); w = nsimd_loadu(nsimd_pack_##T, a + 3 * L); m = nsimd_loadlu(nsimd_packl_##T, b); switch (p) { \
  case 0: for (k = 0; k < 3; k++) nsimd_store(unaligned, r + k * L, nsimd_load(unaligned, nsimd_pack_##T, a + k * L)); break; \
  case 1: { nsimd_packx2(T) v = nsimd_load2u(nsimd_packx2_##T, a); nsimd_storeu(r, v.v0); nsimd_storeu(r + L, v.v1); } break; \
  case 2: { nsimd_packx3(T) v = nsimd_load3u(nsimd_packx3_##T, a); nsimd_storeu(r, v.v0); nsimd_storeu(r + L, v.v1); nsimd_storeu(r + 2 * L, v.v2); } break; \
  case 3: { nsimd_packx4(T) v = nsimd_load4u(nsimd_packx4_##T, a); nsimd_storeu(r, v.v0); nsimd_storeu(r + L, v.v1); nsimd_storeu(r + 2 * L, v.v2); nsimd_storeu(r + 3 * L, v.v3); } break; \
  case 4: nsimd_store2u(r, x, y); break; \
  case 5: nsimd_store3u(r, x, y, z); break; \
  case 6: nsimd_store4u(r, x, y, z, w); break; \
  case 7: nsimd_storeu(r, nsimd_set1(nsimd_pack_##T, a[0])); break; \
  case 8: nsimd_storelu(r, nsimd_set1l(nsimd_packl_##T, (int)n)); break; \
  case 9: nsimd_mask_storeu1(m, r, x); break; \
  case 10: z = nsimd_loadu(nsimd_pack_##T, c); nsimd_storeu(r, nsimd_masko_loadu1(m, a, z)); break; \
  case 11: nsimd_storeu(r, nsimd_maskz_loadu1(m, a)); break; \
  case 12: nsimd_storelu(r, nsimd_mask_for_loop_tail(nsimd_packl_##T, (int)n, L / 2)); break; \
  case 13: nsimd_storeu(r, nsimd_iota(nsimd_pack_##T)); break; \
  case 14: nsimd_storeu(r, nsimd_gather_linear(nsimd_pack_##T, a, (int)n)); break; \
  case 15: nsimd_scatter_linear(r, (int)n, x); break; \
  case 16: z = nsimd_loadu(nsimd_pack_##T, b); nsimd_storeu(r, nsimd_ziplo(x, z)); break; \
  case 17: z = nsimd_loadu(nsimd_pack_##T, b); nsimd_storeu(r, nsimd_ziphi(x, z)); break; \
  case 18: z = nsimd_loadu(nsimd_pack_##T, b); nsimd_storeu(r, nsimd_unziplo(x, z)); break; \
  case 19: z = nsimd_loadu(nsimd_pack_##T, b); nsimd_storeu(r, nsimd_unziphi(x, z)); break; \
  case 20: { nsimd_packx2(T) v; z = nsimd_loadu(nsimd_pack_##T, b); v = nsimd_zip(x, z); nsimd_storeu(r, v.v0); nsimd_storeu(r + L, v.v1); } break; \
  case 21: { nsimd_packx2(T) v; z = nsimd_loadu(nsimd_pack_##T, b); v = nsimd_unzip(x, z); nsimd_storeu(r, v.v0); nsimd_storeu(r + L, v.v1); } break; \
  case 22: ((int *)r_)[0] = nsimd_all(m) != 0; ((int *)r_)[1] = nsimd_any(m) != 0; ((int *)r_)[2] = nsimd_nbtrue(m); break; \
  case 23: ((int *)r_)[0] = nsimd_len(nsimd_packl_##T); break; \
  case 24: nsimd_store(aligned, r, nsimd_load(aligned, nsimd_pack_##T, a)); nsimd_storela(r + L, nsimd_loadla(nsimd_packl_##T, b)); break; \
  } }
#else
#define HG(T)
#endif
#define ONE(T) HM(T) HG(T)
TYPES
#undef ONE
static const struct cent tab[] = {
#define ONE(T) ALL(ENTC, T) CONV_##T(ESC, EUC, EDC) {"mem", #T, #T, "c", 0, 0, c_mem_##T},
TYPES
#undef ONE
#if NSIMD_C >= 2011
#define ONE(T) ALL(ENTG, T) CONV_##T(ESG, EUG, EDG) {"mem", #T, #T, "c11", 0, 0, g_mem_##T},
TYPES
#undef ONE
#endif
};
#define G_(i) capi_tab_##i
#define G(i) G_(i)
const struct cent *G(GROUP)(int *n);
const struct cent *G(GROUP)(int *n) { *n = (int)(sizeof tab / sizeof tab[0]); return tab; }
