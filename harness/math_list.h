#define MATH1(X) X(sin_u35) X(cos_u35) X(tan_u35) X(asin_u35) X(acos_u35) X(atan_u35) X(log_u35) X(cbrt_u35) X(sin_u10) X(cos_u10) X(tan_u10) X(asin_u10) X(acos_u10) X(atan_u10) X(log_u10) X(cbrt_u10) X(exp_u10) X(sinh_u10) X(cosh_u10) X(tanh_u10) X(sinh_u35) X(cosh_u35) X(tanh_u35) X(asinh_u10) X(acosh_u10) X(atanh_u10) X(exp2_u10) X(exp2_u35) X(exp10_u10) X(exp10_u35) X(expm1_u10) X(log10_u10) X(log2_u10) X(log2_u35) X(log1p_u10) X(sinpi_u05) X(cospi_u05) X(lgamma_u10) X(tgamma_u10) X(erf_u10) X(erfc_u15)
#define MATH2(X) X(atan2_u35) X(atan2_u10) X(pow_u10) X(hypot_u05) X(hypot_u35) X(remainder) X(fmod)
// what a shared object of one configuration exports
typedef void (*math_fn)(const void *a, const void *b, void *o, long n); // n: multiple of the vector length
struct math_ent { const char *name; int arity; math_fn f[3]; };           // f16, f32, f64
extern "C" const math_ent *math_table(int *n, int *len, const char **cfg);
