// Fixed-point formats: every operation of the scalar and vector forms against
// exact integer arithmetic on the raw values (raw = value * 2^rt).
#include <nsimd/nsimd-all.hpp>
#include <nsimd/modules/fixed_point.hpp>
#include <nsimd/modules/fixed_point/function/abs.hpp>
#include <nsimd/modules/fixed_point/function/ceil.hpp>
#include <nsimd/modules/fixed_point/function/floor.hpp>
#include <nsimd/modules/fixed_point/function/is_int.hpp>
#include "hx.h"
#include <algorithm>
#include <cmath>
#define STR_(x) #x
#define STR(x) STR_(x)
namespace fx = nsimd::fixed_point;
typedef __int128 W;
struct Fmt { int lf, rt; W lo, hi; bool in(W v) const { return v >= lo && v <= hi; } };
static W fdiv(W a, W b) { W q = a / b; return (a % b != 0 && ((a < 0) != (b < 0))) ? q - 1 : q; }
// accepted results: every raw r with lo <= r <= hi; none asked for when skip
struct Exp { W lo, hi; bool skip; };
static Exp exact(W v) { Exp e = {v, v, false}; return e; }
static Exp in_fmt(const Fmt &f, W v) { Exp e = {v, v, !f.in(v)}; return e; }
static Exp none() { Exp e = {0, 0, true}; return e; }
// p/q within one unit of the last place (strictly), when it is representable
static Exp ulp(const Fmt &f, W p, W q) {
  if (q == 0) return none();
  W fl = fdiv(p, q), ce = fl * q == p ? fl : fl + 1;
  if (!f.in(fl) || !f.in(ce)) return none();
  Exp e = {fl, ce, false};
  return e;
}
enum Op { ADD, SUB, MUL, DIV, MIN, MAX, EQ, NE, LT, LE, GT, GE, ANDB, ANDNOTB, ORB, XORB, NOTB, ANDL, ANDNOTL, ORL, XORL, NOTL, ABS, REC, SET1, SEL, FMAD, COPYA,
          OADD, OSUB, OMUL, ODIV, OEQ, ONE, OLT, OLE, OGT, OGE, // vector operators
          NEG, NOR, SHL, SHR, FLOOR, CEIL, ISINT, SQRT, EQULP, AADD, ASUB, AMUL, ADIV, NOPS };
static const char *const opname[] = {"add", "sub", "mul", "div", "min", "max", "eq", "ne", "lt", "le", "gt", "ge", "andb", "andnotb", "orb", "xorb", "notb", "andl", "andnotl", "orl", "xorl", "notl", "abs", "rec", "set1", "if_else1", "fma", "loada_storea",
  "operator+", "operator-", "operator*", "operator/", "operator==", "operator!=", "operator<", "operator<=", "operator>", "operator>=", "neg", "nor", "shift_left", "shift_right", "floor", "ceil", "is_int", "sqrt", "equal_ulp", "operator+=", "operator-=", "operator*=", "operator/="};
static Exp model(const Fmt &f, int op, W a, W b, W c) {
  W one = (W)1 << f.rt;
  switch (op) {
  case ADD: case OADD: case AADD: return in_fmt(f, a + b);
  case SUB: case OSUB: case ASUB: return in_fmt(f, a - b);
  case MUL: case OMUL: case AMUL: return ulp(f, a * b, one);
  case DIV: case ODIV: case ADIV: return ulp(f, a * one, b);
  case REC: return f.in(one) ? ulp(f, one * one, a) : none();
  case FMAD: { Exp e = ulp(f, a * b, one); e.lo += c; e.hi += c; if (!f.in(e.lo) || !f.in(e.hi)) return none(); return e; }
  case MIN: return exact(a < b ? a : b);
  case MAX: return exact(a > b ? a : b);
  case EQ: case OEQ: return exact(a == b);
  case NE: case ONE: return exact(a != b);
  case LT: case OLT: return exact(a < b);
  case LE: case OLE: return exact(a <= b);
  case GT: case OGT: return exact(a > b);
  case GE: case OGE: return exact(a >= b);
  case ANDB: return exact(a & b);
  case ANDNOTB: return exact(a & ~b);
  case ORB: return exact(a | b);
  case XORB: return exact(a ^ b);
  case NOTB: return exact(~a);
  case NOR: return exact(~(a | b));
  case ANDL: return exact((a != 0) & (b != 0));
  case ANDNOTL: return exact((a != 0) & !(b != 0));
  case ORL: return exact((a != 0) | (b != 0));
  case XORL: return exact((a != 0) ^ (b != 0));
  case NOTL: return exact(a == 0);
  case ABS: return in_fmt(f, a < 0 ? -a : a);
  case NEG: return in_fmt(f, -a);
  case SET1: case COPYA: return exact(a);
  case SEL: return exact(c != 0 ? a : b);
  case SHL: return in_fmt(f, a * ((W)1 << (int)b));
  case SHR: return exact(a >> (int)b);
  case FLOOR: return exact(fdiv(a, one) * one);
  case CEIL: return in_fmt(f, -fdiv(-a, one) * one);
  case ISINT: return exact(fdiv(a, one) * one == a);
  case SQRT: {
    if (a < 0) return none();
    W A = a * one, r = (W)std::sqrt((double)A);
    while (r * r > A) r--;
    while ((r + 1) * (r + 1) <= A) r++;
    W ce = r * r == A ? r : r + 1;
    if (!f.in(ce)) return none();
    Exp e = {r, ce, false};
    return e;
  }
  case EQULP: { W d = a < b ? b - a : a - b; return exact(d <= c); }
  }
  return none();
}
static W rd(const void *p, int sz, size_t i) {
  switch (sz) { case 1: return ((const i8 *)p)[i]; case 2: return ((const i16 *)p)[i]; case 4: return ((const i32 *)p)[i]; default: return (W)((const i64 *)p)[i]; }
}
static void wr(void *p, int sz, size_t i, W v) {
  switch (sz) { case 1: ((i8 *)p)[i] = (i8)v; break; case 2: ((i16 *)p)[i] = (i16)v; break; case 4: ((i32 *)p)[i] = (i32)v; break; default: ((i64 *)p)[i] = (i64)v; }
}
// a kernel handles L elements of a, b, c into o
typedef void (*Kern)(void *a, void *b, void *c, void *o);
template <typename F> struct V {
  typedef fx::pack<F> P;
  typedef fx::packl<F> Q;
  typedef typename F::value_type R;
  static P ld(void *p) { return fx::loadu<P>((F *)p); }
  static Q ll(void *p) { return fx::loadlu<Q>((R *)p); }
  static void st(void *o, const P &v) { fx::storeu((F *)o, v); }
  static void st(void *o, const Q &v) { fx::storelu((R *)o, v); }
#define B2(n, e) static void n(void *a, void *b, void *c, void *o) { (void)b; (void)c; st(o, e); }
#define A ld(a)
#define BB ld(b)
  B2(add, fx::add(A, BB)) B2(sub, fx::sub(A, BB)) B2(mul, fx::mul(A, BB)) B2(div, fx::div(A, BB)) B2(min, fx::min(A, BB)) B2(max, fx::max(A, BB))
  B2(eq, fx::eq(A, BB)) B2(ne, fx::ne(A, BB)) B2(lt, fx::lt(A, BB)) B2(le, fx::le(A, BB)) B2(gt, fx::gt(A, BB)) B2(ge, fx::ge(A, BB))
  B2(andb, fx::andb(A, BB)) B2(andnotb, fx::andnotb(A, BB)) B2(orb, fx::orb(A, BB)) B2(xorb, fx::xorb(A, BB)) B2(notb, fx::notb(A))
  B2(andl, fx::andl(ll(a), ll(b))) B2(andnotl, fx::andnotl(ll(a), ll(b))) B2(orl, fx::orl(ll(a), ll(b))) B2(xorl, fx::xorl(ll(a), ll(b))) B2(notl, fx::notl(ll(a)))
  B2(abs, fx::abs(A)) B2(rec, fx::rec(A)) B2(sel, fx::if_else1(ll(c), A, BB)) B2(fma, fx::fma(A, BB, ld(c)))
  B2(oadd, A + BB) B2(osub, A - BB) B2(omul, A *BB) B2(odiv, A / BB)
  B2(oeq, A == BB) B2(one, A != BB) B2(olt, A < BB) B2(ole, A <= BB) B2(ogt, A > BB) B2(oge, A >= BB)
  static void set1(void *a, void *, void *, void *o) { // one lane after the other
    int L = fx::len(F());
    R t[64];
    for (int i = 0; i < L; i++) {
      st(t, fx::set1<P>(((F *)a)[i]));
      for (int j = 0; j < L; j++) if (t[j] != t[i]) t[i] = (R)(t[i] + 1);
      ((R *)o)[i] = t[i];
    }
  }
  static void copya(void *a, void *, void *, void *o) {
    R s[64] __attribute__((aligned(64))), d[66] __attribute__((aligned(64)));
    int L = fx::len(F());
    memcpy(s, a, L * sizeof(R));
    d[L] = (R)0x5a;
    fx::storea((F *)d, fx::loada<P>((F *)s));
    memcpy(o, d, L * sizeof(R));
    if (d[L] != (R)0x5a) ((R *)o)[0] ^= 1;
    R m[66] __attribute__((aligned(64)));
    m[L] = (R)0x5a;
    fx::storela(m, fx::loadla<Q>(s));
    for (int i = 0; i < L; i++) if (m[i] != (R)(s[i] != 0)) ((R *)o)[i] ^= 1;
    if (m[L] != (R)0x5a) ((R *)o)[0] ^= 1;
  }
#undef A
#undef BB
};
template <typename F> struct S {
  typedef typename F::value_type R;
  static F r(R x) { F f; f._raw = x; return f; }
#define SC(n, e) static void n(void *pa, void *pb, void *pc, void *o) { R ra = *(R *)pa, rb = *(R *)pb, rc = *(R *)pc; F a = r(ra), b = r(rb), t; (void)ra; (void)rb; (void)rc; (void)a; (void)b; (void)t; *(R *)o = (R)(e); }
  SC(add, fx::add(a, b)._raw) SC(sub, fx::sub(a, b)._raw) SC(mul, fx::mul(a, b)._raw) SC(div, fx::div(a, b)._raw)
  SC(oadd, (a + b)._raw) SC(osub, (a - b)._raw) SC(omul, (a *b)._raw) SC(odiv, (a / b)._raw)
  SC(aadd, (t = a, t += b, t)._raw) SC(asub, (t = a, t -= b, t)._raw) SC(amul, (t = a, t *= b, t)._raw) SC(adiv, (t = a, t /= b, t)._raw)
  SC(lt, fx::lt(a, b)) SC(le, fx::lte(a, b)) SC(gt, fx::gt(a, b)) SC(ge, fx::gte(a, b))
  SC(oeq, a == b) SC(one, a != b) SC(olt, a < b) SC(ole, a <= b) SC(ogt, a > b) SC(oge, a >= b)
  SC(andb, (fx::bitwise_and(a, rb)._raw == (a & rb)._raw ? (a & rb)._raw : (R)~(ra & rb))) SC(orb, (fx::bitwise_or(a, rb)._raw == (a | rb)._raw ? (a | rb)._raw : (R)~(ra | rb)))
  SC(xorb, (fx::bitwise_xor(a, rb)._raw == (a ^ rb)._raw ? (a ^ rb)._raw : (R)~(ra ^ rb))) SC(notb, (fx::bitwise_not(a)._raw == (~a)._raw ? (~a)._raw : (R)ra)) SC(nor, fx::bitwise_nor(a, rb)._raw)
  SC(abs, fx::abs(a)._raw) SC(neg, (fx::neg(a)._raw == (-a)._raw ? (-a)._raw : (R)(1 - ra)))
  SC(shl, (fx::shift_left(a, (int)rb)._raw == (a << (int)rb)._raw ? (a << (int)rb)._raw : (R)1)) SC(shr, (fx::shift_right(a, (int)rb)._raw == (a >> (int)rb)._raw ? (a >> (int)rb)._raw : (R)~(ra >> rb)))
  SC(floor, fx::floor(a)._raw) SC(ceil, fx::ceil(a)._raw) SC(isint, fx::is_int(a)) SC(sqrt, fx::sqrt(a)._raw) SC(equlp, fx::equal_ulp(a, b, (int)rc))
};
static std::vector<W> values(const Fmt &f, size_t full, int level) {
  std::vector<W> v;
  W n = f.hi - f.lo + 1;
  if (n <= (W)full) { for (W x = f.lo; x <= f.hi; x++) v.push_back(x); return v; }
  W one = (W)1 << f.rt;
  W b[] = {0, one, 2 * one, 3 * one, one / 2, f.hi, f.hi / 2, f.hi / 3, one * one, (one * 46341) >> 15, (one * 102944) >> 15, one / 3, 10 * one, f.hi - one, ((W)1 << ((f.lf + f.rt) / 2))};
  for (W x : b) for (int d = -2; d <= 2; d++) { v.push_back(x + d); v.push_back(-x + d); }
  for (int i = 0; i < f.lf + f.rt; i++) { W p = (W)1 << i; for (int d = level ? -1 : (i % 3 ? 0 : -1); d <= (level ? 1 : (i % 3 ? 0 : 1)); d++) { v.push_back(p + d); v.push_back(-p + d); } if (level) v.push_back(f.hi ^ p), v.push_back(p * 3), v.push_back(-p * 3), v.push_back(p * 5); }
  W pat[] = {(W)0x5555555555555555ll, (W)0x123456789abcdefll, (W)0x0f0f0f0f0f0f0f0fll};
  for (W x : pat) { v.push_back(x & f.hi); v.push_back(-(x & f.hi)); }
  std::vector<W> r;
  std::sort(v.begin(), v.end());
  for (W x : v) if (f.in(x) && (r.empty() || r.back() != x)) r.push_back(x);
  return r;
}
struct Tuples { std::vector<W> a, b, c; };
static Tuples pairs(const std::vector<W> &x, const std::vector<W> &y, const std::vector<W> &z) {
  Tuples t;
  for (size_t i = 0; i < x.size(); i++) for (size_t j = 0; j < y.size(); j++) for (size_t k = 0; k < z.size(); k++) { t.a.push_back(x[i]); t.b.push_back(y[j]); t.c.push_back(z[k]); }
  return t;
}
static void drive(const std::string &key, const Fmt &f, int sz, int L, int op, bool vec, Kern k, const Tuples &t) {
  size_t N = t.a.size(), M = N + 4 * 64;
  std::vector<i64> ba(M + 8), bb(M + 8), bc(M + 8);
  bool divs = op == DIV || op == ODIV || op == ADIV;
  W one = (W)1 << f.rt;
  for (size_t i = 0; i < M; i++) {
    W a = t.a[i % N], b = t.b[i % N];
    // no division by zero nor of the smallest value by -1
    if (divs && (b == 0 || model(f, op, a, b, 0).skip)) b = (a == 0 || f.lf == 1) ? f.hi : one, a = f.lf == 1 ? a / 4 : a;
    if (op == REC && a == 0) a = f.hi;
    wr(&ba[0], sz, i, a); wr(&bb[0], sz, i, b); wr(&bc[0], sz, i, t.c[i % N]);
  }
  std::vector<Exp> ex(M);
  for (size_t i = 0; i < M; i++) {
    ex[i] = model(f, op, rd(&ba[0], sz, i), rd(&bb[0], sz, i), rd(&bc[0], sz, i));
    if (i < N) { hx_states++; if (!ex[i].skip) hx_seen(hx_mix((uint64_t)ex[i].lo, (uint64_t)ex[i].hi)); }
  }
  char out[64 * 8 + 128];
  for (int s = 0; s < (vec ? L : 1); s++) {
    if (s > 2 && s != L - 1 && s != L / 2 && !(hx_tier)) continue;
    for (size_t i = s; i < N + s; i += L) {
      memset(out, 0x3c, sizeof out);
      k((char *)&ba[0] + i * sz, (char *)&bb[0] + i * sz, (char *)&bc[0] + i * sz, out + 64);
      for (int j = 0; j < L; j++) {
        W r = rd(out + 64, sz, j);
        const Exp &e = ex[i + j];
        if (!e.skip && (r < e.lo || r > e.hi))
          hx_bad(key, "raw operands %lld %lld %lld lane %d: raw result %lld, expected %lld..%lld", (long long)rd(&ba[0], sz, i + j), (long long)rd(&bb[0], sz, i + j), (long long)rd(&bc[0], sz, i + j), j, (long long)r, (long long)e.lo, (long long)e.hi);
      }
      for (int j = 0; j < 64; j++) if (out[j] != 0x3c || out[64 + L * sz + j] != 0x3c) { hx_bad(key, "wrote outside of the vector"); break; }
      hx_trans += L;
    }
    hx_traces++;
  }
}
static W round_away(long double x) { return (W)roundl(x); }
template <typename F, typename T> void from(const std::string &key, const Fmt &f, const std::vector<T> &v) {
  for (size_t i = 0; i < v.size(); i++) {
    float s = (float)v[i];
    W e = round_away((long double)s * (long double)((u64)1 << f.rt));
    long double x = (long double)s * (long double)((u64)1 << f.rt);
    if (!(x >= (long double)f.lo && x <= (long double)f.hi) || !f.in(e)) continue;
    F r(v[i]);
    hx_states++; hx_trans++;
    if ((W)r._raw != e) hx_bad(key, "%s value %.17Lg converts to raw %lld, expected %lld", sizeof(T) == 8 ? "64-bit" : "", (long double)v[i], (long long)r._raw, (long long)e);
  }
  hx_traces++;
}
template <int lf, int rt> void fmt() {
  typedef fx::fp_t<lf, rt> F;
  typedef typename F::value_type R;
  Fmt f = {lf, rt, -((W)1 << (lf + rt - 1)), ((W)1 << (lf + rt - 1)) - 1};
  char nm[64];
  sprintf(nm, "%s:fp<%d,%d>:", STR(NSIMD_SIMD), lf, rt);
  const int sz = sizeof(R);
  int need = lf + 2 * rt;
  std::string key = std::string(nm) + "layout";
  if (hx_case(key)) {
    int want = need <= 8 ? 1 : need <= 16 ? 2 : need <= 32 ? 4 : 8;
    if (sz != want || sizeof(F) != sz || (R)-1 > 0 || fx::len(F()) != (int)nsimd::len(R()) || fx::len(fx::pack<F>()) != fx::len(F()) || fx::left(F()) != lf || fx::right(F()) != rt) hx_bad(key, "storage of %d bytes, %d lanes", sz, fx::len(F()));
    hx_states++; hx_traces++; hx_trans++;
  }
  int L = (int)nsimd::len(R());
  std::vector<W> all = values(f, hx_tier ? 65536 : 4096, hx_tier), v = values(f, hx_tier ? 1024 : 256, hx_tier), sm, z(1, (W)0);
  size_t cap = hx_tier ? 64 : 24;
  if (v.size() <= cap) sm = v;
  else {
    std::vector<W> bnd;
    W one = (W)1 << rt;
    W b[] = {f.lo, f.hi, 0, 1, -1, one, -one, one + 1, one - 1, 2 * one, one / 2, -one / 2, f.hi / 2, f.lo / 2, 3, -3};
    for (W x : b) if (f.in(x)) sm.push_back(x);
    for (size_t i = 0; sm.size() < cap; i++) sm.push_back(v[(i * 7919 + 3) % v.size()]);
    std::sort(sm.begin(), sm.end());
    sm.erase(std::unique(sm.begin(), sm.end()), sm.end());
  }
  std::vector<W> m2; m2.push_back(0); m2.push_back(1); m2.push_back(f.lo); if (f.in(4)) m2.push_back(2);
  std::vector<W> sh; for (int i = 0; i < 8 * sz && i < lf + rt; i++) sh.push_back(i);
  std::vector<W> ul; { W u[] = {0, 1, 2, 3, 5, (W)1 << (rt < 30 ? rt : 30), 100, 0x7fffffff}; for (W x : u) if (x <= (((W)1 << (8 * sz - 1)) - 1)) ul.push_back(x); }
  Tuples one = pairs(all, z, z), two = pairs(v, v, z), three = pairs(sm, sm, sm), sel = pairs(sm, sm, m2), shf = pairs(v, sh, z), ulp = pairs(v, sm, ul);
  // all values against a small set on each side
  if (all.size() > v.size()) { Tuples x = pairs(all, sm, z), y = pairs(sm, all, z); two.a.insert(two.a.end(), x.a.begin(), x.a.end()); two.a.insert(two.a.end(), y.a.begin(), y.a.end()); two.b.insert(two.b.end(), x.b.begin(), x.b.end()); two.b.insert(two.b.end(), y.b.begin(), y.b.end()); two.c.resize(two.a.size()); }
#define RUN(form, vec, LL, op, kern, tup) { std::string kk = std::string(nm) + form + ":" + opname[op]; if (hx_case(kk)) drive(kk, f, sz, LL, op, vec, kern, tup); }
#define VK(op, k, tup) RUN("pack", true, L, op, V<F>::k, tup)
#define SK(op, k, tup) RUN("scalar", false, 1, op, S<F>::k, tup)
#ifndef SCALARS_ONLY
  VK(ADD, add, two) VK(SUB, sub, two) VK(MUL, mul, two) VK(DIV, div, two) VK(MIN, min, two) VK(MAX, max, two)
  VK(EQ, eq, two) VK(NE, ne, two) VK(LT, lt, two) VK(LE, le, two) VK(GT, gt, two) VK(GE, ge, two)
  VK(ANDB, andb, two) VK(ANDNOTB, andnotb, two) VK(ORB, orb, two) VK(XORB, xorb, two) VK(NOTB, notb, one)
  VK(ANDL, andl, two) VK(ANDNOTL, andnotl, two) VK(ORL, orl, two) VK(XORL, xorl, two) VK(NOTL, notl, one)
  VK(ABS, abs, one) VK(REC, rec, one) VK(SET1, set1, one) VK(SEL, sel, sel) VK(FMAD, fma, three) VK(COPYA, copya, one)
  VK(OADD, oadd, two) VK(OSUB, osub, two) VK(OMUL, omul, two) VK(ODIV, odiv, two)
  VK(OEQ, oeq, two) VK(ONE, one, two) VK(OLT, olt, two) VK(OLE, ole, two) VK(OGT, ogt, two) VK(OGE, oge, two)
#endif
#ifdef WITH_SCALARS
  SK(ADD, add, two) SK(SUB, sub, two) SK(MUL, mul, two) SK(DIV, div, two) SK(OADD, oadd, two) SK(OSUB, osub, two) SK(OMUL, omul, two) SK(ODIV, odiv, two)
  SK(AADD, aadd, two) SK(ASUB, asub, two) SK(AMUL, amul, two) SK(ADIV, adiv, two)
  SK(LT, lt, two) SK(LE, le, two) SK(GT, gt, two) SK(GE, ge, two) SK(OEQ, oeq, two) SK(ONE, one, two) SK(OLT, olt, two) SK(OLE, ole, two) SK(OGT, ogt, two) SK(OGE, oge, two)
  SK(ANDB, andb, two) SK(ORB, orb, two) SK(XORB, xorb, two) SK(NOTB, notb, one) SK(NOR, nor, two) SK(NEG, neg, one)
  if (lf >= 2) SK(ABS, abs, one) // abs multiplies by -1
  SK(SHL, shl, shf) SK(SHR, shr, shf) SK(FLOOR, floor, one) SK(CEIL, ceil, one) SK(ISINT, isint, one) SK(SQRT, sqrt, one) SK(EQULP, equlp, ulp)
  key = std::string(nm) + "scalar:to_float";
  if (hx_case(key)) {
    for (size_t i = 0; i < all.size(); i++) {
      F x = S<F>::r((R)all[i]);
      float w = (float)((float)(i64)all[i] / (float)((u64)1 << rt));
      double wd = w;
      if ((float)x != w || (double)x != wd) hx_bad(key, "raw %lld converts to %.9g, expected %.9g", (long long)all[i], (double)(float)x, wd);
      if (w > -9e18f && w < 9e18f && (i64)x != (i64)w) hx_bad(key, "raw %lld converts to integer %lld, expected %lld", (long long)all[i], (long long)(i64)x, (long long)w);
      if (w > -2e9f && w < 2e9f && (int)x != (int)w) hx_bad(key, "raw %lld converts to int %d, expected %d", (long long)all[i], (int)x, (int)w);
      F back(w);
      W d = (W)back._raw - all[i];
      if (lf + rt <= 24 && d != 0) hx_bad(key, "raw %lld -> float -> raw %lld", (long long)all[i], (long long)back._raw);
      hx_states++; hx_trans += 4;
    }
    hx_traces++;
  }
  key = std::string(nm) + "scalar:from_float";
  if (hx_case(key)) {
    std::vector<float> a; std::vector<double> d; std::vector<int> n; std::vector<i64> q; std::vector<short> h;
    double u = std::ldexp(1.0, -rt);
    for (size_t i = 0; i < all.size(); i++) {
      double r = (double)(i64)all[i];
      double fr[] = {0, .5, -.5, .25, .75, .4990234375, .5009765625, -.25};
      for (double e : fr) { a.push_back((float)((r + e) * u)); d.push_back((r + e) * u); float t = (float)((r + e) * u); a.push_back(std::nextafter(t, 1e30f)); a.push_back(std::nextafter(t, -1e30f)); }
      n.push_back((int)(r * u)); n.push_back((int)all[i]); q.push_back((i64)(r * u)); q.push_back((i64)all[i]); h.push_back((short)(r * u));
    }
    from<F, float>(key, f, a); from<F, double>(key, f, d); from<F, int>(key, f, n); from<F, i64>(key, f, q); from<F, short>(key, f, h);
  }
  // mixed operands: the plain number is converted first
  key = std::string(nm) + "scalar:mixed";
  if (hx_case(key)) {
    std::vector<float> xs;
    for (size_t i = 0; i < sm.size(); i++) xs.push_back((float)std::ldexp((double)(i64)sm[i], -rt));
    for (size_t i = 0; i < v.size(); i++) for (size_t j = 0; j < xs.size(); j++) {
      F a = S<F>::r((R)v[i]), b(xs[j]);
      float x = xs[j];
      if (std::ldexp((double)x, rt) < (double)f.lo || std::ldexp((double)x, rt) > (double)f.hi) continue;
      hx_states++; hx_trans += 24;
#define MX(e1, e2) if ((e1) != (e2)) hx_bad(key, "raw %lld with %.9g: " #e1 " differs from " #e2, (long long)v[i], (double)x);
#define MR(e1, e2) MX((e1)._raw, (e2)._raw)
      MR(a + x, a + b) MR(x + a, b + a) MR(fx::add(a, x), a + b) MR(fx::add(x, a), b + a) MR(a - x, a - b) MR(x - a, b - a) MR(fx::sub(a, x), a - b) MR(fx::sub(x, a), b - a) MR(a * x, a * b) MR(x * a, a * b) MR(fx::mul(a, x), a * b) MR(fx::mul(x, a), a * b)
      if (b._raw != 0 && !model(f, DIV, v[i], b._raw, 0).skip) { MR(a / x, a / b) MR(fx::div(a, x), a / b) }
      if (a._raw != 0 && !model(f, DIV, b._raw, v[i], 0).skip) { MR(x / a, b / a) MR(fx::div(x, a), b / a) }
      MX(a < x, a < b) MX(x < a, b < a) MX(a <= x, a <= b) MX(x <= a, b <= a) MX(a > x, a > b) MX(x > a, b > a) MX(a >= x, a >= b) MX(x >= a, b >= a)
    }
    hx_traces++;
  }
#endif
}
int main(int argc, char **argv) {
  hx_init(argc, argv);
#define FMT(lf, rt) fmt<lf, rt>();
  FORMATS
  return hx_done();
}
