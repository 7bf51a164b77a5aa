// Output functions: every lane of every vector type printed in order, the
// returned length, and a write failure at every single byte.
#include <nsimd/nsimd-all.hpp>
#include "hx.h"
#include <cmath>
#include <errno.h>
#include <limits>
#include <nsimd/modules/fixed_point.hpp>
#include <sstream>
#define STR_(x) #x
#define STR(x) STR_(x)
// ---- a stream that accepts a limited number of bytes --------------------------
struct Sink { std::string s; long room; bool once; };
static ssize_t snk(void *c, const char *b, size_t n) {
  Sink *k = (Sink *)c;
  if (k->once && k->room == 0) { k->room = -1; errno = EAGAIN; return 0; } // refuses one write, then goes on
  if (k->room >= 0 && (long)n > k->room) n = (size_t)k->room;
  k->s.append(b, n);
  if (k->room >= 0) k->room -= (long)n;
  if (!n) errno = ENOSPC;
  return (ssize_t)n;
}
static FILE *open_sink(Sink &k, int buf) {
  cookie_io_functions_t f = {0, snk, 0, 0};
  FILE *o = fopencookie(&k, "w", f);
  if (!o) abort();
  if (buf == 0) setvbuf(o, 0, _IONBF, 0);
  if (buf == 1) setvbuf(o, 0, _IOFBF, 7);
  if (buf == 2) setvbuf(o, 0, _IOFBF, 65536);
  return o;
}
template <typename T> struct Ty;
#define TY(T, P, D, F1, F2, F3) template <> struct Ty<T> { typedef P V; static const char *name() { return #T; } static const char *const *fmt() { static const char *const f[] = {D, F1, F2, F3, "x", "", "100%%"}; return f; } };
TY(i8, int, "%d", "%4d", "<%x>", "%+d")
TY(u8, int, "%d", "%4d", "<%x>", "%+d")
TY(i16, int, "%d", "%8d", "<%x>", "%+d")
TY(u16, int, "%d", "%8d", "<%x>", "%+d")
TY(i32, int, "%d", "%12d", "<%x>", "%+d")
TY(u32, unsigned, "%u", "%12u", "<%x>", "%o")
TY(i64, long long, "%lld", "%22lld", "<%llx>", "%+lld")
TY(u64, unsigned long long, "%llu", "%22llu", "<%llx>", "%llo")
TY(f16, double, "%e", "%.3f", "<%a>", "%g")
TY(f32, double, "%e", "%.3f", "<%a>", "%g")
TY(f64, double, "%e", "%.3f", "<%a>", "%g")
template <typename T> double real(T t) { return (double)t; }
static double real(f16 t) { uint16_t u; _Float16 h; memcpy(&u, &t, 2); memcpy(&h, &u, 2); return (double)h; }
template <typename T, typename V> V val(T t) { return (V)t; }
template <> double val<f16, double>(f16 t) { return real(t); }
template <typename T> T mk(double d) { return (T)d; }
template <> f16 mk<f16>(double) { return f16(); }
template <typename T> bool t_nan(T) { return false; }
static bool t_nan(float f) { return f != f; }
static bool t_nan(double f) { return f != f; }
template <typename T> std::vector<T> values() {
  std::vector<unsigned long long> w;
  int b = (int)sizeof(T) * 8;
  for (int i = 0; i < b; i++) { w.push_back(1ull << i); w.push_back((1ull << i) - 1); w.push_back(~(1ull << i)); w.push_back(0x5555555555555555ull >> i); }
  w.push_back(0); w.push_back(~0ull);
  std::vector<T> r;
  for (unsigned long long x : w) {
    // sign and payload of a NaN may change when it is widened
    if (!std::numeric_limits<T>::is_specialized && (x & 0x7c00) == 0x7c00) x &= 0xfc00;
    T t;
    memcpy(&t, &x, sizeof t);
    if (t_nan(t)) t = mk<T>(INFINITY);
    r.push_back(t);
  }
  return r;
}
template <typename T> struct Call {
  typedef typename nsimd::simd_traits<T, nsimd::NSIMD_SIMD>::simd_vector VT;
  typedef typename nsimd::simd_traits<T, nsimd::NSIMD_SIMD>::simd_vectorl LT;
  // api: 0 C++ with extension, 1 C++ with the default extension, 2 C macro,
  // 3 logicals
  static int go(int api, FILE *o, const char *f, const T *p);
};
#define CALL(T) template <> int Call<T>::go(int api, FILE *o, const char *f, const T *p) { \
  if (api == 0) return nsimd::put(o, f, nsimd::loadu(p, T()), T(), nsimd::NSIMD_SIMD()); \
  if (api == 1) return nsimd::put(o, f, nsimd::loadu(p, T()), T()); \
  if (api == 2) return vput(o, f, nsimd::loadu(p, T()), T); \
  return nsimd::putl(o, f, nsimd::loadlu(p, T()), T(), nsimd::NSIMD_SIMD()); }
CALL(i8) CALL(u8) CALL(i16) CALL(u16) CALL(i32) CALL(u32) CALL(i64) CALL(u64) CALL(f16) CALL(f32) CALL(f64)
// ---- C++ streams ------------------------------------------------------------
struct SBuf : std::streambuf {
  std::string s; long room;
  int overflow(int c) { if (room == 0) return EOF; if (room > 0) room--; s.push_back((char)c); return c == EOF ? 0 : c; }
};
template <typename P> void stream(const std::string &key, const P &p, const std::string &want, bool fault) {
  SBuf b; b.room = -1;
  std::ostream o(&b);
  o << p;
  hx_states++; hx_traces++;
  if (b.s != want || !o) hx_bad(key, "stream shows '%s' instead of '%s'", b.s.c_str(), want.c_str());
  if (fault) for (long room = 0; room < (long)want.size(); room++) {
    SBuf c; c.room = room;
    std::ostream q(&c);
    q << p;
    hx_states++; hx_traces++;
    if (q) hx_bad(key, "a stream failing after %ld bytes is left in good state", room);
    if (want.compare(0, c.s.size(), c.s)) hx_bad(key, "a stream failing after %ld bytes shows '%s'", room, c.s.c_str());
  }
}
template <typename T> std::string show(T t) {
  std::ostringstream o;
  typedef typename Ty<T>::V V;
  o << val<T, V>(t);
  return o.str();
}
template <> std::string show<u32>(u32 t) { std::ostringstream o; o << (unsigned long long)t; return o.str(); }
template <typename T, int N> void packs() {
  std::string kp = std::string(STR(NSIMD_SIMD)) + ":ostream-pack" + std::to_string(N) + ":" + Ty<T>::name(), kl = std::string(STR(NSIMD_SIMD)) + ":ostream-packl" + std::to_string(N) + ":" + Ty<T>::name();
  int l = nsimd::len(T());
  std::vector<T> v = values<T>();
  for (int log = 0; log < 2; log++) {
    const std::string &key = log ? kl : kp;
    if (!hx_case(key)) continue;
    for (size_t s = 0; s < v.size(); s++) {
      T p[64 * N];
      std::string want;
      for (int i = 0; i < l * N; i++) {
        p[i] = v[(s + (size_t)i) % v.size()];
        unsigned long long bits = 0;
        memcpy(&bits, &p[i], sizeof(T));
        bool on = std::numeric_limits<typename Ty<T>::V>::is_integer ? bits != 0 : real(p[i]) != 0;
        want += std::string(i % l ? ", " : i ? " }, { " : "{ ") + (log ? on ? "1" : "0" : show(p[i]));
      }
      want += " }";
      hx_seen(std::hash<std::string>()(want));
      if (log) stream(key, nsimd::loadlu<nsimd::packl<T, N> >(p), want, s % 32 == 0);
      else stream(key, nsimd::loadu<nsimd::pack<T, N> >(p), want, s % 32 == 0);
      hx_trans += l * N;
    }
  }
}
// fixed-point numbers: every raw value in every lane
template <int LF, int RT> void fixed() {
  typedef nsimd::fixed_point::fp_t<LF, RT> F;
  std::string k = std::string(STR(NSIMD_SIMD)) + ":ostream-fixed" + std::to_string(LF) + "." + std::to_string(RT) + ":-";
  if (!hx_case(k)) return;
  int l = nsimd::fixed_point::len(nsimd::fixed_point::pack<F>());
  int lo = -(1 << (LF + RT - 1)), n = 1 << (LF + RT);
  for (int s = 0; s < n; s++) {
    F p[64];
    std::string want;
    for (int i = 0; i < l; i++) {
      int raw = lo + (s + i * 3) % n;
      p[i]._raw = (typename F::value_type)raw;
      std::ostringstream o;
      o << (float)raw / (float)(1 << RT);
      if (!i) stream(k, p[i], o.str(), s % 64 == 0);
      want += (i ? ", " : "{ ") + o.str();
    }
    want += " }";
    nsimd::fixed_point::pack<F> q = nsimd::fixed_point::loadu<nsimd::fixed_point::pack<F> >(p);
    std::ostringstream o;
    o << q;
    hx_states++; hx_traces++; hx_trans += l;
    if (o.str() != want) hx_bad(k, "pack shows '%s' instead of '%s'", o.str().c_str(), want.c_str());
  }
}
template <typename T> void check() {
  packs<T, 1>(); packs<T, 2>(); packs<T, 3>();
  typedef typename Ty<T>::V V;
  static const char *const an[] = {"put", "put-default", "vput", "putl"};
  int l = nsimd::len(T());
  std::vector<T> v = values<T>();
  T one = nsimd::to<T>(1), zero = nsimd::to<T>(0);
  for (int api = 0; api < 4; api++) {
    std::string key = std::string(STR(NSIMD_SIMD)) + ":" + an[api] + ":" + Ty<T>::name();
    if (!hx_case(key)) continue;
    for (int fi = -1; fi < 7; fi++) {
      const char *fmt = fi < 0 ? 0 : Ty<T>::fmt()[fi], *rf = fi < 0 ? Ty<T>::fmt()[0] : fmt;
      // every value in every lane with the default format, windows otherwise
      for (size_t s = 0; s < v.size(); s += fi <= 0 ? 1 : 5) {
        T p[64], q[64];
        std::string want = "{ ";
        for (int i = 0; i < l; i++) {
          p[i] = v[(s + (size_t)i) % v.size()];
          unsigned long long bits = 0;
          memcpy(&bits, &p[i], sizeof(T));
          bool on = std::numeric_limits<V>::is_integer ? bits != 0 : real(p[i]) != 0;
          T e = api == 3 ? (on ? one : zero) : p[i];
          char b[512];
          snprintf(b, sizeof b, rf, val<T, V>(e));
          if (i) want += ", ";
          want += b;
        }
        want += " }";
        memcpy(q, p, sizeof(T) * l);
        hx_seen(std::hash<std::string>()(want));
        for (int buf = 0; buf < 3; buf++) {
          Sink k; k.room = -1; k.once = false;
          FILE *o = open_sink(k, buf);
          int r = Call<T>::go(api, o, fmt, p);
          fclose(o);
          hx_states++; hx_trans += l; hx_traces++;
          if (r != (int)want.size()) hx_bad(key, "format '%s' buffering %d: returns %d, the text has %zu characters", rf, buf, r, want.size());
          if (k.s != want) hx_bad(key, "format '%s' buffering %d: printed '%s' instead of '%s'", rf, buf, k.s.c_str(), want.c_str());
          if (memcmp(p, q, sizeof(T) * l)) hx_bad(key, "the operand was changed");
        }
        // a failure at every byte (unbuffered: noticed at once)
        if (s % (fi < 0 ? 16 : 40) && !hx_tier) continue;
        for (long room = 0; room < (long)want.size(); room++) {
          Sink k; k.room = room; k.once = false;
          FILE *o = open_sink(k, 0);
          int r = Call<T>::go(api, o, fmt, p);
          fclose(o);
          hx_states++; hx_trans++; hx_traces++;
          if (r >= 0) hx_bad(key, "format '%s': the stream fails after %ld of %zu bytes but %d is returned", rf, room, want.size(), r);
          if (k.s.size() > (size_t)room || want.compare(0, k.s.size(), k.s)) hx_bad(key, "format '%s', stream failing after %ld bytes: wrote '%s'", rf, room, k.s.c_str());
        }
        // a stream that refuses one write and then works again: when the
        // failure was noticed before the return, the return reports it
        for (long room = 0; room < (long)want.size(); room++) {
          Sink k; k.room = room; k.once = true;
          FILE *o = open_sink(k, 0);
          int r = Call<T>::go(api, o, fmt, p);
          bool err = ferror(o) != 0;
          fclose(o);
          hx_states++; hx_trans++; hx_traces++;
          if (err && r >= 0) hx_bad(key, "format '%s': the write at byte %ld of %zu is refused once but %d is returned", rf, room, want.size(), r);
        }
      }
    }
    FILE *ro = fopen("/dev/null", "r");
    if (ro) { T p[64]; for (int i = 0; i < l; i++) p[i] = one; int r = Call<T>::go(api, ro, 0, p); if (r >= 0) hx_bad(key, "returns %d on a stream that cannot be written", r); fclose(ro); hx_states++; hx_traces++; }
  }
  printf("SAMPLE %s: %d lanes, %zu values in every lane, write failure at every byte\n", Ty<T>::name(), l, v.size());
}
int main(int argc, char **argv) {
  hx_init(argc, argv);
  if (!hx_limit) hx_limit = 200;
  check<i8>(); check<u8>(); check<i16>(); check<u16>(); check<i32>(); check<u32>(); check<i64>(); check<u64>(); check<f16>(); check<f32>(); check<f64>();
  fixed<4, 2>(); fixed<3, 5>(); fixed<8, 1>();
  return hx_done();
}
